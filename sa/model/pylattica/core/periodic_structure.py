from typing import Dict, Iterable, List, Tuple, Union
import numpy as np
from .coordinate_utils import get_points_in_box
from .lattice import Lattice
from .constants import LOCATION, SITE_CLASS, SITE_ID, OFFSET_PRECISION
import copy
VEC_OFFSET = 0.001
DEFAULT_SITE_CLASS = 'A'

class PeriodicStructure:

    @classmethod
    def build_from(_, lattice: Lattice, num_cells: List[int], site_motif: Union[Dict, List], frac_coords: bool=False):
        new_lattice = lattice.get_scaled_lattice(num_cells)
        struct = PeriodicStructure(new_lattice)
        if not isinstance(site_motif, dict):
            site_motif = {DEFAULT_SITE_CLASS: site_motif}
        vec_coeffs = get_points_in_box([0 for _ in range(new_lattice.dim)], num_cells)
        for vec_coeff_set in vec_coeffs:
            if not frac_coords:
                point = lattice.get_cartesian_coords(vec_coeff_set)
            else:
                point = np.array(vec_coeff_set)
            for site_class, basis_vecs in site_motif.items():
                for vec in basis_vecs:
                    site_loc = tuple(point + np.array(vec))
                    if frac_coords:
                        site_loc = lattice.get_cartesian_coords(site_loc)
                    struct.add_site(site_class, site_loc)
        return struct

    def __init__(self, lattice: Lattice):
        self.lattice = lattice
        self.dim = lattice.dim
        self._sites = {}
        self.site_ids = []
        self._location_lookup = {}
        self._offset_vector = np.array([VEC_OFFSET for _ in range(self.dim)])

    def as_dict(self):
        copied = copy.deepcopy(self._sites)
        for _, site in copied.items():
            site[LOCATION] = site[LOCATION].tolist()
        return {'lattice': self.lattice.as_dict(), '_sites': copied}

    @classmethod
    def from_dict(cls, d):
        struct = cls(Lattice.from_dict(d['lattice']))
        sites = {int(k): v for k, v in d['_sites'].items()}
        for _, site in sorted(sites.items()):
            struct.add_site(site[SITE_CLASS], site[LOCATION])
        return struct

    def _get_rounded_coords(self, location: Iterable[float]) -> Iterable[float]:
        return np.round(location, OFFSET_PRECISION)

    def _transformed_coords(self, location: Iterable[float]) -> Iterable[float]:
        offset_periodized_coords = self.lattice.get_periodized_cartesian_coords(location + self._offset_vector)
        return self._get_rounded_coords(offset_periodized_coords)

    def add_site(self, site_class: str, location: Tuple[float]) -> int:
        new_site_id = len(self._sites)
        periodized_coords = self._get_rounded_coords(self.lattice.get_periodized_cartesian_coords(location))
        offset_periodized_coords = tuple(self._transformed_coords(location))
        assert self._location_lookup.get(offset_periodized_coords, None) is None, 'That site is already occupied'
        self._sites[new_site_id] = {SITE_CLASS: site_class, LOCATION: periodized_coords, SITE_ID: new_site_id}
        self._location_lookup[offset_periodized_coords] = new_site_id
        self.site_ids.append(new_site_id)
        return new_site_id

    def site_at(self, location: Tuple[float]) -> Dict:
        _transformed_coords = tuple(self._transformed_coords(location))
        site_id = self._location_lookup.get(_transformed_coords)
        if site_id is not None:
            return self.get_site(site_id)
        else:
            return None

    def id_at(self, location: Tuple[float]) -> Dict:
        site = self.site_at(location)
        if site is None:
            return None
        else:
            return site[SITE_ID]

    def class_at(self, location: Tuple[float]) -> Dict:
        site = self.site_at(location)
        if site is None:
            return None
        else:
            return site[SITE_CLASS]

    def site_class(self, site_id: int) -> str:
        return self.get_site(site_id)[SITE_CLASS]

    def site_location(self, site_id: int) -> str:
        return self.get_site(site_id)[LOCATION]

    def get_site(self, site_id: int) -> Dict:
        return self._sites.get(site_id)

    def all_site_classes(self) -> List[str]:
        return list({site[SITE_CLASS] for site in self.sites()})

    def sites(self, site_class: str=None) -> List[Dict]:
        all_sites = list(self._sites.values())
        if site_class is None:
            return all_sites
        return [site for site in all_sites if site[SITE_CLASS] == site_class]
