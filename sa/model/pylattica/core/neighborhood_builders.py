from typing import Dict, List, Tuple
import numpy as np
import rustworkx as rx
from tqdm import tqdm
from abc import abstractmethod
from .constants import LOCATION, SITE_ID
from .distance_map import EuclideanDistanceMap
from .neighborhoods import Neighborhood, StochasticNeighborhood, SiteClassNeighborhood
from .periodic_structure import PeriodicStructure
from .lattice import pbc_diff_cart

class NeighborhoodBuilder:

    def get(self, struct: PeriodicStructure, site_class: str=None) -> Neighborhood:
        graph = rx.PyDiGraph()
        if site_class is None:
            sites = struct.sites()
        else:
            sites = struct.sites(site_class=site_class)
        for site in struct.sites():
            graph.add_node(site[SITE_ID])
        for curr_site in tqdm(sites):
            nbs = self.get_neighbors(curr_site, struct)
            for nb_id, weight in nbs:
                graph.add_edge(curr_site[SITE_ID], nb_id, weight)
        return Neighborhood(graph)

    @abstractmethod
    def get_neighbors(self, curr_site: Dict, struct: PeriodicStructure) -> List[Tuple]:
        pass

class StochasticNeighborhoodBuilder(NeighborhoodBuilder):

    def __init__(self, builders: List[NeighborhoodBuilder]):
        self.builders = builders

    def get(self, struct: PeriodicStructure, site_class: str=None) -> Neighborhood:
        return StochasticNeighborhood([b.get(struct, site_class=site_class) for b in self.builders])

class DistanceNeighborhoodBuilder(NeighborhoodBuilder):

    def __init__(self, cutoff: float):
        self.cutoff = cutoff

    def get_neighbors(self, curr_site: Dict, struct: PeriodicStructure) -> List[Tuple]:
        nbs = []
        curr_loc = curr_site[LOCATION]
        curr_id = curr_site[SITE_ID]
        for other_site in struct.sites():
            other_id = other_site[SITE_ID]
            if curr_id != other_id:
                dist = struct.lattice.cartesian_periodic_distance(other_site[LOCATION], curr_loc)
                if dist < self.cutoff:
                    nbs.append((other_id, dist))
        return nbs

class AnnularNeighborhoodBuilder(NeighborhoodBuilder):

    def __init__(self, inner_radius: float, outer_radius: float):
        self.inner_radius = inner_radius
        self.outer_radius = outer_radius

    def get_neighbors(self, curr_site: Dict, struct: PeriodicStructure) -> List[Tuple]:
        nbs = []
        for other_site in struct.sites():
            if curr_site[SITE_ID] != other_site[SITE_ID]:
                dist = pbc_diff_cart(np.array(other_site[LOCATION]), np.array(curr_site[LOCATION]), struct.lattice)
                if self.inner_radius < dist < self.outer_radius:
                    nbs.append((other_site[SITE_ID], dist))
        return nbs

class MotifNeighborhoodBuilder(NeighborhoodBuilder):

    def __init__(self, motif: List[List[float]]):
        self._motif = motif
        self.distances = EuclideanDistanceMap(motif)

    def get_neighbors(self, curr_site: Dict, struct: PeriodicStructure) -> List[Tuple]:
        location = curr_site[LOCATION]
        nbs = []
        for neighbor_vec in self._motif:
            loc = tuple((s + n for s, n in zip(location, neighbor_vec)))
            nb_id = struct.id_at(loc)
            if nb_id is not None and nb_id != curr_site[SITE_ID]:
                nbs.append((nb_id, self.distances.get_dist(neighbor_vec)))
        return nbs

class SiteClassNeighborhoodBuilder(NeighborhoodBuilder):

    def __init__(self, nb_builders: Dict[str, NeighborhoodBuilder]):
        self._builders = nb_builders

    def get(self, struct: PeriodicStructure, site_class: str=None) -> Neighborhood:
        nbhood_map = {}
        for sclass, builder in self._builders.items():
            if site_class is None or sclass == site_class:
                nbhood = builder.get(struct, site_class=sclass)
                nbhood_map[sclass] = nbhood
        return SiteClassNeighborhood(struct, nbhood_map)
