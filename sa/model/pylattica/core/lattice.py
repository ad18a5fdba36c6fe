from __future__ import annotations
from typing import List, Tuple, Union
import numpy as np
from numpy.typing import ArrayLike
from .constants import OFFSET_PRECISION
import math

def periodize(frac_coords, periodic: Union[Tuple[bool], bool]=True):
    if not isinstance(periodic, tuple):
        periodic = [periodic for _ in frac_coords]
    return frac_coords - np.floor(frac_coords) * np.array(periodic, dtype=int)

def pbc_diff_frac_vec(fcoords1: ArrayLike, fcoords2: ArrayLike, periodic):
    fdist = np.subtract(fcoords1, fcoords2)
    return fdist - np.round(fdist) * periodic

def pbc_diff_cart(cart_coords1: ArrayLike, cart_coords2: ArrayLike, lattice: Lattice):
    fcoords1 = lattice.get_fractional_coords(cart_coords1)
    fcoords2 = lattice.get_fractional_coords(cart_coords2)
    frac_dist = pbc_diff_frac_vec(fcoords1, fcoords2, lattice.periodic)
    return np.round(np.linalg.norm(lattice.get_cartesian_coords(frac_dist)), OFFSET_PRECISION)

class Lattice:

    @classmethod
    def from_dict(cls, d):
        return cls(d['vectors'], d['periodic'])

    def __init__(self, vecs: List[Tuple[float]], periodic=True):
        self.vecs = np.array(vecs)
        if not isinstance(periodic, tuple) and (not isinstance(periodic, list)):
            self.periodic = tuple((periodic for _ in vecs))
        else:
            self.periodic = tuple(periodic)
        self._periodic_bool = np.array(periodic, dtype=int)
        dim = int(math.sqrt(len(np.array(self.vecs).flatten())))
        mat = np.array(self.vecs, dtype=np.float64).reshape((dim, dim))
        mat.setflags(write=False)
        self._matrix: np.ndarray = mat
        self._inv_matrix: np.ndarray | None = None
        self.dim = len(vecs[0])
        self.vec_lengths = [np.linalg.norm(np.array(vec)) for vec in vecs]
        assert len(list(set((len(v) for v in vecs)))) == 1, 'Lattice instantiated with vectors of unequal dimension'

    def as_dict(self):
        return {'vectors': self.vecs.tolist(), 'periodic': self.periodic}

    @property
    def matrix(self) -> np.ndarray:
        return self._matrix

    @property
    def inv_matrix(self) -> np.ndarray:
        if self._inv_matrix is None:
            self._inv_matrix = np.linalg.inv(self._matrix)
            self._inv_matrix.setflags(write=False)
        return self._inv_matrix

    def get_cartesian_coords(self, fractional_coords: ArrayLike) -> np.ndarray:
        return np.dot(fractional_coords, self._matrix)

    def get_fractional_coords(self, cart_coords: ArrayLike) -> np.ndarray:
        return np.dot(cart_coords, self.inv_matrix)

    def get_periodized_cartesian_coords(self, cart_coords: ArrayLike) -> np.ndarray:
        frac = self.get_fractional_coords(cart_coords)
        return self.get_cartesian_coords(periodize(frac, self.periodic))

    def get_scaled_lattice(self, num_cells: ArrayLike) -> Lattice:
        return Lattice(np.array([v * amt for amt, v in zip(num_cells, self.vecs)]), self.periodic)

    def cartesian_periodic_distance(self, loc1: ArrayLike, loc2: ArrayLike) -> float:
        return pbc_diff_cart(loc1, loc2, self)
