from numbers import Number
from typing import List, Tuple, Dict
import numpy as np

def distance(arr1: np.array, arr2: np.array) -> float:
    return np.sqrt(np.square(arr1 - arr2).sum())

class DistanceMap:

    def __init__(self, relative_neighbor_locs: List[Tuple]):
        self.distances: np.array = self._find_distances(relative_neighbor_locs)

    def _find_distances(self, relative_neighbor_locs: List[Tuple]) -> Dict[Tuple, float]:
        distances = {}
        for loc in relative_neighbor_locs:
            distances[loc] = self._distance(np.zeros(len(loc)), np.array(loc))
        return distances

    def get_dist(self, relative_loc: Tuple[Number]) -> float:
        return self.distances.get(relative_loc)

class EuclideanDistanceMap(DistanceMap):

    def _distance(self, p1, p2):
        return round(distance(p1, p2), 2)

class ManhattanDistanceMap(DistanceMap):

    def _distance(self, p1, p2):
        return np.abs(p1 - p2).sum()
