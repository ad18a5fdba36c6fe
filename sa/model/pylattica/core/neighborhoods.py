import random
from abc import ABC, abstractmethod
from typing import List, Dict
import rustworkx as rx
from .periodic_structure import PeriodicStructure

class AbstractNeighborhood(ABC):

    @abstractmethod
    def neighbors_of(self, site_id: int, include_weights: bool=False) -> List[int]:
        pass

class Neighborhood(AbstractNeighborhood):

    def __init__(self, graph: rx.PyGraph):
        self._graph = graph

    def neighbors_of(self, site_id: int, include_weights: bool=False) -> List[int]:
        nbs = self._graph.neighbors(site_id)
        if include_weights:
            weighted_nbs = [(nb_id, self._graph.get_edge_data(site_id, nb_id)) for nb_id in nbs]
            return weighted_nbs
        return list(nbs)

class MultiNeighborhood(AbstractNeighborhood):

    def neighbors_of(self, site_id, include_weights: bool=False) -> List[int]:
        selected_neighborhood = self._get_nbhood(site_id)
        if selected_neighborhood is None:
            return []
        else:
            return selected_neighborhood.neighbors_of(site_id, include_weights=include_weights)

class StochasticNeighborhood(MultiNeighborhood):

    def __init__(self, neighborhoods: List[Neighborhood]):
        self._neighborhoods = neighborhoods

    def _get_nbhood(self, _) -> List[int]:
        return random.choice(self._neighborhoods)

class SiteClassNeighborhood(MultiNeighborhood):

    def __init__(self, structure: PeriodicStructure, neighborhoods: Dict[str, Neighborhood]):
        self._struct = structure
        self._nbhoods = neighborhoods

    def _get_nbhood(self, site_id: int) -> List[int]:
        site_class = self._struct.site_class(site_id)
        return self._nbhoods.get(site_class)
