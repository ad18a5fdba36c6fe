from typing import Callable, Dict, List
from .constants import SITE_ID
from .periodic_structure import PeriodicStructure
from .simulation_state import SimulationState

class StateAnalyzer:

    def __init__(self, structure: PeriodicStructure=None):
        self._structure = structure

    def get_sites(self, state: SimulationState, site_class: str=None, state_criteria: List[Callable[[Dict], bool]]=None) -> List[int]:
        if state_criteria is None:
            state_criteria = []
        if self._structure is not None:
            sites = self._structure.sites(site_class)
            sites = [state.get_site_state(site[SITE_ID]) for site in sites]
        else:
            sites = state.all_site_states()
        matching_sites = []
        for site in sites:
            site_state = state.get_site_state(site[SITE_ID])
            meets_criteria = True
            for crit in state_criteria:
                if not crit(site_state):
                    meets_criteria = False
                    break
            if meets_criteria:
                matching_sites.append(site[SITE_ID])
        return matching_sites

    def get_sites_where_equal(self, state: SimulationState, search_pairs: Dict, site_class: str=None) -> List[int]:

        def _criteria(site_state: Dict) -> bool:
            for state_key, state_val in search_pairs.items():
                if site_state.get(state_key) != state_val:
                    return False
            return True
        return self.get_sites(state, site_class=site_class, state_criteria=[_criteria])

    def get_site_count(self, state: SimulationState, site_class: str=None, state_criteria: List[Callable[[Dict], bool]]=None) -> int:
        return len(self.get_sites(state, site_class=site_class, state_criteria=state_criteria))

    def get_site_count_where_equal(self, state: SimulationState, search_pairs: Dict, site_class: str=None) -> int:
        return len(self.get_sites_where_equal(state, site_class=site_class, search_pairs=search_pairs))
