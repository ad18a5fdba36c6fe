from typing import List
from ..core import SimulationState, StateAnalyzer
from .state_constants import DISCRETE_OCCUPANCY

class DiscreteStepAnalyzer(StateAnalyzer):

    def cell_fraction(self, state: SimulationState, phase_name: str) -> float:
        phase_count = self.cell_count(state, phase_name)
        total_occupied_cells = state.size
        return phase_count / total_occupied_cells

    def cell_count(self, state: SimulationState, phase_name: str) -> int:
        return self.get_site_count_where_equal(state, {DISCRETE_OCCUPANCY: phase_name})

    def cell_ratio(self, step: SimulationState, p1: str, p2: str) -> float:
        return self.cell_count(step, p1) / self.cell_count(step, p2)

    def phase_count(self, step: SimulationState) -> int:
        return len(self.phases_present(step))

    def phases_present(self, state: SimulationState) -> List[str]:
        return list(set((site_state[DISCRETE_OCCUPANCY] for site_state in state.all_site_states())))
