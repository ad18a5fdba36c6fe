from __future__ import annotations
from abc import abstractmethod
from .colors import COLORS
from ..discrete.state_constants import DISCRETE_OCCUPANCY
from ..discrete.discrete_step_analyzer import DiscreteStepAnalyzer
from ..discrete.discrete_state_result_analyzer import DiscreteResultAnalyzer
from ..core import SimulationResult
from ..core import SimulationState
from typing import Dict, List, Tuple

class CellArtist:

    @abstractmethod
    def get_color_from_cell_state(self, cell_state: Dict):
        pass

    @abstractmethod
    def get_cell_legend_label(self, cell_state: Dict):
        pass

    def get_legend(self, simulation_state: SimulationState) -> Dict[str, Tuple[int, int, int]]:
        legend = {}
        for state in simulation_state.all_site_states():
            label = self.get_cell_legend_label(state)
            if label not in legend:
                color = self.get_color_from_cell_state(state)
                legend[label] = color
        return legend

class DiscreteCellArtist(CellArtist):

    @classmethod
    def from_phase_list(cls, phases: List[str], **kwargs) -> DiscreteCellArtist:
        color_map = cls.build_color_map_from_phase_list(phases)
        return cls(color_map, **kwargs)

    @classmethod
    def from_discrete_state(cls, state: SimulationState, **kwargs) -> DiscreteCellArtist:
        analyzer = DiscreteStepAnalyzer()
        phases = analyzer.phases_present(state)
        return cls.from_phase_list(phases, **kwargs)

    @classmethod
    def from_discrete_result(cls, result: SimulationResult, **kwargs) -> DiscreteCellArtist:
        analyzer = DiscreteResultAnalyzer(result)
        return cls.from_phase_list(analyzer.all_phases(), **kwargs)

    @classmethod
    def build_color_map_from_phase_list(cls, phases: List[str]) -> Dict[str, Tuple[int, int, int]]:
        display_phases: Dict[str, Tuple[int, int, int]] = {}
        c_idx: int = 0
        for p in phases:
            display_phases[p] = COLORS[c_idx % len(COLORS)]
            c_idx += 1
        return display_phases

    def __init__(self, color_map=None, state_key=DISCRETE_OCCUPANCY, legend=None):
        self.color_map = color_map
        self._state_key = state_key
        self.legend = legend

    def get_legend(self, simulation_state: SimulationState):
        if self.legend is None:
            return super().get_legend(simulation_state)
        else:
            return self.legend

    def get_color_from_cell_state(self, cell_state: Dict):
        phase_name = cell_state[self._state_key]
        if phase_name not in self.color_map:
            return (0, 0, 0)
        else:
            return self.color_map[phase_name]

    def get_cell_legend_label(self, cell_state: Dict) -> str:
        return str(cell_state[self._state_key])
