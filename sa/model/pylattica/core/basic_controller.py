from abc import ABC, abstractmethod
import random
from .simulation_result import SimulationResult
from .simulation_state import SimulationState

class BasicController(ABC):

    @abstractmethod
    def get_state_update(self, site_id: int, prev_state: SimulationState):
        pass

    def pre_run(self, initial_state: SimulationState) -> None:
        pass

    def get_random_site(self, state: SimulationState):
        return random.choice(state.site_ids())

    def instantiate_result(self, starting_state: SimulationState):
        return SimulationResult(starting_state=starting_state)
