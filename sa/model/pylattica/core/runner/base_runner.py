from ..basic_controller import BasicController
from ..simulation_result import SimulationResult
from ..simulation_state import SimulationState

class Runner:

    def run(self, initial_state: SimulationState, controller: BasicController, num_steps: int, verbose=False) -> SimulationResult:
        result = controller.instantiate_result(initial_state.copy())
        controller.pre_run(initial_state)
        live_state = initial_state.copy()
        self._run(initial_state, result, live_state, controller, num_steps, verbose)
        result.set_output(live_state)
        return result
