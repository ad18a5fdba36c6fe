from collections import deque
from tqdm import tqdm
from ..basic_controller import BasicController
from ..simulation_result import SimulationResult
from ..simulation_state import SimulationState
from .base_runner import Runner
from .common import merge_updates

class AsynchronousRunner(Runner):

    def _run(self, _: SimulationState, result: SimulationResult, live_state: SimulationState, controller: BasicController, num_steps: int, verbose: bool=False) -> SimulationResult:
        site_queue = deque()

        def _add_sites_to_queue():
            next_site = controller.get_random_site(live_state)
            if isinstance(next_site, int):
                site_queue.append(next_site)
            elif isinstance(next_site, list):
                site_queue.extend(next_site)
        _add_sites_to_queue()
        if len(site_queue) == 0:
            raise RuntimeError('Controller provided no sites to update, ABORTING')
        for _ in tqdm(range(num_steps), disable=not verbose):
            site_id = site_queue.popleft()
            controller_response = controller.get_state_update(site_id, live_state)
            next_sites = []
            if isinstance(controller_response, tuple):
                state_updates, next_sites = controller_response
            else:
                state_updates = controller_response
            state_updates = merge_updates(state_updates, site_id=site_id)
            live_state.batch_update(state_updates)
            site_queue.extend(next_sites)
            result.add_step(state_updates)
            if len(site_queue) == 0:
                _add_sites_to_queue()
            if len(site_queue) == 0:
                break
        result.set_output(live_state)
        return result
