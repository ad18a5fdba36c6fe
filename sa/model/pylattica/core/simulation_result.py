import tqdm
from typing import Dict, List
from monty.serialization import dumpfn, loadfn
import datetime
from .constants import GENERAL, SITES
from .simulation_state import SimulationState

class SimulationResult:

    @classmethod
    def from_file(cls, fpath):
        return loadfn(fpath)

    @classmethod
    def from_dict(cls, res_dict):
        diffs = res_dict['diffs']
        res = cls(SimulationState.from_dict(res_dict['initial_state']))
        for diff in diffs:
            formatted = {k: v for k, v in diff.items() if k in (SITES, GENERAL)}
            if SITES in diff:
                formatted[SITES] = {int(k): v for k, v in diff[SITES].items()}
            elif GENERAL not in diff:
                formatted = {int(k): v for k, v in diff.items()}
            res.add_step(formatted)
        return res

    def __init__(self, starting_state: SimulationState):
        self.initial_state = starting_state
        self._diffs: list[dict] = []
        self._stored_states = {}

    def add_step(self, updates: Dict[int, Dict]) -> None:
        self._diffs.append(updates)

    def __len__(self) -> int:
        return len(self._diffs) + 1

    def steps(self) -> List[SimulationState]:
        live_state = self.initial_state.copy()
        for diff in self._diffs:
            yield live_state.copy()
            live_state.batch_update(diff)
        yield live_state

    @property
    def last_step(self) -> SimulationState:
        return self.get_step(len(self) - 1)

    @property
    def first_step(self):
        return self.get_step(0)

    def set_output(self, step: SimulationState):
        self.output = step

    def load_steps(self, interval=1):
        live_state = self.initial_state.copy()
        self._stored_states[0] = self.initial_state.copy()
        for ud_idx in tqdm.tqdm(range(0, len(self._diffs)), desc='Constructing result from diffs'):
            step_no = ud_idx + 1
            live_state.batch_update(self._diffs[ud_idx])
            if step_no % interval == 0 and self._stored_states.get(step_no) is None:
                stored_state = live_state.copy()
                self._stored_states[step_no] = stored_state

    def get_step(self, step_no) -> SimulationState:
        stored = self._stored_states.get(step_no)
        if stored is not None:
            return stored.copy()
        else:
            state = self.initial_state.copy()
            for ud_idx in range(0, step_no):
                state.batch_update(self._diffs[ud_idx])
            return state

    def as_dict(self):
        return {'initial_state': self.initial_state.as_dict(), 'diffs': self._diffs, '@module': self.__class__.__module__, '@class': self.__class__.__name__}

    def to_file(self, fpath: str=None) -> None:
        if fpath is None:
            now = datetime.datetime.now()
            date_string = now.strftime('%m-%d-%Y-%H-%M')
            fpath = f'{date_string}.json'
        dumpfn(self, fpath)
        return fpath
