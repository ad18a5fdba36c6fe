from __future__ import annotations
import copy
from typing import Dict, List
from .constants import SITE_ID, SITES, GENERAL
from .periodic_structure import PeriodicStructure

class SimulationState:

    def as_dict(self):
        return {'state': self._state, '@module': self.__class__.__module__, '@class': self.__class__.__name__}

    @classmethod
    def from_dict(cls, state_dict):
        state = {**state_dict['state']}
        state[SITES] = {int(k): v for k, v in state[SITES].items()}
        return cls(state)

    @classmethod
    def from_struct(cls, struct: PeriodicStructure):
        state = cls()
        for sid in struct.site_ids:
            state.set_site_state(sid, {})
        return state

    def __init__(self, state: Dict=None):
        if state is None:
            self._state = {SITES: {}, GENERAL: {}}
        else:
            self._state = copy.deepcopy(state)

    @property
    def size(self) -> int:
        return len(self.site_ids())

    def site_ids(self) -> List[int]:
        return list(self._state[SITES].keys())

    def all_site_states(self) -> List[Dict]:
        return list(self._state[SITES].values())

    def get_site_state(self, site_id: int) -> Dict:
        return self._state[SITES].get(site_id)

    def get_general_state(self) -> Dict:
        return self._state.get(GENERAL)

    def set_general_state(self, updates: Dict) -> None:
        old_state = self.get_general_state()
        self._state[GENERAL] = {**old_state, **updates}

    def set_site_state(self, site_id: int, updates: dict) -> None:
        old_state = self._state[SITES].get(site_id)
        if old_state is None:
            old_state = {SITE_ID: site_id}
        self._state[SITES][site_id] = {**old_state, **updates}

    def batch_update(self, update_batch: Dict) -> None:
        if GENERAL in update_batch or SITES in update_batch:
            for site_id, updates in update_batch.get(SITES, {}).items():
                self.set_site_state(site_id, updates)
            self.set_general_state(update_batch.get(GENERAL, {}))
        else:
            for site_id, updates in update_batch.items():
                self.set_site_state(site_id, updates)

    def copy(self) -> SimulationState:
        return SimulationState(self._state)

    def __eq__(self, other: SimulationState) -> bool:
        return self._state == other._state
