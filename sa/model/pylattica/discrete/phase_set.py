from typing import List

class PhaseSet:

    def __init__(self, phases: List[str]):
        self.phases = list(set(phases))
