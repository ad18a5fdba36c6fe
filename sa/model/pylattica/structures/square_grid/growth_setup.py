from ...core import SynchronousRunner, Simulation
from ...core.neighborhood_builders import NeighborhoodBuilder
from ...discrete import PhaseSet
from ...models.growth import GrowthController
from .grid_setup import DiscreteGridSetup
from typing import Dict

class GrowthSetup:

    def __init__(self, phase_set: PhaseSet, dim=2):
        self._phases = phase_set
        self.dim = dim

    def grow(self, size: int, num_sites_desired: int, background_spec: str, nuc_amts: Dict[str, float], nb_builder: NeighborhoodBuilder, buffer: int=2) -> Simulation:
        setup = DiscreteGridSetup(self._phases, dim=self.dim)
        simulation = setup.setup_random_sites(size, num_sites_desired=num_sites_desired, background_spec=background_spec, nuc_amts=nuc_amts, buffer=buffer)
        controller = GrowthController(self._phases, simulation.structure, nb_builder=nb_builder, background_phase=background_spec)
        runner = SynchronousRunner(parallel=True)
        res = runner.run(simulation.state, controller, num_steps=size)
        return Simulation(res.last_step, simulation.structure)
