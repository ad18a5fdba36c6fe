from .basic_controller import BasicController
from .simulation_result import SimulationResult
from .runner import SynchronousRunner, AsynchronousRunner
from .simulation_state import SimulationState
from .periodic_structure import PeriodicStructure
from .simulation import Simulation
from .lattice import Lattice
from .analyzer import StateAnalyzer
from .structure_builder import StructureBuilder
from .neighborhoods import Neighborhood, StochasticNeighborhood
from .neighborhood_builders import DistanceNeighborhoodBuilder, MotifNeighborhoodBuilder
