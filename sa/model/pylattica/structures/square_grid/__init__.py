from .lattice import SquareGridLattice2D
from .neighborhoods import MooreNbHoodBuilder, PseudoHexagonalNeighborhoodBuilder2D, PseudoHexagonalNeighborhoodBuilder3D, PseudoPentagonalNeighborhoodBuilder, VonNeumannNbHood2DBuilder, VonNeumannNbHood3DBuilder
from .grid_setup import DiscreteGridSetup
from .structure_builders import SimpleSquare2DStructureBuilder, SimpleSquare3DStructureBuilder
from .growth_setup import GrowthSetup
