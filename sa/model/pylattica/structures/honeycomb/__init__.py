from .lattice import RhombohedralLattice
from .structure_builders import HoneycombTilingBuilder
from .neighborhoods import HoneycombNeighborhoodBuilder
