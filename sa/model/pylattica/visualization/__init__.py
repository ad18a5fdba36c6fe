from .square_grid_artist_2D import SquareGridArtist2D
from .square_grid_artist_3D import SquareGridArtist3D
from .result_artist import ResultArtist
from .cell_artist import CellArtist, DiscreteCellArtist
