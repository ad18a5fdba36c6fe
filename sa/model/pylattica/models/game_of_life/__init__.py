from .controller import GameOfLifeController, Life, Seeds, Anneal, Diamoeba, Maze
