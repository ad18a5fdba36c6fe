import itertools
from typing import Iterable, List

def get_points_in_cube(lb: int, ub: int, dim: int) -> List[List[int]]:
    return get_points_in_box([lb for _ in range(dim)], [ub for _ in range(dim)])

def get_points_in_box(lbs: Iterable[int], ubs: Iterable[int]) -> List[List[int]]:
    args = [list(range(lb, ub)) for lb, ub in zip(lbs, ubs)]
    return list(itertools.product(*args))
