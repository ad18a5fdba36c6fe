from typing import List, Dict, Tuple
from .colors import COLORS

def color_map(phases: List[str]) -> Dict[str, Tuple[int, int, int]]:
    color_map: Dict[str, Tuple[int, int, int]] = {}
    c_idx: int = 0
    for p in phases:
        color_map[p] = COLORS[c_idx % len(COLORS)]
        c_idx += 1
    return color_map
