"""Which elements of a sequence a nest of loops visits, when it visits them in shares (slices at computed positions)."""
import math
from .nodes import *

ARITH = {"add": sum, "mul": math.prod, "max": max, "min": min}
TWO = {"floordiv": lambda a, b: a // b, "mod": lambda a, b: a % b, "div": lambda a, b: a / b}
ONE_ARG = {"ceil": math.ceil, "floor": math.floor, "abs": abs, "int": int, "round": round, "trunc": math.trunc, "asint": int, "float": float}


TEST = {"lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "eq": lambda a, b: a == b}


class Vague(Exception):
    pass


def evaluate(n, env):
    if n in env:
        return env[n]
    if n.op == "const":
        return cval(n)
    if n.op in ARITH:
        return ARITH[n.op]([evaluate(x, env) for x in n.args])
    if n.op in TWO:
        return TWO[n.op](*[evaluate(x, env) for x in n.args])
    if n.op in ONE_ARG and len(n.args) == 1:
        return ONE_ARG[n.op](evaluate(n.args[0], env))
    if n.op == "len":
        return len(evaluate(n.args[0], env))
    if n.op == "range":
        return range(*[evaluate(x, env) for x in n.args])
    if n.op == "slice":
        return evaluate(n.args[0], env)[slice(*[evaluate(x, env) for x in n.args[1:]])]
    if n.op == "tuple":
        return tuple(evaluate(x, env) for x in n.args)
    if n.op == "ite":
        return evaluate(n.args[1] if evaluate(n.args[0], env) else n.args[2], env)
    if n.op == "truthy":
        return bool(evaluate(n.args[0], env))
    if n.op == "not":
        return not evaluate(n.args[0], env)
    if n.op in ("and", "or"):
        return (all if n.op == "and" else any)([evaluate(x, env) for x in n.args])
    if n.op in TEST:
        return TEST[n.op](*[evaluate(x, env) for x in n.args])
    raise Vague(n.op)


def visited(loops, env):
    """the elements of the last loop, in order"""
    if not loops:
        raise Vague("")
    l = loops[0]
    if l.op != "loop" or len(l.args) != 2:
        raise Vague("loop")
    seq = evaluate(l.args[0], env)
    if len(loops) == 1:
        return list(seq)
    out = []
    for i, x in enumerate(seq):
        out += visited(loops[1:], {**env, mk("elem", *l.args): x, mk("index", *l.args): i})
    return out


def base(loops):
    """the sequence being shared out"""
    it = loops[-1].args[0]
    return it.args[0] if it.op == "slice" else None


def sizes(n, out):
    """numbers outside our control: how long the sequence is (n) and how many share it (w)"""
    if n in out:
        return
    if n.op == "ite":                       # workers given or counted
        own = {}
        for x in n.args[1:]:
            sizes(x, own)
        out[n] = "w" if set(own) == set(n.args[1:]) and set(own.values()) == {"w"} else None
    elif n.op in ("attr", "param", "call", "ext", "extcall", "fcall", "Ret", "mcall"):
        s = show(n, 8)
        out[n] = "n" if s.endswith(("site_ids()", ".size()", ".size")) else "w" if "workers" in s or "cpu_count" in s else None
    else:
        for x in n.args:
            if isinstance(x, N):
                sizes(x, out)


def shared_out(la, lb):
    """both nests go through shares of one and the same sequence: the parts of them that differ"""
    la, lb = list(la), list(lb)
    while la and lb and la[0] is lb[0]:
        la, lb = la[1:], lb[1:]
    return (la, lb) if len(la) > 1 and len(lb) > 1 and base(la) is not None and base(la) is base(lb) else None


def misses(la, lb):
    """... and the second does not visit what the first does"""
    both = shared_out(la, lb)
    if both is None:
        return False
    la, lb = both
    seq = base(la)
    leaves = {seq: "seq"}
    for l in la + lb:
        for x in l.args[0].args:
            if isinstance(x, N):
                sizes(x, leaves)
    bound = {mk(k, *l.args) for l in la + lb if l.op == "loop" for k in ("elem", "index")}
    leaves = {k: v for k, v in leaves.items() if k not in bound}
    if None in leaves.values():
        return False
    differ = 0
    try:
        for n in range(0, 14):
            for w in range(1, 6):
                env = {k: list(range(n)) if v == "seq" else n if v == "n" else w for k, v in leaves.items()}
                a, b = sorted(visited(la, env)), sorted(visited(lb, env))
                if a != list(range(n)):
                    return False
                differ += a != b
    except (Vague, ArithmeticError, TypeError, ValueError):
        return False
    return differ > 0


ROUND = ("floordiv", "mod", "ceil", "floor", "round", "trunc", "int", "asint")


def numbers(n, out):
    if n in out or n.op == "const":
        return
    if n.op in ARITH or n.op in TWO or n.op in TEST or n.op in ("tuple", "ite", "truthy", "not", "and", "or") or n.op in ONE_ARG and len(n.args) == 1:
        for x in n.args:
            numbers(x, out)
    else:
        out.append(n)


def rounds_alike(a, b):
    """two ways of writing one whole-number computation, as far as trying them out can tell"""
    if not any(n.op in ROUND for t in (a, b) for n in sub(t)):
        return False
    leaves = []
    numbers(a, leaves), numbers(b, leaves)
    if not leaves or len(leaves) > 4 or a in leaves or b in leaves:
        return False
    try:
        for k in range(60):
            env = {x: (k * (7 + 6 * i) + i * 3) % (23 + 2 * i) + 1 for i, x in enumerate(leaves)}
            if evaluate(a, env) != evaluate(b, env):
                return False
    except (Vague, ArithmeticError, TypeError, ValueError):
        return False
    return True
