"""Integer constants of the current source: sizes and counts worth trying."""
import ast
import importlib
import inspect

KNOWN = {}


def ints(*modules, low=8, high=200000):
    """Constants in low..high of the modules, largest last."""
    key = modules, low, high
    if key not in KNOWN:
        found = set()
        for m in modules:
            try: tree = ast.parse(inspect.getsource(importlib.import_module(m)))
            except Exception: continue
            for n in ast.walk(tree):
                if isinstance(n, ast.BinOp):
                    try: v = eval(compile(ast.Expression(n), 'x', 'eval'), {'__builtins__': {}}) if all(isinstance(x, (ast.BinOp, ast.Constant, ast.operator, ast.expr_context)) for x in ast.walk(n)) and not any(isinstance(x, ast.Constant) and not isinstance(x.value, int) for x in ast.walk(n)) and not any(isinstance(x, ast.Pow) and n.right.value > 40 for x in ast.walk(n)) else None
                    except Exception: v = None
                else: v = n.value if isinstance(n, ast.Constant) else None
                if isinstance(v, int) and not isinstance(v, bool) and low <= v <= high: found.add(v)
        KNOWN[key] = sorted(found)
    return KNOWN[key]


def near(rng, *modules, low=8, high=200000):
    """A number at or next to one of the constants, or None."""
    c = ints(*modules, low=low, high=high)
    if not c: return None
    return rng.choice(c) + rng.choice([-1, 0, 0, 1, 1, 2])
