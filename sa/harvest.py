"""Thresholds in the analysed source: integer constants against which the code compares, counts or slices.

The shape bounds of the scenarios are small; a constant of the source that separates larger shapes from smaller ones
would lie outside them. Rules add one scenario beyond every such constant."""
import ast
import os


def _ints(n):
    for x in ast.walk(n):
        if isinstance(x, ast.Constant) and type(x.value) in (int, float) and x.value == int(x.value if abs(x.value) < 1e9 else 0):
            yield abs(int(x.value))


def thresholds(root, lo=3, hi=256):
    """sorted constants in lo..hi used in comparisons, remainders, integer divisions, slices, min/max and range calls"""
    out = set()
    for d, _, files in os.walk(os.path.join(root, 'baumeva')):
        for f in files:
            if not f.endswith('.py'):
                continue
            try:
                with open(os.path.join(d, f), encoding='utf8') as fh:
                    tree = ast.parse(fh.read())
            except (SyntaxError, UnicodeDecodeError):
                continue
            named = {}
            for n in ast.walk(tree):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and type(n.value.value) is int:
                    for t in n.targets:
                        named[t.id if isinstance(t, ast.Name) else getattr(t, 'attr', None)] = n.value.value
            for n in ast.walk(tree):
                parts = []
                if isinstance(n, ast.Compare):
                    parts = [n.left] + n.comparators
                elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.FloorDiv, ast.RShift)):
                    parts = [n.right]
                elif isinstance(n, ast.Slice):
                    parts = [x for x in (n.lower, n.upper, n.step) if x is not None]
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('min', 'max', 'range', 'islice'):
                    parts = n.args
                for p in parts:
                    out.update(_ints(p))
                    for x in ast.walk(p):
                        k = x.id if isinstance(x, ast.Name) else getattr(x, 'attr', None) if isinstance(x, ast.Attribute) else None
                        if k in named:
                            out.add(abs(named[k]))
    return sorted(x for x in out if lo <= x <= hi)
