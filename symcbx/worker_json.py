from fractions import Fraction
def clean(x):
    if isinstance(x, bool) or x is None or isinstance(x, str): return x
    if isinstance(x, int): return int(x)
    if isinstance(x, Fraction): return float(x)
    if isinstance(x, float) or hasattr(x, 'dtype'):
        x = float(x)
        return repr(x) if x != x or x in (float('inf'), float('-inf')) else x
    if isinstance(x, dict): return {k: clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [clean(v) for v in x]
    return x
