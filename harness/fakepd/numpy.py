"""A stand-in for the part of numpy that the reports use."""
nan = float("nan")


def arange(a, b=None, step=1):
    return list(range(0, a, step)) if b is None else list(range(a, b, step))


def histogram(values, bins):
    """Counts per bin [b, next b); the last bin includes its end."""
    b = list(bins)
    n = [0] * (len(b) - 1)
    for v in values:
        for i in range(len(n)):
            if b[i] <= v < b[i + 1] or (i == len(n) - 1 and v == b[i + 1]):
                n[i] += 1
    return n, b


def array(v): return list(v)
def sum(v): return __builtins__["sum"](v) if isinstance(__builtins__, dict) else __builtins__.sum(v)
def mean(v):
    v = list(v)
    return sum(v) / len(v)
