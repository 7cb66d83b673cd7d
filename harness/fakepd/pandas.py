"""A stand-in for the part of pandas that works on small tables of traces: reading
CSV files, concatenation, selection, grouping. Written from pandas' documented
behaviour: column types are inferred per column, integers become floats when
values are missing, concatenation keeps columns in order of appearance, groups
are sorted and drop missing keys. FAKE_PANDAS=1 names groups of a one-element
list by the bare value (pandas before 2), otherwise by a tuple (pandas 2)."""
import io, math, os, types

nan = float("nan")
NaN = nan
OLD = os.environ.get("FAKE_PANDAS") == "1"
__version__ = "1.3.5" if OLD else "2.2.2"


class EmptyDataError(ValueError):
    pass


class ParserError(ValueError):
    pass


errors = types.SimpleNamespace(EmptyDataError=EmptyDataError, ParserError=ParserError)


def isna(v):
    if isinstance(v, (Series, DataFrame)): return v.isna()
    return v is None or (isinstance(v, float) and math.isnan(v))


def isnull(v): return isna(v)
def notna(v):
    if isinstance(v, (Series, DataFrame)): return v.notna()
    return not isna(v)


def _unify(vals):
    """The values of one column: ints next to floats or missing values are floats."""
    vals = [nan if v is None else v for v in vals]
    if any(isinstance(v, float) for v in vals) and all(isinstance(v, (int, float)) and not isinstance(v, bool) for v in vals):
        return [float(v) for v in vals]
    return vals


class Array(list):
    def tolist(self): return list(self)
    def to_list(self): return list(self)
    def astype(self, t): return Array(t(v) for v in self)
    def mean(self): return sum(self) / len(self)
    def min(self): return min(self)
    def max(self): return max(self)
    def sum(self): return sum(self)
    def __invert__(self): return Array(not v for v in self)
    @property
    def size(self): return len(self)
    @property
    def values(self): return self
    @property
    def shape(self): return (len(self),)
    def __getitem__(self, k):
        if isinstance(k, slice): return type(self)(list.__getitem__(self, k))
        if isinstance(k, (list, Series)) and len(k) == len(self) and all(isinstance(b, bool) for b in k):
            return type(self)(v for v, b in zip(self, k) if b)
        if isinstance(k, (list, Series)): return type(self)(list.__getitem__(self, i) for i in k)
        return list.__getitem__(self, k)


class Index(Array):
    def get_level_values(self, n):
        if isinstance(n, str): n = self.names.index(n)
        return Index(t[n] for t in self)
    @property
    def nlevels(self): return len(self[0]) if self and isinstance(self[0], tuple) else 1
    def isin(self, vals):
        s = list(vals)
        return Array(v in s for v in self)
    def unique(self): return Index(dict.fromkeys(self))
    def drop(self, labels):
        labels = labels if isinstance(labels, (list, tuple)) else [labels]
        return Index(v for v in self if v not in labels)
    def difference(self, o): return Index(sorted(v for v in self if v not in list(o)))
    def get_loc(self, k): return self.index(k)
    def str_filter(self, f): return Index(v for v in self if f(v))
    @property
    def empty(self): return not self


class _Loc:
    def __init__(self, o, pos): self.o, self.pos = o, pos
    def __getitem__(self, k): return self.o._locate(k, self.pos)


class _Str:
    def __init__(self, s): self.s = s
    def _m(self, f): return Series([f(v) if isinstance(v, str) else nan for v in self.s._v], self.s.index, self.s.name)
    def contains(self, p, regex=True, **k):
        import re
        return self._m(lambda v: bool(re.search(p, v)) if regex else p in v)
    def startswith(self, p): return self._m(lambda v: v.startswith(p))
    def endswith(self, p): return self._m(lambda v: v.endswith(p))
    def match(self, p):
        import re
        return self._m(lambda v: bool(re.match(p, v)))
    def strip(self): return self._m(str.strip)


class Series:
    def __init__(self, data=None, index=None, name=None, dtype=None):
        if isinstance(data, dict):
            index = list(data) if index is None else index
            data = list(data.values())
        if isinstance(data, Series):
            index = data.index if index is None else index
            data = data._v
        self._v = list(data if data is not None else [])
        if dtype is not None: self._v = [dtype(v) for v in self._v]
        self.index = Index(range(len(self._v)) if index is None else index)
        self.name = name

    # access
    def __iter__(self): return iter(self._v)
    def __len__(self): return len(self._v)
    def __contains__(self, k): return k in self.index
    def keys(self): return self.index
    def items(self): return zip(self.index, self._v)
    iteritems = items
    values = property(lambda s: Array(s._v))
    array = values
    def to_numpy(self, dtype=None): return Array(self._v)
    def tolist(self): return list(self._v)
    to_list = tolist
    def to_dict(self): return dict(zip(self.index, self._v))
    size = property(lambda s: len(s._v))
    shape = property(lambda s: (len(s._v),))
    empty = property(lambda s: not s._v)
    loc = property(lambda s: _Loc(s, False))
    iloc = property(lambda s: _Loc(s, True))
    at = loc
    iat = iloc
    str = property(lambda s: _Str(s))

    def _locate(self, k, pos):
        if isinstance(k, slice):
            if pos: return Series(self._v[k], self.index[k], self.name)
            a = 0 if k.start is None else self.index.index(k.start)
            b = len(self) if k.stop is None else self.index.index(k.stop) + 1
            return Series(self._v[a:b], self.index[a:b], self.name)
        if isinstance(k, (list, Series)):
            k = list(k)
            if k and all(isinstance(b, bool) for b in k):
                i = [n for n, b in enumerate(k) if b]
            else:
                i = k if pos else [self.index.index(x) for x in k]
            return Series([self._v[n] for n in i], [self.index[n] for n in i], self.name)
        return self._v[k if pos else self._find(k)]

    def _find(self, k):
        try: return self.index.index(k)
        except ValueError: raise KeyError(k)

    def __getitem__(self, k):
        if isinstance(k, slice): return self._locate(k, True)
        return self._locate(k, False)

    def get(self, k, d=None): return self._v[self.index.index(k)] if k in self.index else d

    def __getattr__(self, n):
        if n.startswith("_"): raise AttributeError(n)
        if n in self.__dict__.get("index", ()): return self._v[self.index.index(n)]
        raise AttributeError(n)

    # arithmetic
    def _op(self, o, f):
        if isinstance(o, Series) and list(o.index) != list(self.index):
            # aligned by the index; what only one side has is missing
            if len(set(o.index)) != len(o.index) or len(set(self.index)) != len(self.index):
                raise ValueError("cannot reindex on an axis with duplicate labels")
            ix = sorted(set(self.index) | set(o.index))
            a, b = dict(zip(self.index, self._v)), dict(zip(o.index, o._v))
            return Series([f(a[i], b[i]) if i in a and i in b else nan for i in ix], ix, self.name)
        b = o._v if isinstance(o, Series) else (list(o) if isinstance(o, list) else [o] * len(self))
        return Series([f(x, y) for x, y in zip(self._v, b)], self.index, self.name)

    def __eq__(self, o): return self._op(o, lambda x, y: x == y)
    def __ne__(self, o): return self._op(o, lambda x, y: x != y)
    def __lt__(self, o): return self._op(o, lambda x, y: x < y)
    def __le__(self, o): return self._op(o, lambda x, y: x <= y)
    def __gt__(self, o): return self._op(o, lambda x, y: x > y)
    def __ge__(self, o): return self._op(o, lambda x, y: x >= y)
    eq, ne, lt, le, gt, ge = __eq__, __ne__, __lt__, __le__, __gt__, __ge__
    def __and__(self, o): return self._op(o, lambda x, y: bool(x and y))
    def __or__(self, o): return self._op(o, lambda x, y: bool(x or y))
    def __invert__(self): return Series([not x for x in self._v], self.index, self.name)
    def __add__(self, o): return self._op(o, lambda x, y: x + y)
    def __sub__(self, o): return self._op(o, lambda x, y: x - y)
    def __mul__(self, o): return self._op(o, lambda x, y: x * y)
    def __truediv__(self, o): return self._op(o, lambda x, y: x / y)
    def __radd__(self, o): return self._op(o, lambda x, y: y + x)
    def __rsub__(self, o): return self._op(o, lambda x, y: y - x)
    def __rmul__(self, o): return self._op(o, lambda x, y: y * x)
    def __rtruediv__(self, o): return self._op(o, lambda x, y: y / x)
    def __neg__(self): return Series([-x for x in self._v], self.index, self.name)
    def __abs__(self): return Series([abs(x) for x in self._v], self.index, self.name)
    abs = __abs__
    def _one(self):
        if len(self._v) != 1: raise TypeError("cannot convert the series to a number")
        return self._v[0]
    def __float__(self): return float(self._one())
    def __int__(self): return int(self._one())
    def item(self): return self._one()
    __hash__ = None
    def __bool__(self): raise ValueError("The truth value of a Series is ambiguous.")

    # what is missing
    def isna(self): return Series([isna(v) for v in self._v], self.index, self.name)
    isnull = isna
    def notna(self): return Series([not isna(v) for v in self._v], self.index, self.name)
    notnull = notna
    def dropna(self): return self._locate(self.notna()._v, False)
    def fillna(self, x): return Series(_unify([x if isna(v) else v for v in self._v]), self.index, self.name)
    def isin(self, vals):
        vals = list(vals)
        return Series([v in vals for v in self._v], self.index, self.name)

    def unique(self):
        out, seen, missing = Array(), set(), False
        for v in self._v:
            if isna(v):
                if not missing: out.append(v)
                missing = True
            elif v not in seen:
                seen.add(v)
                out.append(v)
        return out

    def nunique(self): return len([v for v in self.unique() if not isna(v)])
    def drop_duplicates(self): return Series(self.unique(), None, self.name)
    def value_counts(self): return Series({v: self._v.count(v) for v in sorted(set(self._v), key=lambda x: -self._v.count(x))})
    def any(self): return any(self._v)
    def all(self): return all(self._v)

    # aggregates (missing values do not count)
    def _n(self): return [v for v in self._v if not isna(v)]
    def count(self): return len(self._n())
    def sum(self): return sum(self._n())
    def mean(self):
        n = self._n()
        return sum(n) / len(n) if n else nan
    def min(self): return min(self._n(), default=nan)
    def max(self): return max(self._n(), default=nan)
    def median(self):
        n = sorted(self._n())
        return nan if not n else (n[len(n) // 2] + n[(len(n) - 1) // 2]) / 2
    def first(self): return self._v[0]
    def last(self): return self._v[-1]
    def size_(self): return len(self._v)

    def _arg(self, best):
        n = self._n()
        if not n: raise ValueError("attempt to get argmin of an empty sequence")
        return self._v.index(best(n))

    def idxmin(self): return self.index[self._arg(min)]
    def idxmax(self): return self.index[self._arg(max)]
    def argmin(self): return self._arg(min)
    def argmax(self): return self._arg(max)

    # shape
    def astype(self, t):
        t = {"str": str_, "int": int, "float": float, "int64": int, "float64": float, "object": lambda v: v}.get(t, t) if not callable(t) else t
        return Series([t(v) for v in self._v], self.index, self.name)
    def map(self, f):
        return Series([f.get(v, nan) if isinstance(f, dict) else f(v) for v in self._v], self.index, self.name)
    apply = map
    def copy(self): return Series(list(self._v), self.index, self.name)
    def head(self, n=5): return self._locate(slice(0, n), True)
    def sort_values(self, ascending=True, **k):
        o = sorted(range(len(self)), key=lambda i: self._v[i], reverse=not ascending)
        return self._locate(o, True)
    def sort_index(self): return self._locate(sorted(range(len(self)), key=lambda i: self.index[i]), True)
    def reset_index(self, drop=False):
        if drop: return Series(self._v, None, self.name)
        return DataFrame._make(["index", self.name or 0], [list(self.index), list(self._v)])
    def to_frame(self): return DataFrame._make([self.name], [self._v], self.index)
    def groupby(self, by, **k): return GroupBy(DataFrame._make([self.name], [self._v], self.index), by, cols=self.name, **k)
    def __repr__(self): return "\n".join("%s    %s" % e for e in self.items())


str_ = str


class DataFrame:
    def __init__(self, data=None, columns=None, index=None):
        cols, vals = [], []
        if isinstance(data, DataFrame):
            cols, vals, index = list(data.columns), [list(v) for v in data._v], data.index
        elif isinstance(data, dict):
            cols, vals = list(data), [list(v) for v in data.values()]
        elif isinstance(data, list) and data and isinstance(data[0], (dict, Series)):
            rows = [r.to_dict() if isinstance(r, Series) else r for r in data]
            cols = list(dict.fromkeys(k for r in rows for k in r))
            vals = [[r.get(k, nan) for r in rows] for k in cols]
        elif isinstance(data, list) and data:
            cols = list(columns) if columns is not None else list(range(len(data[0])))
            vals = [list(v) for v in zip(*data)]
        if columns is not None and not (isinstance(data, list) and data):
            vals = [vals[cols.index(c)] if c in cols else [nan] * (len(vals[0]) if vals else 0) for c in columns]
            cols = list(columns)
        self._set(cols, [_unify(v) for v in vals], index)

    def _set(self, cols, vals, index=None):
        self.__dict__["_v"] = vals
        self.__dict__["columns"] = Index(cols)
        n = len(vals[0]) if vals else 0
        self.__dict__["index"] = Index(range(n) if index is None else index)

    @classmethod
    def _make(cls, cols, vals, index=None):
        d = cls()
        d._set(list(cols), [_unify(v) for v in vals], index)
        return d

    def __setattr__(self, n, v):
        if n == "columns": self.__dict__["columns"] = Index(v)
        elif n == "index": self.__dict__["index"] = Index(v)
        else: self.__dict__[n] = v

    # access
    def __len__(self): return len(self.index)
    def __iter__(self): return iter(self.columns)
    def __contains__(self, c): return c in self.columns
    shape = property(lambda s: (len(s.index), len(s.columns)))
    empty = property(lambda s: not len(s.index) or not len(s.columns))
    loc = property(lambda s: _Loc(s, False))
    iloc = property(lambda s: _Loc(s, True))
    at = loc
    iat = iloc
    values = property(lambda s: Array(Array(r) for r in zip(*s._v)))
    def to_numpy(self): return self.values
    def keys(self): return self.columns
    def _c(self, c):
        if c not in self.columns: raise KeyError(c)
        return self._v[self.columns.index(c)]
    def _rows(self, i): return DataFrame._make(self.columns, [[v[n] for n in i] for v in self._v], [self.index[n] for n in i])
    def _row(self, n): return Series([v[n] for v in self._v] if any(isinstance(v[n], str) for v in self._v) else _unify([v[n] for v in self._v]), self.columns, self.index[n])

    def __getitem__(self, k):
        if isinstance(k, slice): return self._rows(range(len(self))[k])
        if isinstance(k, (list, Series, tuple)) and not isinstance(k, tuple):
            l = list(k)
            if l and all(isinstance(b, bool) for b in l): return self._rows([n for n, b in enumerate(l) if b])
            if isinstance(k, Series) and not l: return self._rows([])
            return DataFrame._make(l, [self._c(c) for c in l], self.index)
        return Series(self._c(k), self.index, k)

    def __getattr__(self, n):
        if n.startswith("_") or n not in self.__dict__.get("columns", ()): raise AttributeError(n)
        return self[n]

    def get(self, k, d=None): return self[k] if k in self.columns else d

    def __setitem__(self, c, v):
        v = list(v) if isinstance(v, (list, Series, tuple)) else [v] * len(self)
        if c in self.columns: self._v[self.columns.index(c)] = _unify(v)
        else:
            if not self._v: self.__dict__["index"] = Index(range(len(v)))
            self.columns.append(c)
            self._v.append(_unify(v))

    def _locate(self, k, pos):
        cols = None
        if isinstance(k, tuple): k, cols = k
        one = False
        if callable(k): k = k(self)
        if isinstance(k, slice):
            if pos or (k.start is None and k.stop is None): i = list(range(len(self)))[k]
            else:
                a = 0 if k.start is None else self.index.index(k.start)
                b = len(self) if k.stop is None else self.index.index(k.stop) + 1
                i = range(a, b)
        elif isinstance(k, (list, Series)):
            l = list(k)
            if len(l) == len(self) and all(isinstance(b, bool) for b in l): i = [n for n, b in enumerate(l) if b]
            else: i = l if pos else [self.index.index(x) for x in l]
        elif not pos and self.index.nlevels > 1 and not isinstance(k, tuple):
            i = [n for n, x in enumerate(self.index) if x[0] == k]  # part of the key
            if not i: raise KeyError(k)
            r = self._rows(i)
            r.index = [x[1] if len(x) == 2 else x[1:] for x in r.index]
            return r if cols is None else r[list(cols) if isinstance(cols, list) else cols]
        else:
            if not pos and k not in self.index: raise KeyError(k)
            hits = [k] if pos else [n for n, x in enumerate(self.index) if x == k]
            one = len(hits) == 1
            i = hits
        if one: r = self._row(range(len(self))[i[0]])
        else: r = self._rows(i)
        if cols is None: return r
        if pos:
            cols = self.columns[cols] if isinstance(cols, slice) else ([self.columns[x] for x in cols] if isinstance(cols, list) else self.columns[cols])
        elif isinstance(cols, slice):
            a = 0 if cols.start is None else self.columns.index(cols.start)
            b = len(self.columns) if cols.stop is None else self.columns.index(cols.stop) + 1
            cols = list(self.columns[a:b])
        return r[list(cols) if isinstance(cols, list) else cols]

    # rows
    def iterrows(self):
        for n in range(len(self)): yield self.index[n], self._row(n)

    def itertuples(self, index=True, name="Pandas"):
        import collections
        c = [str(x) if str(x).isidentifier() else "_%d" % (j + index) for j, x in enumerate(self.columns)]
        t = collections.namedtuple(name or "Row", (["Index"] if index else []) + c)
        for n in range(len(self)):
            r = ([self.index[n]] if index else []) + [v[n] for v in self._v]
            yield t(*r) if name else tuple(r)

    def items(self): return ((c, self[c]) for c in self.columns)
    def to_dict(self, orient="dict"):
        if orient == "records": return [dict(zip(self.columns, r)) for r in zip(*self._v)]
        if orient == "list": return {c: list(v) for c, v in zip(self.columns, self._v)}
        return {c: dict(zip(self.index, v)) for c, v in zip(self.columns, self._v)}
    def apply(self, f, axis=0):
        if axis in (1, "columns"): return Series([f(self._row(n)) for n in range(len(self))], self.index)
        return Series([f(self[c]) for c in self.columns], self.columns)

    # shape
    def copy(self, deep=True): return DataFrame._make(self.columns, [list(v) for v in self._v], self.index)
    def head(self, n=5): return self[:n]
    def tail(self, n=5): return self[-n:]
    def reset_index(self, drop=False, inplace=False):
        cols, vals = list(self.columns), self._v
        if not drop: cols, vals = ["index"] + cols, [list(self.index)] + vals
        return DataFrame._make(cols, vals)
    def set_index(self, c):
        k = [c] if isinstance(c, str) else list(c)
        ix = self._c(c) if isinstance(c, str) else list(zip(*[self._c(x) for x in k]))
        rest = [x for x in self.columns if x not in k]
        return DataFrame._make(rest, [self._c(x) for x in rest], ix)
    def drop(self, labels=None, axis=0, columns=None, index=None, errors="raise"):
        if columns is None and axis in (1, "columns"): columns = labels
        elif columns is None: index = labels if index is None else index
        r = self
        if columns is not None:
            columns = columns if isinstance(columns, (list, tuple)) else [columns]
            keep = [c for c in r.columns if c not in columns]
            r = DataFrame._make(keep, [r._c(c) for c in keep], r.index)
        if index is not None:
            index = list(index) if isinstance(index, (list, tuple)) else [index]
            r = r._rows([n for n, x in enumerate(r.index) if x not in index])
        return r
    def rename(self, columns=None):
        return DataFrame._make([columns(c) if callable(columns) else columns.get(c, c) for c in self.columns], self._v, self.index)
    def dropna(self, axis=0, how="any", subset=None):
        if axis in (1, "columns"):
            bad = lambda v: (any if how == "any" else all)(isna(x) for x in v) and len(v) > 0
            keep = [c for c, v in zip(self.columns, self._v) if not bad(v)]
            return DataFrame._make(keep, [self._c(c) for c in keep], self.index)
        cols = subset if subset is not None else self.columns
        cols = [cols] if isinstance(cols, str) else cols
        q = any if how == "any" else all
        return self._rows([n for n in range(len(self)) if not q(isna(self._c(c)[n]) for c in cols)])
    def isna(self): return DataFrame._make(self.columns, [[isna(x) for x in v] for v in self._v], self.index)
    isnull = isna
    def notna(self): return DataFrame._make(self.columns, [[not isna(x) for x in v] for v in self._v], self.index)
    notnull = notna
    def all(self, axis=0): return Series([all(v) for v in self._v], self.columns)
    def any(self, axis=0): return Series([any(v) for v in self._v], self.columns)
    def filter(self, items=None, like=None, regex=None, axis=None):
        import re
        keep = [c for c in self.columns if (items is not None and c in items) or (like is not None and like in c) or (regex is not None and re.search(regex, c))]
        return self[keep]
    def isin(self, o):
        if isinstance(o, DataFrame):  # by label
            if len(set(o.index)) != len(o.index): raise ValueError("cannot compute isin with a duplicate axis.")
            m = {c: dict(zip(o.index, o._c(c))) for c in o.columns}
            return DataFrame._make(self.columns, [[i in m.get(c, {}) and m[c][i] == x for i, x in zip(self.index, v)] for c, v in zip(self.columns, self._v)], self.index)
        return DataFrame._make(self.columns, [[x in list(o) for x in v] for v in self._v], self.index)
    def count(self, **k): return Series([self[c].count() for c in self.columns], self.columns)
    def sum(self, **k): return Series([self[c].sum() for c in self.columns], self.columns)
    def sort_values(self, by, ascending=True, kind=None, ignore_index=False):
        by = [by] if isinstance(by, str) else list(by)
        o = sorted(range(len(self)), key=lambda i: tuple(self._c(c)[i] for c in by), reverse=not ascending)
        return self._rows(o)
    def sort_index(self): return self._rows(sorted(range(len(self)), key=lambda i: self.index[i]))
    def drop_duplicates(self, subset=None, keep="first"):
        cols = [subset] if isinstance(subset, str) else (list(subset) if subset is not None else list(self.columns))
        seen, out = set(), []
        rng = range(len(self)) if keep == "first" else reversed(range(len(self)))
        for n in rng:
            k = tuple(self._c(c)[n] for c in cols)
            if k not in seen: seen.add(k), out.append(n)
        return self._rows(sorted(out))
    def nsmallest(self, n, c): return self.sort_values(c)[:n]
    def astype(self, t):
        r = self.copy()
        for c in (t if isinstance(t, dict) else self.columns): r[c] = r[c].astype(t[c] if isinstance(t, dict) else t)
        return r
    def assign(self, **k):
        r = self.copy()
        for c, v in k.items(): r[c] = v(r) if callable(v) else v
        return r
    def groupby(self, by=None, **k): return GroupBy(self, by, **k)
    def mean(self): return Series([self[c].mean() for c in self.columns], self.columns)
    def __repr__(self): return " ".join(map(str, self.columns)) + "\n" + "\n".join(" ".join(map(str, r)) for r in zip(*self._v))


class GroupBy:
    def __init__(self, d, by, cols=None, sort=True, as_index=True, dropna=True, **_):
        self.d, self.by, self.cols, self.as_index = d, by, cols, as_index
        keys = list(by) if isinstance(by, (list, tuple)) else [by]
        if not keys: raise ValueError("No group keys passed!")
        self.keys_ = keys
        kv = [list(k) if isinstance(k, Series) else d._c(k) for k in keys]
        g = {}
        for n in range(len(d)):
            k = tuple(v[n] for v in kv)
            if dropna and any(isna(x) for x in k): continue
            g.setdefault(k, []).append(n)
        self.g = dict(sorted(g.items())) if sort else g
        self.scalar = not isinstance(by, (list, tuple)) or (OLD and len(keys) == 1)

    def _name(self, k): return k[0] if self.scalar else k
    def _label(self, k): return k[0] if len(k) == 1 else k
    def _part(self, i):
        p = self.d._rows(i)
        return p if self.cols is None else p[self.cols]
    def __iter__(self): return ((self._name(k), self._part(i)) for k, i in self.g.items())
    def __len__(self): return len(self.g)
    ngroups = property(lambda s: len(s.g))
    @property
    def groups(self): return {self._label(k): Index(self.d.index[n] for n in i) for k, i in self.g.items()}
    def get_group(self, k): return self._part(self.g[k if isinstance(k, tuple) else (k,)])
    def __getitem__(self, c):
        r = GroupBy.__new__(GroupBy)
        r.__dict__.update(self.__dict__)
        r.cols = c
        return r
    def __getattr__(self, c):
        if c.startswith("_") or c not in self.__dict__["d"].columns: raise AttributeError(c)
        return self[c]
    def _agg(self, f):
        if isinstance(f, str): f = (lambda s, n=f: len(s) if n == "size" else getattr(s, n)())
        lab = [self._label(k) for k in self.g]
        if isinstance(self.cols, str):
            s = Series([f(self._part(i)) for i in self.g.values()], lab, self.cols)
            if self.as_index:
                keys = self.keys_
                s.reset_index = lambda drop=False, name=None: Series(s._v) if drop else DataFrame._make(keys + [name or s.name], [list(c) for c in zip(*self.g)] + [s._v])
                return s
            return DataFrame._make(self.keys_ + [self.cols], [list(c) for c in zip(*self.g)] + [s._v])
        cols = [c for c in (self.cols or self.d.columns) if c not in self.keys_]
        d = DataFrame._make(cols, [[f(self.d._rows(i)[c]) for i in self.g.values()] for c in cols], lab)
        keys = self.keys_
        if not self.as_index: return DataFrame._make(keys + cols, [list(c) for c in zip(*self.g)] + d._v)
        base = d
        d.reset_index = lambda drop=False: DataFrame._make(cols, base._v) if drop else DataFrame._make(keys + cols, [list(c) for c in zip(*self.g)] + base._v)
        return d
    def agg(self, f): return self._agg(f)
    aggregate = agg
    def mean(self, **k): return self._agg("mean")
    def min(self, **k): return self._agg("min")
    def max(self, **k): return self._agg("max")
    def sum(self, **k): return self._agg("sum")
    def median(self, **k): return self._agg("median")
    def count(self): return self._agg("count")
    def first(self): return self._agg("first")
    def idxmin(self): return self._agg("idxmin")
    def idxmax(self): return self._agg("idxmax")
    def size(self): return Series([len(i) for i in self.g.values()], [self._label(k) for k in self.g])
    def apply(self, f): return Series([f(self._part(i)) for i in self.g.values()], [self._label(k) for k in self.g])


NA = {"", "#N/A", "N/A", "NA", "NULL", "NaN", "None", "n/a", "nan", "null", "<NA>", "-nan", "-NaN", "1.#IND", "1.#QNAN", "-1.#IND", "-1.#QNAN", "#NA", "#N/A N/A"}


def _infer(vals, want=None):
    if want in (str, "str", "object", "string"): return [nan if v in NA else v for v in vals]
    conv = [nan if v in NA else v for v in vals]
    have = [v for v in conv if not isna(v)]
    def num(f):
        try: return [v if isna(v) else f(v) for v in conv] if have else None
        except ValueError: return None
    if want in (float, "float", "float64"): return [float(v) for v in conv]
    if want in (int, "int", "int64"): return [int(v) for v in conv]
    if not have: return [nan] * len(conv)
    r = num(lambda v: int(v) if v.strip().lstrip("+-").isdigit() else _bad()) or num(lambda v: float(v) if v.strip().lower().lstrip("+-")[:1] in "0123456789.i" else _bad())
    return _unify(r) if r is not None else conv


def _bad(): raise ValueError


def read_csv(f, sep=",", delimiter=None, header="infer", index_col=None, dtype=None, names=None, usecols=None, comment=None, engine=None, delim_whitespace=False, skiprows=None, **_):
    s = f.read() if hasattr(f, "read") else open(f).read()
    sep = delimiter or sep
    lines = [l for l in s.split("\n") if l.strip("\r") != ""]
    if comment: lines = [l for l in lines if not l.startswith(comment)]
    if skiprows: lines = lines[skiprows:]
    if not lines: raise EmptyDataError("No columns to parse from file")
    sp = (lambda l: l.split()) if delim_whitespace or sep in (r"\s+",) else (lambda l: l.split(sep))
    if names is not None: cols, rows = list(names), [sp(l) for l in (lines if header in (None, "infer") else lines[1:])]
    else: cols, rows = sp(lines[0]), [sp(l) for l in lines[1:]]
    n = len(cols)
    ix = None
    wide = max([len(r) for r in rows], default=n)
    if wide > n and index_col is None:
        ix = [r[0] for r in rows]
        rows = [r[1:] for r in rows]
    elif wide > n and index_col is not False:
        raise ParserError("Error tokenizing data.")
    rows = [r[:n] + [""] * (n - len(r)) for r in rows]
    want = dtype if isinstance(dtype, dict) else {c: dtype for c in cols}
    vals = [_infer([r[j] for r in rows], want.get(c)) for j, c in enumerate(cols)]
    d = DataFrame._make(cols, vals, ix) if rows else DataFrame._make(cols, [[] for _ in cols], [])
    return d[list(usecols)] if usecols is not None else d


def concat(objs, axis=0, ignore_index=False, sort=False, **_):
    objs = [o for o in (objs.values() if isinstance(objs, dict) else objs) if o is not None]
    if not objs: raise ValueError("No objects to concatenate")
    cols = list(dict.fromkeys(c for o in objs for c in o.columns))
    if sort and any(list(o.columns) != list(objs[0].columns) for o in objs): cols = sorted(cols)
    vals = []
    for c in cols:
        v = []
        for o in objs: v += o._c(c) if c in o.columns else [nan] * len(o)
        vals.append(v)
    ix = None if ignore_index else [x for o in objs for x in o.index]
    return DataFrame._make(cols, vals, ix)
