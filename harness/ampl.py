"""A stand-in for amplpy (not installed here): its DataFrame, variables and the AMPL object's setData."""
import sys, types


class DataFrame:
    def __init__(self, index, columns=()):
        assert isinstance(index, (str, tuple)) and index, index
        self.index = (index,) if isinstance(index, str) else tuple(index)
        assert all(isinstance(x, str) for x in self.index), index
        self.columns = {}
        self.order = []
        for c in self.index + tuple(columns):
            self._new(c, None)

    def _new(self, header, values):
        if header in self.columns:
            raise ValueError("column %s exists" % header)
        self.columns[header] = values
        self.order.append(header)

    def _fits(self, values):
        for v in values:
            if not isinstance(v, (int, float, str)):
                raise TypeError("AMPL has no value %r" % (v,))
        n = {len(v) for v in self.columns.values() if v is not None} | {len(values)}
        if len(n) > 1:
            raise ValueError("columns of different lengths")
        return list(values)

    def setColumn(self, header, column):
        if header not in self.columns:
            raise KeyError(header)
        self.columns[header] = self._fits(column)

    def addColumn(self, header, values=()):
        self._new(header, self._fits(values))


class Values:
    """what Variable.getValues() returns: index tuples to one or more suffixes"""
    def __init__(self, name, arity, entries, suffixes=("val",)):
        self.name, self.arity, self.entries, self.suffixes = name, arity, entries, suffixes

    def toDict(self):
        return {k: v for k, v in self.entries}

    def toPandas(self):
        import pandas as pd
        keys = [k for k, _ in self.entries]
        index = pd.Index(keys) if self.arity == 1 else pd.MultiIndex.from_tuples(keys)
        return pd.DataFrame({"%s.%s" % (self.name, s): [v for _, v in self.entries] for s in self.suffixes}, index=index)


class Variable:
    def __init__(self, *a):
        self.a = a

    def getValues(self):
        return Values(*self.a)


class AMPL:
    def __init__(self, refuse=()):
        self.calls, self.refuse = [], refuse

    def setData(self, data, set_name=None):
        if not isinstance(data, DataFrame):
            raise TypeError(data)
        if set_name in self.refuse:
            raise RuntimeError("no such set")
        self.calls.append((data, set_name))


def install():
    m = types.ModuleType("amplpy")
    m.DataFrame, m.AMPL = DataFrame, AMPL
    sys.modules["amplpy"] = m
    if "ticdat" in sys.modules:
        raise RuntimeError("ticdat was imported before the stand-in was installed")
