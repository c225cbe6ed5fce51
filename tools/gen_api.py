"""Regenerate tkstatic/api.json: names and call signatures of the third-party
interfaces the analysed code is resolved against (run once with the project's
interpreter; the checks only read the committed JSON)."""
import inspect, json, sys, warnings
warnings.simplefilter("ignore")
import numpy as np, pandas as pd, scipy.stats, scipy.special, scipy.optimize, functools, itertools
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt, seaborn as sns
from matplotlib.axes import Axes
from matplotlib.figure import Figure
from pandas.core.groupby import DataFrameGroupBy, SeriesGroupBy

def sig(o):
    try:
        s = inspect.signature(o)
    except (ValueError, TypeError):
        return None
    k = {inspect.Parameter.POSITIONAL_ONLY: "p", inspect.Parameter.POSITIONAL_OR_KEYWORD: "n",
         inspect.Parameter.VAR_POSITIONAL: "*", inspect.Parameter.KEYWORD_ONLY: "k",
         inspect.Parameter.VAR_KEYWORD: "**"}
    return [[p.name, k[p.kind], 0 if p.default is inspect._empty else 1] for p in s.parameters.values()]

def cls(c):
    d = {}
    for n in dir(c):
        if n.startswith("__") and n not in ("__init__",):
            continue
        try:
            o = getattr(c, n)
        except Exception:
            d[n] = None; continue
        if isinstance(o, property) or not callable(o) or inspect.isclass(o):
            d[n] = None
        else:
            s = sig(o)
            raw = inspect.getattr_static(c, n)
            if s and not isinstance(raw, (staticmethod, classmethod)):
                s = s[1:]
            d[n] = s
    return d

def mod(m):
    d = {}
    for n in dir(m):
        if n.startswith("__"):
            continue
        try:
            o = getattr(m, n)
        except Exception:
            d[n] = None; continue
        d[n] = sig(o) if callable(o) and not inspect.isclass(o) else None
    return d

api = {"classes": {"DataFrame": cls(pd.DataFrame), "Series": cls(pd.Series), "Index": cls(pd.Index),
                   "MultiIndex": cls(pd.MultiIndex), "DataFrameGroupBy": cls(DataFrameGroupBy),
                   "SeriesGroupBy": cls(SeriesGroupBy), "ndarray": {k: None for k in cls(np.ndarray)},
                   "RandomState": {k: None for k in cls(np.random.RandomState)},
                   "Generator": {k: None for k in cls(np.random.Generator)},
                   "FacetGrid": cls(sns.FacetGrid), "Axes": {k: None for k in cls(Axes)},
                   "Figure": {k: None for k in cls(Figure)},
                   "str": {k: None for k in dir(str)}, "list": {k: None for k in dir(list)},
                   "dict": {k: None for k in dir(dict)}, "tuple": {k: None for k in dir(tuple)},
                   "set": {k: None for k in dir(set)}, "rv_frozen": {k: None for k in dir(scipy.stats.norm())},
                   "float": {k: None for k in dir(np.float64)}, "int": {k: None for k in dir(np.int64)}},
       "modules": {"pandas": mod(pd), "numpy": mod(np), "numpy.random": mod(np.random),
                   "scipy.stats": {k: (v if k in ("gmean","variation","skew","kurtosis","mode") else None) for k, v in mod(scipy.stats).items()},
                   "scipy.special": {k: None for k in mod(scipy.special)},
                   "scipy.optimize": mod(scipy.optimize),
                   "functools": {k: None for k in dir(functools)}, "itertools": {k: None for k in dir(itertools)},
                   "matplotlib.pyplot": {k: None for k in mod(plt)}, "seaborn": {k: None for k in mod(sns)}},
       "versions": {"pandas": pd.__version__, "numpy": np.__version__, "scipy": scipy.__version__}}
cl = inspect.signature(sns.FacetGrid)
api["modules"]["seaborn"]["FacetGrid"] = sig(sns.FacetGrid)
api["modules"]["pandas"]["DataFrame"] = sig(pd.DataFrame)
api["modules"]["pandas"]["Series"] = sig(pd.Series)
json.dump(api, open(sys.argv[1], "w"), separators=(",", ":"), sort_keys=True)
