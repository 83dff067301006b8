"""Loads /repo's current pykrige sources for symbolic execution."""
import builtins
import os
import sys
import types
import warnings as real_warnings

from . import core, files, npshim
from .core import S, Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "src", "pykrige")

_code = {}


def source_file(name):
    """File for dotted module pykrige.x.y"""
    rel = name.split(".")[1:]
    p = os.path.join(PKG, *rel) if rel else PKG
    if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
        return os.path.join(p, "__init__.py"), True
    if os.path.exists(p + ".py"):
        return p + ".py", False
    if os.path.exists(p + ".pyx"):
        return p + ".pyx", False
    return None, False


def code_for(path):
    c = _code.get(path)
    if c is None:
        if path.endswith(".pyx"):
            from . import cy

            src, tree = cy.translate(path)
            c = compile(tree, path, "exec")
        else:
            with open(path) as f:
                src = f.read()
            c = compile(src, path, "exec")
        _code[path] = c
    return c


class Loader:
    """One fresh set of modules (per path)."""

    def __init__(self, extra=None):
        self.mods = {}
        self.ext = npshim.build_modules()
        self.ext.update(stub_modules())
        from . import cyrt

        self.ext["__cyrt"] = cyrt
        if extra:
            self.ext.update(extra)
        self.bi = dict(builtins.__dict__)
        self.bi.update(
            __import__=self._import,
            float=npshim.FloatShim,
            int=npshim.IntShim,
            str=npshim.StrShim,
            print=lambda *a, **k: None,
            open=files.sym_open,
            abs=abs,
            round=_round,
            isinstance=_isinstance,
            max=_pymax(max),
            min=_pymax(min),
            sum=_pysum,
            exec=_denied("exec"),
            eval=_denied("eval"),
            input=_denied("input"),
        )
        self.files = set()

    def get(self, name):
        if name in self.mods:
            return self.mods[name]
        path, ispkg = source_file(name)
        if path is None:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.bi
        self.mods[name] = m
        self.files.add(path)
        try:
            exec(code_for(path), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        par, _, leaf = name.rpartition(".")
        if par in self.mods:
            setattr(self.mods[par], leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or "pykrige"
            base = pkg.split(".")
            base = base[: len(base) - (level - 1)]
            full = ".".join(base + ([name] if name else []))
        else:
            full = name
        top = full.split(".")[0]
        if top == "pykrige":
            return self._import_pk(full, fromlist)
        if full.startswith("numpy._") or full.startswith("numpy.core"):
            # numpy's own C code importing its helpers
            return builtins.__import__(name, None, None, fromlist, 0)
        if full in self.ext or top in self.ext:
            if full not in self.ext:
                # unknown submodule of a stubbed package
                par = self.ext[top]
                if isinstance(par, ImportError):
                    raise par
                raise Unsupported("import " + full)
            m = self.ext[full]
            if isinstance(m, ImportError):
                raise m
            if fromlist:
                for f in fromlist:
                    sub = full + "." + f
                    if sub in self.ext and not hasattr(m, f):
                        setattr(m, f, self.ext[sub])
                return m
            # bind parents
            return self.ext[top]
        if top in ALLOWED:
            return builtins.__import__(name, None, None, fromlist, 0)
        raise Unsupported("import " + full)

    def _import_pk(self, full, fromlist):
        if full == "pykrige":
            # the package __init__ pulls in everything; a namespace suffices
            pk = self._pkg()
            for f in fromlist or ():
                if not hasattr(pk, f):
                    try:
                        setattr(pk, f, self.get("pykrige." + f))
                    except ModuleNotFoundError:
                        raise ImportError("cannot import name %r from 'pykrige'" % f)
            return pk
        self._pkg()
        parts = full.split(".")
        for i in range(2, len(parts)):
            self.get(".".join(parts[:i]))
        m = self.get(full)
        if fromlist:
            for f in fromlist:
                if not hasattr(m, f):
                    p, _ = source_file(full + "." + f)
                    if p:
                        setattr(m, f, self.get(full + "." + f))
            return m
        return self._pkg()

    def _pkg(self):
        pk = self.mods.get("pykrige")
        if pk is None:
            pk = types.ModuleType("pykrige")
            pk.__path__ = [PKG]
            pk.__package__ = "pykrige"
            self.mods["pykrige"] = pk
        return pk


ALLOWED = {
    "warnings", "os", "sys", "datetime", "re", "itertools", "functools", "copy", "collections", "string",
    "operator", "numbers", "typing", "textwrap", "logging", "contextlib", "types", "inspect", "abc",
    "dataclasses", "enum", "__future__", "time", "bisect", "locale", "platform",
}


def _round(x, nd=None):
    if isinstance(x, S):
        r = core.CTX.rnd(x, nd or 0)
        return r if nd is not None else core._concretize_int(r)
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


def _isinstance(o, t):
    if type(o) is S:
        ts = t if isinstance(t, tuple) else (t,)
        import numbers

        import numpy as np

        for x in ts:
            if x in (builtins.float, npshim.FloatShim, np.floating, np.number, np.generic, np.float64, numbers.Number, numbers.Real, S):
                return True
        return False
    return builtins.isinstance(o, t)


def _pymax(f):
    def g(*a, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if xs and not k and any(isinstance(x, S) for x in xs):
            from .core import lift

            return core.CTX.minmax([lift(x) for x in xs], "max" if f is max else "min")
        return f(*a, **k)
    return g


def _pysum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def _denied(n):
    def g(*a, **k):
        raise Unsupported(n)
    return g


def stub_modules():
    """Third-party packages the code imports but whose behaviour is replaced
    by the harness."""
    def mod(name, **kw):
        m = npshim.StrictModule(name)
        m.__dict__.update(kw)
        return m

    class BaseEstimator:
        def get_params(self, deep=True):
            import inspect

            names = [p for p in inspect.signature(type(self).__init__).parameters if p != "self"]
            return {n: getattr(self, n) for n in names}

        def set_params(self, **p):
            for k, v in p.items():
                setattr(self, k, v)
            return self

    class RegressorMixin:
        pass

    class ClassifierMixin:
        pass

    class SVR(RegressorMixin, BaseEstimator):
        def __init__(self):
            pass

    class SVC(ClassifierMixin, BaseEstimator):
        def __init__(self):
            pass

    def r2_score(y_true, y_pred, sample_weight=None):
        y_true, y_pred = npshim.sarr(y_true), npshim.sarr(y_pred)
        m = y_true.sum() / y_true.size
        return 1 - ((y_true - y_pred) ** 2).sum() / ((y_true - m) ** 2).sum()

    def accuracy_score(y_true, y_pred, sample_weight=None):
        import numpy as np

        y_true = list(np.asarray(y_true).ravel())
        return builtins.sum(1 for a, b in zip(y_true, y_pred) if a == b) / len(y_true)

    class Dense:
        def __init__(self, a):
            self.a = a

        def todense(self):
            return self.a

        def toarray(self):
            return self.a

    class OneHotEncoder:
        """Indicator matrix of each column's category."""

        def __init__(self, categories="auto", sparse_output=True, **k):
            self.categories = categories
            self.sparse = sparse_output

        def fit_transform(self, y):
            import numpy as np

            y = np.asarray(y)
            if y.ndim != 2:
                raise ValueError("Expected 2D array, got 1D array instead")
            cats = list(self.categories[0]) if self.categories != "auto" else sorted(set(y[:, 0].tolist()))
            out = npshim.f_zeros((len(y), len(cats)))
            for i, v in enumerate(y[:, 0]):
                if v not in cats:
                    raise ValueError("Found unknown categories")
                out[i, cats.index(v)] = 1.0
            return Dense(out) if self.sparse else out

        def fit(self, y):
            return self

        transform = fit_transform

    base = mod("sklearn.base", BaseEstimator=BaseEstimator, RegressorMixin=RegressorMixin,
               ClassifierMixin=ClassifierMixin)
    ms = mod("sklearn.model_selection", train_test_split=None)
    metrics = mod("sklearn.metrics", r2_score=r2_score, accuracy_score=accuracy_score)
    pre = mod("sklearn.preprocessing", OneHotEncoder=OneHotEncoder)
    svm = mod("sklearn.svm", SVR=SVR, SVC=SVC)
    sk = mod("sklearn", base=base, model_selection=ms, metrics=metrics, preprocessing=pre, svm=svm)

    class CovModel:
        """Stand-in for gstools.CovModel: what pykrige uses of it."""

        pykrige_kwargs = {}

    gs = mod("gstools", CovModel=CovModel, __version__="1.7.0")
    iom = mod("io", open=files.sym_open, StringIO=__import__("io").StringIO)
    return {
        "sklearn": sk, "sklearn.base": base, "sklearn.model_selection": ms, "sklearn.metrics": metrics,
        "sklearn.preprocessing": pre, "sklearn.svm": svm, "gstools": gs, "io": iom,
        "matplotlib": ImportError("matplotlib"), "matplotlib.pyplot": ImportError("matplotlib"),
    }
