"""Recording executions of the real code as JSON events for the trace specification."""
import inspect, math, signal
import numpy as np


def num(x):
    x = float(x)
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    return repr(x)


def _nest(a):
    if a.ndim == 0:
        return _leaf(a.item())
    if a.ndim == 1:
        return [_leaf(v) for v in a.tolist()]
    return [_nest(b) for b in a]


def _leaf(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return v if abs(v) < 2**31 else str(v)
    if isinstance(v, complex):
        return "complex"
    return num(v)


def tonp(x):
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    return np.asarray(x)


def arr(x):
    """Any array: shape, all-finite flag, number kind and nested data."""
    try:
        a = tonp(x)
        if a.dtype == object:
            raise TypeError
    except Exception:
        return dict(sh=[-1], fin=False, k="other", d=[], ty=type(x).__name__)
    k = {"b": "bool", "i": "int", "u": "int", "f": "float", "c": "complex"}.get(a.dtype.kind, "other")
    fin = bool(np.isfinite(a).all()) if k in ("int", "float") else k == "bool"
    return dict(sh=list(a.shape), fin=fin, k=k, d=_nest(a) if k != "other" else [])


def flt(x):
    """Array as floats, whatever its number type."""
    try:
        return arr(tonp(x).astype(np.float64))
    except Exception:
        return arr(x)


def private(obj, name, *params):
    """A function that users do not call by themselves, or None when the code no longer has it in the form known here
    (its behaviour is then judged only through the public calls)."""
    fn = getattr(obj, name, None)
    try:
        ps = list(inspect.signature(fn).parameters.values())
    except (TypeError, ValueError):
        return None
    need = [p for p in ps if p.default is p.empty]
    if any(p.kind not in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD) for p in need):
        return None
    return fn if tuple(p.name for p in need) == params else None


def talk(n, name=""):
    """How much the code under test is asked to tell about its progress; the results do not depend on it."""
    import zlib
    return [dict(verbose=False), dict(verbose=True), {}][(n + zlib.crc32(name.encode())) % 3]


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


class Rec:
    """Events of one scenario."""

    def __init__(self, name, limit=60):
        self.name, self.events, self.limit = name, [], limit

    def ev(self, op, **f):
        e = dict(op=op)
        e.update(f)
        self.events.append(e)
        return e

    def talk(self):
        return talk(len(self.events), self.name)

    def call(self, fn, *a, **k):
        """Run a call of the code under test: (value, None) or (None, error name)."""
        try:
            return fn(*a, **k), None
        except Timeout:
            raise
        except Exception as e:  # noqa: the error is an observation
            return None, type(e).__name__ + ": " + str(e)[:200]

    def must(self, fn, *a, **k):
        """A call that the specification says succeeds; a failure ends the scenario as an event."""
        v, err = self.call(fn, *a, **k)
        if err is not None:
            self.ev("unexpected_error", what=getattr(fn, "__name__", str(fn))[:80], err=err)
            raise Stop()
        return v


class Stop(Exception):
    pass


def run_scenario(fn, scn, limit):
    r = Rec(scn.get("name", "?"))
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        fn(scn, r)
    except Stop:
        pass
    except Timeout:
        r.ev("unexpected_error", what="scenario", err="no answer within %ds" % limit)
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if "/xrd_simulator/" in f.filename]
        own = tb[-1]
        # An exception out of the code under test is an observation, one of the harness is not,
        # except where the harness cannot digest what the code returned.
        r.ev("unexpected_error", what="scenario",
             err="%s: %s (at %s:%s)" % (type(e).__name__, str(e)[:200], own.filename.split("/")[-1], own.lineno),
             inside=bool(inside))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return r.events
