"""Common machinery: the context given to a check, violations, and deterministic array contents."""

import contextlib
import os
import shutil
import signal
import sys
import tempfile
import traceback

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")

# a single call into the code under test normally takes milliseconds
CALL_LIMIT_S = 240


class Violation(AssertionError):
    """The code under test broke the property."""


class CallTimeout(BaseException):
    """A call into the code under test did not come back (not an Exception: nothing may swallow it)."""


class HarnessError(Exception):
    """The check itself is wrong or cannot run."""


def _alarm(signum, frame):
    raise CallTimeout(f"a call did not return in time")


class Ctx:
    """What a check gets for one case."""

    def __init__(self, tmp):
        self.tmp = tmp
        self.labels = {}
        self.is_nontrivial = False
        self.calls = 0
        self._n = 0

    # ---- bookkeeping
    def label(self, name, on=True):
        if on:
            self.labels[name] = self.labels.get(name, 0) + 1

    def nontrivial(self, on=True):
        if on:
            self.is_nontrivial = True

    def path(self, name):
        """A fresh path inside the scratch directory of the case."""
        self._n += 1
        d = os.path.join(self.tmp, str(self._n))
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, name)

    # ---- verdicts
    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg):
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    @contextlib.contextmanager
    def sut(self, what="call", limit=CALL_LIMIT_S):
        """Code that calls pymech or takes its result apart: an exception here means the property is broken."""
        self.calls += 1
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(limit)
        try:
            with np.errstate(all="ignore"), quiet():
                yield
        except (Violation, CallTimeout, HarnessError, KeyboardInterrupt):
            raise
        except Exception as e:  # noqa: BLE001
            if _is_hypothesis(e):
                raise
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:])
            raise Violation(f"{what}: unexpected {type(e).__name__}: {str(e)[:300]} (at {where})") from e
        except SystemExit as e:
            raise Violation(f"{what}: exited ({e})") from e
        finally:
            signal.alarm(0)

    def raises(self, fn, what, exc=Exception):
        """The call must be refused. Returns the exception."""
        self.calls += 1
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(CALL_LIMIT_S)
        try:
            with np.errstate(all="ignore"), quiet():
                fn()
        except (Violation, CallTimeout, HarnessError, KeyboardInterrupt):
            raise
        except exc as e:
            return e
        except Exception as e:  # noqa: BLE001
            if _is_hypothesis(e):
                raise
            raise Violation(f"{what}: raised {type(e).__name__} ({str(e)[:200]}), expected {exc}") from e
        finally:
            signal.alarm(0)
        raise Violation(f"{what}: was accepted, expected an error")

    def outcome(self, fn):
        """('ok', value) or ('error', exception)."""
        self.calls += 1
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(CALL_LIMIT_S)
        try:
            with np.errstate(all="ignore"), quiet():
                return "ok", fn()
        except (Violation, CallTimeout, HarnessError, KeyboardInterrupt):
            raise
        except Exception as e:  # noqa: BLE001
            if _is_hypothesis(e):
                raise
            return "error", e
        finally:
            signal.alarm(0)


def _is_hypothesis(e):
    return type(e).__module__.startswith("hypothesis")


@contextlib.contextmanager
def quiet():
    """pymech prints from a few places; keep the check's own output readable."""
    with open(os.devnull, "w") as null, contextlib.redirect_stdout(null):
        yield


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH") or None)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ----------------------------------------------------------------------------
# deterministic contents
M64 = np.uint64(0xFFFFFFFFFFFFFFFF)


def mix(salt, n, stream=0):
    """n pseudo-random uint64 that are a pure function of (salt, stream): splitmix64."""
    with np.errstate(all="ignore"):
        z = (
            np.arange(1, n + 1, dtype=np.uint64) * np.uint64(0x9E3779B97F4A7C15)
            + np.uint64(salt & 0xFFFFFFFF) * np.uint64(0xD1342543DE82EF95)
            + np.uint64(stream & 0xFFFFFFFF) * np.uint64(0xA0761D6478BD642F)
        )
        z = (z ^ (z >> np.uint64(30))) * np.uint64(0xBF58476D1CE4E5B9)
        z = (z ^ (z >> np.uint64(27))) * np.uint64(0x94D049BB133111EB)
        return z ^ (z >> np.uint64(31))


def unit(salt, n, stream=0):
    """n floats in [0, 1)."""
    return (mix(salt, n, stream) >> np.uint64(11)).astype(np.float64) / 2.0**53


SPECIALS = [
    0.0, -0.0, 1.0, -1.0, float("inf"), float("-inf"), float("nan"), 5e-324, -5e-324, 2.2250738585072014e-308,
    1e-40, -1e-40, 1.1754943508222875e-38, 3.4028234663852886e38, -3.4028235677973366e38, 1e39, 1.7976931348623157e308,
    0.1, 1 / 3, 16777217.0, 2.0**53 - 1, -6.54321, 1e5, 1e-5, 123456.789, 1e300, -1e300,
]


def values(salt, n, mode="real", stream=0):
    """n float64 values. mode: 'tag' distinct small integers, 'real' reals of all moderate sizes,
    'wild' any finite bit pattern with special values mixed in (canonical NaN and infinities included)."""
    if mode == "tag":
        return np.arange(1, n + 1, dtype=np.float64) + (salt % 7919) * 4096.0 + stream * 131072.0
    if mode == "real":
        u = unit(salt, n, stream * 3 + 1)
        e = unit(salt, n, stream * 3 + 2)
        return (2 * u - 1) * 10.0 ** np.round(8 * e - 4)
    if mode == "wild":
        raw = mix(salt, n, stream * 3 + 1)
        v = raw.view(np.float64).copy()
        with np.errstate(all="ignore"):
            v[~np.isfinite(v)] = 1.5
        pick = mix(salt, n, stream * 3 + 2)
        which = (pick % np.uint64(3)) == 0
        idx = ((pick >> np.uint64(8)) % np.uint64(len(SPECIALS))).astype(int)
        v[which] = np.array(SPECIALS)[idx[which]]
        return v
    raise HarnessError(mode)


def same_bits(a, b):
    """Equal values, NaN equal to NaN, and zeros of the same sign."""
    a = np.asarray(a, dtype=np.float64)
    b = np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        eq = (a == b) | (np.isnan(a) & np.isnan(b))
        return bool(np.all(eq & ((a != 0) | (np.signbit(a) == np.signbit(b)))))


def first_diff(a, b):
    a = np.asarray(a, dtype=np.float64)
    b = np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return f"shapes {a.shape} and {b.shape}"
    with np.errstate(all="ignore"):
        bad = ~((a == b) | (np.isnan(a) & np.isnan(b))) | ((a == 0) & (np.signbit(a) != np.signbit(b)))
    idx = np.argwhere(bad)
    if len(idx) == 0:
        return "no difference"
    i = tuple(int(k) for k in idx[0])
    return f"at {list(i)}: {a[i]!r} and {b[i]!r} ({len(idx)} differ)"


def setup_imports():
    """Make /repo/src and hypothesis importable, whatever state the checkout is in."""
    import types

    src = os.path.join(REPO, "src")
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != HERE]
    sys.path.insert(0, HERE)
    sys.path.insert(0, src)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    if not os.path.exists(os.path.join(src, "pymech", "_version.py")):
        m = types.ModuleType("pymech._version")
        m.__version__ = m.version = "0"
        m.version_tuple = m.__version_tuple__ = (0,)
        sys.modules["pymech._version"] = m

    # xarray finds the engine through the installed metadata; supply it if the package is not installed
    import importlib.metadata as md

    try:
        eps = md.entry_points(group="xarray.backends", name="pymech")
        have = bool(list(eps))
    except Exception:  # noqa: BLE001
        have = False
    if not have:
        d = os.path.join(os.environ.get("VERIF_SCRATCH") or tempfile.mkdtemp(), "dist")
        info = os.path.join(d, "pymech-0.dist-info")
        os.makedirs(info, exist_ok=True)
        with open(os.path.join(info, "METADATA"), "w") as f:
            f.write("Metadata-Version: 2.1\nName: pymech\nVersion: 0\n")
        with open(os.path.join(info, "entry_points.txt"), "w") as f:
            f.write("[xarray.backends]\npymech = pymech.dataset:PymechXarrayBackend\n")
        sys.path.append(d)
