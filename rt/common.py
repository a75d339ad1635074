"""Shared pieces of the run-time contract checks (run with the project's own interpreter)."""
import math, os, random, struct, sys, warnings
warnings.simplefilter("ignore")
import numpy as np
np.seterr(all="ignore")
import qctrlopencontrols as q
from qctrlopencontrols.exceptions import ArgumentsValueError, QctrlError

PI = math.pi


class Bad(Exception):
    """A contract clause is broken on this input."""

    def __init__(self, clause, text):
        super().__init__("%s: %s" % (clause, text))
        self.clause = clause
        self.text = text


def need(cond, clause, text=""):
    if isinstance(cond, np.ndarray) or not cond:  # an array where one value is stated
        raise Bad(clause, text() if callable(text) else str(text))


def close(a, b, rel=1e-9, abs_=0.0):
    """a, b finite numbers (real or complex), equal up to a relative/absolute tolerance."""
    try:
        d = abs(a - b)
    except Exception:
        return False
    if isinstance(d, np.ndarray) or not d == d:
        return False
    return d <= abs_ + rel * max(abs(a), abs(b))


def same_list(xs, ys, rel=1e-9, abs_=0.0):
    xs = list(xs)
    ys = list(ys)
    return len(xs) == len(ys) and all(close(a, b, rel, abs_) for a, b in zip(xs, ys))


def is_real(x):
    return isinstance(x, (int, float, np.floating, np.integer)) and not isinstance(x, bool)


def container(values, kind):
    if values is None:
        return None
    if kind == "list":
        return list(values)
    if kind == "tuple":
        return tuple(values)
    if kind == "iarr":
        return np.array([int(v) for v in values], dtype=int)
    return np.array(values, dtype=float)


def outcome(fn):
    """('ok', value) or ('args', error) or ('other', error)."""
    try:
        return "ok", fn()
    except ArgumentsValueError as e:
        return "args", e
    except Exception as e:  # anything else is never part of the contract
        return "other", e


def expect_ok(fn, clause, what):
    kind, v = outcome(fn)
    need(kind == "ok", clause, lambda: "%s raised %s: %s" % (what, type(v).__name__, str(v)[:300]))
    return v


def expect_rejected(fn, clause, what):
    kind, v = outcome(fn)
    need(kind != "ok", clause, lambda: "%s was accepted" % what)
    need(kind == "args", clause, lambda: "%s raised %s (%s) instead of the arguments error" % (what, type(v).__name__, str(v)[:200]))
    return v


# ---- controls -------------------------------------------------------------------------
def mk_control(case):
    dtype = int if case.get("whole") else float
    return q.DrivenControl(
        durations=np.array(case["durations"], dtype=dtype),
        rabi_rates=np.array(case["rabi"], dtype=dtype),
        azimuthal_angles=np.array(case["az"], dtype=dtype),
        detunings=np.array(case["det"], dtype=dtype),
        name=case.get("name"),
    )


def loguni(rng, lo, hi):
    return 10.0 ** rng.uniform(lo, hi)


NAMES = [None, "ctl", "a b:c", "", "n=1", "x,y \"z\""]


# ---- constants of the code: where the proof has gaps, inputs are also drawn around them --------
def code_constants():
    """Numbers in the source of the package, and text that values are compared with."""
    import ast, glob, os
    nums, text = set(), set()
    for f in sorted(glob.glob(os.path.join(os.path.dirname(q.__file__), "**", "*.py"), recursive=True)):
        with open(f) as fh:
            tree = ast.parse(fh.read())
        for x in ast.walk(tree):
            if isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and not isinstance(x.value, bool) and 0 < x.value < 1e15:
                nums.add(x.value)
            if isinstance(x, ast.Compare):
                text |= {y.value for y in ast.walk(x) if isinstance(y, ast.Constant) and isinstance(y.value, str) and len(y.value) < 60}
    return sorted(nums), sorted(text)


HINTS = bool(os.environ.get("RT_HINTS"))
CONST, TEXT = code_constants() if HINTS else ([], [])
SIZES = sorted({int(c) + j for c in CONST if 4 < c < 3000 and c == int(c) for j in (-1, 0, 1)})
NAMES += TEXT


def size_near(rng, n, most=3000, half=False):
    """n, or now and then a size next to a constant of the code (or half of one: a pulse and a gap are two segments)."""
    pool = [s for s in (sorted(set(SIZES) | {s // 2 for s in SIZES}) if half else SIZES) if s <= most]
    # the larger ones less often, for they take longer
    return rng.choices(pool, [1 / (20.0 + s) for s in pool])[0] if pool and rng.random() < 0.3 else n


def value_near(rng, v):
    """v, or now and then a value at or next to a constant of the code."""
    if not CONST or rng.random() >= 0.25:
        return v
    return float(rng.choice(CONST)) * rng.choice([1.0, 1.0, 1 + 1e-7, 1 - 1e-7, 1.05, 0.95])


def gen_control(rng, n=None):
    n = size_near(rng, n or rng.choice([1, 1, 1, 2, 2, 3, 3, 4, 4, 5, 7, 12, 12, 30, 30, 140]))
    if rng.random() < 0.07:
        # arrays of whole numbers (an integer dtype)
        return dict(durations=[rng.randint(1, 4) for _ in range(n)], rabi=[rng.randint(0, 5) for _ in range(n)], az=[rng.randint(-3, 3) for _ in range(n)],
                    det=[rng.randint(-5, 5) for _ in range(n)], name=rng.choice(NAMES), whole=True)
    scale = rng.choice([1.0, 1.0, 2 * PI, 1e-6, 1e6, 1e-3, 1e9])
    tscale = rng.choice([1.0, 1e-6, 1e3])
    mode = rng.choice(["mixed", "mixed", "norabi", "nodet", "none", "negdet", "posdet", "const"])
    rabi, az, det, dur = [], [], [], []
    for i in range(n):
        r = scale * rng.choice([0.0, 1.0, rng.uniform(0, 3), rng.uniform(0, 3), loguni(rng, -6, 2)])
        d = scale * rng.choice([0.0, 1.0, -1.0, rng.uniform(-3, 3), rng.uniform(-3, 3)])
        if mode in ("norabi", "none"):
            r = 0.0
        if mode in ("nodet", "none"):
            d = 0.0
        if mode == "negdet":
            d = -abs(d) - scale * 0.1
        if mode == "posdet":
            d = abs(d) + scale * 0.1
        if mode == "const":
            r, d = 2.0 * scale, -0.5 * scale
        rabi.append(r)
        det.append(d)
        az.append(rng.choice([0.0, PI / 2, PI, -PI / 2, rng.uniform(-7, 7), rng.uniform(-7, 7)]))
        dur.append(tscale * rng.choice([1.0, rng.uniform(0.01, 3), loguni(rng, -4, 2)]))
    if HINTS:
        i = rng.randrange(n)
        dur[i], rabi[i] = value_near(rng, dur[i]), value_near(rng, rabi[i])
        az[i], det[i] = value_near(rng, az[i]), value_near(rng, det[i]) * rng.choice([1, -1])
    return dict(durations=dur, rabi=rabi, az=az, det=det, name=rng.choice(NAMES))


BANK_CONTROLS = [
    dict(durations=[1.0], rabi=[0.0], az=[0.0], det=[0.0], name=None),
    dict(durations=[1.0], rabi=[2.0], az=[0.3], det=[-1.5], name="one"),
    dict(durations=[1.0, 2.0, 0.5], rabi=[0.0, 3.0, 1.0], az=[0.1, -0.4, 2.0], det=[-1.0, -2.0, -0.25], name=None),
    dict(durations=[0.25, 2.0, 0.5, 4.0], rabi=[3.0, 0.0, 1.0, 2.0], az=[0.1, 0.7, -2.0, 4.0], det=[0.5, 0.0, -2.5, 1.0], name="abc"),
    dict(durations=[3.0, 1.0], rabi=[0.0, 0.0], az=[1.0, 2.0], det=[0.0, 0.0], name=None),
    dict(durations=[3.0, 1.0], rabi=[0.0, 0.0], az=[1.0, 2.0], det=[-3.0, -0.5], name="z"),
    dict(durations=[1.0, 2.0], rabi=[1e-9, 2e-9], az=[0.5, 0.25], det=[3e-9, -1e-9], name=None),
    dict(durations=[1e-6, 2e-6, 7e-6], rabi=[1e7, 2e6, 0.0], az=[0.5, 0.25, 1.0], det=[0.0, -1e6, 3e6], name="big"),
    dict(durations=[1.0, 1e-17, 3e-18, 2.0], rabi=[2.0, 1.0, 3.0, 0.0], az=[0.1, 0.2, 0.3, 0.4], det=[0.5, -1.0, 0.0, 0.0], name=None),
]



def long_control(n):
    return dict(durations=[0.5 + ((7 * i) % 11) / 8.0 for i in range(n)], rabi=[((5 * i) % 13) / 4.0 for i in range(n)], az=[((3 * i) % 17) / 8.0 - 1.0 for i in range(n)],
                det=[((9 * i) % 19) / 4.0 - 2.0 for i in range(n)], name="long")


def long_seq(n):
    return dict(duration=10.0, offsets=[10.0 * (i + 0.5) / n for i in range(n)], rabi=[PI * (i % 3 == 0) for i in range(n)], az=[((3 * i) % 17) / 8.0 - 1.0 for i in range(n)],
                det=[(PI / 2) * (i % 3 == 1) * (-1) ** i for i in range(n)], name="long")


# ---- sequences ------------------------------------------------------------------------


def mk_seq(case):
    return q.DynamicDecouplingSequence(
        duration=case["duration"],
        offsets=np.array(case["offsets"], dtype=int if case.get("whole") else float),
        rabi_rotations=np.array(case["rabi"], dtype=float),
        azimuthal_angles=np.array(case["az"], dtype=float),
        detuning_rotations=np.array(case["det"], dtype=float),
        name=case.get("name"),
    )


def gen_seq(rng, n=None, spread=True):
    """Increasing offsets, one kind of rotation per pulse."""
    n = size_near(rng, rng.choice([0, 1, 1, 1, 2, 2, 3, 3, 4, 6, 6, 10, 10, 25]) if n is None else n, 600, True)
    T = value_near(rng, rng.choice([1.0, 10.0, 1e-6, 3e-3, 250.0, rng.uniform(0.5, 20)]))
    if spread:
        offs = [T * (i + rng.uniform(0.3, 0.7)) / n for i in range(n)]
    else:
        offs = sorted(T * rng.random() for _ in range(n))
    whole = rng.random() < 0.07
    if whole:
        # whole offsets (an integer dtype)
        T = rng.randint(n + 1, 2 * n + 5)
        offs = sorted(rng.sample(range(T + 1), n))
    elif n and rng.random() < 0.35:
        offs[0] = 0.0
    if n > 1 and rng.random() < 0.35:
        offs[-1] = T
    elif n == 1 and rng.random() < 0.2:
        offs[0] = T
    rabi, az, det = [], [], []
    kinds = rng.choice([["r", "r", "d", "d", "0"], ["r", "d"]])
    for i in range(n):
        kind = rng.choice(kinds)
        ang = value_near(rng, rng.choice([PI, PI / 2, PI / 4, rng.uniform(0.1, 6), rng.uniform(0.1, 6), loguni(rng, -5, 0)]))
        rabi.append(ang if kind == "r" else 0.0)
        az.append(rng.choice([0.0, PI / 2, PI, rng.uniform(-4, 4), rng.uniform(-4, 4)]))
        det.append(ang * rng.choice([1, -1]) if kind == "d" else 0.0)
    return dict(duration=T, offsets=offs, rabi=rabi, az=az, det=det, name=rng.choice(NAMES), **(dict(whole=True) if whole else {}))


# ---- 2x2 unitaries (plain complex arithmetic) --------------------------------------------
def su2(ang, nx, ny, nz):
    c, s = math.cos(ang / 2), math.sin(ang / 2)
    return (complex(c, -s * nz), complex(-s * ny, -s * nx), complex(s * ny, -s * nx), complex(c, s * nz))


def mul(a, b):
    return (a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3])


ID = (1 + 0j, 0j, 0j, 1 + 0j)


def dist(a, b):
    """Distance of two unitaries up to a global phase."""
    tr = sum(x.conjugate() * y for x, y in zip(a, b))
    if abs(tr) < 1e-12:
        return 2.0
    ph = tr / abs(tr)
    return math.sqrt(sum(abs(y - ph * x) ** 2 for x, y in zip(a, b)))


def infid(a, b):
    tr = sum(x.conjugate() * y for x, y in zip(a, b))
    return 1 - abs(tr) / 2


def control_unitary(ctl, amp=0.0, det=0.0):
    u = ID
    for r, f, d, t in zip(ctl.rabi_rates, ctl.azimuthal_angles, ctl.detunings, ctl.durations):
        x = float(r) * (1 + amp) * math.cos(f)
        y = float(r) * (1 + amp) * math.sin(f)
        z = float(d) + det
        m = math.sqrt(x * x + y * y + z * z)
        if m > 0:
            u = mul(su2(m * float(t), x / m, y / m, z / m), u)
    return u
