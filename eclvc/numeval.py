"""Numeric evaluation of term DAGs (ideal-real reading, evaluated in double) for counterexample search."""
import math
import random
from .terms import *
from .smt import dec_fraction
from . import terms as TM


class Undecided(Exception):
    pass


def evaluate(order, env, ufs=None):
    """order: topologically sorted nodes; env: sym name -> value; returns dict id -> value"""
    V = {}
    for t in order:
        o = t.op
        a = [V[x.id] for x in t.args]
        s = t.sort
        if o == 'sym':
            v = env[t.val]
        elif o == 'bc' or o == 'c':
            v = t.val
        elif o == 'fc':
            x = fval(t)
            v = float(dec_fraction(t)) if math.isfinite(x) else x
        else:
            try:
                v = _node(t, o, a, s)
            except (ZeroDivisionError, OverflowError, ValueError):
                v = math.nan
        V[t.id] = v
    return V


def _sg(x, t):
    return sgn(x, t.sort)


def _node(t, o, a, s):
    if o == 'not':
        return not a[0]
    if o == 'and':
        return all(a)
    if o == 'or':
        return any(a)
    if o == 'xor':
        return bool(a[0]) != bool(a[1])
    if o == 'ite':
        return a[1] if a[0] else a[2]
    if o == 'eq':
        if t.args[0].sort in ('f', 'd'):
            return feqv(a[0], a[1])
        return a[0] == a[1]
    if o == 'feq':
        return feqv(a[0], a[1])
    if o == 'flt':
        return a[0] < a[1]
    if o == 'fle':
        return a[0] <= a[1]
    if o == 'fisnan':
        return a[0] != a[0]
    if o == 'fisfinite':
        return math.isfinite(a[0])
    if o == 'fsignbit':
        return math.copysign(1, a[0]) < 0
    if o == 'fadd':
        return a[0] + a[1]
    if o == 'fsub':
        return a[0] - a[1]
    if o == 'fmul':
        return a[0] * a[1]
    if o == 'fdiv':
        return a[0] / a[1]
    if o == 'ffma':
        return a[0] * a[1] + a[2]
    if o == 'frem':
        return math.fmod(a[0], a[1])
    if o == 'fneg':
        return -a[0]
    if o == 'fabs':
        return abs(a[0])
    if o == 'fsqrt':
        return math.sqrt(a[0])
    if o in ('fpext', 'fptrunc'):
        return a[0]
    if o == 'ffloor':
        return float(math.floor(a[0]))
    if o == 'fceil':
        return float(math.ceil(a[0]))
    if o == 'ftrunc':
        return float(math.trunc(a[0]))
    if o == 'frint':
        return float(round(a[0]))
    if o == 'froundaway':
        return math.copysign(math.floor(abs(a[0]) + 0.5), a[0])
    if o == 'sitofp':
        return float(_sg(a[0], t.args[0]))
    if o == 'uitofp':
        return float(a[0])
    if o in ('fptosi', 'fptoui'):
        return int(a[0]) & ((1 << s) - 1)
    if o == 'fbits':
        return TM.fbitsval(fc(a[0], t.args[0].sort))
    if o == 'ffrombits':
        return TM.ffrombitsval(a[0], s)
    if o == 'fn':
        nm = t.val
        if nm.startswith('m_'):
            f = nm[2:]
            if f == 'cbrt':
                return math.copysign(abs(a[0]) ** (1 / 3), a[0])
            return getattr(math, f)(*a)
        r = random.Random(repr((nm, [round(x, 9) if isinstance(x, float) else x for x in a])))
        return r.uniform(-2, 2)
    M = (1 << s) - 1 if isinstance(s, int) else 0
    if o == 'add':
        return sum(a) & M
    if o == 'neg':
        return -a[0] & M
    if o == 'mul':
        return a[0] * a[1] & M
    if o == 'udiv':
        return a[0] // a[1] if a[1] else M
    if o == 'urem':
        return a[0] % a[1] if a[1] else a[0]
    if o == 'sdiv':
        return (TM._sdivf(a[0], a[1], s) or 0) & M
    if o == 'srem':
        return (TM._sremf(a[0], a[1], s) or 0) & M
    if o == 'shl':
        return (a[0] << a[1]) & M if a[1] < s else 0
    if o == 'lshr':
        return a[0] >> a[1] if a[1] < s else 0
    if o == 'ashr':
        return (_sg(a[0], t) >> min(a[1], s - 1)) & M
    if o == 'bvand':
        r = M
        for x in a:
            r &= x
        return r
    if o == 'bvor':
        r = 0
        for x in a:
            r |= x
        return r
    if o == 'bvxor':
        r = 0
        for x in a:
            r ^= x
        return r
    if o == 'zext':
        return int(a[0])
    if o == 'sext':
        return _sg(a[0], t.args[0]) & M
    if o == 'bit':
        return bool((a[0] >> t.val) & 1)
    if o == 'extract':
        return (a[0] >> t.val[1]) & ((1 << s) - 1)
    if o == 'concat':
        return (int(a[0]) << t.args[1].sort) | int(a[1])
    if o == 'ult':
        return a[0] < a[1]
    if o == 'slt':
        return _sg(a[0], t.args[0]) < _sg(a[1], t.args[0])
    raise Undecided(o)


def feqv(x, y):
    if x == y:
        return True
    if x != x or y != y or math.isinf(x) or math.isinf(y):
        raise Undecided('nonfinite')
    return abs(x - y) <= 1e-6 * max(abs(x), abs(y), 1e-9)


def confirm(order, env, assumptions, goal):
    """the same evaluation with 60 digits: a failure that is only rounding (cancellation) is no counterexample"""
    import mpmath
    mp = mpmath.mp
    old, mp.dps = mp.dps, 60
    F = {'m_' + n: getattr(mpmath, n) for n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'exp', 'log', 'sqrt')}
    F['m_log10'] = mpmath.log10
    F['m_pow'] = mpmath.power
    try:
        V = {}
        for t in order:
            o = t.op
            a = [V[x.id] for x in t.args]
            isf = t.sort in ('f', 'd')
            if o == 'sym':
                v = mpmath.mpf(env[t.val]) if isf else env[t.val]
            elif o in ('bc', 'c'):
                v = t.val
            elif o == 'fc':
                x = fval(t)
                if not math.isfinite(x):
                    return True
                q = dec_fraction(t)
                v = mpmath.mpf(q.numerator) / q.denominator
            elif o == 'fsqrt':
                v = mpmath.sqrt(a[0])
            elif o == 'fn' and t.val in F:
                v = F[t.val](*a)
            elif o in ('ffloor', 'fceil', 'ftrunc', 'frint', 'froundaway', 'frem', 'fbits', 'fn') or o == 'ffrombits':
                v = _node(t, o, [float(x) if isinstance(x, mpmath.mpf) else x for x in a], t.sort)
                v = mpmath.mpf(v) if isf else v
            elif o in ('fisfinite', 'fsignbit', 'fisnan'):
                v = _node(t, o, [float(x) for x in a], t.sort)
            else:
                v = _node(t, o, a, t.sort)
                if isf and not isinstance(v, mpmath.mpf):
                    v = mpmath.mpf(v)
            if isinstance(v, mpmath.mpc):
                return False
            V[t.id] = v
        return all(V[a.id] for a in assumptions) and not V[goal.id]
    except (ZeroDivisionError, OverflowError, ValueError, TypeError):
        return True
    finally:
        mp.dps = old


def search(assumptions, goal, seed=1, trials=300, hints=None, seconds=10):
    """find an assignment (ideal reals) with all assumptions true and goal false"""
    import time
    order = collect(list(assumptions) + [goal])
    syms = [t for t in order if t.op == 'sym']
    rnd = random.Random(seed)
    t0 = time.time()
    hints = dict(hints or {})
    try:
        from .interval import IV
        iv = IV()
        for a in assumptions:
            f = iv.facts(a)
            for t in syms:
                if t.id in f and t.sort in ('f', 'd'):
                    lo, hi, _ = f[t.id]
                    h = hints.get(t.val, (-math.inf, math.inf))
                    lo, hi = max(lo, h[0]), min(hi, h[1])
                    hints[t.val] = (lo, hi)
        for n, (lo, hi) in list(hints.items()):
            if math.isinf(lo) and math.isinf(hi) or lo > hi:
                del hints[n]
            elif math.isinf(lo):
                hints[n] = (hi - 1 - abs(hi), hi)
            elif math.isinf(hi):
                hints[n] = (lo, lo + 1 + abs(lo))
    except Exception:
        pass
    if any(type(t.sort) is tuple for t in syms):
        return None             # contents of arbitrary length
    for k in range(trials):
        if time.time() - t0 > seconds:
            break
        env = {}
        pool = []
        poolf = []
        for t in syms:
            h = (hints or {}).get(t.val)
            s = t.sort
            if s == 'B':
                v = rnd.random() < 0.5
            elif s in ('f', 'd'):
                if h:
                    q = rnd.random()
                    v = h[0] if q < .04 else h[1] if q < .08 else rnd.uniform(*h)
                else:
                    q = rnd.random()
                    v = rnd.uniform(-1, 1) if q < .6 else rnd.uniform(-10, 10) if q < .85 else rnd.uniform(0, 200) \
                        if q < .95 or not poolf else rnd.choice(poolf)
                    poolf.append(v)
                v = f32round(v) if s == 'f' else v
            else:
                q = rnd.random()
                if h:
                    v = rnd.randint(int(h[0]), int(h[1]))
                elif pool and q < .3:
                    v = (rnd.choice(pool) + rnd.randint(-1, 1)) & ((1 << s) - 1)
                elif q < .6:
                    v = rnd.randint(0, min(20, (1 << s) - 1))
                else:
                    v = rnd.randint(0, (1 << min(s, 30)) - 1)
                pool.append(v)
            env[t.val] = v
        try:
            V = evaluate(order, env)
            if all(V[a.id] for a in assumptions) and not V[goal.id]:
                if not confirm(order, env, assumptions, goal):
                    continue
                return {t.val: (t.sort, env[t.val]) for t in syms}
        except (Undecided, TypeError, OverflowError, ValueError):
            continue
    return None
