"""Machine-float interval back end ('iv'): sound outward-rounded interval evaluation of an obligation of the form
   (x <= c), (x < c), isfinite(x), !isnan(x) or conjunctions, with if-then-else refinement.
   Value of a float term: (lo, hi, nan) = every non-NaN value lies in [lo, hi]; nan = may be NaN."""
import math
import sys
import numpy as np
from .terms import *

INF = math.inf
sys.setrecursionlimit(100000)


def rdn(x, s):
    if s == 'f':
        with np.errstate(all='ignore'):
            y = float(np.float32(x))
            if y > x:
                y = float(np.nextafter(np.float32(y), np.float32(-np.inf)))
        return y
    return x


def rup(x, s):
    if s == 'f':
        with np.errstate(all='ignore'):
            y = float(np.float32(x))
            if y < x:
                y = float(np.nextafter(np.float32(y), np.float32(np.inf)))
        return y
    return x


def out(lo, hi, nan, s):
    """endpoints were computed in double: for double terms that is the correctly rounded machine result, and for
    float terms rounding the double result to float is innocuous for + - * / sqrt; rounding is monotonic"""
    if s == 'f':
        with np.errstate(all='ignore'):
            lo = float(np.float32(lo))
            hi = float(np.float32(hi))
    return (lo, hi, nan)


def nxt(x, d, s):
    if math.isinf(x):
        return x
    if s == 'f':
        with np.errstate(all='ignore'):
            return float(np.nextafter(np.float32(x), np.float32(d)))
    return math.nextafter(x, d)


TOPF = (-INF, INF, True)


def mulb(a, b):
    r = []
    for x in a:
        for y in b:
            r.append(0.0 if x == 0 or y == 0 else x * y)
    return min(r), max(r)


class IV:
    def __init__(self, env=None):
        self.env = env or {}     # term id -> interval refinement
        self.cache = {}

    def sub(self, extra):
        e = dict(self.env)
        for k, v in extra.items():
            if k in e:
                a = e[k]
                v = (max(a[0], v[0]), min(a[1], v[1]), a[2] and v[2])
            e[k] = v
        return IV(e)

    # refinement of float terms implied by a boolean literal
    def facts(self, c, pos=True):
        o = c.op
        if o == 'not':
            return self.facts(c.args[0], not pos)
        if (o == 'and' and pos) or (o == 'or' and not pos):
            r = {}
            for a in c.args:
                for k, v in self.facts(a, pos).items():
                    if k in r:
                        w = r[k]
                        v = (max(v[0], w[0]), min(v[1], w[1]), v[2] and w[2])
                    r[k] = v
            return r
        if o in ('flt', 'fle', 'feq'):
            x, y = c.args
            r = {}
            ix, iy = self.ev(x), self.ev(y)
            if pos:
                if o == 'feq':
                    if x.op != 'fc':
                        r[x.id] = (iy[0], iy[1], False)
                    if y.op != 'fc':
                        r[y.id] = (ix[0], ix[1], False)
                else:
                    st = o == 'flt'
                    if x.op != 'fc':
                        r[x.id] = (-INF, nxt(iy[1], -INF, x.sort) if st else iy[1], False)
                    if y.op != 'fc':
                        r[y.id] = (nxt(ix[0], INF, x.sort) if st else ix[0], INF, False)
            elif o != 'feq' and not ix[2] and not iy[2]:
                # !(x < y), no NaN: x >= y
                if x.op != 'fc':
                    r[x.id] = (iy[0], INF, False)
                if y.op != 'fc':
                    r[y.id] = (-INF, ix[1], False)
            # |t| <= k
            for t, v in list((tt, r.get(tt.id)) for tt in (x, y)):
                if v and t.op == 'fabs':
                    b = self.ev(t.args[0])
                    r[t.args[0].id] = (v[0] if b[0] >= 0 else -v[1], v[1] if b[1] > 0 else -v[0], v[2])
                if v and t.op == 'fneg':
                    r[t.args[0].id] = (-v[1], -v[0], v[2])
            return r
        if o == 'fisfinite' and pos:
            m = 3.4028234663852886e38 if c.args[0].sort == 'f' else 1.7976931348623157e308
            return {c.args[0].id: (-m, m, False)}
        if o == 'fisnan' and not pos:
            return {c.args[0].id: (-INF, INF, False)}
        return {}

    def truth(self, c):
        """True / False / None"""
        o = c.op
        if o == 'bc':
            return bool(c.val)
        if o == 'not':
            k = self.truth(c.args[0])
            return None if k is None else not k
        if o in ('and', 'or'):
            ks = [self.truth(a) for a in c.args]
            if o == 'and':
                return False if False in ks else (None if None in ks else True)
            return True if True in ks else (None if None in ks else False)
        if o == 'ite':
            k = self.truth(c.args[0])
            if k is not None:
                return self.truth(c.args[1] if k else c.args[2])
            a = self.sub(self.facts(c.args[0])).truth(c.args[1])
            b = self.sub(self.facts(c.args[0], False)).truth(c.args[2])
            return a if a == b else None
        if o in ('flt', 'fle', 'feq'):
            x, y = self.ev(c.args[0]), self.ev(c.args[1])
            if o == 'feq':
                if x[1] < y[0] or x[0] > y[1]:
                    return False
                return True if x[0] == x[1] == y[0] == y[1] and not (x[2] or y[2]) else None
            nn = not (x[2] or y[2])
            if o == 'flt':
                return True if nn and x[1] < y[0] else False if x[0] >= y[1] else None
            return True if nn and x[1] <= y[0] else False if x[0] > y[1] else None
        if o == 'fisfinite':
            x = self.ev(c.args[0])
            return True if not x[2] and x[0] > -INF and x[1] < INF else None
        if o == 'fisnan':
            x = self.ev(c.args[0])
            return None if x[2] else False
        return None

    def ev(self, t):
        r = self.cache.get(t.id)
        if r is None:
            r = self._ev(t)
            e = self.env.get(t.id)
            if e is not None:
                r = (max(r[0], e[0]), min(r[1], e[1]), r[2] and e[2])
                if r[0] > r[1]:
                    r = (r[0], r[0], r[2])  # branch infeasible; any value is sound
            self.cache[t.id] = r
        return r

    def _ev(self, t):
        o, s = t.op, t.sort
        if o == 'fc':
            x = fval(t)
            return (INF, -INF, True) if x != x else (x, x, False)
        if o == 'ite':
            k = self.truth(t.args[0])
            if k is not None:
                return self.ev(t.args[1] if k else t.args[2])
            fa, fb = self.facts(t.args[0]), self.facts(t.args[0], False)
            a = self.sub(fa).ev(t.args[1]) if fa else self.ev(t.args[1])
            b = self.sub(fb).ev(t.args[2]) if fb else self.ev(t.args[2])
            return (min(a[0], b[0]), max(a[1], b[1]), a[2] or b[2])
        if o not in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fabs', 'fsqrt', 'ffloor', 'fceil', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fn'):
            return TOPF
        if o in ('sitofp', 'uitofp'):
            lo, hi = self.ibounds(t.args[0], o == 'sitofp')
            return out(float(lo), float(hi), False, s)
        a = [self.ev(x) for x in t.args]
        nan = any(x[2] for x in a)
        if any(x[0] > x[1] for x in a):
            return TOPF
        x = a[0] if a else None
        if o == 'fneg':
            return (-x[1], -x[0], nan)
        if o == 'fabs':
            lo = 0.0 if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1]))
            return (lo, max(abs(x[0]), abs(x[1])), nan)
        if o == 'fpext':
            return x
        if o == 'fptrunc':
            return out(x[0], x[1], nan, s)
        if o == 'fsqrt':
            return out(math.sqrt(max(x[0], 0.0)), math.sqrt(x[1]) if x[1] < INF and x[1] > 0 else max(x[1], 0.0), nan or x[0] < 0, s)
        if o in ('ffloor', 'fceil'):
            f = math.floor if o == 'ffloor' else math.ceil
            g = lambda v: v if math.isinf(v) else float(f(v))
            return (g(x[0]), g(x[1]), nan)
        if o == 'fn':
            nm = t.val
            b = {'m_sin': (-1, 1), 'm_cos': (-1, 1), 'm_atan2': (-3.1415929, 3.1415929), 'm_atan': (-1.5707964, 1.5707964),
                 'm_asin': (-1.5707964, 1.5707964), 'm_acos': (0.0, 3.1415929)}.get(nm)
            if b is None:
                return TOPF
            bad = nan
            if nm == 'm_cos' and -1.5707963267948966 <= x[0] and x[1] <= 1.5707963267948966:
                b = (0, 1)
            if nm in ('m_sin', 'm_cos'):
                bad = nan or math.isinf(x[0]) or math.isinf(x[1])
            if nm in ('m_asin', 'm_acos'):
                bad = nan or x[0] < -1 or x[1] > 1
            return (float(b[0]), float(b[1]), bad)
        y = a[1]
        infx = math.isinf(x[0]) or math.isinf(x[1])
        infy = math.isinf(y[0]) or math.isinf(y[1])
        if o in ('fadd', 'fsub'):
            if o == 'fsub':
                y = (-y[1], -y[0], y[2])
            bad = nan or (x[0] == -INF and y[1] == INF) or (x[1] == INF and y[0] == -INF)
            lo, hi = x[0] + y[0], x[1] + y[1]
            lo = -INF if lo != lo else lo
            hi = INF if hi != hi else hi
            return out(lo, hi, bad, s)
        if o == 'fmul':
            bad = nan or (infx and y[0] <= 0 <= y[1]) or (infy and x[0] <= 0 <= x[1])
            lo, hi = mulb(x[:2], y[:2])
            if t.args[0] is t.args[1]:
                return (0.0, out(0.0, hi, bad, s)[1], nan)
            r = out(lo, hi, bad, s)
            if r[0] < 0 < r[1]:
                # the sign of a machine product is the product of the signs: factors that occur twice do not count
                sg = self.sign(t)
                if sg > 0:
                    r = (0.0, r[1], r[2])
                elif sg < 0:
                    r = (r[0], 0.0, r[2])
            return r
        if o == 'fdiv':
            if y[0] <= 0 <= y[1]:
                return (-INF, INF, nan or x[0] <= 0 <= x[1] or (infx and infy))
            bad = nan or (infx and infy)
            q = []
            for u in x[:2]:
                for v in y[:2]:
                    z = u / v if not (math.isinf(u) and math.isinf(v)) else INF * (1 if (u > 0) == (v > 0) else -1)
                    q.append(z)
            return out(min(q), max(q), bad, s)
        return TOPF

    def sign(self, t):
        """sign of a product whose remaining factors all have known sign; 0 = unknown"""
        odd, sg, st = {}, 1, [t]
        while st:
            x = st.pop()
            if x.op == 'fmul':
                st += x.args
            elif x.op == 'fneg':
                sg = -sg
                st.append(x.args[0])
            elif x.id in odd:
                del odd[x.id]
            else:
                odd[x.id] = x
        for x in odd.values():
            v = self.ev(x)
            if v[1] <= 0:
                sg = -sg
            elif v[0] < 0:
                return 0
        return sg

    def ibounds(self, t, signed):
        w = t.sort
        if t.op == 'c':
            v = t.val
            if signed and v >> (w - 1):
                v -= 1 << w
            return v, v
        if t.op == 'ite':
            a, b = self.ibounds(t.args[1], signed), self.ibounds(t.args[2], signed)
            return min(a[0], b[0]), max(a[1], b[1])
        if t.op == 'sext':
            x = self.ibounds(t.args[0], True)
            if signed:
                return x
        if t.op == 'zext':
            return self.ibounds(t.args[0], False)
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)


def prove(assumptions, goal):
    iv = IV()
    for _ in range(2):
        f = {}
        for a in assumptions:
            for k, v in iv.facts(a).items():
                if k in f:
                    w = f[k]
                    v = (max(v[0], w[0]), min(v[1], w[1]), v[2] and w[2])
                f[k] = v
        iv = IV(f)
    for a in assumptions:
        if a.op != 'bc' and iv.truth(a) is False:
            return False     # leave vacuity to the solvers
    return iv.truth(goal) is True
