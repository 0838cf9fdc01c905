"""Ideal-real back end: float terms are put in canonical form (polynomials over atoms); boolean / bit-vector
structure and linear arithmetic over the monomials go to z3.  Proves identities such as K = P H^T / S exactly."""
import time
import math
import z3
from fractions import Fraction
from .terms import *
from .smt import dec_fraction, Tr, check
from . import terms as TM

B = 8
ONE = 1


def _norm(c):
    return c.numerator if isinstance(c, Fraction) and c.denominator == 1 else c


class TooBig(Exception):
    pass


class Shared:
    """canonical-form tables, valid for every query of a process"""

    def __init__(self):
        self.atoms = []         # index -> (kind, data)
        self.atomidx = {}
        self.pc = {}            # term id -> poly dict
        self.pids = {}          # canonical key -> poly id
        self.pol = []           # poly id -> dict
        self.sq = {}            # atom index -> poly replacing atom^2
        self.sp2 = 0
        self.invs = {}          # atom index -> poly
        self.mononame = {}
        self.keep = []
        self.condtr = None


_shared = None


def shared():
    global _shared
    if _shared is None:
        _shared = Shared()
        _shared.condtr = Lin(_shared)
    return _shared


class Lin(Tr):
    def __init__(self, S=None, limit=400000, deadline=None):
        Tr.__init__(self, 'real')
        self.S = S = S or shared()
        self.atoms = S.atoms
        self.atomidx = S.atomidx
        self.pc = S.pc
        self.pids = S.pids
        self.pol = S.pol
        self.sq = S.sq
        self.invs = S.invs
        self.monovar = {}
        self.atomvar = {}
        self.limit = limit
        self.deadline = deadline
        self.nmul = 0

    # ---- polynomials
    def const(self, c):
        return {0: _norm(c)} if c else {}

    def atom(self, key, kind):
        i = self.atomidx.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(kind)
            self.atomidx[key] = i
        return i

    def mono(self, i, e=1):
        return {e << (B * i): 1}

    def pid(self, p):
        k = tuple(sorted(p.items()))
        i = self.pids.get(k)
        if i is None:
            i = len(self.pol)
            self.pol.append(p)
            self.pids[k] = i
        return i

    def addp(self, p, q, s=1):
        if len(q) > len(p) and s == 1:
            p, q = q, p
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + (c if s == 1 else s * c)
            if v:
                r[m] = _norm(v)
            else:
                r.pop(m, None)
        return r

    def scale(self, p, c):
        if c == 1:
            return p
        if not c:
            return {}
        return {m: _norm(v * c) for m, v in p.items()}

    def mul(self, p, q):
        if not p or not q:
            return {}
        if len(p) > len(q):
            p, q = q, p
        n = len(p) * len(q)
        self.nmul += n
        if n > self.limit * 4 or self.nmul > 60_000_000:
            raise TooBig()
        if self.deadline and n > 1000 and time.time() > self.deadline:
            raise TooBig()
        r = {}
        sp = self.S.sp2
        special = False
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = m1 + m2
                v = r.get(m)
                if v is None:
                    r[m] = c1 * c2
                    if m & sp:
                        special = True
                else:
                    r[m] = v + c1 * c2
        r = {m: _norm(c) for m, c in r.items() if c}
        if len(r) > self.limit:
            raise TooBig()
        if special:
            r = self.reduce(r)
        return r

    def reduce(self, p):
        sp = self.S.sp2
        while True:
            bad = [m for m in p if m & sp]
            if not bad:
                return p
            r = {m: c for m, c in p.items() if not m & sp}
            for m in bad:
                c = p[m]
                for i, rep in self.sq.items():
                    e = (m >> (B * i)) & 255
                    if e >= 2:
                        rest = m - (2 << (B * i))
                        add = self.mul({rest: c}, rep)
                        r = self.addp(r, add)
                        break
            p = r

    def setsq(self, i, rep):
        self.sq[i] = rep
        self.S.sp2 |= (254 << (B * i))

    def isconst(self, p):
        return not p or (len(p) == 1 and 0 in p)

    def cval(self, p):
        return p.get(0, 0)

    def lead(self, p):
        return p[max(p)]

    def inv(self, p):
        """1/p as polynomial in inverse atoms"""
        if self.isconst(p):
            c = self.cval(p)
            if not c:
                i = self.atom(('inv0',), ('div0',))
                return self.mono(i)
            return self.const(Fraction(1) / c)
        if len(p) == 1:
            (m, c), = p.items()
            r = self.const(Fraction(1) / c)
            i = 0
            mm = m
            while mm:
                e = mm & 255
                if e:
                    kind = self.atoms[i]
                    if kind[0] == 'inv':
                        f = self.pol[kind[1]]
                        for _ in range(e):
                            r = self.mul(r, f)
                    else:
                        q = self.mono(i)
                        k = self.pid(q)
                        j = self.atom(('inv', k), ('inv', k))
                        self.invs[j] = q
                        r = self.mul(r, self.mono(j, e))
                mm >>= B
                i += 1
            return r
        c = self.lead(p)
        q = self.scale(p, Fraction(1) / c)
        k = self.pid(q)
        j = self.atom(('inv', k), ('inv', k))
        self.invs[j] = q
        return self.scale(self.mono(j), Fraction(1) / c)

    def cancel(self, p):
        """multiply through by all inverse atoms; p==0 iff result==0 (divisors non-zero)"""
        for _ in range(200):
            done = True
            for j, q in sorted(self.invs.items(), reverse=True):
                sh = B * j
                n = 0
                for m in p:
                    e = (m >> sh) & 255
                    if e > n:
                        n = e
                if n:
                    done = False
                    pw = [self.const(1)]
                    for k in range(n):
                        pw.append(self.mul(pw[-1], q))
                    groups = {}
                    for m, c in p.items():
                        e = (m >> sh) & 255
                        groups.setdefault(e, {})[m - (e << sh)] = c
                    r = {}
                    for e, g in groups.items():
                        r = self.addp(r, self.mul(g, pw[n - e]))
                    p = r
                    break
            if done:
                return p
        return p

    # ---- terms -> polynomials
    def poly(self, root):
        pc = self.pc
        if root.id in pc:
            return pc[root.id]
        # iterative over float sub-DAG
        st = [root]
        while st:
            t = st[-1]
            if t.id in pc:
                st.pop()
                continue
            need = [a for a in t.args if a.sort in ('f', 'd') and a.id not in pc]
            if need:
                st.extend(need)
                continue
            st.pop()
            pc[t.id] = self.pnode(t)
        return pc[root.id]

    def sqrt_(self, p):
        if self.isconst(p):
            c = Fraction(self.cval(p))
            if c >= 0:
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator:
                    return self.const(Fraction(n, d))
        # perfect square of a single term
        k = self.pid(p)
        n = len(self.atoms)
        i = self.atom(('sqrt', k), ('sqrt', k))
        if i == n:
            self.setsq(i, p)
        return self.mono(i)

    def trig_of_arc(self, nm, p):
        """sin / cos of an inverse trigonometric function"""
        if len(p) != 1:
            return None
        (m, c), = p.items()
        if c != 1 or m == 0 or m & (m - 1) or (m.bit_length() - 1) % B:
            return None
        kind = self.atoms[(m.bit_length() - 1) // B]
        if kind[0] != 'fn':
            return None
        one = self.const(1)
        if kind[1] in ('m_asin', 'm_acos'):
            x = self.pol[kind[2][0]]
            if (nm == 'm_sin') == (kind[1] == 'm_asin'):
                return x
            return self.sqrt_(self.addp(one, self.mul(x, x), -1))
        if kind[1] == 'm_atan2':
            y, x = self.pol[kind[2][0]], self.pol[kind[2][1]]
            return self.mul(y if nm == 'm_sin' else x, self.inv(self.sqrt_(self.addp(self.mul(x, x), self.mul(y, y)))))
        return None

    def pnode(self, t):
        o = t.op
        P = self.pc
        if o == 'fc':
            x = fval(t)
            if not math.isfinite(x):
                return self.mono(self.atom(('nf', t.val), ('nonfinite', t)))
            return self.const(dec_fraction(t))
        if o == 'sym':
            return self.mono(self.atom(('s', t.id), ('sym', t)))
        a = [P[x.id] for x in t.args if x.sort in ('f', 'd')]
        if o == 'fadd':
            return self.addp(a[0], a[1])
        if o == 'fsub':
            return self.addp(a[0], a[1], -1)
        if o == 'fneg':
            return self.scale(a[0], -1)
        if o == 'fmul':
            return self.mul(a[0], a[1])
        if o == 'ffma':
            return self.addp(self.mul(a[0], a[1]), a[2])
        if o == 'fdiv':
            return self.mul(a[0], self.inv(a[1]))
        if o in ('fpext', 'fptrunc'):
            return a[0]
        if o == 'fabs':
            p = a[0]
            if self.isconst(p):
                return self.const(abs(self.cval(p)))
            if self.lead(p) < 0:
                p = self.scale(p, -1)
            c = self.lead(p)
            q = self.scale(p, Fraction(1) / c)
            k = self.pid(q)
            n = len(self.atoms)
            i = self.atom(('abs', k), ('abs', k))
            if i == n:
                self.setsq(i, self.mul(q, q))
            return self.scale(self.mono(i), c)
        if o == 'fsqrt':
            return self.sqrt_(a[0])
        if o == 'ite':
            p, q = a
            k1, k2 = self.pid(p), self.pid(q)
            if k1 == k2:
                return p
            b, neg = t.args[0], False
            if b.op == 'not':
                b, neg = b.args[0], True
            if b.op in ('flt', 'fle'):
                # minimum / maximum, however written
                kx, ky = self.pid(self.poly(b.args[0])), self.pid(self.poly(b.args[1]))
                if {kx, ky} == {k1, k2}:
                    nm = 'min' if (kx == k1) != neg else 'max'
                    if self.isconst(p) and self.isconst(q):
                        return self.const((min if nm == 'min' else max)(Fraction(self.cval(p)), Fraction(self.cval(q))))
                    k1, k2 = min(k1, k2), max(k1, k2)
                    return self.mono(self.atom((nm, k1, k2), (nm, k1, k2)))
            c = self.S.condtr.tr(t.args[0])
            if z3.is_true(c):
                return p
            if z3.is_false(c):
                return q
            self.S.keep.append(c)
            return self.mono(self.atom(('ite', c.get_id(), k1, k2), ('ite', t.args[0], k1, k2)))
        if o in ('sitofp', 'uitofp'):
            z = self.S.condtr.tr(t.args[0])
            self.S.keep.append(z)
            return self.mono(self.atom((o, z.get_id()), (o, z, t.args[0])))
        if o == 'fn':
            nm = t.val
            if nm in ('m_sin', 'm_cos', 'm_tan', 'm_atan', 'm_asin') and not self.isconst(a[0]):
                p = a[0]
                sgn_ = 1
                if self.lead(p) < 0:
                    p = self.scale(p, -1)
                    sgn_ = -1 if nm != 'm_cos' else 1
                if nm in ('m_sin', 'm_cos'):
                    r = self.trig_of_arc(nm, p)
                    if r is not None:
                        return self.scale(r, sgn_)
                k = self.pid(p)
                n = len(self.atoms)
                i = self.atom((nm, k), ('fn', nm, (k,)))
                if i == n and nm == 'm_sin':
                    j = self.atom(('m_cos', k), ('fn', 'm_cos', (k,)))
                    self.setsq(i, {0: 1, 2 << (B * j): -1})
                return self.scale(self.mono(i), sgn_)
            if nm in ('m_pow', 'pow', 'm_powf') and self.isconst(a[1]):
                e = Fraction(self.cval(a[1]))
                if e.denominator == 1 and 1 <= e <= 4:
                    r = a[0]
                    for _ in range(int(e) - 1):
                        r = self.mul(r, a[0])
                    return r
                if e == Fraction(3, 2) or e == Fraction(1, 2):
                    # defined only for x >= 0, where x^(k + 1/2) = x^k sqrt(x)
                    r = self.sqrt_(a[0])
                    return self.mul(a[0], r) if e > 1 else r
            ks = tuple(self.pid(x) for x in a)
            return self.mono(self.atom((nm,) + ks, ('fn', nm, ks)))
        ks = tuple(self.pid(x) for x in a)
        if o == 'ffrombits':
            z = self.S.condtr.tr(t.args[0])
            self.S.keep.append(z)
            return self.mono(self.atom((o, z.get_id()), ('opaque', o, z)))
        return self.mono(self.atom((o,) + ks, ('fn', o, ks)))

    # ---- polynomials -> linear z3
    def mvar(self, m):
        v = self.monovar.get(m)
        if v is not None:
            return v
        # single atom?
        i = 0
        mm = m
        fac = []
        while mm:
            e = mm & 255
            if e:
                fac.append((i, e))
            mm >>= B
            i += 1
        if len(fac) == 1 and fac[0][1] == 1:
            v = self.avar(fac[0][0])
        else:
            nm = self.S.mononame.get(m)
            if nm is None:
                nm = self.S.mononame[m] = 'mono!%d' % len(self.S.mononame)
            v = z3.Real(nm)
            if all(e % 2 == 0 for _, e in fac):
                self.extra.append(v >= 0)
            else:
                # sign of a product from the signs of its factors (two factors at most: keeps it cheap)
                fs = [self.avar(i) for i, e in fac if e % 2]
                if len(fs) <= 2 and all(e == 1 for _, e in fac):
                    x, y = fs[0], fs[-1] if len(fs) == 2 else z3.RealVal(1)
                    self.extra.append(z3.Implies(z3.And(x >= 0, y >= 0), v >= 0))
                    self.extra.append(z3.Implies(z3.And(x <= 0, y >= 0), v <= 0))
                    self.extra.append(z3.Implies(z3.And(x >= 0, y <= 0), v <= 0))
                    self.extra.append(z3.Implies(z3.And(x <= 0, y <= 0), v >= 0))
                    self.extra.append(z3.Implies(z3.And(x != 0, y != 0), v != 0))
        self.monovar[m] = v
        return v

    def avar(self, i):
        v = self.atomvar.get(i)
        if v is not None:
            return v
        kind = self.atoms[i]
        k = kind[0]
        if k == 'sym':
            t = kind[1]
            v = z3.Real(t.val)
            self.syms[t.val] = (v, t)
            self.atomvar[i] = v
            return v
        v = z3.Real('%s!%d' % (k, i))
        self.atomvar[i] = v
        E = self.extra
        if k == 'ite':
            c = self.tr(kind[1])
            E.append(z3.Implies(c, v == self.lin(self.pol[kind[2]])))
            E.append(z3.Implies(z3.Not(c), v == self.lin(self.pol[kind[3]])))
        elif k in ('min', 'max'):
            p, q = self.lin(self.pol[kind[1]]), self.lin(self.pol[kind[2]])
            E.append(z3.Or(v == p, v == q))
            E.append(z3.And(v <= p, v <= q) if k == 'min' else z3.And(v >= p, v >= q))
        elif k == 'abs':
            p = self.lin(self.pol[kind[1]])
            E.append(z3.And(v >= 0, z3.Or(v == p, v == -p)))
        elif k == 'sqrt':
            E.append(v >= 0)
            p = self.lin(self.pol[kind[1]])
            E.append(z3.Implies(p > 0, v > 0))
            E.append(z3.Implies(p == 0, v == 0))
            E.append(z3.Implies(p <= 1, v <= 1))
            E.append(z3.Implies(p >= 1, v >= 1))
        elif k == 'inv':
            p = self.lin(self.pol[kind[1]])
            E.append(z3.Implies(p > 0, v > 0))
            E.append(z3.Implies(p < 0, v < 0))
            E.append(z3.Implies(p >= 1, v <= 1))
        elif k in ('sitofp', 'uitofp'):
            lo, hi = urange(kind[2])
            w = kind[2].sort
            if k == 'uitofp':
                E.append(z3.And(v >= lo, v <= hi))
            else:
                E.append(z3.And(v >= -(1 << (w - 1)), v < (1 << (w - 1))))
            if w <= 16:
                E.append(v == z3.ToReal(z3.BV2Int(kind[1], k == 'sitofp')))
        elif k == 'fn':
            nm = kind[1]
            if len(kind[2]) == 1 and self.isconst(self.pol[kind[2][0]]):
                self.const_fn(nm, v, self.cval(self.pol[kind[2][0]]))
            if nm in ('m_sin', 'm_cos'):
                E.append(z3.And(v <= 1, v >= -1))
            elif nm == 'm_exp':
                E.append(v > 0)
            elif nm == 'm_atan2':
                E.append(z3.And(v <= z3.Q(31415927, 10000000), v >= -z3.Q(31415927, 10000000)))
            elif nm == 'm_acos':
                E.append(z3.And(v >= 0, v <= z3.Q(31415927, 10000000)))
            elif nm == 'm_asin':
                E.append(z3.And(v >= -z3.Q(15707964, 10000000), v <= z3.Q(15707964, 10000000)))
            elif nm == 'ffloor':
                p = self.lin(self.pol[kind[2][0]])
                E.append(z3.And(v <= p, v > p - 1))
            elif nm == 'fceil':
                p = self.lin(self.pol[kind[2][0]])
                E.append(z3.And(v >= p, v < p + 1))
        return v

    def lin(self, p):
        ts = []
        c0 = p.get(0, 0)
        for m in sorted(p):
            if m == 0:
                continue
            c = p[m]
            v = self.mvar(m)
            ts.append(v if c == 1 else z3.RealVal(str(c)) * v)
        if c0 or not ts:
            ts.append(z3.RealVal(str(c0)))
        if len(ts) == 1:
            return ts[0]
        return z3.Sum(ts)

    def cmp(self, p, op):
        """op in '=0' '<0' '<=0'"""
        if self.isconst(p):
            c = self.cval(p)
            return z3.BoolVal(c == 0 if op == '=0' else c < 0 if op == '<0' else c <= 0)
        if op == '=0' and any((m & self._invmask()) for m in p):
            q = self.cancel(p)
            if not q:
                return z3.BoolVal(True)
        # scale by |lead|
        c = self.lead(p)
        p = self.scale(p, Fraction(1) / abs(c))
        neg = self.lead(p) < 0
        if neg:
            p = self.scale(p, -1)
        l = self.lin(p)
        if op == '=0':
            return l == 0
        if op == '<0':
            return l > 0 if neg else l < 0
        return l >= 0 if neg else l <= 0

    def _invmask(self):
        m = 0
        for j in self.invs:
            m |= 255 << (B * j)
        return m

    # ---- boolean structure (overrides Tr.real)
    def tr(self, root):
        c = self.cache
        if root.id in c:
            return c[root.id]
        if root.sort in ('f', 'd'):
            return self.lin(self.poly(root))
        st = [root]
        while st:
            t = st[-1]
            if t.id in c:
                st.pop()
                continue
            need = [a for a in t.args if a.sort not in ('f', 'd') and a.id not in c]
            if need:
                st.extend(need)
                continue
            st.pop()
            c[t.id] = self.bnode(t)
        return c[root.id]

    def bnode(self, t):
        o = t.op
        if o == 'feq' or (o == 'eq' and t.args[0].sort in ('f', 'd')):
            return self.cmp(self.addp(self.poly(t.args[0]), self.poly(t.args[1]), -1), '=0')
        if o == 'flt':
            return self.cmp(self.addp(self.poly(t.args[0]), self.poly(t.args[1]), -1), '<0')
        if o == 'fle':
            return self.cmp(self.addp(self.poly(t.args[0]), self.poly(t.args[1]), -1), '<=0')
        if o == 'fisnan':
            return z3.BoolVal(False)
        if o == 'fisfinite':
            return z3.BoolVal(True)
        if o == 'fsignbit':
            return self.cmp(self.poly(t.args[0]), '<0')
        if o in ('fptosi', 'fptoui', 'fbits'):
            return self.uf(o + str(t.sort), [self.lin(self.poly(t.args[0]))], z3.BitVecSort(t.sort))
        a = [self.cache[x.id] for x in t.args]
        if o == 'ite':
            if z3.is_true(a[0]):
                return a[1]
            if z3.is_false(a[0]):
                return a[2]
            return z3.If(a[0], a[1], a[2])
        if o == 'and':
            a = [x for x in a if not z3.is_true(x)]
            if any(z3.is_false(x) for x in a):
                return z3.BoolVal(False)
            u = {x.get_id(): x for x in a}
            a = [u[k] for k in sorted(u)]
            return a[0] if len(a) == 1 else z3.And(*a) if a else z3.BoolVal(True)
        if o == 'or':
            a = [x for x in a if not z3.is_false(x)]
            if any(z3.is_true(x) for x in a):
                return z3.BoolVal(True)
            u = {x.get_id(): x for x in a}
            a = [u[k] for k in sorted(u)]
            return a[0] if len(a) == 1 else z3.Or(*a) if a else z3.BoolVal(False)
        if o == 'not':
            x = a[0]
            if z3.is_true(x):
                return z3.BoolVal(False)
            if z3.is_false(x):
                return z3.BoolVal(True)
            if z3.is_not(x):
                return x.arg(0)
            return z3.Not(x)
        return Tr.node(self, t, a)


def _float_ite_conds(terms):
    """boolean conditions of float-valued ites in the cone"""
    out = {}
    for t in collect(terms):
        if t.op == 'ite' and t.sort in ('f', 'd'):
            out.setdefault(t.args[0].id, t.args[0])
    return list(out.values())


def prove(assumptions, goal, timeout, depth=12, stats=None):
    """-> 'unsat' or 'unknown'"""
    deadline = time.time() + timeout
    ct = shared().condtr
    ct.deadline, ct.nmul, ct.limit = deadline, 0, 50000
    A, goal = simp_under(list(assumptions), goal)
    A, goal = range_conds(A, goal)
    if goal is not TRUE and not (A and A[0] is FALSE):
        A, goal = canon_conds(A, goal, deadline)
    st = {}
    big = len(collect([goal])) > 150
    r = _prove(A, goal, min(deadline, time.time() + (min(2.5, 0.3 * timeout) if big else timeout)), depth, st)
    if r == 'unsat' or not big:
        return r
    # too big as it stands: name common subterms (a proof of the generalised goal proves the goal)
    for minlen in (2, 4, 8):
        gA, gg = A, goal
        for level in range(5):
            left = deadline - time.time()
            if left < 0.3:
                return 'unknown'
            q = generalise(gA, gg, minlen, time.time() + min(2, 0.3 * left))
            if q is None:
                break
            gA, gg = q
            r = _prove(gA, gg, min(deadline, time.time() + min(4, 0.3 * (deadline - time.time()))), depth, st)
            if r == 'unsat':
                return r
    return _prove(A, goal, deadline, depth, st)


_gen = [0]


def generalise(A, goal, minlen, deadline):
    """innermost subterms with the same canonical form occurring at least twice -> fresh unknowns; None if there are none"""
    from .terms import sym
    order = collect([goal])
    tr = Lin(deadline=deadline, limit=400)
    pid = {}
    cls = {}
    uses = {}
    for t in order:
        for a in t.args:
            uses[a.id] = uses.get(a.id, 0) + 1
    for t in order:
        if t.sort not in ('f', 'd') or t.op in ('sym', 'fc') or time.time() > deadline:
            continue
        if not all(a.id in tr.pc for a in t.args if a.sort in ('f', 'd')):
            continue
        try:
            p = tr.poly(t)
        except (TooBig, RecursionError):
            continue
        n = len(p)
        if n < minlen:
            continue
        # up to scale
        pid[t.id] = k = tr.pid(p)
        cls.setdefault(k, []).append(t)
    m = {}
    inside = set()
    for t in order:
        if any(a.id in inside for a in t.args):
            inside.add(t.id)
            continue
        k = pid.get(t.id)
        if k is None:
            continue
        ts = cls[k]
        if len(ts) >= 2 or uses.get(t.id, 0) >= 2:
            inside.add(t.id)
            v = m.get(('cls', k, t.sort))
            if v is None:
                _gen[0] += 1
                v = m[('cls', k, t.sort)] = sym('gen!%d' % _gen[0], t.sort)
            m[t.id] = v
    m = {k: v for k, v in m.items() if not isinstance(k, tuple)}
    if not m:
        return None
    out = substitute(list(A) + [goal], m)
    A, g = simp_under([a for a in out[:-1] if a is not TRUE], out[-1])
    return A, g


INF = float('inf')


def real_range(order):
    """bounds of every real-valued term from its structure alone (squares, absolute values, quotients; divisors non-zero)"""
    R = {}
    TOP = (-INF, INF)

    def mulr(x, y):
        c = [0.0 if 0 in (a, b) else a * b for a in x for b in y]
        lo, hi = min(c), max(c)
        return (lo if abs(lo) == INF else lo - abs(lo) * 1e-9, hi if abs(hi) == INF else hi + abs(hi) * 1e-9)

    def sqr(x):
        lo = 0.0 if x[0] <= 0 <= x[1] else min(x[0] * x[0], x[1] * x[1])
        return (lo * (1 - 1e-9), max(x[0] * x[0], x[1] * x[1]) * (1 + 1e-9))
    for t in order:
        if t.sort not in ('f', 'd'):
            continue
        o = t.op
        a = [R[x.id] for x in t.args if x.sort in ('f', 'd')]
        r = TOP
        if o == 'fc':
            v = fval(t)
            if math.isfinite(v):
                v = float(dec_fraction(t))
                r = (v - abs(v) * 1e-12, v + abs(v) * 1e-12)
        elif o in ('fadd', 'fsub'):
            y = a[1] if o == 'fadd' else (-a[1][1], -a[1][0])
            r = (a[0][0] + y[0], a[0][1] + y[1])
            r = (r[0] if abs(r[0]) == INF else r[0] - abs(r[0]) * 1e-12, r[1] if abs(r[1]) == INF else r[1] + abs(r[1]) * 1e-12)
        elif o == 'fneg':
            r = (-a[0][1], -a[0][0])
        elif o == 'fmul':
            r = sqr(a[0]) if t.args[0] is t.args[1] else mulr(a[0], a[1])
        elif o == 'fdiv':
            y = a[1]
            if y[0] >= 0:
                r = mulr(a[0], (1 / y[1] * (1 - 1e-9) if y[1] else 0.0, 1 / y[0] * (1 + 1e-9) if y[0] else INF))
            elif y[1] <= 0:
                r = mulr(a[0], (1 / y[1] * (1 + 1e-9) if y[1] else -INF, 1 / y[0] * (1 - 1e-9)))
        elif o in ('fpext', 'fptrunc'):
            r = a[0]
        elif o == 'fabs':
            x = a[0]
            r = (0.0 if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1])), max(abs(x[0]), abs(x[1])))
        elif o == 'fsqrt':
            r = (0.0, INF)
        elif o == 'ite':
            r = (min(a[0][0], a[1][0]), max(a[0][1], a[1][1]))
        elif o == 'fn':
            if t.val in ('m_sin', 'm_cos'):
                r = (-1.0, 1.0)
            elif t.val == 'm_atan2':
                r = (-3.1415929, 3.1415929)
            elif t.val == 'm_exp':
                r = (0.0, INF)
            elif t.val in ('m_pow', 'pow', 'm_powf') and t.args[1].op == 'fc':
                e = fval(t.args[1])
                if e in (2.0, 4.0):
                    r = sqr(a[0])
                    r = sqr(r) if e == 4.0 else r
                elif e in (-2.0, -4.0):
                    r = (0.0, INF)
        R[t.id] = r
    return R


def range_conds(A, goal):
    """comparisons decided by the range of their operands"""
    order = collect(list(A) + [goal])
    conds = [t for t in order if t.op in ('flt', 'fle')]
    if not conds:
        return A, goal
    R = real_range(order)
    m = {}
    for t in conds:
        x, y = R[t.args[0].id], R[t.args[1].id]
        if x[1] < y[0]:
            m[t.id] = TRUE
        elif x[0] > y[1]:
            m[t.id] = FALSE
    if not m:
        return A, goal
    out = substitute(list(A) + [goal], m)
    return simp_under([a for a in out[:-1] if a is not TRUE], out[-1])


def canon_conds(A, goal, deadline):
    """comparisons that are the same polynomial (in)equality become one term"""
    conds = [t for t in collect(list(A) + [goal]) if t.op in ('flt', 'fle')]
    if len(conds) < 2:
        return A, goal
    tr = Lin(deadline=deadline, limit=20000)
    seen = {}
    m = {}
    rational = []
    for t in conds:
        try:
            d = tr.addp(tr.poly(t.args[0]), tr.poly(t.args[1]), -1)
        except (TooBig, RecursionError):
            continue
        if tr.isconst(d):
            continue
        if any(m & tr._invmask() for m in d):
            rational.append((t, d))
        c = tr.lead(d)
        strict = t.op == 'flt'
        neg = c < 0
        d = tr.scale(d, Fraction(1) / c)
        if neg:
            strict = not strict
        key = (strict, tr.pid(d))
        if key in seen:
            r, rneg = seen[key]
            m[t.id] = Not(r) if rneg != neg else r
        else:
            seen[key] = (t, neg)
    # fractions: equal when their difference vanishes over the common denominator
    rational = [(t, d) for t, d in rational if t.id not in m][:24]
    t1 = time.time()
    for i, (t, d) in enumerate(rational):
        for u, e in rational[:i]:
            if t.id in m or u.id in m or time.time() - t1 > 2:
                break
            try:
                if not tr.cancel(tr.addp(d, e, -1)):
                    if t.op == u.op:
                        m[t.id] = u
                elif not tr.cancel(tr.addp(d, e)):
                    if t.op != u.op:
                        m[t.id] = Not(u)
            except TooBig:
                pass
    if not m:
        return A, goal
    out = substitute(list(A) + [goal], m)
    A, goal = out[:-1], out[-1]
    return simp_under([a for a in A if a is not TRUE], goal)


def _conj(t):
    if t.op == 'and':
        r = []
        for a in t.args:
            r += _conj(a)
        return r
    if t.op == 'not' and t.args[0].op == 'or':
        r = []
        for a in t.args[0].args:
            r += _conj(Not(a))
        return r
    return [t]


def simp_under(assumptions, goal):
    """use literal assumptions to simplify everything (ites on known conditions vanish)"""
    for _ in range(4):
        m = {}
        facts = []
        for a in assumptions:
            facts += _conj(a)
        for f in facts:
            if f.op == 'not':
                m[f.args[0].id] = FALSE
            elif f.op not in ('bc',):
                m[f.id] = TRUE
        if not m:
            return assumptions, goal
        fset = {}
        newf = []
        # facts themselves: simplify with the *other* facts (only compound ones)
        for f in facts:
            base = f.args[0] if f.op == 'not' else f
            mm = m
            if base.op in ('and', 'or', 'ite', 'xor', 'eq', 'not'):
                mm = {k: v for k, v in m.items() if k != base.id}
                g = substitute([f], mm)[0]
            else:
                mm = {k: v for k, v in m.items() if k != base.id}
                inner = substitute(list(base.args), mm) if base.args else []
                if base.args and not all(x is y for x, y in zip(inner, base.args)):
                    from .terms import REBUILD
                    fn_ = REBUILD.get(base.op)
                    nb = fn_(base, tuple(inner)) if fn_ else mk(base.op, base.sort, tuple(inner), base.val)
                    g = Not(nb) if f.op == 'not' else nb
                else:
                    g = f
            if g is FALSE:
                return [FALSE], goal
            if g is not TRUE and g.id not in fset:
                fset[g.id] = g
                newf.append(g)
        g2 = substitute([goal], m)[0]
        if g2 is goal and len(newf) == len(facts) and all(x is y for x, y in zip(newf, facts)):
            return newf, goal
        assumptions, goal = newf, g2
        if goal is TRUE:
            return assumptions, goal
    return assumptions, goal


def pin_equal(A, goal):
    """neither x < c nor c < x: x is c (numbers; a NaN has no real value)"""
    no = set()
    for a in A:
        if a.op == 'not' and a.args[0].op == 'flt':
            no.add((a.args[0].args[0].id, a.args[0].args[1].id))
    m = {}
    for a in A:
        if a.op == 'not' and a.args[0].op == 'flt':
            x, c = a.args[0].args
            if x.op == 'sym' and c.op == 'fc' and (c.id, x.id) in no:
                m[x.id] = c
    if not m:
        return A, goal
    out = substitute(list(A) + [goal], m)
    return simp_under([a for a in out[:-1] if a is not TRUE], out[-1])


def _contradictory(A, deadline):
    A, g = simp_under(A, FALSE)
    if A and A[0] is FALSE:
        return True
    try:
        tr = Lin(deadline=deadline, limit=20000)
        s = z3.Solver()
        for a in A:
            s.add(tr.tr(a))
        done = 0
        while done < len(tr.extra):
            s.add(tr.extra[done])
            done += 1
        return check(s, 1) == z3.unsat
    except TooBig:
        return False


def _prove(A, goal, deadline, depth, stats, split=True):
    A, goal = simp_under(A, goal)
    if goal is TRUE or (A and A[0] is FALSE):
        return 'unsat'
    A, goal = pin_equal(A, goal)
    if goal is TRUE or (A and A[0] is FALSE):
        return 'unsat'
    gs = _conj(goal)
    if len(gs) > 1:
        for g in gs:
            r = _prove(A, g, deadline, depth, stats)
            if r != 'unsat':
                return r
        return 'unsat'
    # implications: move antecedent to assumptions
    if goal.op == 'or':
        fl = [a for a in goal.args if a.op in ('feq', 'fle', 'flt') or (a.op == 'eq')]
        if len(fl) >= 1 and len(goal.args) > 1:
            keep = fl[-1]
            rest = [a for a in goal.args if a is not keep]
            return _prove(A + [Not(a) for a in rest], keep, deadline, depth, stats)
    if goal.op == 'ite':
        c, x, y = goal.args
        r = _prove(A + [c], x, deadline, depth, stats)
        if r != 'unsat':
            return r
        return _prove(A + [Not(c)], y, deadline, depth, stats)
    left = deadline - time.time()
    if left <= 0:
        return 'unknown'
    if split is True and depth > 0 and goal.op == 'feq' and A:
        top = [x for x in goal.args if x.op == 'ite']
        if top and len(collect([goal])) > 200:
            # a large equality with an outermost case distinction: at once if small enough, else case by case
            try:
                tr = Lin(deadline=min(deadline, time.time() + 2), limit=50000)
                if not tr.addp(tr.poly(goal.args[0]), tr.poly(goal.args[1]), -1):
                    return 'unsat'
            except TooBig:
                pass
            c = top[0].args[0]
            for lit in (c, Not(c)):
                if _contradictory(A + [lit], min(deadline, time.time() + 2)):
                    continue
                r = _prove(A + [lit], goal, deadline, depth - 1, stats)
                if r != 'unsat':
                    return r
            return 'unsat'
    if split is True:
        parts = linear_split(goal)
        if parts is not None:
            r = 'unsat'
            for g in parts:
                if g is TRUE:
                    continue
                r = _prove(A, g, min(deadline, time.time() + 0.5 * left), depth, stats, False)
                if r != 'unsat':
                    break
            if r == 'unsat':
                return r
            left = deadline - time.time()
            if left <= 0:
                return 'unknown'
    # first: ignore assumptions that share nothing with the goal?  keep all (cheap in LRA)
    conds = _float_ite_conds([goal])
    try:
        tr = Lin(deadline=deadline)
        g = tr.tr(goal)
        if z3.is_true(g):
            return 'unsat'
        s = z3.Solver()
        s.add(z3.Not(g))
        for a in A:
            s.add(tr.tr(a))
        done = 0
        while done < len(tr.extra):
            e = tr.extra[done]
            done += 1
            s.add(e)
        r = check(s, max(0.2, min(left, 8 if depth else left)))
        if r == z3.unsat:
            return 'unsat'
    except TooBig:
        if stats is not None:
            stats['toobig'] = True
        if goal.op == 'feq' and not conds and split != 'gen':
            gA, gg = A, goal
            for level in range(4):
                q = generalise(gA, gg, 3, time.time() + 2)
                if q is None:
                    break
                gA, gg = q
                r = _prove(gA, gg, min(deadline, time.time() + 4), 0, stats, 'gen')
                if r == 'unsat':
                    return r
    if depth > 0 and conds and time.time() < deadline:
        # split on the condition whose own cone has no undecided ite
        best = None
        for c in sorted(conds, key=lambda c: c.id):
            if not _float_ite_conds([c]):
                best = c
                break
        if best is None:
            best = min(conds, key=lambda c: c.id)
        if best.op in ('and', 'or'):
            best = best.args[0]
        for lit in (best, Not(best)):
            r = _prove(A + [lit], goal, deadline, depth - 1, stats)
            if r != 'unsat':
                return r
        return 'unsat'
    return 'unknown'


# ---- goals linear in many unknowns: one obligation per coefficient
def linear_split(goal, minvars=8):
    """a == b, with both sides linear in some unknowns: -> [coefficient equalities] (their conjunction implies the goal), or None"""
    if goal.op != 'feq':
        return None
    order = collect([goal])
    syms = [t for t in order if t.op == 'sym' and t.sort in ('f', 'd')]
    if len(syms) < minvars:
        return None
    idx = {t.id: i for i, t in enumerate(syms)}
    vs = {}
    conflict = [0] * len(syms)
    bad = 0

    def bits(m):
        while m:
            l = m & -m
            yield l.bit_length() - 1
            m ^= l
    for t in order:
        if t.id in idx:
            vs[t.id] = 1 << idx[t.id]
            continue
        m = 0
        for a in t.args:
            m |= vs[a.id]
        vs[t.id] = m
        o = t.op
        if o in ('fmul', 'ffma'):
            x, y = vs[t.args[0].id], vs[t.args[1].id]
            for i in bits(x):
                conflict[i] |= y
            for i in bits(y):
                conflict[i] |= x
        elif o == 'fdiv':
            bad |= vs[t.args[1].id]
        elif o in ('fadd', 'fsub', 'fneg', 'fpext', 'fptrunc', 'feq'):
            pass
        else:
            bad |= m
    cand = [i for i in range(len(syms)) if not (bad >> i) & 1 and not (conflict[i] >> i) & 1]
    cand.sort(key=lambda i: (bin(conflict[i]).count('1'), i))
    V, forb = 0, 0
    for i in cand:
        if not (forb >> i) & 1:
            V |= 1 << i
            forb |= conflict[i]
    if bin(V).count('1') < minvars:
        return None
    from .terms import fadd, fsub, fmul, fneg, fdiv, fpext, fptrunc, fc
    lf = {}
    for t in order:
        if t is goal:
            continue
        if t.sort not in ('f', 'd') or not vs[t.id] & V:
            lf[t.id] = {None: t}
            continue
        o = t.op
        if o == 'sym':
            lf[t.id] = {t.id: fc(1.0, t.sort)}
            continue
        L = [lf[a.id] for a in t.args]

        def add(x, y, s):
            r = dict(x)
            for k, c in y.items():
                if k in r:
                    r[k] = fadd(r[k], c) if s > 0 else fsub(r[k], c)
                else:
                    r[k] = c if s > 0 else fneg(c)
            return r

        def mul(i, j):
            x, y = L[i], L[j]
            if vs[t.args[i].id] & V:
                return {k: fmul(c, t.args[j]) for k, c in x.items()}
            return {k: fmul(t.args[i], c) for k, c in y.items()}
        if o == 'fadd':
            r = add(L[0], L[1], 1)
        elif o == 'fsub':
            r = add(L[0], L[1], -1)
        elif o == 'fneg':
            r = {k: fneg(c) for k, c in L[0].items()}
        elif o == 'fmul':
            r = mul(0, 1)
        elif o == 'ffma':
            r = add(mul(0, 1), L[2], 1)
        elif o == 'fdiv':
            r = {k: fdiv(c, t.args[1]) for k, c in L[0].items()}
        elif o == 'fpext':
            r = {k: fpext(c) for k, c in L[0].items()}
        elif o == 'fptrunc':
            r = {k: fptrunc(c) for k, c in L[0].items()}
        else:
            return None
        lf[t.id] = r
    a, b = lf[goal.args[0].id], lf[goal.args[1].id]
    s = goal.args[0].sort
    z = fc(0.0, s)
    from .terms import feq
    return [feq(a.get(k, z), b.get(k, z)) for k in sorted(set(a) | set(b), key=lambda k: -1 if k is None else k)]
