"""Translation of term-DAG obligations to z3.

mode 'uf'   : IEEE comparisons / negation / abs / constants exact, float arithmetic and libm uninterpreted
mode 'fp'   : everything IEEE-exact (libm uninterpreted, with the axioms of AX)
mode 'real' : floats are ideal reals (no NaN/inf/rounding)
A proof in 'uf' or 'fp' holds for the machine semantics; a proof in 'real' holds for ideal arithmetic.
"""
import z3
import math
from fractions import Fraction
from .terms import *
from . import terms as TM

F32 = z3.Float32()
F64 = z3.Float64()
RNE = z3.RNE()


PIFR = Fraction(repr(math.pi))
_PIF = {}
_PID = {}
for _p in (1, 2, 3, 4):
    for _q in (1, 2, 3, 4, 6, 180):
        _v = math.pi * _p / _q
        _PIF[TM.f32round(_v)] = PIFR * _p / _q
        _PID[_v] = PIFR * _p / _q
        _PIF[TM.f32round(1 / _v)] = 1 / (PIFR * _p / _q)
        _PID[1 / _v] = 1 / (PIFR * _p / _q)


def pi_multiple(x, s):
    """constants that are roundings of simple multiples of pi denote these multiples in ideal reals"""
    r = (_PIF if s == 'f' else _PID).get(abs(x))
    if r is None and math.isfinite(x):
        k = abs(x) * 180 / math.pi          # whole degrees, up to two units in the last place
        n = round(k)
        if 1 <= n <= 720 and abs(k - n) <= n * (2.4e-7 if s == 'f' else 4.5e-16):
            r = PIFR * n / 180
    return None if r is None else (r if x > 0 else -r)


def dec_fraction(t):
    """real value of a float constant: the shortest decimal that denotes it (what the programmer wrote)"""
    x = fval(t)
    r = pi_multiple(x, t.sort)
    if r is not None:
        return r
    if t.sort == 'f':
        import numpy as np
        if x == int(x):
            return Fraction(int(x))
        r = Fraction(str(np.float32(x)))
        # results of constant folding: the short decimal within a few units in the last place
        q = Fraction('%.4e' % x)
        if abs(q - r) <= abs(r) * Fraction(5, 10 ** 7):
            return q
        q = Fraction('%.5e' % x)
        return q if abs(q - r) <= abs(r) * Fraction(2, 10 ** 7) else r
    return Fraction(repr(x))


ABS = z3.DeclareSort('number')


class Tr:
    def __init__(self, mode):
        self.mode = mode
        self.cache = {}
        self.extra = []
        self.comm = False       # uf: say that sums and products commute (terms over array reads are not ordered alike)
        self.syms = {}
        self.keep = []
        self.ufs = {}

    def sort(self, s):
        if s == 'B':
            return z3.BoolSort()
        if type(s) is tuple:
            return z3.ArraySort(z3.BitVecSort(64), self.sort(s[2]))
        if s == 'f' or s == 'd':
            if self.mode == 'real':
                return z3.RealSort()
            if self.mode == 'abs':
                return ABS
            return F32 if s == 'f' else F64
        return z3.BitVecSort(s)

    def uf(self, name, args, rs):
        srt = [a.sort() for a in args]
        key = (name, tuple(str(x) for x in srt), str(rs))
        f = self.ufs.get(key)
        if f is None:
            f = z3.Function(name + '_' + '_'.join(str(len(self.ufs)) for _ in (0,)), *srt, rs)
            self.ufs[key] = f
        return f(*args)

    def tr(self, root):
        c = self.cache
        if root.id in c:
            return c[root.id]
        for t in collect([root]):
            if t.id not in c:
                c[t.id] = self.node(t, [c[a.id] for a in t.args])
        return c[root.id]

    def node(self, t, a):
        o = t.op
        m = self.mode
        s = t.sort
        if o == 'sym':
            v = z3.Const(t.val, self.sort(s))
            self.syms[t.val] = (v, t)
            return v
        if o == 'bc':
            return z3.BoolVal(t.val)
        if o == 'c':
            return z3.BitVecVal(t.val, s)
        if o == 'fc':
            x = fval(t)
            if m == 'real':
                if not math.isfinite(x):
                    return z3.FreshConst(z3.RealSort(), 'nonfinite')
                return z3.Q(dec_fraction(t).numerator, dec_fraction(t).denominator)
            if m == 'abs':
                return z3.Const('number:%r' % (x + 0.0), ABS)
            return z3.FPVal(x, F32 if s == 'f' else F64)
        if o == 'not':
            return z3.Not(a[0])
        if o == 'and':
            return z3.And(*a)
        if o == 'or':
            return z3.Or(*a)
        if o == 'xor':
            return z3.Xor(a[0], a[1])
        if o == 'ite':
            return z3.If(a[0], a[1], a[2])
        if o == 'eq':
            return a[0] == a[1]
        if o == 'add':
            r = a[0]
            for x in a[1:]:
                r = r + x
            return r
        if o == 'neg':
            return -a[0]
        if o == 'mul':
            return a[0] * a[1]
        if o == 'udiv':
            return z3.UDiv(a[0], a[1])
        if o == 'urem':
            return z3.URem(a[0], a[1])
        if o == 'sdiv':
            return a[0] / a[1]
        if o == 'srem':
            return z3.SRem(a[0], a[1])
        if o == 'shl':
            return a[0] << a[1]
        if o == 'lshr':
            return z3.LShR(a[0], a[1])
        if o == 'ashr':
            return a[0] >> a[1]
        if o in ('bvand', 'bvor', 'bvxor'):
            r = a[0]
            for x in a[1:]:
                r = r & x if o == 'bvand' else r | x if o == 'bvor' else r ^ x
            return r
        if o == 'zext':
            return z3.ZeroExt(s - t.args[0].sort, a[0])
        if o == 'sext':
            return z3.SignExt(s - t.args[0].sort, a[0])
        if o == 'bit':
            return z3.Extract(t.val, t.val, a[0]) == z3.BitVecVal(1, 1)
        if o == 'extract':
            return z3.Extract(t.val[0], t.val[1], a[0])
        if o == 'concat':
            return z3.Concat(a[0], a[1])
        if o == 'ult':
            return z3.ULT(a[0], a[1])
        if o == 'slt':
            return a[0] < a[1]
        if o == 'select':
            return z3.Select(a[0], a[1])
        if o == 'store':
            return z3.Store(a[0], a[1], a[2])
        # ---- floats
        if m == 'real':
            return self.real(t, o, a)
        if m == 'abs':
            # numbers of an unknown sort with unknown operations: what holds here holds for the reals
            if o == 'feq':
                return a[0] == a[1]
            r = self.uf(o if o != 'fn' else t.val, a, self.sort(s)) if a else z3.Const(o, self.sort(s))
            if self.comm and o in ('fadd', 'fmul'):
                self.extra.append(r == self.uf(o, [a[1], a[0]], self.sort(s)))
            return r
        if o == 'feq':
            return z3.fpEQ(a[0], a[1])
        if o == 'flt':
            return z3.fpLT(a[0], a[1])
        if o == 'fle':
            return z3.fpLEQ(a[0], a[1])
        if o == 'fisnan':
            return z3.fpIsNaN(a[0])
        if o == 'fisfinite':
            return z3.Not(z3.Or(z3.fpIsNaN(a[0]), z3.fpIsInf(a[0])))
        if o == 'fsignbit':
            return z3.fpIsNegative(a[0])
        if o == 'fneg':
            return z3.fpNeg(a[0])
        if o == 'fabs':
            return z3.fpAbs(a[0])
        if o == 'ffrombits':
            return z3.fpBVToFP(a[0], F32 if s == 'f' else F64)
        if o == 'fbits':
            # bits of a float: any encoding whose value is the float
            b = z3.FreshConst(z3.BitVecSort(s), 'bits')
            self.extra.append(z3.fpBVToFP(b, F32 if s == 32 else F64) == a[0])
            return b
        if m == 'uf':
            if o == 'fpext':
                return z3.fpFPToFP(RNE, a[0], F64)
            r = self.uf(o if o != 'fn' else t.val, a, self.sort(s)) if a else z3.Const(o, self.sort(s))
            if self.comm and o in ('fadd', 'fmul'):
                self.extra.append(r == self.uf(o, [a[1], a[0]], self.sort(s)))
            return r
        fs = F32 if s == 'f' else F64
        if o == 'fadd':
            return z3.fpAdd(RNE, a[0], a[1])
        if o == 'fsub':
            return z3.fpSub(RNE, a[0], a[1])
        if o == 'fmul':
            return z3.fpMul(RNE, a[0], a[1])
        if o == 'fdiv':
            return z3.fpDiv(RNE, a[0], a[1])
        if o == 'fsqrt':
            return z3.fpSqrt(RNE, a[0])
        if o == 'ffma':
            return z3.fpFMA(RNE, *a)
        if o == 'ffloor':
            return z3.fpRoundToIntegral(z3.RTN(), a[0])
        if o == 'fceil':
            return z3.fpRoundToIntegral(z3.RTP(), a[0])
        if o == 'ftrunc':
            return z3.fpRoundToIntegral(z3.RTZ(), a[0])
        if o == 'frint':
            return z3.fpRoundToIntegral(z3.RNE(), a[0])
        if o == 'froundaway':
            return z3.fpRoundToIntegral(z3.RNA(), a[0])
        if o == 'fpext' or o == 'fptrunc':
            return z3.fpFPToFP(RNE, a[0], fs)
        if o == 'sitofp':
            return z3.fpSignedToFP(RNE, a[0], fs)
        if o == 'uitofp':
            return z3.fpUnsignedToFP(RNE, a[0], fs)
        if o == 'fptosi':
            return z3.fpToSBV(z3.RTZ(), a[0], z3.BitVecSort(s))
        if o == 'fptoui':
            return z3.fpToUBV(z3.RTZ(), a[0], z3.BitVecSort(s))
        if o == 'fn' or o == 'frem':
            nm = t.val if o == 'fn' else 'frem'
            r = self.uf(nm, a, fs)
            self.axioms_fp(nm, a, r, fs)
            return r
        raise KeyError(o)

    def axioms_fp(self, nm, a, r, fs):
        """IEEE-754 / C library facts about results of libm functions (trusted)"""
        E = self.extra
        fin = lambda x: z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x)))
        one = z3.FPVal(1.0, fs)
        if nm in ('m_sin', 'm_cos'):
            E.append(z3.Implies(fin(a[0]), z3.And(z3.fpLEQ(z3.fpAbs(r), one))))
        elif nm in ('m_atan2',):
            pi = z3.FPVal(TM.f32round(math.pi) if fs == F32 else math.pi, fs)
            E.append(z3.Implies(z3.Not(z3.Or(z3.fpIsNaN(a[0]), z3.fpIsNaN(a[1]))), z3.fpLEQ(z3.fpAbs(r), pi)))
        elif nm == 'm_asin':
            h = z3.FPVal(TM.f32round(math.pi / 2) if fs == F32 else math.pi / 2, fs)
            E.append(z3.Implies(z3.fpLEQ(z3.fpAbs(a[0]), one), z3.fpLEQ(z3.fpAbs(r), h)))
        elif nm == 'm_acos':
            pi = z3.FPVal(TM.f32round(math.pi) if fs == F32 else math.pi, fs)
            E.append(z3.Implies(z3.fpLEQ(z3.fpAbs(a[0]), one),
                                z3.And(z3.fpLEQ(z3.FPVal(0.0, fs), r), z3.fpLEQ(r, pi))))
        elif nm == 'm_exp':
            E.append(z3.Implies(z3.Not(z3.fpIsNaN(a[0])), z3.fpGEQ(r, z3.FPVal(0.0, fs))))

    def const_fn(self, nm, r, c):
        """a library function of a constant: known to 12 digits"""
        f = {'m_sin': math.sin, 'm_cos': math.cos, 'm_tan': math.tan, 'm_exp': math.exp}.get(nm)
        if f is None or abs(c) > 100:
            return
        v = Fraction(f(float(c)))
        e = Fraction(1, 10 ** 12) * max(1, abs(v))
        self.extra.append(z3.And(r >= z3.RealVal(str(v - e)), r <= z3.RealVal(str(v + e))))

    def real(self, t, o, a):
        s = t.sort
        if o == 'feq':
            return a[0] == a[1]
        if o == 'flt':
            return a[0] < a[1]
        if o == 'fle':
            return a[0] <= a[1]
        if o == 'fisnan':
            return z3.BoolVal(False)
        if o == 'fisfinite':
            return z3.BoolVal(True)
        if o == 'fsignbit':
            return a[0] < 0
        if o == 'fneg':
            return -a[0]
        if o == 'fabs':
            return z3.If(a[0] < 0, -a[0], a[0])
        if o == 'fadd':
            return a[0] + a[1]
        if o == 'fsub':
            return a[0] - a[1]
        if o == 'fmul':
            return a[0] * a[1]
        if o == 'fdiv':
            return a[0] / a[1]
        if o == 'ffma':
            return a[0] * a[1] + a[2]
        if o in ('fpext', 'fptrunc'):
            return a[0]
        if o == 'fsqrt':
            r = z3.FreshConst(z3.RealSort(), 'sqrt')
            r = self.uf('sqrt', a, z3.RealSort())
            self.extra.append(z3.Implies(a[0] >= 0, z3.And(r >= 0, r * r == a[0])))
            return r
        if o in ('sitofp', 'uitofp'):
            return z3.ToReal(z3.BV2Int(a[0], o == 'sitofp'))
        if o in ('fptosi', 'fptoui'):
            r = self.uf(o, a, z3.BitVecSort(s))
            v = z3.ToReal(z3.BV2Int(r, o == 'fptosi'))
            x = a[0]
            lim = 2 ** (s - 1 if o == 'fptosi' else s)
            self.extra.append(z3.Implies(z3.And(x >= 0, x < lim), z3.And(v <= x, x < v + 1)))
            if o == 'fptosi':
                self.extra.append(z3.Implies(z3.And(x < 0, x >= -lim), z3.And(v >= x, x > v - 1)))
            else:
                self.extra.append(z3.Implies(z3.And(x < 0, x > -1), v == 0))
            return r
        if o == 'ffloor':
            return z3.ToReal(z3.ToInt(a[0]))
        if o == 'fn' or o in ('frem', 'ffloor', 'fceil', 'ftrunc', 'frint', 'froundaway'):
            nm = t.val if o == 'fn' else o
            r = self.uf(nm, a, z3.RealSort())
            if len(a) == 1 and z3.is_rational_value(a[0]):
                self.const_fn(nm, r, a[0].as_fraction())
            if nm in ('m_sin', 'm_cos'):
                self.extra.append(z3.And(r <= 1, r >= -1))
                oth = self.uf('m_cos' if nm == 'm_sin' else 'm_sin', a, z3.RealSort())
                self.extra.append(r * r + oth * oth == 1)
            elif nm == 'm_exp':
                self.extra.append(r > 0)
            elif nm == 'm_atan2':
                self.extra.append(z3.And(r <= z3.Q(31415927, 10000000), r >= -z3.Q(31415927, 10000000)))
            elif nm == 'm_acos':
                self.extra.append(z3.And(r >= 0, r <= z3.Q(31415927, 10000000)))
            elif nm == 'ffloor':
                self.extra.append(z3.And(r <= a[0], r > a[0] - 1, z3.IsInt(r)))
            elif nm == 'fceil':
                self.extra.append(z3.And(r >= a[0], r < a[0] + 1, z3.IsInt(r)))
            return r
        if o == 'fbits':
            return self.uf('fbits', a, z3.BitVecSort(s))
        if o == 'ffrombits':
            return self.uf('ffrombits', a, z3.RealSort())
        raise KeyError(o)


def check(s, seconds):
    """s.check() with a time limit that also works in a forked process, where z3's own timer threads are gone"""
    import threading
    s.set('timeout', int(max(seconds, 0.05) * 1000))
    t = threading.Timer(seconds + 0.5, s.ctx.interrupt)
    t.daemon = True
    t.start()
    try:
        return s.check()
    except z3.Z3Exception:
        return z3.unknown
    finally:
        t.cancel()


def solve(mode, assumptions, goal, timeout, want_model=True):
    """-> ('unsat'|'sat'|'unknown', model dict or reason)"""
    tr = Tr(mode)
    if mode in ('uf', 'abs'):
        tr.comm = any(t.op == 'select' for t in collect(list(assumptions) + [goal]))
    s = z3.Solver()
    if mode == 'fp':
        # the plain tactic (bit-blasting) is usually better than the default combined solver
        s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify', 'fpa2bv', 'simplify', 'bit-blast', 'sat').solver() \
            if not any(t.op in ('fn', 'frem') for t in collect(list(assumptions) + [goal])) else z3.SolverFor('QF_FPBV') \
            if False else z3.Solver()
    for x in assumptions:
        s.add(tr.tr(x))
    s.add(z3.Not(tr.tr(goal)))
    for e in tr.extra:
        s.add(e)
    r = check(s, timeout)
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat:
        return 'sat', (model_values(tr, s.model()) if want_model else None)
    return 'unknown', s.reason_unknown()


def solve_hard(mode, assumptions, goal, timeout):
    """solve() in a process of its own, ended when its time is up (nonlinear reasoning does not always stop when told to)"""
    import os
    import pickle
    import select
    import signal
    import time
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(solve(mode, assumptions, goal, timeout), f)
        finally:
            os._exit(0)
    os.close(w)
    end = time.time() + timeout + 2
    buf = b''
    while True:
        left = end - time.time()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            buf = b''
            break
        d = os.read(r, 1 << 20)
        if not d:
            break
        buf += d
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return pickle.loads(buf)
    except Exception:
        return 'unknown', 'timeout'


def solve_cvc5(mode, assumptions, goal, timeout):
    """second opinion on what z3 leaves open (only its 'unsat' is used)"""
    import subprocess
    import tempfile
    tr = Tr(mode)
    if mode in ('uf', 'abs'):
        tr.comm = any(t.op == 'select' for t in collect(list(assumptions) + [goal]))
    s = z3.Solver()
    for x in assumptions:
        s.add(tr.tr(x))
    s.add(z3.Not(tr.tr(goal)))
    for e in tr.extra:
        s.add(e)
    try:
        with tempfile.NamedTemporaryFile('w', suffix='.smt2') as f:
            f.write('(set-logic ALL)\n' + s.to_smt2())
            f.flush()
            r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), f.name], capture_output=True, text=True, timeout=timeout + 5)
        return 'unsat' if r.stdout.split('\n')[0].strip() == 'unsat' else 'unknown'
    except (OSError, subprocess.TimeoutExpired):
        return 'unknown'


def model_values(tr, m):
    out = {}
    for name, (v, t) in tr.syms.items():
        x = m.eval(v, model_completion=True)
        s = t.sort
        try:
            if type(s) is tuple:
                for i in range(256):
                    y = m.eval(z3.Select(v, z3.BitVecVal(i, 64)), model_completion=True)
                    out['%s[%d]' % (name, i)] = (s[2], _fpval(y, s[2]) if s[2] in ('f', 'd') else y.as_long())
                continue
            if s == 'B':
                out[name] = (s, 1 if z3.is_true(x) else 0)
            elif s in ('f', 'd'):
                if tr.mode == 'real':
                    if z3.is_algebraic_value(x):
                        x = x.approx(20)
                    out[name] = (s, float(Fraction(x.numerator_as_long(), x.denominator_as_long())))
                else:
                    out[name] = (s, _fpval(x, s))
            else:
                out[name] = (s, x.as_long())
        except Exception:
            pass
    return out


def _fpval(x, s):
    if x.isNaN():
        return math.nan
    if x.isInf():
        return -math.inf if x.isNegative() else math.inf
    if x.isZero():
        return -0.0 if x.isNegative() else 0.0
    b = z3.simplify(z3.fpToIEEEBV(x)).as_long()
    return TM.ffrombitsval(b, s)
