"""Hash-consed term DAG.

Sorts: 'B' bool, 'f' float32, 'd' float64, int n>1 = bit-vector of width n.
All simplifications here are valid for IEEE-754 floats (round-to-nearest-even, NaN payload ignored) and
two's complement bit-vectors, so every back end may rely on them.
"""
import struct, math
import numpy as np


class T:
    __slots__ = ('op', 'args', 'sort', 'val', 'id', 'rng', 'cache')

    def __repr__(self):
        return show(self, 6)


_tab = {}
_all = []


def mk(op, sort, args=(), val=None):
    key = (op, sort, val) + tuple([a.id for a in args])
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        t.val = val
        t.id = len(_all)
        t.rng = None
        t.cache = None
        _all.append(t)
        _tab[key] = t
    return t


def show(t, depth=4):
    o = t.op
    if o == 'sym':
        return t.val
    if o in ('c', 'bc'):
        return str(t.val)
    if o == 'fc':
        return repr(fval(t)) + ('f' if t.sort == 'f' else '')
    if depth == 0:
        return '#%d' % t.id
    v = '' if t.val is None else ':%s' % (t.val,)
    return '(%s%s %s)' % (o, v, ' '.join(show(a, depth - 1) for a in t.args))


TRUE = mk('bc', 'B', (), True)
FALSE = mk('bc', 'B', (), False)


def boolc(b):
    return TRUE if b else FALSE


def bvc(v, w):
    if w == 1:
        return TRUE if v & 1 else FALSE
    return mk('c', w, (), v & ((1 << w) - 1))


def f32round(x):
    with np.errstate(all='ignore'):
        return float(np.float32(x))


def _fkey(x, s):
    if x != x:
        return 'nan'
    return struct.unpack('<Q', struct.pack('<d', x))[0]


_fvals = {}


def fc(x, s):
    if s == 'f':
        x = f32round(x)
    k = _fkey(x, s)
    t = mk('fc', s, (), k)
    return t


def fval(t):
    k = t.val
    if k == 'nan':
        return math.nan
    return struct.unpack('<d', struct.pack('<Q', k))[0]


def fbitsval(t):
    x = fval(t)
    if t.sort == 'f':
        if x != x:
            return 0x7fc00000
        return struct.unpack('<I', struct.pack('<f', x))[0]
    if x != x:
        return 0x7ff8000000000000
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def ffrombitsval(v, s):
    if s == 'f':
        return struct.unpack('<f', struct.pack('<I', v & 0xffffffff))[0]
    return struct.unpack('<d', struct.pack('<Q', v))[0]


def sym(name, sort):
    return mk('sym', sort, (), name)


def isc(t):
    return t.op == 'c' or t.op == 'fc' or t.op == 'bc'


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


# ---------------------------------------------------------------- bool

def Not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'ite' and (isc(a.args[1]) or isc(a.args[2])):
        return ite(a.args[0], Not(a.args[1]), Not(a.args[2]))
    return mk('not', 'B', (a,))


def And(*xs):
    out = {}
    st = list(xs)[::-1]
    while st:
        x = st.pop()
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == 'and':
            st.extend(x.args[::-1])
            continue
        out[x.id] = x
    for x in out.values():
        if x.op == 'not' and x.args[0].id in out:
            return FALSE
    if not out:
        return TRUE
    l = sorted(out.values(), key=lambda t: t.id)
    if len(l) == 1:
        return l[0]
    return mk('and', 'B', tuple(l))


def Or(*xs):
    out = {}
    st = list(xs)[::-1]
    while st:
        x = st.pop()
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if x.op == 'or':
            st.extend(x.args[::-1])
            continue
        out[x.id] = x
    for x in out.values():
        if x.op == 'not' and x.args[0].id in out:
            return TRUE
    if not out:
        return FALSE
    l = sorted(out.values(), key=lambda t: t.id)
    if len(l) == 1:
        return l[0]
    return mk('or', 'B', tuple(l))


def Implies(a, b):
    return Or(Not(a), b)


def Xor(a, b):
    if a is b:
        return FALSE
    if isc(a):
        return Not(b) if a.val else b
    if isc(b):
        return Not(a) if b.val else a
    if Not(a) is b:
        return TRUE
    if a.id > b.id:
        a, b = b, a
    return mk('xor', 'B', (a, b))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    if a.sort == 'B':
        if a is TRUE:
            return Or(c, b)
        if a is FALSE:
            return And(Not(c), b)
        if b is TRUE:
            return Or(Not(c), a)
        if b is FALSE:
            return And(c, a)
        if a is c:
            return Or(c, b)
        if b is c:
            return And(c, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    # ite(c, x, ite(d, x, y)) -> ite(c|d, x, y) is left alone: keeps conditions atomic
    return mk('ite', a.sort, (c, a, b))


def _constleaves(t, n=6):
    """t is an ite tree with constant leaves (small)"""
    if isc(t):
        return True
    if t.op == 'ite' and n > 0:
        return _constleaves(t.args[1], n - 1) and _constleaves(t.args[2], n - 1)
    return False


def _pushite(t, f):
    if t.op == 'ite':
        return ite(t.args[0], _pushite(t.args[1], f), _pushite(t.args[2], f))
    return f(t)


def _liftable(a, b):
    if a.op == 'ite' and isc(b) and _constleaves(a):
        return 0
    if b.op == 'ite' and isc(a) and _constleaves(b):
        return 1
    return None


# ---------------------------------------------------------------- ranges (unsigned)

def urange(t):
    if t.op == 'c':
        return (t.val, t.val)
    if t.rng is not None:
        return t.rng
    w = t.sort
    r = (0, (1 << w) - 1)
    o = t.op
    if o == 'zext':
        a = t.args[0]
        r = urange(a)
    elif o == 'ite':
        x = urange(t.args[1])
        y = urange(t.args[2])
        r = (min(x[0], y[0]), max(x[1], y[1]))
    elif o == 'bvand':
        r = (0, min(urange(a)[1] for a in t.args))
    elif o == 'add':
        lo = hi = 0
        for a in t.args:
            x = urange(a)
            lo += x[0]
            hi += x[1]
        if hi < (1 << w):
            r = (lo, hi)
        else:
            # constant negative offset
            c = [a for a in t.args if a.op == 'c']
            if len(c) == 1 and len(t.args) == 2:
                k = sgn(c[0].val, w)
                x = urange(t.args[0] if t.args[1] is c[0] else t.args[1])
                if k < 0 and x[0] + k >= 0:
                    r = (x[0] + k, x[1] + k)
    elif o == 'mul':
        x = urange(t.args[0])
        y = urange(t.args[1])
        if x[1] * y[1] < (1 << w):
            r = (x[0] * y[0], x[1] * y[1])
    elif o == 'udiv':
        x = urange(t.args[0])
        y = urange(t.args[1])
        if y[0] > 0:
            r = (x[0] // y[1], x[1] // y[0])
    elif o == 'urem':
        x = urange(t.args[0])
        y = urange(t.args[1])
        if y[0] > 0:
            r = (0, min(x[1], y[1] - 1))
    elif o == 'lshr' and t.args[1].op == 'c':
        x = urange(t.args[0])
        k = t.args[1].val
        r = (x[0] >> k, x[1] >> k) if k < w else (0, 0)
    elif o == 'extract':
        hi, lo = t.val
        x = urange(t.args[0])
        if lo == 0 and x[1] < (1 << (hi + 1)):
            r = x
    elif o == 'concat':
        a, b = t.args
        if a.op == 'c' and a.val == 0:
            r = urange(b)
    elif o == 'sext':
        x = urange(t.args[0])
        if x[1] < (1 << (t.args[0].sort - 1)):
            r = x
    t.rng = r
    return r


# ---------------------------------------------------------------- bit-vectors

def bvadd(a, b):
    w = a.sort
    if w == 'B':
        return Xor(a, b)
    terms = []
    k = 0
    for x in (a, b):
        if x.op == 'add':
            for y in x.args:
                if y.op == 'c':
                    k += y.val
                else:
                    terms.append(y)
        elif x.op == 'c':
            k += x.val
        else:
            terms.append(x)
    k &= (1 << w) - 1
    # cancel x + (-x)
    if len(terms) == 2:
        p, q = terms
        if (q.op == 'neg' and q.args[0] is p) or (p.op == 'neg' and p.args[0] is q):
            terms = []
    elif len(terms) > 2:
        cnt = {}
        for y in terms:
            if y.op == 'neg':
                cnt.setdefault(y.args[0].id, [y.args[0], 0])[1] -= 1
            else:
                cnt.setdefault(y.id, [y, 0])[1] += 1
        terms = []
        for y, c in cnt.values():
            for _ in range(abs(c)):
                terms.append(y if c > 0 else mk('neg', w, (y,)))
    if not terms:
        return bvc(k, w)
    if len(terms) == 1 and terms[0].op == 'ite' and k and _constleaves(terms[0]):
        kk = bvc(k, w)
        return _pushite(terms[0], lambda x: bvadd(x, kk))
    if k:
        terms.append(bvc(k, w))
    if len(terms) == 1:
        return terms[0]
    terms.sort(key=lambda t: t.id)
    return mk('add', w, tuple(terms))


def bvneg(a):
    w = a.sort
    if w == 'B':
        return a
    if a.op == 'c':
        return bvc(-a.val, w)
    if a.op == 'neg':
        return a.args[0]
    if a.op == 'add':
        r = bvc(0, w)
        for x in a.args:
            r = bvadd(r, bvneg(x))
        return r
    if a.op == 'ite' and _constleaves(a):
        return _pushite(a, bvneg)
    return mk('neg', w, (a,))


def bvsub(a, b):
    if a is b:
        return bvc(0, a.sort)
    return bvadd(a, bvneg(b))


def bvmul(a, b):
    w = a.sort
    if w == 'B':
        return And(a, b)
    if a.op == 'c' and b.op == 'c':
        return bvc(a.val * b.val, w)
    if a.op == 'c':
        a, b = b, a
    if b.op == 'c':
        if b.val == 0:
            return b
        if b.val == 1:
            return a
        if a.op == 'add':
            r = bvc(0, w)
            for x in a.args:
                r = bvadd(r, bvmul(x, b))
            return r
        if a.op == 'neg':
            return bvmul(a.args[0], bvc(-b.val, w))
        if a.op == 'mul' and a.args[1].op == 'c':
            return bvmul(a.args[0], bvc(a.args[1].val * b.val, w))
    i = _liftable(a, b)
    if i == 0:
        return _pushite(a, lambda x: bvmul(x, b))
    if b.op != 'c' and a.id > b.id:
        a, b = b, a
    return mk('mul', w, (a, b))


def _bin(op, f):
    def g(a, b):
        w = a.sort
        if a.op == 'c' and b.op == 'c':
            r = f(a.val, b.val, w)
            if r is not None:
                return bvc(r, w)
        i = _liftable(a, b)
        if i == 0:
            return _pushite(a, lambda x: g(x, b))
        if i == 1:
            return _pushite(b, lambda x: g(a, x))
        return mk(op, w, (a, b))
    return g


def _udiv(a, b):
    if b.op == 'c':
        if b.val == 1:
            return a
    return _udiv0(a, b)


def _sdivf(x, y, w):
    x = sgn(x, w)
    y = sgn(y, w)
    if y == 0:
        return None
    q = abs(x) // abs(y)
    return q if (x < 0) == (y < 0) else -q


def _sremf(x, y, w):
    q = _sdivf(x, y, w)
    if q is None:
        return None
    return sgn(x, w) - q * sgn(y, w)


_udiv0 = _bin('udiv', lambda x, y, w: x // y if y else None)
bvudiv = _udiv
bvurem0 = _bin('urem', lambda x, y, w: x % y if y else None)


def bvurem(a, b):
    if b.op == 'c' and b.val:
        if urange(a)[1] < b.val:
            return a
        if b.val & (b.val - 1) == 0:
            return bvand(a, bvc(b.val - 1, a.sort))
    if b.op != 'c':
        # small operands: a narrow division
        m = max(urange(a)[1], urange(b)[1]).bit_length()
        if 0 < m < a.sort:
            return zext(bvurem0(extract(a, m - 1, 0), extract(b, m - 1, 0)), a.sort)
    return bvurem0(a, b)


bvsdiv0 = _bin('sdiv', _sdivf)
bvsrem0 = _bin('srem', _sremf)


def bvsdiv(a, b):
    if b.op == 'c' and sgn(b.val, b.sort) > 0 and urange(a)[1] < (1 << (a.sort - 1)):
        return bvudiv(a, b)
    return bvsdiv0(a, b)


def srange(t):
    """signed range of a sum of small terms, or None"""
    w = t.sort
    if t.op == 'c':
        k = sgn(t.val, w)
        return k, k
    if t.op == 'add':
        lo = hi = 0
        for x in t.args:
            r = srange(x)
            if r is None:
                return None
            lo += r[0]
            hi += r[1]
    elif t.op == 'neg':
        r = srange(t.args[0])
        if r is None:
            return None
        lo, hi = -r[1], -r[0]
    elif t.op == 'ite':
        x, y = srange(t.args[1]), srange(t.args[2])
        if x is None or y is None:
            return None
        lo, hi = min(x[0], y[0]), max(x[1], y[1])
    else:
        lo, hi = urange(t)
    return (lo, hi) if -(1 << (w - 1)) <= lo and hi < (1 << (w - 1)) else None


def bvsrem(a, b):
    if b.op != 'c':
        x, y = srange(a), srange(b)
        if x and y:
            m = max(max(abs(v) for v in x), max(abs(v) for v in y)).bit_length() + 1
            if m < a.sort and (x[0] < 0 or y[0] < 0):
                return sext(bvsrem0(extract(a, m - 1, 0), extract(b, m - 1, 0)), a.sort)
    if b.op != 'c' and max(urange(a)[1], urange(b)[1]) < (1 << (a.sort - 1)):
        return bvurem(a, b)
    if b.op == 'c' and sgn(b.val, b.sort) > 0 and urange(a)[1] < (1 << (a.sort - 1)):
        return bvurem(a, b)
    return bvsrem0(a, b)


def bvshl(a, b):
    w = a.sort
    if w == 'B':
        return And(a, Not(b))
    if b.op == 'c':
        k = b.val
        if k == 0:
            return a
        if k >= w:
            return bvc(0, w)
        if a.op == 'c':
            return bvc(a.val << k, w)
        return concat(extract(a, w - 1 - k, 0), bvc(0, k)) if _useconcat(a) else _shl0(a, b)
    return _shl0(a, b)


_shl0 = _bin('shl', lambda x, y, w: (x << y) if y < w else 0)


def _useconcat(a):
    return False


def bvlshr(a, b):
    w = a.sort
    if w == 'B':
        return And(a, Not(b))
    if b.op == 'c':
        k = b.val
        if k == 0:
            return a
        if k >= w:
            return bvc(0, w)
        if a.op == 'lshr' and a.args[1].op == 'c':
            return bvlshr(a.args[0], bvc(a.args[1].val + k, w))
    return _lshr0(a, b)


_lshr0 = _bin('lshr', lambda x, y, w: (x >> y) if y < w else 0)
_ashr0 = _bin('ashr', lambda x, y, w: sgn(x, w) >> min(y, w - 1))


def bvashr(a, b):
    if a.sort == 'B':
        return a
    if urange(a)[1] < (1 << (a.sort - 1)):
        return bvlshr(a, b)
    return _ashr0(a, b)


def _flat(op, xs):
    out = []
    for x in xs:
        if x.op == op:
            out.extend(x.args)
        else:
            out.append(x)
    return out


def bvand(a, b):
    w = a.sort
    if w == 'B':
        return And(a, b)
    k = (1 << w) - 1
    ts = {}
    for x in _flat('bvand', (a, b)):
        if x.op == 'c':
            k &= x.val
        else:
            ts[x.id] = x
    if k == 0 or not ts:
        return bvc(k, w)
    l = sorted(ts.values(), key=lambda t: t.id)
    if len(l) == 1:
        x = l[0]
        if k == (1 << w) - 1:
            return x
        if x.op == 'ite' and _constleaves(x):
            kk = bvc(k, w)
            return _pushite(x, lambda y: bvand(y, kk))
        # distribute a mask over or / ite: resolves bit-field reads of bit-field writes
        if x.op == 'bvor':
            r = bvc(0, w)
            kk = bvc(k, w)
            for y in x.args:
                r = bvor(r, bvand(y, kk))
            return r
        if x.op == 'ite':
            kk = bvc(k, w)
            return ite(x.args[0], bvand(x.args[1], kk), bvand(x.args[2], kk))
        hi = urange(x)[1]
        if hi & ~k == 0 and (hi & (hi + 1)) == 0:
            return x
        if k & ((1 << hi.bit_length()) - 1) == (1 << hi.bit_length()) - 1:
            return x
        if x.op == 'shl' and x.args[1].op == 'c':
            s = x.args[1].val
            inner = bvand(x.args[0], bvc(k >> s, w))
            if inner.op == 'c':
                return bvc(inner.val << s, w)
            lowmask = ((1 << w) - 1) >> s
            if (k >> s) & lowmask == lowmask:
                return x
    if k != (1 << w) - 1:
        l.append(bvc(k, w))
    return mk('bvand', w, tuple(l))


def bvor(a, b):
    w = a.sort
    if w == 'B':
        return Or(a, b)
    k = 0
    ts = {}
    for x in _flat('bvor', (a, b)):
        if x.op == 'c':
            k |= x.val
        else:
            ts[x.id] = x
    full = (1 << w) - 1
    if k == full or not ts:
        return bvc(k, w)
    l = sorted(ts.values(), key=lambda t: t.id)
    if k:
        if len(l) == 1 and l[0].op == 'ite' and _constleaves(l[0]):
            kk = bvc(k, w)
            return _pushite(l[0], lambda y: bvor(y, kk))
        l.append(bvc(k, w))
    if len(l) == 1:
        return l[0]
    return mk('bvor', w, tuple(l))


def bvxor(a, b):
    w = a.sort
    if w == 'B':
        return Xor(a, b)
    k = 0
    cnt = {}
    for x in _flat('bvxor', (a, b)):
        if x.op == 'c':
            k ^= x.val
        else:
            if x.id in cnt:
                del cnt[x.id]
            else:
                cnt[x.id] = x
    l = sorted(cnt.values(), key=lambda t: t.id)
    if len(l) == 1 and l[0].op == 'ite' and _constleaves(l[0]) and k:
        kk = k
        return _pushite(l[0], lambda y: bvc(y.val ^ kk, w))
    if k or not l:
        l.append(bvc(k, w))
    if len(l) == 1:
        return l[0]
    return mk('bvxor', w, tuple(l))


def zext(a, w):
    if a.sort == 'B':
        return ite(a, bvc(1, w), bvc(0, w))
    if a.sort == w:
        return a
    if a.op == 'c':
        return bvc(a.val, w)
    if a.op == 'zext':
        return zext(a.args[0], w)
    if a.op == 'ite' and _constleaves(a):
        return _pushite(a, lambda x: zext(x, w))
    return mk('zext', w, (a,))


def sext(a, w):
    if a.sort == 'B':
        return ite(a, bvc(-1, w), bvc(0, w))
    if a.sort == w:
        return a
    if a.op == 'c':
        return bvc(sgn(a.val, a.sort), w)
    if a.op == 'ite' and _constleaves(a):
        return _pushite(a, lambda x: sext(x, w))
    if urange(a)[1] < (1 << (a.sort - 1)):
        return zext(a, w)
    return mk('sext', w, (a,))


def bit(t, k):
    """boolean value of bit k"""
    w = t.sort
    if w == 'B':
        return t if k == 0 else FALSE
    o = t.op
    if o == 'c':
        return boolc((t.val >> k) & 1)
    if o == 'bvor':
        return Or(*[bit(x, k) for x in t.args])
    if o == 'bvand':
        return And(*[bit(x, k) for x in t.args])
    if o == 'bvxor':
        r = FALSE
        for x in t.args:
            r = Xor(r, bit(x, k))
        return r
    if o == 'ite':
        return ite(t.args[0], bit(t.args[1], k), bit(t.args[2], k))
    if o == 'zext':
        return bit(t.args[0], k) if k < t.args[0].sort else FALSE
    if o == 'sext':
        return bit(t.args[0], min(k, t.args[0].sort - 1))
    if o == 'shl' and t.args[1].op == 'c':
        s = t.args[1].val
        return bit(t.args[0], k - s) if k >= s else FALSE
    if o == 'lshr' and t.args[1].op == 'c':
        s = t.args[1].val
        return bit(t.args[0], k + s) if k + s < w else FALSE
    if o == 'ashr' and t.args[1].op == 'c':
        return bit(t.args[0], min(k + t.args[1].val, w - 1))
    if o == 'extract':
        return bit(t.args[0], k + t.val[1])
    if o == 'concat':
        lw = t.args[1].sort
        return bit(t.args[1], k) if k < lw else bit(t.args[0], k - lw)
    if urange(t)[1] >> k == 0:
        return FALSE
    return mk('bit', 'B', (t,), k)


def extract(a, hi, lo):
    w = a.sort
    n = hi - lo + 1
    if n == w:
        return a
    if n == 1:
        return bit(a, lo)
    o = a.op
    if o == 'c':
        return bvc(a.val >> lo, n)
    if o == 'extract':
        return extract(a.args[0], hi + a.val[1], lo + a.val[1])
    if o == 'concat':
        lw = a.args[1].sort
        if hi < lw:
            return extract(a.args[1], hi, lo)
        if lo >= lw:
            return extract(a.args[0], hi - lw, lo - lw)
        return concat(extract(a.args[0], hi - lw, 0), extract(a.args[1], lw - 1, lo))
    if o == 'zext' or o == 'sext':
        iw = a.args[0].sort
        if hi < iw:
            return extract(a.args[0], hi, lo)
        if lo >= iw and o == 'zext':
            return bvc(0, n)
        if lo == 0:
            return zext(a.args[0], n) if o == 'zext' else sext(a.args[0], n)
    if o == 'ite':
        return ite(a.args[0], extract(a.args[1], hi, lo), extract(a.args[2], hi, lo))
    if o == 'bvor' or o == 'bvand' or o == 'bvxor':
        f = {'bvor': bvor, 'bvand': bvand, 'bvxor': bvxor}[o]
        r = extract(a.args[0], hi, lo)
        for x in a.args[1:]:
            r = f(r, extract(x, hi, lo))
        return r
    if o == 'add' and lo == 0:
        r = extract(a.args[0], hi, 0)
        for x in a.args[1:]:
            r = bvadd(r, extract(x, hi, 0))
        return r
    if o == 'neg' and lo == 0:
        return bvneg(extract(a.args[0], hi, 0))
    if o == 'mul' and lo == 0:
        return bvmul(extract(a.args[0], hi, 0), extract(a.args[1], hi, 0))
    if o == 'lshr' and a.args[1].op == 'c':
        s = a.args[1].val
        if hi + s < w:
            return extract(a.args[0], hi + s, lo + s)
    if o == 'shl' and a.args[1].op == 'c':
        s = a.args[1].val
        if lo >= s:
            return extract(a.args[0], hi - s, lo - s)
        if hi < s:
            return bvc(0, n)
    return mk('extract', n, (a,), (hi, lo))


def concat(a, b):
    """a = high part"""
    if a.sort == 'B':
        a = ite(a, mk('c', 1, (), 1), mk('c', 1, (), 0)) if not isc(a) else mk('c', 1, (), int(a.val))
    if b.sort == 'B':
        b = ite(b, mk('c', 1, (), 1), mk('c', 1, (), 0)) if not isc(b) else mk('c', 1, (), int(b.val))
    w = a.sort + b.sort
    if a.op == 'c' and b.op == 'c':
        return bvc((a.val << b.sort) | b.val, w)
    if a.op == 'c' and a.val == 0 and b.sort > 1:
        return zext(b, w)
    if a.op == 'extract' and b.op == 'extract' and a.args[0] is b.args[0] and a.val[1] == b.val[0] + 1:
        return extract(a.args[0], a.val[0], b.val[1])
    # reassociate to the right so that adjacent extracts meet
    if b.op == 'concat' and a.op == 'extract' and b.args[0].op == 'extract' and a.args[0] is b.args[0].args[0] \
            and a.val[1] == b.args[0].val[0] + 1:
        return concat(extract(a.args[0], a.val[0], b.args[0].val[1]), b.args[1])
    if a.op == 'concat':
        return concat(a.args[0], concat(a.args[1], b))
    return mk('concat', w, (a, b))


def eq(a, b):
    """logical equality (for floats: identical value, NaN equal to NaN)"""
    if a is b:
        return TRUE
    s = a.sort
    if s == 'B':
        return Not(Xor(a, b))
    if isc(a) and isc(b):
        return FALSE
    i = _liftable(a, b)
    if i == 0:
        return _pushite(a, lambda x: eq(x, b))
    if i == 1:
        return _pushite(b, lambda x: eq(a, x))
    if s not in ('f', 'd'):
        if a.op == 'c':
            a, b = b, a
        if b.op == 'c':
            lo, hi = urange(a)
            if b.val < lo or b.val > hi:
                return FALSE
            if a.op == 'zext':
                iw = a.args[0].sort
                return eq(a.args[0], bvc(b.val, iw))
            if a.op == 'concat':
                lw = a.args[1].sort
                return And(eq(a.args[0], mk('c', a.args[0].sort, (), b.val >> lw)),
                           eq(a.args[1], mk('c', lw, (), b.val & ((1 << lw) - 1))))
            if a.op == 'bvand' and a.args[-1].op == 'c':
                m = a.args[-1].val
                if b.val & ~m:
                    return FALSE
                if m & (m - 1) == 0:
                    x = a.args[:-1]
                    r = And(*[bit(y, m.bit_length() - 1) for y in x])
                    return r if b.val else Not(r)
            if a.op in ('bvor', 'bvxor') and bin(_maybe1(a)).count('1') <= 8:
                m = _maybe1(a)
                if b.val & ~m:
                    return FALSE
                r = TRUE
                k = 0
                while m >> k:
                    if (m >> k) & 1:
                        x = bit(a, k)
                        r = And(r, x if (b.val >> k) & 1 else Not(x))
                    k += 1
                return r
            if a.op in ('lshr', 'shl') and a.args[1].op == 'c' and bin(_maybe1(a)).count('1') == 1:
                m = _maybe1(a)
                if b.val & ~m:
                    return FALSE
                x = bit(a, m.bit_length() - 1)
                return x if b.val else Not(x)
            if a.op == 'add' and a.args[-1].op == 'c' or a.op == 'add' and any(x.op == 'c' for x in a.args):
                k = [x for x in a.args if x.op == 'c'][0]
                rest = [x for x in a.args if x.op != 'c']
                if len(rest) == 1:
                    return eq(rest[0], bvc(b.val - k.val, s))
        elif a.op == 'zext' and b.op == 'zext' and a.args[0].sort == b.args[0].sort:
            return eq(a.args[0], b.args[0])
        else:
            la, ha = urange(a)
            lb, hb = urange(b)
            if ha < lb or hb < la:
                return FALSE
            d = bvsub(a, b)
            if d.op == 'c':
                return boolc(d.val == 0)
    if a.id > b.id:
        a, b = b, a
    return mk('eq', 'B', (a, b))


def _maybe1(t):
    """mask of bits which may be one (bounded recursion)"""
    w = t.sort
    o = t.op
    full = (1 << w) - 1
    if o == 'c':
        return t.val
    if o == 'bvor' or o == 'bvxor':
        m = 0
        for x in t.args:
            m |= _maybe1(x)
        return m
    if o == 'bvand':
        m = full
        for x in t.args:
            m &= _maybe1(x)
        return m
    if o == 'ite':
        return _maybe1(t.args[1]) | _maybe1(t.args[2])
    if o == 'zext':
        return _maybe1(t.args[0])
    if o == 'shl' and t.args[1].op == 'c':
        return (_maybe1(t.args[0]) << t.args[1].val) & full
    if o == 'lshr' and t.args[1].op == 'c':
        return _maybe1(t.args[0]) >> t.args[1].val
    hi = urange(t)[1]
    return (1 << hi.bit_length()) - 1


def ult(a, b):
    if a is b:
        return FALSE
    if a.sort == 'B':
        return And(Not(a), b)
    la, ha = urange(a)
    lb, hb = urange(b)
    if ha < lb:
        return TRUE
    if la >= hb:
        return FALSE
    i = _liftable(a, b)
    if i == 0:
        return _pushite(a, lambda x: ult(x, b))
    if i == 1:
        return _pushite(b, lambda x: ult(a, x))
    if a.op == 'zext' and b.op == 'zext' and a.args[0].sort == b.args[0].sort:
        return ult(a.args[0], b.args[0])
    if a.op == 'zext' and b.op == 'c':
        return ult(a.args[0], bvc(b.val, a.args[0].sort))
    if b.op == 'zext' and a.op == 'c':
        return ult(bvc(a.val, b.args[0].sort), b.args[0])
    if b.op == 'c' and b.val == 1:
        return eq(a, bvc(0, a.sort))
    return mk('ult', 'B', (a, b))


def ule(a, b):
    return Not(ult(b, a))


def slt(a, b):
    if a is b:
        return FALSE
    w = a.sort
    if w == 'B':
        return And(a, Not(b))
    if a.op == 'c' and b.op == 'c':
        return boolc(sgn(a.val, w) < sgn(b.val, w))
    h = 1 << (w - 1)
    if urange(a)[1] < h and urange(b)[1] < h:
        return ult(a, b)
    i = _liftable(a, b)
    if i == 0:
        return _pushite(a, lambda x: slt(x, b))
    if i == 1:
        return _pushite(b, lambda x: slt(a, x))
    return mk('slt', 'B', (a, b))


def sle(a, b):
    return Not(slt(b, a))


# ---------------------------------------------------------------- floats

def _fround(x, s):
    return f32round(x) if s == 'f' else x


# In proofs about ideal reals a constant denotes the decimal the programmer wrote.  An operation on constants is folded
# only when the rounded result denotes the exact result; otherwise it stays a term (with known machine value).
REALFOLD = [False]
CV = {}      # term -> machine value of an unfolded constant expression
RV = {}      # term -> exact value


def _cval(t):
    return fval(t) if t.op == 'fc' else CV.get(t.id)


def _rval(t):
    if t.op == 'fc':
        from .smt import dec_fraction
        return dec_fraction(t)
    return RV[t.id]


def _foldc(t):
    v = CV.get(t.id)
    return t if v is None else fc(v, t.sort)


def _fbin(op, f):
    def g(a, b):
        s = a.sort
        if (a.op == 'fc' or a.id in CV) and (b.op == 'fc' or b.id in CV) and not (a.op == 'fc' and b.op == 'fc' and not REALFOLD[0]):
            x, y = _cval(a), _cval(b)
            with np.errstate(all='ignore'):
                t = np.float32 if s == 'f' else np.float64
                r = float(f(t(x), t(y)))
            if not REALFOLD[0] or op == 'frem' or not (math.isfinite(r) and math.isfinite(x) and math.isfinite(y)):
                return fc(r, s)
            p, q = _rval(a), _rval(b)
            e = p + q if op == 'fadd' else p - q if op == 'fsub' else p * q if op == 'fmul' else p / q if q else None
            c = fc(r, s)
            if e is None or e == _rval(c) or r == 0:
                return c
            if op in ('fadd', 'fmul') and a.id > b.id:
                a, b = b, a
            n = mk(op, s, (a, b))
            CV[n.id] = r
            RV[n.id] = e
            return n
        if a.op == 'fc' and b.op == 'fc':
            with np.errstate(all='ignore'):
                if s == 'f':
                    r = float(f(np.float32(fval(a)), np.float32(fval(b))))
                else:
                    r = float(f(np.float64(fval(a)), np.float64(fval(b))))
            return fc(r, s)
        i = _liftable(a, b)
        if i == 0:
            return _pushite(a, lambda x: g(x, b))
        if i == 1:
            return _pushite(b, lambda x: g(a, x))
        if op in ('fadd', 'fmul') and a.id > b.id:
            a, b = b, a
        return mk(op, s, (a, b))
    return g


fadd = _fbin('fadd', lambda x, y: x + y)
_fsub0 = _fbin('fsub', lambda x, y: x - y)
_fmul0 = _fbin('fmul', lambda x, y: x * y)
_fdiv0 = _fbin('fdiv', lambda x, y: np.divide(x, y))
frem = _fbin('frem', lambda x, y: np.fmod(x, y))


def fsub(a, b):
    return _fsub0(a, b)


def fmul(a, b):
    if b.op == 'fc' and fval(b) == 1.0:
        return a
    if a.op == 'fc' and fval(a) == 1.0:
        return b
    return _fmul0(a, b)


def fdiv(a, b):
    if b.op == 'fc' and fval(b) == 1.0:
        return a
    return _fdiv0(a, b)


def fneg(a):
    if a.id in CV and a.op != 'fneg':
        n = mk('fneg', a.sort, (a,))
        CV[n.id] = -CV[a.id]
        RV[n.id] = -RV[a.id]
        return n
    if a.op == 'fc':
        return fc(-fval(a), a.sort)
    if a.op == 'fneg':
        return a.args[0]
    if a.op == 'ite' and _constleaves(a):
        return _pushite(a, fneg)
    return mk('fneg', a.sort, (a,))


def fabs(a):
    if a.id in CV:
        return a if CV[a.id] >= 0 else fneg(a)
    if a.op == 'fc':
        return fc(abs(fval(a)), a.sort)
    if a.op == 'fabs':
        return a
    if a.op == 'fneg':
        return fabs(a.args[0])
    if a.op == 'fsub' and a.args[0].id > a.args[1].id:
        a = fsub(a.args[1], a.args[0])      # exact in IEEE arithmetic: x - y and y - x differ in sign only
    if a.op == 'ite' and _constleaves(a):
        return _pushite(a, fabs)
    return mk('fabs', a.sort, (a,))


def fun1(op, f):
    def g(a):
        if op != 'fsqrt':
            a = _foldc(a)
        if a.op == 'fc':
            x = fval(a)
            try:
                return fc(f(x), a.sort)
            except (ValueError, OverflowError):
                pass
        return mk(op, a.sort, (a,))
    return g


def _msqrt(x):
    if x != x or x < 0:
        return math.nan
    return math.sqrt(x)


fsqrt = fun1('fsqrt', _msqrt)
ffloor = fun1('ffloor', lambda x: math.floor(x) * 1.0 if math.isfinite(x) and x != 0 else x)
fceil = fun1('fceil', lambda x: (math.ceil(x) * 1.0 if math.ceil(x) else math.copysign(0., x)) if math.isfinite(x) else x)
ftruncr = fun1('ftrunc', lambda x: math.copysign(math.trunc(x), x) if math.isfinite(x) else x)
frint = fun1('frint', lambda x: math.copysign(round(x), x) if math.isfinite(x) else x)
froundaway = fun1('froundaway', lambda x: math.copysign(math.floor(abs(x) + 0.5), x) if math.isfinite(x) and abs(x) < 2**50 and (abs(x)+0.5)-abs(x)==0.5 else x)


def fn(name, sort, *args):
    return mk('fn', sort, tuple(args), name)


def fcmp(op, a, b):
    """op in feq flt fle"""
    if CV and _cval(a) is not None and _cval(b) is not None:
        a, b = _foldc(a), _foldc(b)
    if a.op == 'fc' and b.op == 'fc':
        x, y = fval(a), fval(b)
        return boolc({'feq': x == y, 'flt': x < y, 'fle': x <= y}[op])
    if (a.op == 'fc' and a.val == 'nan') or (b.op == 'fc' and b.val == 'nan'):
        return FALSE
    if op == 'flt' and ((a.op == 'fc' and fval(a) == math.inf) or (b.op == 'fc' and fval(b) == -math.inf)):
        return FALSE
    i = _liftable(a, b)
    if i == 0:
        return _pushite(a, lambda x: fcmp(op, x, b))
    if i == 1:
        return _pushite(b, lambda x: fcmp(op, a, x))
    if a is b:
        return FALSE if op == 'flt' else Not(fisnan(a))
    if op == 'feq' and a.id > b.id:
        a, b = b, a
    # int -> float conversions of unsigned/small compare against constants
    return mk(op, 'B', (a, b))


def feq(a, b):
    return fcmp('feq', a, b)


def flt(a, b):
    return fcmp('flt', a, b)


def fle(a, b):
    return fcmp('fle', a, b)


def fisnan(a):
    a = _foldc(a)
    if a.op == 'fc':
        return boolc(fval(a) != fval(a))
    if a.op in ('sitofp', 'uitofp'):
        return FALSE
    if a.op in ('fneg', 'fabs', 'fpext', 'ffloor', 'fceil', 'ftrunc', 'frint', 'froundaway', 'fptrunc'):
        return fisnan(a.args[0])
    if a.op == 'ite':
        return ite(a.args[0], fisnan(a.args[1]), fisnan(a.args[2]))
    return mk('fisnan', 'B', (a,))


def fisfinite(a):
    a = _foldc(a)
    if a.op == 'fc':
        return boolc(math.isfinite(fval(a)))
    if a.op in ('sitofp', 'uitofp') and a.args[0].sort <= 64:
        return TRUE
    if a.op in ('fneg', 'fabs', 'fpext', 'ffloor', 'fceil', 'ftrunc', 'frint', 'froundaway'):
        return fisfinite(a.args[0])
    if a.op == 'ite':
        return ite(a.args[0], fisfinite(a.args[1]), fisfinite(a.args[2]))
    return mk('fisfinite', 'B', (a,))


def fsignbit(a):
    a = _foldc(a)
    if a.op == 'fc':
        return boolc(math.copysign(1, fval(a)) < 0)
    return mk('fsignbit', 'B', (a,))


def fpext(a):
    a = _foldc(a)
    if a.op == 'fc':
        return fc(fval(a), 'd')
    if a.op == 'ite' and _constleaves(a):
        return _pushite(a, fpext)
    return mk('fpext', 'd', (a,))


def fptrunc(a):
    a = _foldc(a)
    if a.op == 'fc':
        return fc(fval(a), 'f')
    if a.op == 'fpext':
        return a.args[0]
    if a.op == 'ite' and _constleaves(a):
        return _pushite(a, fptrunc)
    return mk('fptrunc', 'f', (a,))


def itofp(a, signed, s):
    if a.sort == 'B':
        return ite(a, fc(-1.0 if signed else 1.0, s), fc(0.0, s))
    if a.op == 'c':
        v = sgn(a.val, a.sort) if signed else a.val
        if s == 'f':
            return fc(_int2f32(v), s)
        return fc(float(v), s)
    if a.op == 'ite' and _constleaves(a):
        return _pushite(a, lambda x: itofp(x, signed, s))
    if signed and urange(a)[1] < (1 << (a.sort - 1)):
        signed = False
    if a.op == 'zext':
        a = a.args[0]
        signed = False
    elif a.op == 'sext':
        a = a.args[0]
        signed = True
    return mk('sitofp' if signed else 'uitofp', s, (a,))


def _int2f32(v):
    # correctly rounded int -> float32
    if v == 0:
        return 0.0
    n = abs(v)
    e = n.bit_length() - 24
    if e > 0:
        q = n >> e
        r = n & ((1 << e) - 1)
        h = 1 << (e - 1)
        if r > h or (r == h and q & 1):
            q += 1
        n = q << e
    return float(n) if v > 0 else -float(n)


def fptoi(a, signed, w):
    a = _foldc(a)
    if a.op == 'fc' and math.isfinite(fval(a)):
        v = int(fval(a))
        return bvc(v, w)
    if a.op == 'ite' and _constleaves(a):
        return _pushite(a, lambda x: fptoi(x, signed, w))
    return mk('fptosi' if signed else 'fptoui', w, (a,))


def fbits(a):
    a = _foldc(a)
    w = 32 if a.sort == 'f' else 64
    if a.op == 'fc':
        return bvc(fbitsval(a), w)
    if a.op == 'ffrombits':
        return a.args[0]
    if a.op == 'ite' and _constleaves(a):
        return _pushite(a, fbits)
    return mk('fbits', w, (a,))


def ffrombits(a, s):
    if a.op == 'c':
        return fc(ffrombitsval(a.val, s), s)
    if a.op == 'fbits':
        return a.args[0]
    if a.op == 'ite':
        return ite(a.args[0], ffrombits(a.args[1], s), ffrombits(a.args[2], s))
    return mk('ffrombits', s, (a,))


def aselect(arr, idx):
    while arr.op == 'store':
        e = eq(arr.args[1], idx)
        if e is TRUE:
            return arr.args[2]
        if e is FALSE:
            arr = arr.args[0]
            continue
        break
    if arr.op == 'ite':
        c, x, y = arr.args
        a, b = aselect(x, idx), aselect(y, idx)
        if a is b:
            return a
    return mk('select', arr.sort[2], (arr, idx))


def collect(roots):
    """all nodes reachable, topologically ordered (children first)"""
    seen = set()
    out = []
    for r in roots:
        if r.id in seen:
            continue
        st = [(r, 0)]
        seen.add(r.id)
        while st:
            t, i = st.pop()
            if i < len(t.args):
                st.append((t, i + 1))
                c = t.args[i]
                if c.id not in seen:
                    seen.add(c.id)
                    st.append((c, 0))
            else:
                out.append(t)
    return out


REBUILD = {
    'not': lambda t, a: Not(*a), 'and': lambda t, a: And(*a), 'or': lambda t, a: Or(*a),
    'xor': lambda t, a: Xor(*a), 'ite': lambda t, a: ite(*a), 'eq': lambda t, a: eq(*a),
    'add': lambda t, a: _fold(bvadd, a), 'neg': lambda t, a: bvneg(*a), 'mul': lambda t, a: bvmul(*a),
    'udiv': lambda t, a: bvudiv(*a), 'urem': lambda t, a: bvurem(*a), 'sdiv': lambda t, a: bvsdiv(*a),
    'srem': lambda t, a: bvsrem(*a), 'shl': lambda t, a: bvshl(*a), 'lshr': lambda t, a: bvlshr(*a),
    'ashr': lambda t, a: bvashr(*a), 'bvand': lambda t, a: _fold(bvand, a), 'bvor': lambda t, a: _fold(bvor, a),
    'bvxor': lambda t, a: _fold(bvxor, a), 'zext': lambda t, a: zext(a[0], t.sort),
    'sext': lambda t, a: sext(a[0], t.sort), 'bit': lambda t, a: bit(a[0], t.val),
    'extract': lambda t, a: extract(a[0], *t.val), 'concat': lambda t, a: concat(*a),
    'ult': lambda t, a: ult(*a), 'slt': lambda t, a: slt(*a),
    'fadd': lambda t, a: fadd(*a), 'fsub': lambda t, a: fsub(*a), 'fmul': lambda t, a: fmul(*a),
    'fdiv': lambda t, a: fdiv(*a), 'frem': lambda t, a: frem(*a), 'fneg': lambda t, a: fneg(*a),
    'fabs': lambda t, a: fabs(*a), 'fsqrt': lambda t, a: fsqrt(*a), 'feq': lambda t, a: feq(*a),
    'flt': lambda t, a: flt(*a), 'fle': lambda t, a: fle(*a), 'fisnan': lambda t, a: fisnan(*a),
    'fisfinite': lambda t, a: fisfinite(*a), 'fsignbit': lambda t, a: fsignbit(*a),
    'fpext': lambda t, a: fpext(*a), 'fptrunc': lambda t, a: fptrunc(*a),
    'sitofp': lambda t, a: itofp(a[0], True, t.sort), 'uitofp': lambda t, a: itofp(a[0], False, t.sort),
    'fptosi': lambda t, a: fptoi(a[0], True, t.sort), 'fptoui': lambda t, a: fptoi(a[0], False, t.sort),
    'select': lambda t, a: aselect(*a),
    'fbits': lambda t, a: fbits(*a), 'ffrombits': lambda t, a: ffrombits(a[0], t.sort),
}


def _fold(f, a):
    r = a[0]
    for x in a[1:]:
        r = f(r, x)
    return r


def substitute(roots, m):
    """replace nodes (id -> term) throughout; returns list of rewritten roots"""
    cache = dict(m)
    for t in collect(roots):
        if t.id in cache:
            continue
        if not t.args:
            cache[t.id] = t
            continue
        a = tuple([cache[x.id] for x in t.args])
        if all(x is y for x, y in zip(a, t.args)):
            cache[t.id] = t
        else:
            f = REBUILD.get(t.op)
            cache[t.id] = f(t, a) if f else mk(t.op, t.sort, a, t.val)
    return [cache[r.id] for r in roots]
