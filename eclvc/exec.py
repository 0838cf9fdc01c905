"""Symbolic executor / verification-condition generator over LLVM bitcode of the real sources.

All paths are followed; control-flow joins are merged with ite-terms (no path enumeration), loops are executed
until their exit condition folds (complete when it terminates: a loop that does not fold is an error, never a
truncated result).  Every obligation is (path condition, goal).
"""
import ctypes as C
import os
import subprocess
import sys
from . import llvm as LL
from .terms import *
from . import terms as TM

sys.setrecursionlimit(20000)


class ToolError(Exception):
    """the tool cannot handle the code: never reported as a violation"""


# ------------------------------------------------------------------ path conditions

class PC:
    __slots__ = ('parent', 'lit', 'depth', 'facts')

    def __init__(self, parent, lit):
        self.parent = parent
        self.lit = lit
        self.depth = parent.depth + 1 if parent else 0
        f = {}
        if lit is not None:
            f[lit.id] = True
            if lit.op == 'and':
                for a in lit.args:
                    f[a.id] = True
            elif lit.op == 'not' and lit.args[0].op == 'or':
                for a in lit.args[0].args:
                    f[Not(a).id] = True
        self.facts = f

    def known(self, t):
        """True / False / None"""
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        n = Not(t).id
        i = t.id
        p = self
        while p is not None:
            f = p.facts
            if i in f:
                return True
            if n in f:
                return False
            p = p.parent
        if t.op == 'and':
            allt = True
            for a in t.args:
                k = self.known(a)
                if k is False:
                    return False
                if k is None:
                    allt = False
            return True if allt else None
        if t.op == 'or':
            allf = True
            for a in t.args:
                k = self.known(a)
                if k is True:
                    return True
                if k is None:
                    allf = False
            return False if allf else None
        if t.op == 'not':
            k = self.known(t.args[0])
            return None if k is None else not k
        if t.op == 'ite':
            k = self.known(t.args[0])
            if k is not None:
                return self.known(t.args[1] if k else t.args[2])
        return None

    def add(self, lit):
        if lit is TRUE:
            return self
        if self.known(lit) is True:
            return self
        return PC(self, lit)

    def lits(self):
        out = []
        p = self
        while p.parent is not None:
            out.append(p.lit)
            p = p.parent
        return out[::-1]


ROOT = PC(None, None)


class MTree:
    """decision tree describing which of several merged states is active"""
    pass


def build_tree(pcs):
    """pcs: list of PC.  returns (lca, tree, cover) ; tree = leaf index | (lit, t1, t2)"""
    # lca
    anc = pcs[0]
    for p in pcs[1:]:
        a, b = anc, p
        while a is not b:
            if a.depth >= b.depth:
                a = a.parent
            else:
                b = b.parent
        anc = a
    seqs = []
    for i, p in enumerate(pcs):
        l = []
        while p is not anc:
            l.append(p.lit)
            p = p.parent
        seqs.append((l[::-1], i))

    def rec(seqs, d):
        if len(seqs) == 1:
            l, i = seqs[0]
            return i, And(*l[d:]) if len(l) > d else TRUE
        # a state ending here: only possible if others continue (overlapping) -> treat via or
        groups = {}
        order = []
        for s in seqs:
            l, i = s
            k = l[d].id if d < len(l) else None
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(s)
        if len(order) == 1 and order[0] is not None:
            t, c = rec(groups[order[0]], d + 1)
            lit = seqs[0][0][d]
            return t, And(lit, c)
        res = []
        for k in order:
            g = groups[k]
            if k is None:
                res.append((TRUE, g[0][1], TRUE))
            else:
                t, c = rec(g, d + 1)
                res.append((g[0][0][d], t, c))
        # complementary pair
        if len(res) == 2:
            (l1, t1, c1), (l2, t2, c2) = res
            if Not(l1) is l2:
                return (l1, t1, t2), ite(l1, c1, c2) if not (c1 is TRUE and c2 is TRUE) else TRUE
        t = res[-1][1]
        cov = And(res[-1][0], res[-1][2])
        for (l, tt, c) in res[:-1][::-1]:
            cc = And(l, c)
            t = (cc, tt, t)
            cov = Or(cc, cov)
        return t, cov

    t, c = rec(seqs, 0)
    return anc, t, c


def tree_val(t, vals):
    if isinstance(t, int):
        return vals[t]
    return vite(t[0], tree_val(t[1], vals), tree_val(t[2], vals))


# ------------------------------------------------------------------ pointers

class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)

    def same(self, o):
        return type(o) is Ptr and self.obj == o.obj and (self.off is o.off or (
            isinstance(self.off, int) and isinstance(o.off, int) and self.off == o.off))


NULL = Ptr(0, 0)


class PIte:
    """ite over pointers"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b


def offT(o):
    return bvc(o, 64) if isinstance(o, int) else o


def offN(t):
    if isinstance(t, int):
        return t
    if t.op == 'c':
        return sgn(t.val, 64)
    return t


def vsame(a, b):
    if a is b:
        return True
    if type(a) is Ptr and type(b) is Ptr:
        return a.same(b)
    if type(a) is tuple and type(b) is tuple:
        return all(vsame(x, y) for x, y in zip(a, b))
    return False


def vite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if isinstance(a, T) and isinstance(b, T):
        if a.sort != b.sort:
            # same bits, different view
            return ite(c, tobits(a), tobits(b))
        return ite(c, a, b)
    if isinstance(a, tuple):
        return tuple([vite(c, x, y) for x, y in zip(a, b)])
    if vsame(a, b):
        return a
    if isinstance(a, T) and a.op == 'c' and a.val == 0:
        a = NULL
    if isinstance(b, T) and b.op == 'c' and b.val == 0:
        b = NULL
    if type(a) is Ptr and type(b) is Ptr and a.obj == b.obj:
        return Ptr(a.obj, offN(ite(c, offT(a.off), offT(b.off))))
    return PIte(c, a, b)


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


def tobits(t):
    if t.sort in ('f', 'd'):
        return fbits(t)
    if t.sort == 'B':
        return zext(t, 8)
    return t


def nbytes(v):
    if isinstance(v, T):
        s = v.sort
        if type(s) is tuple:
            return 1
        if s == 'f':
            return 4
        if s == 'd':
            return 8
        if s == 'B':
            return 1
        return (s + 7) // 8
    return 8


# ------------------------------------------------------------------ memory sources (lazy contents)

class Source:
    """lazily typed contents of a byte range"""

    def read(self, ex, off, size, sort):
        raise NotImplementedError


class SymSource(Source):
    def __init__(self, name, undef=False):
        self.name = name
        self.leaves = {}   # off -> (size, T)
        self.undef = undef

    def read(self, ex, off, size, sort):
        l = self.leaves.get(off)
        if l and l[0] == size:
            return l[1]
        # inside or overlapping an existing leaf?
        ov = [o for o in range(off - 15, off + size) if o in self.leaves and o + self.leaves[o][0] > off]
        if not ov:
            if sort == 'p':
                if self.undef:
                    return UNDEF
                raise ToolError('pointer read from symbolic memory %s+%d' % (self.name, off))
            if sort == 'bool':   # a C++ bool holds 0 or 1
                t = sym('%s@%d' % (self.name, off), 'B')
                ex.symsrc[t.id] = (self.name, off, size)
                t = zext(t, 8)
                self.leaves[off] = (size, t)
                return t
            if sort == 'B':
                sort = 8
            t = sym('%s@%d' % (self.name, off), sort)
            ex.symsrc[t.id] = (self.name, off, size)
            self.leaves[off] = (size, t)
            return t
        parts = []
        p = off
        while p < off + size:
            o = [o for o in ov if o <= p < o + self.leaves[o][0]]
            if o:
                o = o[0]
                sz, t = self.leaves[o]
                e = min(o + sz, off + size)
                parts.append(extract(tobits(t), (e - o) * 8 - 1, (p - o) * 8))
                p = e
            else:
                nxt = min([o for o in ov if o > p] + [off + size])
                while p < nxt:
                    t = self.read(ex, p, 1, 8)
                    parts.append(t)
                    p += 1
        r = parts[0]
        for x in parts[1:]:
            r = concat(x, r)
        return r


class FillSource(Source):
    def __init__(self, byte):
        self.byte = byte

    def read(self, ex, off, size, sort):
        if sort == 'p':
            return NULL
        v = int.from_bytes(bytes([self.byte]) * size, 'little')
        return bvc(v, size * 8)


class SnapSource(Source):
    """contents of another object at some time"""

    def __init__(self, ostate):
        self.o = ostate

    def read(self, ex, off, size, sort):
        return ex.oread(self.o, off, size, sort)


class IteSource(Source):
    def __init__(self, tree, srcs):
        self.tree = tree     # decision tree with leaf indexes
        self.srcs = srcs     # (source, delta)
        self.cache = {}

    def read(self, ex, off, size, sort):
        k = (off, size, sort)
        r = self.cache.get(k)
        if r is None:
            vals = []
            for s, d in self.srcs:
                v = s.read(ex, off + d, size, sort)
                if isinstance(v, T) and sort != 'p':
                    v = ex.conv(v, 8 if sort == 'bool' else sort, size)
                vals.append(v)
            r = tree_val(self.tree, vals)
            self.cache[k] = r
        return r


ZERO = FillSource(0)


class OState:
    """state of one memory object (copy on write via owner)"""
    __slots__ = ('cells', 'regions', 'owner', 'size', 'oid')

    def __init__(self, size, owner, oid):
        self.cells = {}
        self.regions = []     # (start, end, source, delta): byte p reads source at p+delta; later entries win
        self.owner = owner
        self.size = size
        self.oid = oid

    def copy(self, owner):
        o = OState(self.size, owner, self.oid)
        o.cells = dict(self.cells)
        o.regions = self.regions
        return o


class State:
    __slots__ = ('mem', 'pc', 'tok')

    def __init__(self, pc):
        self.mem = {}
        self.pc = pc
        self.tok = object()

    def fork(self, pc):
        s = State(pc)
        s.mem = dict(self.mem)
        self.tok = object()
        return s


class ObjMeta:
    __slots__ = ('id', 'name', 'size', 'kind', 'fn', 'const', 'freed', 'sizeT', 'arr')


class Obl:
    __slots__ = ('label', 'pc', 'goal', 'kind', 'fn', 'line', 'proof', 'mode', 'stack', 'idx', 'status', 'backend',
                 'time', 'model', 'note', 'tol', 'scope', 'hints')


# ------------------------------------------------------------------ decoded code

class Loc:
    __slots__ = ('i',)

    def __init__(self, i):
        self.i = i


class DFn:
    """decoded function"""
    pass


LIBM1 = {'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'asin': 'asin', 'acos': 'acos', 'atan': 'atan', 'exp': 'exp',
         'log': 'log', 'log10': 'log10', 'log2': 'log2', 'exp2': 'exp2', 'sinh': 'sinh', 'cosh': 'cosh',
         'tanh': 'tanh', 'expm1': 'expm1', 'log1p': 'log1p', 'cbrt': 'cbrt'}
LIBM2 = {'atan2': 'atan2', 'pow': 'pow', 'hypot': 'hypot'}


def demangle_all(names):
    p = subprocess.run(['llvm-cxxfilt-18'] if _has('llvm-cxxfilt-18') else ['c++filt'],
                       input='\n'.join(names), capture_output=True, text=True)
    return p.stdout.split('\n')


def _has(x):
    import shutil
    return shutil.which(x) is not None


def strip_params(d):
    """demangled -> qualified name without parameter list / return type"""
    # remove trailing const etc. and the last balanced (...) group
    s = d
    if s.endswith(' const'):
        s = s[:-6]
    if s.endswith(')'):
        depth = 0
        for i in range(len(s) - 1, -1, -1):
            if s[i] == ')':
                depth += 1
            elif s[i] == '(':
                depth -= 1
                if depth == 0:
                    s = s[:i]
                    break
    # drop return type of templates: last space outside <>
    depth = 0
    cut = 0
    for i, ch in enumerate(s):
        if ch in '<(':
            depth += 1
        elif ch in '>)':
            depth -= 1
        elif ch == ' ' and depth == 0 and not s[:i].endswith('operator'):
            cut = i + 1
    return s[cut:]


class Exec:
    def __init__(self, module, opts=None):
        self.m = module
        self.L = module.L
        self.dfns = {}
        self.objs = {0: None}
        self.nobj = 1
        self.gobj = {}
        self.fobj = {}
        self.obls = []
        self.covers = []
        self.stack = []
        self.symsrc = {}
        self.symcount = {}
        self.inputs = []        # (name, sort) in creation order
        self.havocs = {}        # name -> SymSource
        self.replaced = {}      # mangled -> stub mangled
        self.executed = {}      # function name -> instruction count
        self.stubbed = {}
        self.assumes = 0
        self.undefn = 0
        self.proof = '?'
        self.mode = None
        self.steps = 0
        self.maxsteps = 60_000_000
        self._dem = None
        self.curline = 0
        self.tolerance = None
        self.notrap = False
        self.axioms = []
        self.prune = False
        self.scopes = []
        self.hints = {}
        self.nexthint = None
        self.scopepath = [0]   # ordinal of the current scope at each level
        self._ptr = None
        self.byval_kind = None
        self.loopinv = {}       # mangled function -> {'invs': [(mangled, label)], 'vars': [mangled]}
        self.incut = 0
        self.ncut = 0
        self.loopscut = []
        self.loopdbg = int(__import__('os').environ.get('ECLVC_LOOPDBG', 0))

    # ---------------------------------------------------------- naming
    def dem(self):
        if self._dem is None:
            names = list(self.m.functions)
            d = demangle_all(names)
            self._dem = {}
            self.full = {}
            for n, x in zip(names, d):
                self.full[n] = x
                q = strip_params(x)
                self._dem.setdefault(q, []).append(n)
                if q.endswith('>') and not q.startswith('operator'):
                    # all instances of a function template, by its bare name
                    depth = 0
                    for i in range(len(q) - 1, -1, -1):
                        depth += (q[i] == '>') - (q[i] == '<')
                        if not depth:
                            self._dem.setdefault(q[:i], []).append(n)
                            break
        return self._dem

    def pretty(self, n):
        self.dem()
        return self.full.get(n, n)

    # ---------------------------------------------------------- objects
    def newobj(self, st, name, size, kind, source):
        m = ObjMeta()
        m.id = self.nobj
        self.nobj += 1
        m.name = name
        m.size = size
        m.kind = kind
        m.fn = None
        m.const = False
        m.freed = False
        m.sizeT = None
        m.arr = None
        self.objs[m.id] = m
        o = OState(size, st.tok, m.id)
        if source is not None:
            o.regions = [(0, size, source, 0)]
        st.mem[m.id] = o
        return m.id

    def wobj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            if self.ginit and oid in self.ginit:
                o = self.ginit[oid]
            else:
                raise ToolError('write to unknown object %s' % (self.objs.get(oid) and self.objs[oid].name))
        if o.owner is not st.tok:
            o = o.copy(st.tok)
            st.mem[oid] = o
        return o

    def robj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            m = self.objs.get(oid)
            if m is not None and m.kind == 'global':
                o = self.ginit[oid]
                return o
            raise ToolError('read of unknown object %r' % (m.name if m else oid))
        return o

    # ---------------------------------------------------------- typed conversion
    def conv(self, v, sort, size):
        """view value v (T) as sort"""
        if sort == 'p':
            if isinstance(v, T):
                if v.op == 'c' and v.val == 0:
                    return NULL
                if v.op == 'c' and v.val == 0xAAAAAAAAAAAAAAAA:   # never initialised (fill pattern)
                    return UNDEF
                if v.op == 'ite':
                    return vite(v.args[0], self.conv(v.args[1], 'p', 8), self.conv(v.args[2], 'p', 8))
                if v.op == 'sym':
                    # integer that once was an address
                    p = self.addrsyms.get(v.id)
                    if p is not None:
                        return p
                raise ToolError('integer used as pointer: %r' % v)
            return v
        if not isinstance(v, T):
            if v is UNDEF:
                return self.undef(sort)
            if sort == 64:
                return self.ptr2int(v)
            raise ToolError('pointer read as %s' % sort)
        if v.sort == sort:
            return v
        b = tobits(v)
        if sort in ('f', 'd'):
            return ffrombits(b, sort)
        if sort == 'B':
            return bit(b, 0)
        if b.sort > sort:
            return extract(b, sort - 1, 0)
        if b.sort < sort:
            return zext(b, sort)
        return b

    addrsyms = {}

    def ptr2int(self, v):
        if type(v) is Ptr:
            if v.obj == 0:
                return offT(v.off)
            a = sym('addr.%d' % v.obj, 64)
            self.addrsyms[a.id] = Ptr(v.obj, 0)
            return bvadd(a, offT(v.off))
        if type(v) is PIte:
            return ite(v.c, self.ptr2int(v.a), self.ptr2int(v.b))
        raise ToolError('ptr2int')

    def undef(self, sort):
        self.undefn += 1
        if sort == 'p':
            return UNDEF
        return sym('undef.%d' % self.undefn, sort)

    # ---------------------------------------------------------- raw object access
    def oread(self, o, off, size, sort):
        c = o.cells.get(off)
        if c is not None and nbytes(c) == size:
            return c
        # overlapping cells?
        cells = o.cells
        ov = None
        for p in range(off - 7, off + size):
            x = cells.get(p)
            if x is not None and p + nbytes(x) > off:
                if ov is None:
                    ov = []
                ov.append(p)
        if ov is None:
            # pure region read (single region must cover)
            for (s, e, src, d) in reversed(o.regions):
                if s <= off and off + size <= e:
                    return src.read(self, off + d, size, sort)
                if s < off + size and off < e:
                    break
            else:
                raise ToolError('read outside any region: obj %s off %d size %d' % (o.oid, off, size))
            if size == 1:
                raise ToolError('region gap')
            parts = [self.conv(self.oread(o, p, 1, 8), 8, 1) for p in range(off, off + size)]
            r = parts[0]
            for x in parts[1:]:
                r = concat(x, r)
            return r
        parts = []
        p = off
        while p < off + size:
            q = [x for x in ov if x <= p < x + nbytes(cells[x])]
            if q:
                q = q[0]
                v = cells[q]
                if not isinstance(v, T):
                    if q == off and size == 8:
                        return v
                    if v is UNDEF:
                        v = self.undef(64)
                    else:
                        v = self.ptr2int(v)
                e = min(q + nbytes(v), off + size)
                parts.append(extract(tobits(v), (e - q) * 8 - 1, (p - q) * 8))
                p = e
            else:
                nxt = min([x for x in ov if x > p] + [off + size])
                while p < nxt:
                    for w in (4, 2, 1):
                        if nxt - p >= w and p % w == 0:
                            break
                    v = self.oread(o, p, w, 8 * w)
                    if not isinstance(v, T):
                        v = self.undef(8 * w)
                    parts.append(tobits(v))
                    p += w
        r = parts[0]
        for x in parts[1:]:
            if r.sort == 'B':
                r = zext(r, 8)
            r = concat(x, r)
        return r

    def owrite(self, o, off, v, size):
        cells = o.cells
        c = cells.get(off)
        if c is not None and nbytes(c) == size:
            cells[off] = v
            return
        self.okill(o, off, size)
        cells[off] = v

    def okill(self, o, off, size):
        """remove cells overlapping [off, off+size), keeping the outside part of partial overlaps"""
        cells = o.cells
        if size > 64:
            ks = [p for p in cells if p < off + size and p + nbytes(cells[p]) > off]
        else:
            ks = [p for p in range(off - 7, off + size) if p in cells and p + nbytes(cells[p]) > off]
        for p in ks:
            v = cells.pop(p)
            n = nbytes(v)
            if p >= off and p + n <= off + size:
                continue
            if not isinstance(v, T):
                raise ToolError('partial overwrite of pointer')
            b = tobits(v)
            for i in range(n):
                if not (off <= p + i < off + size):
                    cells[p + i] = extract(b, i * 8 + 7, i * 8)

    def ocopy(self, dst, doff, src, soff, n):
        """copy n bytes src[soff..] -> dst[doff..] (src may be the same object state)"""
        if n == 0:
            return
        new = []
        if n <= 64:
            ks = [p for p in range(soff - 7, soff + n) if p in src.cells and p + nbytes(src.cells[p]) > soff]
        else:
            ks = [p for p in src.cells if p < soff + n and p + nbytes(src.cells[p]) > soff]
        for p in ks:
            v = src.cells[p]
            k = nbytes(v)
            if p >= soff and p + k <= soff + n:
                new.append((p - soff + doff, v))
            else:
                if not isinstance(v, T):
                    raise ToolError('partial pointer copy')
                b = tobits(v)
                for i in range(k):
                    if soff <= p + i < soff + n:
                        new.append((p + i - soff + doff, extract(b, i * 8 + 7, i * 8)))
        regs = []
        covered = sum(nbytes(v) for _, v in new)
        if covered < n:
            for (s, e, sc, d) in src.regions:
                a, b = max(s, soff), min(e, soff + n)
                if a < b:
                    regs.append((a - soff + doff, b - soff + doff, sc, d + soff - doff))
        self.okill(dst, doff, n)
        for p, v in new:
            dst.cells[p] = v
        if regs:
            self.setregions(dst, doff, n, regs)

    def setregions(self, o, off, n, regs):
        out = []
        for (s, e, sc, d) in o.regions:
            if e <= off or s >= off + n:
                out.append((s, e, sc, d))
            else:
                if s < off:
                    out.append((s, off, sc, d))
                if e > off + n:
                    out.append((off + n, e, sc, d))
        o.regions = out + regs

    # ---------------------------------------------------------- pointer resolution
    def alts(self, v, cond=TRUE):
        """flatten pointer value into [(cond, Ptr)]"""
        if type(v) is Ptr:
            return [(cond, v)]
        if type(v) is PIte:
            return self.alts(v.a, And(cond, v.c)) + self.alts(v.b, And(cond, Not(v.c)))
        if isinstance(v, T):
            return self.alts(self.conv(v, 'p', 8), cond)
        if v is UNDEF:
            return [(cond, NULL)]
        raise ToolError('not a pointer: %r' % (v,))

    def check_range(self, st, p, size, cond, what):
        """bounds obligation; returns list of (cond, concrete offset) candidates or None if none"""
        if p.obj == 0:
            self.obligation(st, Not(cond), 'null pointer %s' % what, 'mem')
            return []
        m = self.objs[p.obj]
        if m.kind == 'func':
            raise ToolError('data access to function')
        if m.freed:
            self.obligation(st, Not(cond), 'use after free %s' % what, 'mem')
            return []
        off = p.off
        if isinstance(off, int):
            if off < 0 or off + size > m.size:
                self.obligation(st, Not(cond), 'out-of-bounds %s of %s (offset %d size %d of %d)' % (
                    what, m.name, off, size, m.size), 'mem')
                return []
            if m.sizeT is not None:
                g = Not(ult(m.sizeT, bvc(off + size, 64)))
                self.obligation(st, Implies(cond, g), 'out-of-bounds %s of %s' % (what, m.name), 'mem')
            return [(cond, off)]
        cands = self.enum_off(off, m.size - size)
        if cands is None:
            raise ToolError('cannot enumerate offset %r in %s' % (off, m.name))
        inb = Or(*[c for c, _ in cands])
        if m.sizeT is not None:
            inb = And(inb, ule(bvadd(off, bvc(size, 64)), m.sizeT))
        self.obligation(st, Implies(cond, inb), 'out-of-bounds %s of %s' % (what, m.name), 'mem')
        return [(And(cond, c), o) for c, o in cands]

    def enum_off(self, off, maxoff):
        k = (off.id, maxoff)
        r = self._enumcache.get(k)
        if r is not None:
            return r
        parts = []
        const = 0
        for a in (off.args if off.op == 'add' else (off,)):
            if a.op == 'c':
                const += sgn(a.val, 64)
            elif a.op == 'mul' and a.args[1].op == 'c':
                parts.append((a.args[0], sgn(a.args[1].val, 64)))
            elif a.op == 'shl' and a.args[1].op == 'c':
                parts.append((a.args[0], 1 << a.args[1].val))
            elif a.op == 'neg':
                b = a.args[0]
                if b.op == 'mul' and b.args[1].op == 'c':
                    parts.append((b.args[0], -sgn(b.args[1].val, 64)))
                else:
                    parts.append((b, -1))
            else:
                parts.append((a, 1))
        res = []
        LIM = 70000

        def rng(x, c, rest):
            # candidate values of x (as unsigned or small signed)
            lo, hi = urange(x)
            if hi - lo <= 1024:
                return lo, hi
            return None

        # pieces that are ite trees of constants are lifted
        for i, (x, c) in enumerate(parts):
            if x.op == 'ite' and TM._constleaves(x):
                leaves = []

                def walk(t, cond):
                    if t.op == 'ite':
                        walk(t.args[1], And(cond, t.args[0]))
                        walk(t.args[2], And(cond, Not(t.args[0])))
                    else:
                        leaves.append((cond, sgn(t.val, 64)))
                walk(x, TRUE)
                rest = parts[:i] + parts[i + 1:]
                out = []
                for cond, v in leaves:
                    o2 = bvc(const + v * c, 64)
                    for (y, cy) in rest:
                        o2 = bvadd(o2, bvmul(y, bvc(cy, 64)))
                    if o2.op == 'c':
                        oo = sgn(o2.val, 64)
                        if 0 <= oo <= maxoff:
                            out.append((cond, oo))
                    else:
                        sub = self.enum_off(o2, maxoff)
                        if sub is None:
                            return None
                        out += [(And(cond, c2), oo) for c2, oo in sub]
                # merge equal offsets
                d = {}
                for cnd, oo in out:
                    d[oo] = Or(d[oo], cnd) if oo in d else cnd
                r = [(c2, oo) for oo, c2 in sorted(d.items())]
                self._enumcache[k] = r
                return r
        rs = []
        for x, c in parts:
            q = rng(x, c, None)
            rs.append(q)
        unk = [i for i, q in enumerate(rs) if q is None]
        if len(unk) > 1:
            return None
        acc = [(TRUE, const)]
        for i, (x, c) in enumerate(parts):
            if rs[i] is None:
                continue
            lo, hi = rs[i]
            nacc = []
            for cnd, o in acc:
                for v in range(lo, hi + 1):
                    nacc.append((And(cnd, eq(x, bvc(v, 64))), o + v * c))
            acc = nacc
            if len(acc) > LIM:
                return None
        if unk:
            x, c = parts[unk[0]]
            nacc = []
            for cnd, o in acc:
                # 0 <= o + v*c <= maxoff
                if c > 0:
                    lo = -(o // c)
                    hi = (maxoff - o) // c
                else:
                    hi = o // (-c)
                    lo = -((maxoff - o) // (-c))
                for v in range(lo, hi + 1):
                    if 0 <= o + v * c <= maxoff:
                        nacc.append((And(cnd, eq(x, bvc(v, 64))), o + v * c))
                if len(nacc) > LIM:
                    return None
            acc = nacc
        d = {}
        for cnd, o in acc:
            if cnd is FALSE or not (0 <= o <= maxoff):
                continue
            d[o] = Or(d[o], cnd) if o in d else cnd
        r = [(c2, oo) for oo, c2 in sorted(d.items())]
        self._enumcache[k] = r
        return r

    _enumcache = {}

    # ---------------------------------------------------------- loads & stores
    def load(self, st, pv, ty):
        k = ty.kind
        if k == LL.VECTOR or k == LL.ARRAY:
            return tuple([self.load(st, self.padd(pv, i * ty.elem.size), ty.elem) for i in range(ty.n)])
        if k == LL.STRUCT:
            return tuple([self.load(st, self.padd(pv, ty.offs[i]), ty.elems[i]) for i in range(ty.n)])
        sort = self.sortof(ty)
        rsort = 'bool' if ty.isbool else sort
        size = ty.size if sort != 'B' else 1
        if k == LL.INT and (ty.w % 8 or ty.w == 24 or 32 < ty.w < 64):
            size = (ty.w + 7) // 8
        if type(pv) is Ptr and isinstance(pv.off, int) and pv.obj:
            m = self.objs[pv.obj]
            if m.arr is None and m.sizeT is None and 0 <= pv.off and pv.off + size <= (m.size or 0) and not m.freed and m.kind != 'func':
                v = self.oread(self.robj(st, pv.obj), pv.off, size, rsort)
                return self.conv(v, sort, size)
        vals = []
        for cond, p in self.alts(pv):
            if st.pc.known(cond) is False:
                continue
            if p.obj and self.objs[p.obj].arr:
                fo, idx = self.aindex(st, p, size, cond, 'read')
                v = self.aread(self.robj(st, p.obj), fo, idx, size)
                vals.append((cond, self.conv(v, sort, size)))
                continue
            m = self.objs[p.obj] if p.obj else None
            if m is not None and m.const and not isinstance(p.off, int) and self.enum_off(p.off, m.size - size) is None:
                # constant table read at an unconstrained index: any value (over-approximation), but in bounds
                self.obligation(st, Implies(cond, ule(p.off, bvc(m.size - size, 64))), 'out-of-bounds read of ' + m.name, 'mem')
                vals.append((cond, sym('any:%s:%d:%d' % (m.name, p.off.id, size), sort)))
                continue
            for c2, off in self.check_range(st, p, size, cond, 'read'):
                if st.pc.known(c2) is False:
                    continue
                v = self.conv(self.oread(self.robj(st, p.obj), off, size, rsort), sort, size)
                vals.append((c2, v))
        if not vals:
            return self.undef(sort)
        r = vals[-1][1]
        for c, v in vals[:-1][::-1]:
            r = vite(c, v, r)
        return r

    def store(self, st, pv, v, ty):
        k = ty.kind
        if k == LL.VECTOR or k == LL.ARRAY:
            for i in range(ty.n):
                self.store(st, self.padd(pv, i * ty.elem.size), v[i] if v is not UNDEF else UNDEF, ty.elem)
            return
        if k == LL.STRUCT:
            for i in range(ty.n):
                self.store(st, self.padd(pv, ty.offs[i]), v[i] if v is not UNDEF else UNDEF, ty.elems[i])
            return
        size = ty.size
        if k == LL.INT and (ty.w % 8 or ty.w == 24 or 32 < ty.w < 64):
            size = (ty.w + 7) // 8
            if isinstance(v, T):
                v = zext(v, size * 8)
        if v is UNDEF and k != LL.POINTER:
            v = self.undef(self.sortof(ty))
        if type(pv) is Ptr and isinstance(pv.off, int) and pv.obj:
            m = self.objs[pv.obj]
            if m.arr is None and m.sizeT is None and 0 <= pv.off and pv.off + size <= (m.size or 0) and not m.freed and m.kind != 'func':
                if m.const:
                    self.obligation(st, FALSE, 'write to constant %s' % m.name, 'mem')
                    return
                self.owrite(self.wobj(st, pv.obj), pv.off, v, size)
                return
        al = self.alts(pv)
        sort = self.sortof(ty)
        for cond, p in al:
            if st.pc.known(cond) is False:
                continue
            if p.obj and self.objs[p.obj].arr:
                fo, idx = self.aindex(st, p, size, cond, 'write')
                self.awrite(st, p.obj, fo, idx, v, size, cond)
                continue
            for c2, off in self.check_range(st, p, size, cond, 'write'):
                kn = st.pc.known(c2)
                if kn is False:
                    continue
                o = self.wobj(st, p.obj)
                if c2 is TRUE or kn is True:
                    self.owrite(o, off, v, size)
                else:
                    old = self.oread(o, off, size, sort)
                    if isinstance(old, T):
                        old = self.conv(old, sort, size)
                    elif isinstance(v, T) and old is not UNDEF:
                        old = self.conv(old, sort, size)
                    self.owrite(o, off, vite(c2, v, old), size)

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        if any(p.obj and self.objs[p.obj].arr for _, p in self.alts(s)) or any(p.obj and self.objs[p.obj].arr for _, p in self.alts(d)):
            return self.acopy(st, d, s, n)
        srcs = []
        for cond, p in self.alts(s):
            if st.pc.known(cond) is False:
                continue
            for c2, off in self.check_range(st, p, n, cond, 'copy from'):
                kn = st.pc.known(c2)
                if kn is False:
                    continue
                srcs.append((c2, self.robj(st, p.obj), off))
        if not srcs:
            return
        if len(srcs) == 1:
            snap, soff = srcs[0][1], srcs[0][2]
        else:
            tree = len(srcs) - 1
            for i in range(len(srcs) - 2, -1, -1):
                tree = (srcs[i][0], i, tree)
            # freeze source objects
            tmp = OState(n, None, -1)
            ss = []
            for c, o, off in srcs:
                st.tok = object()
                ss.append((SnapSource(o), off))
            tmp.regions = [(0, n, IteSource(tree, ss), 0)]
            snap, soff = tmp, 0
            # ownership token changed: objects will be copied on next write
        dal = self.alts(d)
        for cond, p in dal:
            if st.pc.known(cond) is False:
                continue
            cands = self.check_range(st, p, n, cond, 'copy to')
            for c2, off in cands:
                kn = st.pc.known(c2)
                if kn is False:
                    continue
                if self.objs[p.obj].const:
                    self.obligation(st, Not(c2), 'write to constant', 'mem')
                    continue
                if c2 is TRUE or kn is True:
                    o = self.wobj(st, p.obj)
                    if o is snap:
                        sn = o.copy(None)
                        self.ocopy(o, off, sn, soff, n)
                    else:
                        self.ocopy(o, off, snap, soff, n)
                else:
                    st.tok = object()
                    old = self.robj(st, p.obj)
                    tmp = OState(n, None, -1)
                    tmp.regions = [(0, n, IteSource((c2, 0, 1), [(SnapSource(snap), soff), (SnapSource(old), off)]), 0)]
                    o = self.wobj(st, p.obj)
                    self.ocopy(o, off, tmp, 0, n)

    # ---- array objects: contents are SMT arrays per field, indexed by element
    def aindex(self, st, p, size, cond, what):
        m = self.objs[p.obj]
        es, n, layout = m.arr
        off = offT(p.off)
        const = 0
        idx = bvc(0, 64)
        for a in (off.args if off.op == 'add' else (off,)):
            if a.op == 'c':
                const += sgn(a.val, 64)
            elif a.op == 'neg' and a.args[0].op == 'mul' and a.args[0].args[1].op == 'c' and a.args[0].args[1].val % es == 0:
                idx = bvsub(idx, bvmul(a.args[0].args[0], bvc(a.args[0].args[1].val // es, 64)))
            elif a.op == 'mul' and a.args[1].op == 'c' and sgn(a.args[1].val, 64) % es == 0:
                idx = bvadd(idx, bvmul(a.args[0], bvc(sgn(a.args[1].val, 64) // es, 64)))
            elif a.op == 'ite' and TM._constleaves(a, 40) and es > 1:
                idx = bvadd(idx, TM._pushite(a, lambda x: bvc(sgn(x.val, 64) // es, 64)))
            elif es == 1:
                idx = bvadd(idx, a)
            else:
                raise ToolError('array index %r' % a)
        fo = const % es
        idx = bvadd(idx, bvc(const // es, 64))
        self.obligation(st, Implies(cond, ult(idx, n)), 'out-of-bounds %s of %s' % (what, m.name), 'mem')
        return fo, idx

    def aread(self, o, fo, idx, size):
        arr = o.cells.get(fo)
        if arr is None or arr.sort[3] != size:
            raise ToolError('array field access at offset %d size %d' % (fo, size))
        return aselect(arr, idx)

    def awrite(self, st, oid, fo, idx, v, size, cond):
        o = self.wobj(st, oid)
        arr = o.cells.get(fo)
        if arr is None or arr.sort[3] != size:
            raise ToolError('array field write at offset %d size %d' % (fo, size))
        v = self.conv(v, arr.sort[2], size)
        if cond is not TRUE and st.pc.known(cond) is not True:
            v = ite(cond, v, aselect(arr, idx))
        o.cells[fo] = mk('store', arr.sort, (arr, idx, v))

    def acopy(self, st, d, s, n):
        # the whole element or the fields the copied range covers; padding is not kept
        lay = None
        for cond, p in self.alts(s) + self.alts(d):
            if p.obj and self.objs[p.obj].arr:
                fo = self.aindex(st, p, n, cond, 'copy')[0]
                es, cnt, layout = self.objs[p.obj].arr
                mine = [(so, off - fo) for so, off in layout if off >= fo and off < fo + n]
                if any(o + (4 if so == 'f' else 8 if so == 'd' else so // 8) > n for so, o in mine) or fo + n > es or (lay is not None and lay != mine):
                    raise ToolError('array copy of partial element')
                lay = mine
        vals = []
        for so, off in lay:
            ty = self.prim(so)
            vals.append((ty, off, self.load(st, self.padd(s, off), ty)))
        for ty, off, v in vals:
            self.store(st, self.padd(d, off), v, ty)

    def prim(self, so):
        t = LL.Ty()
        t.kind = LL.FLOAT if so == 'f' else LL.DOUBLE if so == 'd' else LL.INT
        t.w = so if isinstance(so, int) else 0
        t.size = 4 if so == 'f' else 8 if so == 'd' else so // 8
        t.isbool = False
        t.size = 4 if so == 'f' else 8 if so == 'd' else so // 8
        t.elems = t.offs = t.elem = None
        t.n = 0
        return t

    def memset(self, st, d, byte, n):
        for cond, p in self.alts(d):
            for c2, off in self.check_range(st, p, n, cond, 'memset'):
                if c2 is not TRUE and st.pc.known(c2) is not True:
                    raise ToolError('conditional memset')
                o = self.wobj(st, p.obj)
                self.okill(o, off, n)
                if byte.op == 'c':
                    self.setregions(o, off, n, [(off, off + n, ZERO if byte.val == 0 else FillSource(byte.val), 0)])
                else:
                    for i in range(n):
                        o.cells[off + i] = byte

    def padd(self, pv, k):
        if type(pv) is Ptr:
            if isinstance(pv.off, int) and isinstance(k, int):
                return Ptr(pv.obj, pv.off + k)
            return Ptr(pv.obj, offN(bvadd(offT(pv.off), offT(k))))
        if type(pv) is PIte:
            return PIte(pv.c, self.padd(pv.a, k), self.padd(pv.b, k))
        if isinstance(pv, T):
            return self.padd(self.conv(pv, 'p', 8), k)
        if pv is UNDEF:
            return UNDEF
        raise ToolError('padd %r' % (pv,))

    def sortof(self, ty):
        k = ty.kind
        if k == LL.FLOAT:
            return 'f'
        if k == LL.DOUBLE:
            return 'd'
        if k == LL.INT:
            return 'B' if ty.w == 1 else ty.w
        if k == LL.POINTER:
            return 'p'
        raise ToolError('unsupported type kind %d' % k)

    # ---------------------------------------------------------- obligations
    def obligation(self, st, goal, label, kind):
        if goal is TRUE:
            self.trivial = getattr(self, 'trivial', 0) + 1
            return
        if kind in ('mem', 'trap') and self.notrap:
            return
        kn = st.pc.known(goal)
        if kn is True:
            self.trivial = getattr(self, 'trivial', 0) + 1
            return
        o = Obl()
        o.label = label
        o.pc = st.pc
        o.goal = goal
        o.kind = kind
        o.fn = self.stack[-1] if self.stack else '?'
        o.line = self.curline
        o.proof = self.proof
        o.mode = self.mode
        o.scope = '.'.join(str(x) for x in self.scopepath[:len(self.scopes)])
        o.hints = self.hints
        o.stack = tuple(self.stack)
        o.status = None
        o.backend = None
        o.time = 0.0
        o.model = None
        o.note = ''
        o.tol = self.tolerance
        o.idx = len(self.obls)
        self.obls.append(o)

    # ---------------------------------------------------------- constants
    def const(self, v):
        L = self.L
        k = LL.VK[L.LLVMGetValueKind(v)]
        ty = self.m.ty(L.LLVMTypeOf(v))
        if k == 'ConstantInt':
            w = ty.w
            if w <= 64:
                return bvc(L.LLVMConstIntGetZExtValue(v), w)
            raise ToolError('wide int')
        if k == 'ConstantFP':
            li = C.c_int()
            return fc(L.LLVMConstRealGetDouble(v, C.byref(li)), self.sortof(ty))
        if k == 'NullPtr':
            return NULL
        if k in ('Undef', 'Poison'):
            return self.undef_ty(ty)
        if k == 'GlobalVariable':
            return Ptr(self.globalobj(self.m.name(v)), 0)
        if k == 'Function':
            return Ptr(self.funcobj(self.m.name(v)), 0)
        if k == 'GlobalAlias':
            return self.const(L.LLVMAliasGetAliasee(v))
        if k in ('AggregateZero',):
            return self.zero_ty(ty)
        if k in ('DataArray', 'DataVector', 'ConstantArray', 'ConstantStruct', 'ConstantVector'):
            n = ty.n
            return tuple([self.const(L.LLVMGetAggregateElement(v, i)) for i in range(n)])
        if k == 'ConstantExpr':
            op = LL.OPC.get(L.LLVMGetConstOpcode(v))
            if op == 'gep':
                base = self.const(L.LLVMGetOperand(v, 0))
                idx = [self.const(L.LLVMGetOperand(v, i)) for i in range(1, L.LLVMGetNumOperands(v))]
                sty = self.m.ty(L.LLVMGetGEPSourceElementType(v))
                return self.gep(base, sty, idx)
            if op in ('bitcast', 'addrspacecast'):
                return self.const(L.LLVMGetOperand(v, 0))
            if op == 'ptrtoint':
                return self.ptr2int(self.const(L.LLVMGetOperand(v, 0)))
            if op == 'inttoptr':
                x = self.const(L.LLVMGetOperand(v, 0))
                return self.conv(x, 'p', 8)
            raise ToolError('constexpr %s' % self.m.str(v))
        raise ToolError('constant kind %s: %s' % (k, self.m.str(v)[:200]))

    def undef_ty(self, ty):
        if ty.kind in (LL.ARRAY, LL.VECTOR):
            return tuple([self.undef_ty(ty.elem) for _ in range(ty.n)])
        if ty.kind == LL.STRUCT:
            return tuple([self.undef_ty(e) for e in ty.elems])
        return self.undef(self.sortof(ty))

    def zero_ty(self, ty):
        if ty.kind in (LL.ARRAY, LL.VECTOR):
            return tuple([self.zero_ty(ty.elem) for _ in range(ty.n)])
        if ty.kind == LL.STRUCT:
            return tuple([self.zero_ty(e) for e in ty.elems])
        s = self.sortof(ty)
        if s == 'p':
            return NULL
        if s in ('f', 'd'):
            return fc(0.0, s)
        return bvc(0, 1 if s == 'B' else s)

    ginit = None

    def globalobj(self, name):
        oid = self.gobj.get(name)
        if oid is not None:
            return oid
        L = self.L
        v = self.m.globals[name]
        ty = self.m.ty(L.LLVMGlobalGetValueType(v))
        m = ObjMeta()
        m.id = self.nobj
        self.nobj += 1
        m.name = name
        m.size = ty.size
        m.kind = 'global'
        m.fn = None
        m.const = bool(L.LLVMIsGlobalConstant(v))
        m.freed = False
        m.sizeT = None
        m.arr = None
        self.objs[m.id] = m
        self.gobj[name] = m.id
        if self.ginit is None:
            self.ginit = {}
        o = OState(ty.size, None, m.id)
        self.ginit[m.id] = o
        init = L.LLVMGetInitializer(v) if not L.LLVMIsDeclaration(v) else None
        if init:
            kind = LL.VK[L.LLVMGetValueKind(init)]
            o.regions = [(0, ty.size, ZERO, 0)]
            if kind != 'AggregateZero':
                self.flat(o, 0, self.const(init), ty)
        else:
            o.regions = [(0, ty.size, SymSource('extern.' + name, True), 0)]
        # make it writable in states lazily
        return m.id

    def flat(self, o, off, v, ty):
        if ty.kind in (LL.ARRAY, LL.VECTOR):
            for i in range(ty.n):
                self.flat(o, off + i * ty.elem.size, v[i], ty.elem)
        elif ty.kind == LL.STRUCT:
            for i in range(ty.n):
                self.flat(o, off + ty.offs[i], v[i], ty.elems[i])
        else:
            if isinstance(v, T) and v.sort == 'B':
                v = zext(v, 8)
            o.cells[off] = v

    def funcobj(self, name):
        oid = self.fobj.get(name)
        if oid is None:
            m = ObjMeta()
            m.id = self.nobj
            self.nobj += 1
            m.name = name
            m.size = 0
            m.kind = 'func'
            m.fn = name
            m.const = True
            m.freed = False
            m.sizeT = None
            m.arr = None
            self.objs[m.id] = m
            self.fobj[name] = m.id
            oid = m.id
        return oid

    def gep(self, base, sty, idx):
        off = 0
        symoff = None

        def addi(ix, scale):
            nonlocal off, symoff
            if ix.op == 'c':
                off += sgn(ix.val, ix.sort) * scale
            else:
                t = bvmul(sext(ix, 64), bvc(scale, 64))
                symoff = t if symoff is None else bvadd(symoff, t)
        addi(idx[0], sty.size)
        ty = sty
        for ix in idx[1:]:
            if ty.kind == LL.STRUCT:
                off += ty.offs[ix.val if ix.sort != 'B' else int(ix.val)]
                ty = ty.elems[ix.val if ix.sort != 'B' else int(ix.val)]
            else:
                addi(ix, ty.elem.size)
                ty = ty.elem
        r = self.padd(base, off) if off else base
        if symoff is not None:
            r = self.padd(r, offN(symoff))
        return r

    # ---------------------------------------------------------- decoding
    def decode(self, name):
        d = self.dfns.get(name)
        if d is not None:
            return d
        L = self.L
        f = self.m.functions[name]
        d = DFn()
        d.name = name
        d.decl = bool(L.LLVMIsDeclaration(f))
        self.dfns[name] = d
        if d.decl:
            return d
        if self.byval_kind is None:
            L.LLVMGetEnumAttributeKindForName.restype = C.c_uint
            L.LLVMGetEnumAttributeKindForName.argtypes = [C.c_char_p, C.c_size_t]
            self.byval_kind = L.LLVMGetEnumAttributeKindForName(b'byval', 5)
            L.LLVMGetEnumAttributeAtIndex.restype = C.c_void_p
            L.LLVMGetEnumAttributeAtIndex.argtypes = [C.c_void_p, C.c_uint, C.c_uint]
            L.LLVMGetTypeAttributeValue.restype = C.c_void_p
            L.LLVMGetTypeAttributeValue.argtypes = [C.c_void_p]
        ids = {}
        n = 0
        d.params = []
        d.byval = {}
        p = L.LLVMGetFirstParam(f)
        i = 0
        while p:
            ids[p] = n
            d.params.append(n)
            a = L.LLVMGetEnumAttributeAtIndex(f, i + 1, self.byval_kind)
            if a:
                d.byval[i] = self.m.ty(L.LLVMGetTypeAttributeValue(a)).size
            n += 1
            i += 1
            p = L.LLVMGetNextParam(p)
        blocks = []
        bidx = {}
        b = L.LLVMGetFirstBasicBlock(f)
        while b:
            bidx[b] = len(blocks)
            ins = []
            x = L.LLVMGetFirstInstruction(b)
            while x:
                ids[x] = n
                n += 1
                ins.append(x)
                x = L.LLVMGetNextInstruction(x)
            blocks.append(ins)
            b = L.LLVMGetNextBasicBlock(b)
        d.nregs = n
        self._ids = ids
        bbs = {}

        def op(v):
            r = ids.get(v)
            if r is not None:
                return Loc(r)
            k = LL.VK[L.LLVMGetValueKind(v)]
            if k == 'Metadata':
                return None
            if k == 'InlineAsm':
                raise ToolError('inline asm')
            return self.const(v)

        d.blocks = []
        d.phis = []
        succ = []
        for ins in blocks:
            code = []
            phis = []
            s = []
            for x in ins:
                o = LL.OPC.get(L.LLVMGetInstructionOpcode(x))
                dst = ids[x]
                line = L.LLVMGetDebugLocLine(x)
                if o == 'phi':
                    inc = {}
                    for i in range(L.LLVMCountIncoming(x)):
                        inc[bidx[L.LLVMGetIncomingBlock(x, i)]] = op(L.LLVMGetIncomingValue(x, i))
                    phis.append((dst, inc))
                    continue
                if o == 'br':
                    if L.LLVMIsConditional(x):
                        s = [bidx[L.LLVMGetSuccessor(x, 0)], bidx[L.LLVMGetSuccessor(x, 1)]]
                        code.append(('br', line, op(L.LLVMGetCondition(x)), s[0], s[1]))
                    else:
                        s = [bidx[L.LLVMGetSuccessor(x, 0)]]
                        code.append(('jmp', line, s[0]))
                elif o == 'switch':
                    nn = L.LLVMGetNumSuccessors(x)
                    cond = op(L.LLVMGetOperand(x, 0))
                    default = bidx[L.LLVMGetSuccessor(x, 0)]
                    cases = []
                    for i in range(1, nn):
                        cases.append((op(L.LLVMGetOperand(x, 2 * i)), bidx[L.LLVMGetSuccessor(x, i)]))
                    s = list(dict.fromkeys([default] + [c[1] for c in cases]))
                    code.append(('switch', line, cond, default, cases))
                elif o == 'ret':
                    v = op(L.LLVMGetOperand(x, 0)) if L.LLVMGetNumOperands(x) else None
                    code.append(('ret', line, v))
                elif o == 'unreachable':
                    code.append(('unreachable', line))
                elif o == 'alloca':
                    ty = self.m.ty(L.LLVMGetAllocatedType(x))
                    cnt = op(L.LLVMGetOperand(x, 0))
                    code.append(('alloca', line, dst, ty, cnt, self.m.name(x)))
                elif o == 'load':
                    ty = self.m.ty(L.LLVMTypeOf(x))
                    if ty.kind == LL.INT and ty.w == 8 and L.LLVMGetMetadata(x, self.m.md_range):
                        ty = self.m.boolty(ty)
                    code.append(('load', line, dst, op(L.LLVMGetOperand(x, 0)), ty))
                elif o == 'store':
                    v = L.LLVMGetOperand(x, 0)
                    code.append(('store', line, op(v), op(L.LLVMGetOperand(x, 1)), self.m.ty(L.LLVMTypeOf(v))))
                elif o == 'gep':
                    sty = self.m.ty(L.LLVMGetGEPSourceElementType(x))
                    ops = [op(L.LLVMGetOperand(x, i)) for i in range(L.LLVMGetNumOperands(x))]
                    if all(type(q) is not Loc for q in ops[1:]):
                        off = self.gep(Ptr(0, 0), sty, ops[1:]).off
                        code.append(('gepc', line, dst, ops[0], off))
                    else:
                        code.append(('gep', line, dst, sty, ops))
                elif o == 'call':
                    cv = L.LLVMGetCalledValue(x)
                    na = L.LLVMGetNumArgOperands(x)
                    kcv = LL.VK[L.LLVMGetValueKind(cv)]
                    if kcv == 'InlineAsm':
                        code.append(('asm', line))
                        continue
                    while kcv == 'GlobalAlias':
                        cv = L.LLVMAliasGetAliasee(cv)
                        kcv = LL.VK[L.LLVMGetValueKind(cv)]
                    if kcv == 'Function':
                        nm = self.m.name(cv)
                        if nm.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.experimental.noalias', 'llvm.assume')):
                            continue
                        fnv = nm
                    else:
                        fnv = op(cv)
                    args = [op(L.LLVMGetArgOperand(x, i)) for i in range(na)]
                    code.append(('call', line, dst, fnv, args, self.m.ty(L.LLVMTypeOf(x))))
                elif o == 'icmp':
                    code.append(('icmp', line, dst, LL.ICMP[L.LLVMGetICmpPredicate(x)], op(L.LLVMGetOperand(x, 0)),
                                 op(L.LLVMGetOperand(x, 1))))
                elif o == 'fcmp':
                    code.append(('fcmp', line, dst, LL.FCMP[L.LLVMGetFCmpPredicate(x)], op(L.LLVMGetOperand(x, 0)),
                                 op(L.LLVMGetOperand(x, 1))))
                elif o in ('extractvalue', 'insertvalue'):
                    ni = L.LLVMGetNumIndices(x)
                    ix = [L.LLVMGetIndices(x)[i] for i in range(ni)]
                    code.append((o, line, dst, [op(L.LLVMGetOperand(x, i)) for i in range(L.LLVMGetNumOperands(x))], ix))
                elif o == 'shufflevector':
                    nm = L.LLVMGetNumMaskElements(x)
                    mask = [L.LLVMGetMaskValue(x, i) for i in range(nm)]
                    code.append((o, line, dst, op(L.LLVMGetOperand(x, 0)), op(L.LLVMGetOperand(x, 1)), mask))
                elif o is None:
                    raise ToolError('opcode %d' % L.LLVMGetInstructionOpcode(x))
                elif o in ('fence',):
                    pass
                else:
                    ops = [op(L.LLVMGetOperand(x, i)) for i in range(L.LLVMGetNumOperands(x))]
                    if PERTURB and o in ('fadd', 'fsub', 'fmul', 'fdiv'):
                        nn = C.c_uint(0)
                        fl = L.LLVMGetDebugLocFilename(x, C.byref(nn))
                        if fl and PERTURB in fl[:nn.value].decode():
                            o += '~'
                    code.append((o, line, dst, ops, self.m.ty(L.LLVMTypeOf(x))))
            d.blocks.append(code)
            d.phis.append(phis)
            succ.append(s)
        d.order, d.loops = self.looporder(succ)
        return d

    def looporder(self, succ):
        """topological order (ignoring back edges) in which the blocks of a loop are contiguous before its exits"""
        n = len(succ)
        # DFS for back edges / RPO
        state = [0] * n
        post = []
        back = set()
        st = [(0, 0)]
        state[0] = 1
        while st:
            u, i = st.pop()
            if i < len(succ[u]):
                st.append((u, i + 1))
                v = succ[u][i]
                if state[v] == 0:
                    state[v] = 1
                    st.append((v, 0))
                elif state[v] == 1:
                    back.add((u, v))
            else:
                state[u] = 2
                post.append(u)
        pred = [[] for _ in range(n)]
        for u in range(n):
            for v in succ[u]:
                pred[v].append(u)
        # natural loops
        loops = {}
        for (u, h) in back:
            body = loops.setdefault(h, {h})
            w = [u]
            while w:
                x = w.pop()
                if x not in body:
                    body.add(x)
                    w.extend(pred[x])
        # order: DFS post-order visiting successors outside the innermost loop first (so they come later)
        inner = [None] * n
        for h, b in sorted(loops.items(), key=lambda kv: -len(kv[1])):
            for x in b:
                inner[x] = h
        depthcache = {}

        def nest(x):
            r = depthcache.get(x)
            if r is None:
                r = [h for h, b in loops.items() if x in b]
                r.sort(key=lambda h: -len(loops[h]))
                depthcache[x] = r
            return r
        state = [0] * n
        post = []

        def key(u, v):
            # number of loops of u that v leaves: leave more -> visit first
            nu = nest(u)
            return -sum(1 for h in nu if v not in loops[h])
        st = [(0, sorted([v for v in succ[0] if (0, v) not in back], key=lambda v: key(0, v)), 0)]
        state[0] = 1
        while st:
            u, ss, i = st.pop()
            if i < len(ss):
                st.append((u, ss, i + 1))
                v = ss[i]
                if state[v] == 0:
                    state[v] = 1
                    st.append((v, sorted([w for w in succ[v] if (v, w) not in back], key=lambda w: key(v, w)), 0))
            else:
                post.append(u)
        order = {}
        for i, u in enumerate(reversed(post)):
            order[u] = i
        # verify contiguity: every loop's blocks precede its exits
        for h, b in loops.items():
            mx = max(order[x] for x in b if x in order)
            for x in b:
                for v in succ[x]:
                    if v not in b and order[v] < mx:
                        # fix up by a stable re-ordering: place exits after
                        order = self._fixorder(n, succ, back, loops, order)
                        return order, loops
        return order, loops

    def _fixorder(self, n, succ, back, loops, order):
        # hierarchical topological sort: collapse loops
        nodes = [u for u in range(n) if u in order]

        def topo(ns, loopset, header):
            # ns: set of nodes of this region; loops directly nested collapse to super nodes
            sub = [h for h in loopset if loops[h] <= ns and h != header]
            top = [h for h in sub if not any(h2 != h and loops[h] < loops[h2] for h2 in sub)]
            rep = {}
            for h in top:
                for x in loops[h]:
                    rep[x] = h
            edges = {}
            indeg = {}
            for u in ns:
                ru = rep.get(u, u)
                edges.setdefault(ru, set())
                indeg.setdefault(ru, 0)
            for u in ns:
                ru = rep.get(u, u)
                for v in succ[u]:
                    if v in ns and (u, v) not in back:
                        rv = rep.get(v, v)
                        if rv != ru and rv not in edges[ru]:
                            edges[ru].add(rv)
                            indeg[rv] += 1
            ready = sorted([u for u in indeg if indeg[u] == 0], key=lambda u: order[u])
            out = []
            while ready:
                u = ready.pop(0)
                if u in top:
                    out.extend(topo(loops[u], [h for h in loopset if h != u], u))
                else:
                    out.append(u)
                for v in edges[u]:
                    indeg[v] -= 1
                    if indeg[v] == 0:
                        ready.append(v)
                ready.sort(key=lambda u: order[u])
            return out
        o = topo(set(nodes), list(loops), None)
        if len(o) != len(nodes):
            raise ToolError('irreducible control flow')
        return {u: i for i, u in enumerate(o)}

    # ---------------------------------------------------------- merging
    def merge(self, sts):
        """sts: list of (State, vals list) -> merged (State, vals)"""
        if len(sts) == 1:
            return sts[0]
        anc, tree, cover = build_tree([s.pc for s, _ in sts])
        pc = anc.add(cover) if cover is not TRUE else anc
        if cover is FALSE:
            return None
        r = State(pc)
        first = sts[0][0]
        oids = set()
        for s, _ in sts:
            oids.update(s.mem)
        for oid in oids:
            os = [s.mem.get(oid) for s, _ in sts]
            o0 = os[0]
            if all(o is o0 for o in os):
                r.mem[oid] = o0
                continue
            if any(o is None for o in os):
                if self.objs[oid].kind == 'global':
                    os = [o if o is not None else self.ginit[oid] for o in os]
                elif self.objs[oid].kind == 'heap':
                    have = [o for o in os if o is not None]
                    os = [o if o is not None else have[0] for o in os]
                else:
                    # stack object of a dead frame / branch-local: keep any
                    have = [o for o in os if o is not None]
                    if len(have) == 1 or all(h is have[0] for h in have):
                        r.mem[oid] = have[0]
                        continue
                    os = [o if o is not None else have[0] for o in os]
                o0 = os[0]
            r.mem[oid] = self.omerge(os, tree, r.tok, oid)
        for s, _ in sts:
            s.tok = object()
        nv = len(sts[0][1])
        vals = [tree_val(tree, [v[i] for _, v in sts]) for i in range(nv)]
        return r, vals

    def omerge(self, os, tree, tok, oid):
        o0 = os[0]
        regs = o0.regions
        same = all(o.regions is regs or o.regions == regs for o in os)
        n = OState(o0.size, tok, oid)
        n.regions = regs
        if not same:
            n.regions = [(0, o0.size, IteSource(tree, [(SnapSource(o), 0) for o in os]), 0)]
            ks = set(o0.cells)
            for o in os[1:]:
                ks &= set(o.cells)
            for k in ks:
                v0 = o0.cells[k]
                if all(vsame(o.cells[k], v0) for o in os):
                    n.cells[k] = v0
                else:
                    vs = [o.cells[k] for o in os]
                    if len(set(nbytes(v) for v in vs)) == 1:
                        n.cells[k] = tree_val(tree, vs)
            return n
        c0 = o0.cells
        others = [o.cells for o in os[1:]]
        keys = set(c0)
        for c in others:
            keys.update(c)
        ncells = n.cells
        for k in keys:
            v0 = c0.get(k)
            alls = True
            if v0 is None:
                alls = False
            else:
                for c in others:
                    v = c.get(k)
                    if v is not v0 and not (v is not None and vsame(v, v0)):
                        alls = False
                        break
            if alls:
                ncells[k] = v0
        rest = [k for k in keys if k not in ncells]
        if rest:
            # group by offset; sizes may differ between states
            rest.sort()
            done_to = -1
            for k in rest:
                sizes = [nbytes(o.cells[k]) for o in os if k in o.cells]
                size = max(sizes)
                if k < done_to:
                    continue
                # any state with an overlapping cell starting elsewhere?
                clash = len(set(sizes)) > 1
                if not clash:
                    for o in os:
                        if k in o.cells:
                            continue
                        for p in range(k - 7, k + size):
                            if p != k and p in o.cells and p + nbytes(o.cells[p]) > k:
                                clash = True
                                break
                if clash:
                    # merge bytewise over the union extent
                    lo, hi = k, k + size
                    ch = True
                    while ch:
                        ch = False
                        for o in os:
                            for p in range(lo - 7, hi):
                                if p in o.cells:
                                    e = p + nbytes(o.cells[p])
                                    if e > lo and p < hi:
                                        if p < lo:
                                            lo = p
                                            ch = True
                                        if e > hi:
                                            hi = e
                                            ch = True
                    w = hi - lo
                    for p in list(ncells):
                        if lo <= p < hi:
                            del ncells[p]
                    p = lo
                    while p < hi:
                        for w in (8, 4, 2, 1):
                            if p % w == 0 and p + w <= hi:
                                # only use w if no cell of any state straddles
                                if w == 1 or all(all(not (q < p < q + nbytes(o.cells[q]) or q < p + w < q + nbytes(o.cells[q]))
                                                     for q in range(p - 7, p + w) if q in o.cells) for o in os):
                                    break
                        vals = []
                        for o in os:
                            v = self.oread(o, p, w, 8 * w)
                            v = self.conv(v, 8 * w, w)
                            vals.append(v)
                        ncells[p] = tree_val(tree, vals)
                        p += w
                    done_to = hi
                    continue
                s0 = None
                for o in os:
                    v = o.cells.get(k)
                    if v is not None:
                        s0 = v.sort if isinstance(v, T) else 'p'
                        break
                vals = []
                for o in os:
                    v = o.cells.get(k)
                    if v is None:
                        v = self.oread(o, k, size, s0)
                        if isinstance(v, T):
                            v = self.conv(v, s0, size)
                    vals.append(v)
                ncells[k] = tree_val(tree, vals)
        return n

    # ---------------------------------------------------------- running
    def call(self, name, args, st):
        """execute function; returns (State, retval) or None when no path returns"""
        d = self.decode(name)
        if d.decl:
            return self.external(name, args, st)
        if len(self.stack) > 200:
            raise ToolError('recursion too deep: %s' % self.stack[-5:])
        self.stack.append(name)
        self.executed[name] = self.executed.get(name, 0) + 1
        regs = [None] * d.nregs
        for i, a in enumerate(args[:len(d.params)]):
            if i in d.byval:
                n = d.byval[i]
                oid = self.newobj(st, 'byval', n, 'stack', None)
                st.mem[oid].regions = [(0, n, ZERO, 0)]
                self.memcpy(st, Ptr(oid, 0), a, n)
                a = Ptr(oid, 0)
            regs[d.params[i]] = a
        pend = {0: [(st, [], None)]}
        order = d.order
        rets = []
        allocs = []
        iters = {}
        saved_line = self.curline
        while pend:
            bi = min(pend, key=lambda b: order[b])
            inc = pend.pop(bi)
            iters[bi] = iters.get(bi, 0) + 1
            if iters[bi] > 60000:
                raise ToolError('loop in %s does not terminate symbolically' % self.pretty(name))
            mr = self.merge([(s, v) for s, v, _ in inc])
            if mr is None:
                continue
            s, vals = mr
            if self.loopinv and not self.incut and bi in d.loops and not any(f in d.loops[bi] for _, _, f in inc):
                con = self.loopcontract(name)
                ex = self.cutloop(d, bi, s, vals, regs, allocs, con) if con else None
                if ex is not None:
                    for tgt, s2, pv, frm in ex:
                        pend.setdefault(tgt, []).append((s2, pv, frm))
                    continue
            phis = d.phis[bi]
            for (dst, _), v in zip(phis, vals):
                regs[dst] = v
            r = self.block(d, bi, s, regs, allocs)
            if r is None:
                continue
            for item in r:
                if item[0] == 'ret':
                    rets.append((item[1], [item[2]] if item[2] is not None else []))
                else:
                    _, tgt, s2 = item
                    pv = []
                    for dst, incs in d.phis[tgt]:
                        o = incs[bi]
                        pv.append(regs[o.i] if type(o) is Loc else o)
                    pend.setdefault(tgt, []).append((s2, pv, bi))
        self.stack.pop()
        self.curline = saved_line
        if not rets:
            return None
        mr = self.merge(rets)
        if mr is None:
            return None
        s, v = mr
        for oid in allocs:
            s.mem.pop(oid, None)
        return s, (v[0] if v else None)

    # ---------------------------------------------------------- loops under an invariant
    def loopcontract(self, name):
        c = self.loopinv.get(name)
        if c is None and not self.pretty(name).startswith(('matrix::', 'void matrix::', 'float matrix::')):
            # a loop moved into a helper of the function the invariant is stated for
            for f in reversed(self.stack):
                if f in self.loopinv and not self.decode(f).loops:
                    return self.loopinv[f]
            c = self.loopinv.get('*')
        return c

    def region(self, d, h, st, vals, regs, allocs):
        """one pass through the body of the loop with header h -> (edges leaving the loop, back edges)"""
        body = d.loops[h]
        pend = {h: [(st, vals)]}
        exits = []
        backs = []
        n = 0
        while pend:
            bi = min(pend, key=lambda b: d.order[b])
            inc = pend.pop(bi)
            n += 1
            if n > 60000:
                raise ToolError('loop does not terminate symbolically')
            mr = self.merge(inc)
            if mr is None:
                continue
            s, v = mr
            for (dst, _), x in zip(d.phis[bi], v):
                regs[dst] = x
            for item in self.block(d, bi, s, regs, allocs) or ():
                if item[0] == 'ret':
                    raise ToolError('return inside a loop body')
                _, tgt, s2 = item
                pv = []
                for dst, incs in d.phis[tgt]:
                    o = incs[bi]
                    pv.append(regs[o.i] if type(o) is Loc else o)
                if tgt == h:
                    backs.append((s2, pv))
                elif tgt in body:
                    pend.setdefault(tgt, []).append((s2, pv))
                else:
                    exits.append((tgt, s2, pv, bi))
        return exits, backs

    def specval(self, fn, k, st):
        r = self.call(fn, [k], st.fork(st.pc))
        if r is None:
            raise ToolError('loop invariant does not return')
        return r[1]

    def valid(self, st, goal, modes=('uf',)):
        """the solver shows goal on the path (only used to choose a form that is then an obligation)"""
        if goal is TRUE:
            return True
        if goal is FALSE:
            return False
        from . import smt, poly, arrays
        A = st.pc.lits()
        import time
        t0 = time.time()
        for m in modes:
            if m == 'real':
                ts = arrays.without(A + [goal])[0]
                if FALSE in ts[:-1] or ts[-1] is TRUE:
                    return True
                r = 'unsat' if smt.solve(m, ts[:-1], ts[-1], 1.5, False)[0] == 'unsat' or poly.prove(ts[:-1], ts[-1], 2) == 'unsat' else 'unknown'
            else:
                r = smt.solve(m, A, goal, 3, False)[0]
            if r == 'unknown' and m == 'abs':
                r = smt.solve_cvc5(m, A, goal, 5)
            if self.loopdbg > 1 and len(modes) > 1: print('   valid?', m, r, round(time.time() - t0, 1))
            if r == 'unsat':
                return True
        return False

    def choose(self, cands, k, st):
        import time
        gs = [self.specval(c[0], k, st) for c in cands]
        r = cands
        t0 = time.time()
        if not self.valid(st, And(*gs), ('abs',)):
            r = [c for c, g in zip(cands, gs) if self.valid(st, g, ('abs', 'real'))]
        if self.loopdbg: print('LOOP candidates', [c[1] for c in cands], 'kept', [c[1] for c in r], round(time.time() - t0, 1))
        return r

    def closedform(self, st, v0, v1, con, at=None):
        """value of a loop variable as a function of the number of iterations done, from its first two values"""
        def wide(k, w):
            return k if w == 64 else extract(k, w - 1, 0) if w < 64 else zext(k, w)
        if vsame(v0, v1):
            return lambda k: v0
        if not isinstance(v0, T) and v0 is not UNDEF and type(v0) is not Ptr:
            raise ToolError('loop variable of an unknown form')
        if type(v0) is Ptr and type(v1) is Ptr and v0.obj == v1.obj:
            dlt = bvsub(offT(v1.off), offT(v0.off))
            if dlt.op == 'c':
                return lambda k: Ptr(v0.obj, offN(bvadd(offT(v0.off), bvmul(k, dlt))))
        if type(v0) is Ptr:
            raise ToolError('loop over pointers that do not advance evenly')
        if isinstance(v0, T) and isinstance(v0.sort, int):
            w = v0.sort
            dlt = bvsub(v1, v0)
            if dlt.op != 'c' and at is not None:
                v1 = self.resolve(at, v1)
                dlt = bvsub(v1, v0)
            if dlt.op == 'c':
                return lambda k: bvadd(v0, bvmul(wide(k, w), dlt))
            for c in con['vars']:
                def f(k, c=c):
                    x = self.specval(c, k, st)
                    return extract(x, w - 1, 0) if w < x.sort else x
                if self.valid(st, eq(f(bvc(0, 64)), v0)) and self.valid(st, eq(f(bvc(1, 64)), v1)):
                    return f
        return None

    def resolve(self, st, v):
        """v with the conditions the path decides taken out"""
        while isinstance(v, T) and v.op == 'ite':
            c, a, b = v.args
            k = st.pc.known(c)
            if k is True or (k is None and self.valid(st, c)):
                v = a
            elif k is False or self.valid(st, Not(c)):
                v = b
            else:
                return ite(c, self.resolve(st, a), self.resolve(st, b))
        return v

    def loopchanges(self, base, s2, acc):
        grew = False
        for oid, o in base.mem.items():
            n = s2.mem.get(oid)
            if n is None or n is o or (oid, None) in acc:
                continue
            if n.regions is not o.regions and n.regions != o.regions and self.objs[oid].kind == 'stack' and not self.objs[oid].arr:
                acc[(oid, None)] = None         # a local filled as a whole: anything
                grew = True
                continue
            for off in set(n.cells) | set(o.cells):
                a, b = o.cells.get(off), n.cells.get(off)
                if a is b or (oid, off) in acc:
                    continue
                if b is None:
                    raise ToolError('loop changes the layout of %s' % self.objs[oid].name)
                if a is None:
                    if not isinstance(b, T) or self.oread(o, off, nbytes(b), b.sort) is b:
                        continue
                elif vsame(a, b) or vsame(a, self.resolve(s2, b)) or (isinstance(a, T) and isinstance(b, T) and a.sort == b.sort and type(a.sort) is not tuple and self.valid(s2, eq(a, b))):
                    continue
                if not isinstance(b, T):
                    raise ToolError('loop changes a pointer in %s' % self.objs[oid].name)
                acc[(oid, off)] = b
                grew = True
            if n.regions is not o.regions and n.regions != o.regions:
                raise ToolError('loop overwrites an unknown part of %s' % self.objs[oid].name)
        return grew

    def cutloop(self, d, h, st, vals, regs, allocs, con):
        """a loop that constants do not resolve: the invariant holds on entry and is kept by one iteration from any
        state that satisfies it; what follows the loop sees the invariant and the exit condition only"""
        mark = (len(self.obls), len(self.covers), len(self.inputs), dict(self.symcount), self.assumes, getattr(self, 'trivial', 0), len(allocs))

        def rollback():
            del self.obls[mark[0]:]
            del self.covers[mark[1]:]
            del self.inputs[mark[2]:]
            self.symcount = dict(mark[3])
            self.assumes, self.trivial = mark[4], mark[5]
        self.incut += 1
        try:
            one = st.fork(st.pc)
            exits, backs = self.region(d, h, one, vals, regs, allocs)
            rollback()
            if not exits or not backs:
                return None
            bm = self.merge(backs)
            if bm is None:
                return None
            if self.loopdbg: print('LOOP', vals, bm[1])
            forms = [self.closedform(st, a, b, con, bm[0]) for a, b in zip(vals, bm[1])]
            self.ncut += 1
            k = sym('loop%d.k' % self.ncut, 64)
            k1 = bvadd(k, bvc(1, 64))
            acc = {}
            base = st
            self.loopchanges(st, bm[0], acc)
            rollback()
            # candidates: those that hold on entry and, together, are kept, are the invariant
            cands = self.choose(con['cands'], bvc(0, 64), st)
            for _ in range(8 + len(cands)):
                rollback()
                invs = con['invs'] + cands
                for f, v in zip(forms, vals):
                    if f is not None:
                        self.obligation(st, self.sameval(f(bvc(0, 64)), v), 'loop variable on entry', 'loop')
                for inv, label in invs:
                    self.obligation(st, self.specval(inv, bvc(0, 64), st), 'loop invariant holds on entry: ' + label, 'loop')
                hs = st.fork(st.pc)
                for (oid, off), v in acc.items():
                    if off is None:
                        o = self.wobj(hs, oid)
                        o.cells.clear()
                        o.regions = [(0, self.objs[oid].size, SymSource('undef.loop%d.o%d' % (self.ncut, oid), True), 0)]
                        continue
                    if (oid, None) in acc:
                        continue
                    nm = 'loop%d.o%d.%d' % (self.ncut, oid, off)
                    nv = mk('sym', v.sort, (), nm)
                    o = self.wobj(hs, oid)
                    if self.objs[oid].arr:
                        o.cells[off] = nv
                    else:
                        self.owrite(o, off, nv, nbytes(v))
                hv = [f(k) if f is not None else v if not isinstance(v, T) else sym('loop%d.v%d' % (self.ncut, i), v.sort) for i, (f, v) in enumerate(zip(forms, vals))]
                for inv, label in invs:
                    hs.pc = hs.pc.add(self.specval(inv, k, hs))
                base = hs.fork(hs.pc)
                exits, backs = self.region(d, h, hs, hv, regs, allocs)
                bm = self.merge(backs) if backs else None
                if bm is None:
                    break
                if self.loopchanges(base, bm[0], acc):
                    continue
                kept = self.choose(cands, k1, bm[0])
                if len(kept) == len(cands):
                    break
                cands = kept
            else:
                raise ToolError('what the loop changes does not settle')
            if bm is not None:
                bs, bv = bm
                for f, v in zip(forms, bv):
                    if f is not None:
                        self.obligation(bs, self.sameval(f(k1), v), 'loop variable after an iteration', 'loop')
                for inv, label in invs:
                    self.obligation(bs, self.specval(inv, k1, bs), 'loop invariant is kept: ' + label, 'loop')
            self.loopscut.append('%s: %s' % (self.pretty(d.name), '; '.join(l for _, l in invs)))
            return exits
        finally:
            self.incut -= 1

    def sameval(self, a, b):
        if vsame(a, b):
            return TRUE
        if type(a) is Ptr and type(b) is Ptr and a.obj == b.obj:
            return eq(offT(a.off), offT(b.off))
        if isinstance(a, T) and isinstance(b, T) and a.sort == b.sort:
            return eq(a, b)
        return FALSE

    def block(self, d, bi, st, regs, allocs):
        pc = st.pc
        for ins in d.blocks[bi]:
            op = ins[0]
            self.curline = ins[1]
            self.steps += 1
            if op == 'load':
                p = ins[3]
                if type(p) is Loc:
                    p = regs[p.i]
                regs[ins[2]] = self.load(st, p, ins[4])
            elif op == 'store':
                v = ins[2]
                if type(v) is Loc:
                    v = regs[v.i]
                p = ins[3]
                if type(p) is Loc:
                    p = regs[p.i]
                self.store(st, p, v, ins[4])
            elif op == 'gepc':
                p = ins[3]
                if type(p) is Loc:
                    p = regs[p.i]
                regs[ins[2]] = self.padd(p, ins[4])
            elif op == 'gep':
                ops = [regs[o.i] if type(o) is Loc else o for o in ins[4]]
                regs[ins[2]] = self.gep(ops[0], ins[3], ops[1:])
            elif op == 'call':
                args = [regs[o.i] if type(o) is Loc else o for o in ins[4]]
                f = ins[3]
                if type(f) is not str:
                    if type(f) is Loc:
                        f = regs[f.i]
                    f = self.fnptr(st, f)
                r = self.docall(st, f, args, ins[5])
                if r is None:
                    return None
                st2, v = r
                if st2 is not st:
                    st = st2
                if v is not None:
                    regs[ins[2]] = v
            elif op == 'br':
                c = ins[2]
                if type(c) is Loc:
                    c = regs[c.i]
                k = st.pc.known(c)
                if k is None and self.prune:
                    k = self.decide(st, c)
                if k is True:
                    return [('go', ins[3], st)]
                if k is False:
                    return [('go', ins[4], st)]
                if ins[3] == ins[4]:
                    return [('go', ins[3], st)]
                s2 = st.fork(PC(st.pc, Not(c)))
                st.pc = PC(st.pc, c)
                return [('go', ins[3], st), ('go', ins[4], s2)]
            elif op == 'jmp':
                return [('go', ins[2], st)]
            elif op == 'ret':
                v = ins[2]
                if type(v) is Loc:
                    v = regs[v.i]
                return [('ret', st, v)]
            elif op == 'alloca':
                cnt = ins[4]
                if type(cnt) is Loc:
                    cnt = regs[cnt.i]
                if cnt.op != 'c':
                    raise ToolError('dynamic alloca')
                size = ins[3].size * cnt.val
                oid = self.newobj(st, '%s' % (ins[5] or 'tmp'), size, 'stack', None)
                st.mem[oid].regions = [(0, size, SymSource('undef.o%d' % oid, True), 0)]
                allocs.append(oid)
                regs[ins[2]] = Ptr(oid, 0)
            elif op == 'icmp':
                a, b = ins[4], ins[5]
                if type(a) is Loc:
                    a = regs[a.i]
                if type(b) is Loc:
                    b = regs[b.i]
                regs[ins[2]] = self.icmp(ins[3], a, b)
            elif op == 'fcmp':
                a, b = ins[4], ins[5]
                if type(a) is Loc:
                    a = regs[a.i]
                if type(b) is Loc:
                    b = regs[b.i]
                regs[ins[2]] = self.vmap(lambda x, y: FCMP(ins[3], x, y), a, b)
            elif op == 'unreachable':
                # reached only after noreturn calls / traps, which produced their own obligation
                if not getattr(self, '_trapjust', False):
                    self.obligation(st, FALSE, 'unreachable code reached', 'trap')
                self._trapjust = False
                return None
            elif op == 'switch':
                c = ins[2]
                if type(c) is Loc:
                    c = regs[c.i]
                out = []
                pcr = st.pc
                tg = {}
                rest = []
                for v, b in ins[4]:
                    tg.setdefault(b, []).append(eq(c, v))
                cur = st
                res = []
                for b, cs in tg.items():
                    if b == ins[3]:
                        continue
                    cc = Or(*cs)
                    k = cur.pc.known(cc)
                    if k is True:
                        res.append(('go', b, cur))
                        cur = None
                        break
                    if k is False:
                        continue
                    s2 = cur.fork(PC(cur.pc, cc))
                    cur.pc = PC(cur.pc, Not(cc))
                    res.append(('go', b, s2))
                if cur is not None:
                    res.append(('go', ins[3], cur))
                return res
            elif op == 'asm':
                pass
            elif op == 'select':
                c, a, b = [regs[o.i] if type(o) is Loc else o for o in ins[3]]
                if isinstance(c, tuple):
                    regs[ins[2]] = tuple([vite(x, y, z) for x, y, z in zip(c, a, b)])
                else:
                    k = st.pc.known(c)
                    if k is None and self.prune:
                        k = self.decide(st, c)
                    regs[ins[2]] = a if k is True else b if k is False else vite(c, a, b)
            elif op == 'extractvalue':
                v = ins[3][0]
                if type(v) is Loc:
                    v = regs[v.i]
                for i in ins[4]:
                    v = v[i]
                regs[ins[2]] = v
            elif op == 'insertvalue':
                a, v = [regs[o.i] if type(o) is Loc else o for o in ins[3]]
                regs[ins[2]] = self.insval(a, v, ins[4])
            elif op == 'extractelement':
                a, i = [regs[o.i] if type(o) is Loc else o for o in ins[3]]
                regs[ins[2]] = a[i.val]
            elif op == 'insertelement':
                a, v, i = [regs[o.i] if type(o) is Loc else o for o in ins[3]]
                l = list(a)
                l[i.val] = v
                regs[ins[2]] = tuple(l)
            elif op == 'shufflevector':
                a, b = [regs[o.i] if type(o) is Loc else o for o in ins[3:5]]
                both = list(a) + list(b)
                regs[ins[2]] = tuple([both[i] if i >= 0 else both[0] for i in ins[5]])
            elif op == 'freeze':
                o = ins[3][0]
                regs[ins[2]] = regs[o.i] if type(o) is Loc else o
            else:
                f = UNOPS.get(op)
                if f is not None:
                    a = ins[3][0]
                    if type(a) is Loc:
                        a = regs[a.i]
                    regs[ins[2]] = f(self, a, ins[4])
                    if self.prune and op in ('fptoui', 'fptosi'):
                        regs[ins[2]] = self.unique(st, regs[ins[2]])
                else:
                    f = BINOPS.get(op)
                    if f is None:
                        raise ToolError('instruction %s' % op)
                    a, b = ins[3]
                    if type(a) is Loc:
                        a = regs[a.i]
                    if type(b) is Loc:
                        b = regs[b.i]
                    if type(a) is tuple:
                        regs[ins[2]] = tuple([f(x, y) for x, y in zip(a, b)])
                    else:
                        if not isinstance(a, T):
                            a = self.ptr2int(a)
                        if not isinstance(b, T):
                            b = self.ptr2int(b)
                        regs[ins[2]] = f(a, b)
        raise ToolError('block without terminator')

    # ---- solver-assisted simplification (ideal reals), switched on by vc_prune: only used in proofs whose
    # obligations are discharged in ideal reals as well
    def _psolver(self, st):
        import z3
        from .smt import Tr
        if self._ptr is None:
            self._ptr = Tr('real')
            self._pcache = {}
            self._psol = {}
        e = self._psol.get(id(st.pc))
        if e is None:
            s = z3.Solver()
            for l in st.pc.lits():
                s.add(self._ptr.tr(l))
            e = self._psol[id(st.pc)] = (s, st.pc)
        return e[0]

    def _pcheck(self, s, f):
        import z3
        from .smt import check
        s.push()
        s.add(f)
        for x in self._ptr.extra:
            s.add(x)
        r = check(s, 2)
        m = s.model() if r == z3.sat else None
        s.pop()
        return r, m

    def decide(self, st, c):
        if not isinstance(c, T) or c.op == 'bc':
            return None
        import z3
        key = (st.pc, c.id)
        s = self._psolver(st)
        if key in self._pcache:
            return self._pcache[key]
        z = self._ptr.tr(c)
        k = None
        if self._pcheck(s, z)[0] == z3.unsat:
            k = False
        elif self._pcheck(s, z3.Not(z))[0] == z3.unsat:
            k = True
        self._pcache[key] = k
        return k

    def unique(self, st, t):
        """t: ffloor / fptoui / fptosi term whose value is determined by the path condition"""
        if not isinstance(t, T) or t.op not in ('ffloor', 'fptoui', 'fptosi'):
            return t
        import z3
        import math
        key = (st.pc, t.id)
        s = self._psolver(st)
        if key in self._pcache:
            return self._pcache[key]
        a = self._ptr.tr(t.args[0])
        v = z3.Real('unique!v')
        r, m = self._pcheck(s, v == a)
        out = t
        if r == z3.sat:
            x = m.eval(v, model_completion=True)
            if z3.is_rational_value(x):
                n, d = x.numerator_as_long(), x.denominator_as_long()
                k = n // d
                if t.op != 'ffloor' and n < 0 and n % d:
                    k += 1
                if t.op == 'ffloor' or k > 0:
                    rg = z3.And(a >= k, a < k + 1)
                elif k == 0:
                    rg = z3.And(a > -1, a < 1)
                else:
                    rg = z3.And(a <= k, a > k - 1)
                if self._pcheck(s, z3.Not(rg))[0] == z3.unsat:
                    out = fc(float(k), t.sort) if t.op == 'ffloor' else bvc(k, t.sort)
        self._pcache[key] = out
        return out

    def vmap(self, f, a, b):
        if type(a) is tuple:
            return tuple([f(x, y) for x, y in zip(a, b)])
        return f(a, b)

    def insval(self, a, v, ix):
        l = list(a)
        if len(ix) == 1:
            l[ix[0]] = v
        else:
            l[ix[0]] = self.insval(l[ix[0]], v, ix[1:])
        return tuple(l)

    def icmp(self, pred, a, b):
        if type(a) is tuple:
            return tuple([self.icmp(pred, x, y) for x, y in zip(a, b)])
        if not isinstance(a, T) or not isinstance(b, T):
            if isinstance(a, T):
                a = self.conv(a, 'p', 8)
            if isinstance(b, T):
                b = self.conv(b, 'p', 8)
            if pred in ('eq', 'ne'):
                r = self.ptreq(a, b)
                return r if pred == 'eq' else Not(r)
            if type(a) is Ptr and type(b) is Ptr and a.obj == b.obj:
                a, b = offT(a.off), offT(b.off)
            else:
                a, b = self.ptr2int(a), self.ptr2int(b)
        return ICMPF[pred](a, b)

    def ptreq(self, a, b):
        if type(a) is PIte:
            return ite(a.c, self.ptreq(a.a, b), self.ptreq(a.b, b))
        if type(b) is PIte:
            return ite(b.c, self.ptreq(a, b.a), self.ptreq(a, b.b))
        if a is UNDEF or b is UNDEF:
            return self.undef('B')
        if a.obj != b.obj:
            return FALSE
        return eq(offT(a.off), offT(b.off))

    def fnptr(self, st, f):
        al = [(c, p) for c, p in self.alts(f) if st.pc.known(c) is not False]
        if len(al) != 1:
            raise ToolError('indirect call with several targets')
        p = al[0][1]
        if p.obj == 0:
            self.obligation(st, FALSE, 'call through null', 'mem')
            raise ToolError('call through null pointer')
        m = self.objs[p.obj]
        if m.kind != 'func':
            raise ToolError('indirect call to data')
        return m.fn

    def docall(self, st, name, args, rty):
        rep = self.replaced.get(name)
        if rep is not None and not (self.stack and self.stack[-1] == rep):
            if not (rep in self.stack):
                self.stubbed[name] = self.stubbed.get(name, 0) + 1
                return self.call(rep, args, st)
        h = self.HOOK.get(name)
        if h is not None:
            return h(self, st, name, args, rty)
        if name.startswith('llvm.'):
            return self.intrinsic(st, name, args, rty)
        f = self.m.functions.get(name)
        if f is None:
            raise ToolError('unknown function ' + name)
        d = self.decode(name)
        if d.decl:
            return self.external(name, args, st, rty)
        return self.call(name, args, st)

    # ---------------------------------------------------------- strings
    def cstr(self, st, p):
        if type(p) is not Ptr or not isinstance(p.off, int):
            raise ToolError('non-constant string')
        o = self.robj(st, p.obj)
        s = []
        i = p.off
        while True:
            v = self.conv(self.oread(o, i, 1, 8), 8, 1)
            if v.op != 'c':
                raise ToolError('non-constant string')
            if v.val == 0:
                return ''.join(s)
            s.append(chr(v.val))
            i += 1

    # ---------------------------------------------------------- externals
    def external(self, name, args, st, rty=None):
        base = name
        if name in ('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', 'calloc'):
            n = args[0]
            if name == 'calloc':
                n = bvmul(args[0], args[1])
            zero = name == 'calloc'
            if n.op == 'c':
                oid = self.newobj(st, 'heap%d' % self.nobj, n.val, 'heap', None)
            else:
                mx = urange(n)[1]
                if mx > 1 << 20:
                    mx = self.maxheap
                oid = self.newobj(st, 'heap%d' % self.nobj, mx, 'heap', None)
                self.objs[oid].sizeT = n
            sz = self.objs[oid].size
            st.mem[oid].regions = [(0, sz, ZERO if zero else SymSource('undef.o%d' % oid, True), 0)]
            return st, Ptr(oid, 0)
        if name in ('_ZdlPv', '_ZdaPv', 'free', '_ZdlPvm', '_ZdaPvm'):
            return st, None
        if name in ('printf', 'puts', 'putchar', 'fprintf', '__cxa_atexit', 'fputs', 'fwrite', 'fflush', 'perror'):
            return st, bvc(0, 32)
        if name in ('memcpy', 'memmove'):
            n = args[2]
            if n.op != 'c':
                raise ToolError('memcpy of symbolic size')
            self.memcpy(st, args[0], args[1], n.val)
            return st, args[0]
        if name == 'memset':
            self.memset(st, args[0], extract(args[1], 7, 0), args[2].val)
            return st, args[0]
        if name == '__cxa_pure_virtual' or name == 'abort' or name == '_ZSt20__throw_length_errorPKc':
            self.obligation(st, FALSE, 'call to %s' % name, 'trap')
            return None
        if name == '__assert_fail':
            self.obligation(st, FALSE, 'assert() failure', 'trap')
            return None
        s = None
        b = name
        if b.endswith('f') and (b[:-1] in LIBM1 or b[:-1] in LIBM2 or b[:-1] in ('sqrt', 'fabs', 'floor', 'ceil', 'fmod', 'round', 'roundeven', 'rint', 'trunc', 'fmin', 'fmax', 'copysign', 'nearbyint')):
            s = 'f'
            b = b[:-1]
        else:
            s = 'd'
        r = self.libm(st, b, args, s)
        if r is not None:
            return st, r
        raise ToolError('external function %s has no contract' % self.pretty(name))

    maxheap = 1 << 16

    def libm(self, st, b, args, s):
        if b in LIBM1:
            return self.fnv('m_' + b, s, args[0])
        if b in LIBM2:
            return self.fnv('m_' + b, s, args[0], args[1])
        if b == 'sqrt':
            return fsqrt(args[0])
        if b == 'fabs':
            return fabs(args[0])
        if b == 'floor':
            r = ffloor(args[0])
            return self.unique(st, r) if self.prune else r
        if b == 'ceil':
            return fceil(args[0])
        if b == 'trunc':
            return ftruncr(args[0])
        if b == 'round':
            return froundaway(args[0])
        if b in ('rint', 'nearbyint', 'roundeven'):
            return frint(args[0])
        if b == 'fmod':
            return frem(args[0], args[1])
        if b == 'fmax':
            x, y = args
            return ite(fisnan(x), y, ite(fisnan(y), x, ite(flt(x, y), y, x)))
        if b == 'fmin':
            x, y = args
            return ite(fisnan(x), y, ite(fisnan(y), x, ite(flt(y, x), y, x)))
        if b == 'copysign':
            x, y = args
            return ite(fsignbit(y), fneg(fabs(x)), fabs(x))
        return None

    def fnv(self, nm, s, *args):
        import math as _m
        if nm in ('m_sin', 'm_tan', 'm_asin', 'm_atan', 'm_sinh', 'm_tanh') and args[0].op == 'fc' and fval(args[0]) == 0:
            return args[0]
        if nm in ('m_cos', 'm_exp', 'm_cosh') and args[0].op == 'fc' and fval(args[0]) == 0:
            return fc(1.0, s)
        return fn(nm, s, *args)

    # ---------------------------------------------------------- LLVM intrinsics
    def intrinsic(self, st, name, args, rty):
        p = name.split('.')
        k = p[1]
        if k in ('memcpy', 'memmove'):
            n = args[2]
            if n.op != 'c':
                raise ToolError('memcpy of symbolic size')
            self.memcpy(st, args[0], args[1], n.val)
            return st, None
        if k == 'memset':
            if args[2].op != 'c':
                raise ToolError('memset of symbolic size')
            self.memset(st, args[0], args[1], args[2].val)
            return st, None
        if k in ('ubsantrap', 'trap'):
            lbl = {0: 'add overflow', 1: 'builtin unreachable', 3: 'division overflow / by zero', 5: 'float-cast overflow',
                   12: 'mul overflow', 13: 'negate overflow', 18: 'out-of-bounds index', 20: 'shift out of bounds',
                   21: 'sub overflow', 8: 'invalid value', 10: 'missing return'}
            code = args[0].val if args else None
            self.obligation(st, FALSE, 'undefined behaviour: %s' % lbl.get(code, 'check %s' % code), 'trap')
            self._trapjust = True
            return None
        if k in ('stacksave',):
            return st, NULL
        if k in ('stackrestore', 'donothing', 'prefetch', 'var', 'va_start', 'va_end', 'invariant', 'experimental'):
            return st, None
        if k == 'expect':
            return st, args[0]
        if k == 'objectsize':
            return st, bvc(-1, 64)
        if k == 'is' and p[2] == 'constant':
            return st, FALSE
        if k == 'is' and p[2] == 'fpclass':
            return st, self.fpclass(args[0], args[1].val)
        if k == 'fabs':
            return st, self.v1(fabs, args[0])
        if k == 'sqrt':
            return st, self.v1(fsqrt, args[0])
        if k in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint', 'roundeven'):
            return st, self.libm(st, k, args, args[0].sort)
        if k in ('maxnum', 'minnum', 'copysign'):
            nm = {'maxnum': 'fmax', 'minnum': 'fmin', 'copysign': 'copysign'}[k]
            return st, self.libm(st, nm, args, args[0].sort)
        if k in ('sin', 'cos', 'pow', 'exp', 'log', 'log10', 'log2', 'exp2'):
            return st, self.libm(st, k, args, args[0].sort)
        if k == 'powi':
            if args[1].op == 'c':
                n = sgn(args[1].val, 32)
                r = fc(1.0, args[0].sort)
                for _ in range(abs(n)):
                    r = fmul(r, args[0]) if r.op != 'fc' else args[0]
                return st, r if n >= 0 else fdiv(fc(1.0, args[0].sort), r)
            raise ToolError('powi')
        if k in ('fma', 'fmuladd'):
            return st, mk('ffma', args[0].sort, tuple(args))
        if k in ('sadd', 'uadd', 'ssub', 'usub', 'smul', 'umul') and p[2] == 'with':
            return st, self.ovf(k, args[0], args[1])
        if k in ('umax', 'umin', 'smax', 'smin'):
            a, b = args
            lt = ult(a, b) if k[0] == 'u' else slt(a, b)
            return st, (ite(lt, b, a) if k.endswith('max') else ite(lt, a, b))
        if k == 'abs':
            a = args[0]
            return st, ite(slt(a, bvc(0, a.sort)), bvneg(a), a)
        if k in ('usub', 'uadd') and p[2] == 'sat':
            a, b = args
            if k == 'usub':
                return st, ite(ult(a, b), bvc(0, a.sort), bvsub(a, b))
            s = bvadd(a, b)
            return st, ite(ult(s, a), bvc(-1, a.sort), s)
        if k == 'ctpop':
            a = args[0]
            r = bvc(0, a.sort)
            for i in range(a.sort):
                r = bvadd(r, zext(bit(a, i), a.sort))
            return st, r
        raise ToolError('intrinsic %s' % name)

    def v1(self, f, a):
        return tuple([f(x) for x in a]) if type(a) is tuple else f(a)

    def ovf(self, k, a, b):
        w = a.sort
        if k == 'sadd' or k == 'ssub':
            f = bvadd if k == 'sadd' else bvsub
            r = f(a, b)
            x = f(sext(a, w + 1), sext(b, w + 1))
            la, ha = urange(a)
            lb, hb = urange(b)
            h = 1 << (w - 1)
            if k == 'sadd' and ha + hb < h:
                return (r, FALSE)
            if k == 'ssub' and ha < h and hb < h:
                return (r, FALSE)
            if k == 'ssub' and hb < h and la >= hb:
                return (r, FALSE)
            if k == 'sadd':
                # constant non-negative added to a small signed value
                o = Not(eq(x, sext(r, w + 1))) if x.op != 'c' else boolc(sgn(x.val, w + 1) != sgn(r.val, w))
            else:
                o = Not(eq(x, sext(r, w + 1))) if x.op != 'c' else boolc(sgn(x.val, w + 1) != sgn(r.val, w))
            return (r, o)
        if k == 'uadd':
            r = bvadd(a, b)
            if urange(a)[1] + urange(b)[1] < (1 << w):
                return (r, FALSE)
            return (r, ult(r, a))
        if k == 'usub':
            r = bvsub(a, b)
            return (r, ult(a, b))
        if k == 'smul':
            r = bvmul(a, b)
            h = 1 << (w - 1)
            if urange(a)[1] * urange(b)[1] < h:
                return (r, FALSE)
            x = bvmul(sext(a, 2 * w), sext(b, 2 * w))
            if x.op == 'c':
                return (r, boolc(sgn(x.val, 2 * w) != sgn(r.val, w)))
            return (r, Not(eq(x, sext(r, 2 * w))))
        if k == 'umul':
            r = bvmul(a, b)
            if urange(a)[1] * urange(b)[1] < (1 << w):
                return (r, FALSE)
            x = bvmul(zext(a, 2 * w), zext(b, 2 * w))
            return (r, Not(eq(extract(x, 2 * w - 1, w), bvc(0, w))))

    def fpclass(self, x, mask):
        # snan 1 qnan 2 -inf 4 -norm 8 -sub 16 -0 32 +0 64 +sub 128 +norm 256 +inf 512
        if mask == 504:
            return fisfinite(x)
        if mask == 519:
            return Not(fisfinite(x))
        if mask == 3:
            return fisnan(x)
        if mask == 1020:
            return Not(fisnan(x))
        if mask == 516:
            return And(Not(fisfinite(x)), Not(fisnan(x)))
        if mask == 512:
            return feq(x, fc(float('inf'), x.sort))
        if mask == 264:
            fin = fisfinite(x)
            mn = 2.0**-126 if x.sort == 'f' else 2.0**-1022
            return And(fin, fle(fc(mn, x.sort), fabs(x)))
        if mask == 60:
            return fsignbit(x)  # signbit of non-NaN
        raise ToolError('is.fpclass %d' % mask)

    HOOK = {}


def FCMP(p, a, b):
    if p == 'oeq':
        return feq(a, b)
    if p == 'une':
        return Not(feq(a, b))
    if p == 'olt':
        return flt(a, b)
    if p == 'ogt':
        return flt(b, a)
    if p == 'ole':
        return fle(a, b)
    if p == 'oge':
        return fle(b, a)
    if p == 'ult':
        return Not(fle(b, a))
    if p == 'ugt':
        return Not(fle(a, b))
    if p == 'ule':
        return Not(flt(b, a))
    if p == 'uge':
        return Not(flt(a, b))
    if p == 'one':
        return Or(flt(a, b), flt(b, a))
    if p == 'ueq':
        return Not(Or(flt(a, b), flt(b, a)))
    if p == 'uno':
        if a is b or b.op == 'fc' and not b.val == 'nan':
            return fisnan(a)
        return Or(fisnan(a), fisnan(b))
    if p == 'ord':
        if a is b or b.op == 'fc' and not b.val == 'nan':
            return Not(fisnan(a))
        return And(Not(fisnan(a)), Not(fisnan(b)))
    if p == 'true':
        return TRUE
    if p == 'false':
        return FALSE
    raise ToolError('fcmp ' + p)


ICMPF = {'eq': eq, 'ne': lambda a, b: Not(eq(a, b)), 'ult': ult, 'ule': ule, 'ugt': lambda a, b: ult(b, a),
         'uge': lambda a, b: ule(b, a), 'slt': slt, 'sle': sle, 'sgt': lambda a, b: slt(b, a),
         'sge': lambda a, b: sle(b, a)}

BINOPS = {'add': bvadd, 'sub': bvsub, 'mul': bvmul, 'udiv': bvudiv, 'sdiv': bvsdiv, 'urem': bvurem, 'srem': bvsrem,
          'shl': bvshl, 'lshr': bvlshr, 'ashr': bvashr, 'and': bvand, 'or': bvor, 'xor': bvxor,
          'fadd': fadd, 'fsub': fsub, 'fmul': fmul, 'fdiv': fdiv, 'frem': frem}
# self-test (ECLVC_PERTURB=<part of a path>): code in these files is read with its float operations rewritten into algebraically equal ones;
# the specifications must not notice
PERTURB = os.environ.get('ECLVC_PERTURB', '')
BINOPS.update({'fadd~': lambda a, b: fadd(b, a), 'fsub~': lambda a, b: fneg(fsub(b, a)), 'fmul~': lambda a, b: fmul(b, a),
               'fdiv~': lambda a, b: fmul(fdiv(fc(1.0, a.sort), b), a) if b.op == 'fc' else fdiv(a, b)})      # 1/x overflows where y/x does not


def _v(f):
    def g(ex, a, ty):
        if type(a) is tuple:
            return tuple([f(ex, x, ty.elem) for x in a])
        return f(ex, a, ty)
    return g


def _trunc(ex, a, ty):
    if not isinstance(a, T):
        a = ex.ptr2int(a)
    return bit(a, 0) if ty.w == 1 else extract(a, ty.w - 1, 0)


def _bitcast(ex, a, ty):
    if ty.kind == LL.VECTOR:
        if type(a) is tuple:
            src = a
            bits = None
            for x in src:
                b = tobits(x)
                bits = b if bits is None else concat(b, bits)
        else:
            bits = tobits(a)
        w = ty.elem.size * 8
        out = []
        for i in range(ty.n):
            e = extract(bits, (i + 1) * w - 1, i * w)
            out.append(ex.conv(e, ex.sortof(ty.elem), ty.elem.size))
        return tuple(out)
    if type(a) is tuple:
        bits = None
        for x in a:
            b = tobits(x)
            bits = b if bits is None else concat(b, bits)
        return ex.conv(bits, ex.sortof(ty), ty.size)
    if ty.kind == LL.POINTER:
        return a
    return ex.conv(a, ex.sortof(ty), ty.size)


UNOPS = {'fneg': _v(lambda ex, a, ty: fneg(a)), 'trunc': _v(_trunc),
         'zext': _v(lambda ex, a, ty: zext(a, ty.w)), 'sext': _v(lambda ex, a, ty: sext(a, ty.w)),
         'fptoui': _v(lambda ex, a, ty: fptoi(a, False, ty.w)), 'fptosi': _v(lambda ex, a, ty: fptoi(a, True, ty.w)),
         'uitofp': _v(lambda ex, a, ty: itofp(a, False, ex.sortof(ty))),
         'sitofp': _v(lambda ex, a, ty: itofp(a, True, ex.sortof(ty))),
         'fpext': _v(lambda ex, a, ty: fpext(a)), 'fptrunc': _v(lambda ex, a, ty: fptrunc(a)),
         'ptrtoint': lambda ex, a, ty: ex.conv(ex.ptr2int(a), ty.w, ty.size),
         'inttoptr': lambda ex, a, ty: ex.conv(a, 'p', 8), 'bitcast': _bitcast,
         'addrspacecast': lambda ex, a, ty: a}


# ------------------------------------------------------------------ spec intrinsics (vc.h)

def hook(name):
    def deco(f):
        Exec.HOOK[name] = f
        return f
    return deco


def _freshname(ex, st, p):
    n = ex.cstr(st, p)
    k = ex.symcount.get(n, 0)
    ex.symcount[n] = k + 1
    return n if k == 0 else '%s#%d' % (n, k)


def _mkinput(sort):
    def h(ex, st, name, args, rty):
        n = _freshname(ex, st, args[0])
        if len(args) > 1:
            ix = args[1]
            if ix.op != 'c':
                raise ToolError('vc input index must be concrete')
            n = '%s[%d]' % (n, ix.val)
        t = sym(n, 8 if sort == 'B8' else sort)
        if ex.nexthint is not None:
            if ex.hints.get(n) != ex.nexthint:
                ex.hints = dict(ex.hints)
                ex.hints[n] = ex.nexthint
            ex.nexthint = None
        ex.inputs.append((n, sort))
        return st, t
    return h


for _n, _s in (('vc_f32', 'f'), ('vc_f64', 'd'), ('vc_u8', 8), ('vc_u16', 16), ('vc_u32', 32), ('vc_u64', 64),
               ('vc_bool', 'B')):
    Exec.HOOK[_n] = _mkinput(_s)
    Exec.HOOK[_n + '_i'] = Exec.HOOK[_n]


@hook('vc_assume')
def _assume(ex, st, name, args, rty):
    c = args[0]
    ex.assumes += 1
    k = st.pc.known(c)
    if k is False:
        return None
    st.pc = st.pc.add(c)
    return st, None


@hook('vc_assert')
def _assert(ex, st, name, args, rty):
    ex.obligation(st, args[0], ex.cstr(st, args[1]), 'ensures')
    return st, None


@hook('vc_lemma')
def _lemma(ex, st, name, args, rty):
    """assert, then available as a fact"""
    ex.obligation(st, args[0], ex.cstr(st, args[1]), 'ensures')
    st.pc = st.pc.add(args[0])
    return st, None


@hook('vc_cover')
def _cover(ex, st, name, args, rty):
    ex.covers.append((ex.cstr(st, args[0]), st.pc, ex.proof))
    return st, None


@hook('vc_note')
def _note(ex, st, name, args, rty):
    ex.notes = getattr(ex, 'notes', [])
    ex.notes.append(ex.cstr(st, args[0]))
    return st, None


@hook('vc_havoc')
def _havoc(ex, st, name, args, rty):
    p, n, nm = args
    nm = _freshname(ex, st, nm)
    al = [(c, q) for c, q in ex.alts(p) if st.pc.known(c) is not False]
    if len(al) != 1 or not isinstance(al[0][1].off, int) or n.op != 'c':
        raise ToolError('vc_havoc needs a concrete address')
    q = al[0][1]
    n = n.val
    off = q.off
    src = ex.havocs.get(nm)
    if src is None:
        src = SymSource(nm)
        ex.havocs[nm] = src
    o = ex.wobj(st, q.obj)
    for k in [k for k in o.cells if off <= k < off + n and isinstance(o.cells[k], T)]:
        del o.cells[k]
    if off + n > ex.objs[q.obj].size or off < 0:
        raise ToolError('vc_havoc outside object')
    ex.setregions(o, off, n, [(off, off + n, src, -off)])
    ex.inputs.append((nm, ('havoc', n)))
    return st, None


@hook('vc_array')
def _array(ex, st, name, args, rty):
    p, n, es, lay, nm = args
    if type(p) is not Ptr or p.off != 0:
        raise ToolError('vc_array needs the start of an object')
    nm = _freshname(ex, st, nm)
    m = ex.objs[p.obj]
    layout = []
    for w in ex.cstr(st, lay).split():
        layout.append(({'Q': 64, 'I': 32, 'H': 16, 'B': 8, 'f': 'f', 'd': 'd'}[w[0]], int(w[1:])))
    m.arr = (es.val, n, layout)
    o = OState(m.size, st.tok, m.id)
    st.mem[p.obj] = o
    for so, off in layout:
        size = 4 if so == 'f' else 8 if so == 'd' else so // 8
        o.cells[off] = mk('sym', ('A', 64, so, size), (), '%s.%d' % (nm, off))
    return st, None


_declared = {}


def still_declared(callee):
    import os
    import re
    from . import run
    name = re.sub(r'<.*>', '', callee).split('::')[-1]
    if name not in _declared:
        _declared[name] = False
        for d, ds, fs in os.walk(run.REPO):
            ds[:] = [x for x in ds if not x.startswith(('.', '_build', 'build', 'test'))]
            for f in fs:
                if f.endswith(('.h', '.hpp')) and re.search(r'\b%s\s*\(' % re.escape(name), open(os.path.join(d, f), errors='replace').read()):
                    _declared[name] = True
    return _declared[name]


@hook('vc_replace_')
def _replace(ex, st, name, args, rty):
    callee = ex.cstr(st, args[0])
    stub = ex.fnptr(st, args[1])
    names = ex.dem().get(callee)
    if not names and still_declared(callee):
        return st, None     # nothing calls this inline function any more, so it is not even emitted
    if not names:
        raise ToolError('vc_replace: no function %s in the code (contract has nothing to attach to)' % callee)
    for n in names:
        ex.replaced[n] = stub
    return st, None


@hook('vc_loop_')
def _loop(ex, st, name, args, rty):
    callee = ex.cstr(st, args[0])
    inv = ex.fnptr(st, args[1])
    label = ex.cstr(st, args[2])
    names = ['*'] if callee == '*' else ex.dem().get(callee)
    if not names:
        raise ToolError('vc_loop: no function %s in the code' % callee)
    for n in names:
        c = ex.loopinv.setdefault(n, {'invs': [], 'vars': [], 'cands': []})
        if label.startswith('?'):
            c['cands'].append((inv, label[1:]))
        elif label:
            c['invs'].append((inv, label))
        else:
            c['vars'].append(inv)
    return st, None


@hook('vc_push')
def _push(ex, st, name, args, rty):
    """open a scope: everything assumed or changed until the matching vc_pop is forgotten there"""
    ex.scopes.append((st.fork(st.pc), dict(ex.symcount)))
    del ex.scopepath[len(ex.scopes):]
    ex.scopepath[-1] += 1
    ex.scopepath.append(0)
    return st, TRUE


@hook('vc_pop')
def _pop(ex, st, name, args, rty):
    ex.covers.append(('end of scope', st.pc, ex.proof))
    s2, ex.symcount = ex.scopes.pop()
    del ex.scopepath[len(ex.scopes) + 1:]
    return s2, None


@hook('vc_prune')
def _prune(ex, st, name, args, rty):
    v = args[0]
    ex.prune = v is TRUE
    return st, None


from . import terms as T_


@hook('vc_mode')
def _mode(ex, st, name, args, rty):
    ex.mode = ex.cstr(st, args[0]) or None
    T_.REALFOLD[0] = ex.mode in ('real', 'lin', 'poly', 'nra')
    return st, None


@hook('vc_tol')
def _tol(ex, st, name, args, rty):
    ex.tolerance = (fval(args[0]), fval(args[1]))
    return st, None


@hook('vc_uf_f32')
def _uf(ex, st, name, args, rty):
    return st, fn('u_' + ex.cstr(st, args[0]), 'f', *args[1:])


@hook('vc_same')
def _same(ex, st, name, args, rty):
    return st, eq(args[0], args[1])


@hook('vc_same64')
def _same64(ex, st, name, args, rty):
    return st, eq(args[0], args[1])


@hook('vc_implies')
def _implies(ex, st, name, args, rty):
    return st, Implies(args[0], args[1])


@hook('vc_and')
def _hand(ex, st, name, args, rty):
    return st, And(args[0], args[1])


@hook('vc_or')
def _hor(ex, st, name, args, rty):
    return st, Or(args[0], args[1])


@hook('vc_hint')
def _hint(ex, st, name, args, rty):
    try:
        ex.nexthint = (fval(args[0]), fval(args[1]))
    except Exception:
        ex.nexthint = None
    return st, None


@hook('vc_eq')
def _veq(ex, st, name, args, rty):
    return st, feq(args[0], args[1])


@hook('vc_eq64')
def _veq64(ex, st, name, args, rty):
    return st, feq(args[0], args[1])


@hook('vc_le')
def _vle(ex, st, name, args, rty):
    return st, fle(args[0], args[1])


@hook('vc_traps')
def _traps(ex, st, name, args, rty):
    ex.notrap = not (args[0] is TRUE)
    return st, None


@hook('vc_is_native')
def _isnative(ex, st, name, args, rty):
    return st, FALSE
