"""Array reads taken out of an obligation: reads over writes become conditionals, reads of the initial contents become
symbols that agree where their indices agree (Ackermann).  Equivalent to the obligation with arrays."""
from .terms import REBUILD, collect, eq, ite, mk, sym, FALSE, TRUE


def has(terms):
    return any(t.op == 'select' for t in collect(terms))


def without(terms):
    """-> (terms, [(array name, index term, symbol)])"""
    cache = {}
    base = {}
    reads = []

    def read(arr, idx):
        if arr.op == 'store':
            a, j, v = arr.args
            c = eq(walk(j), idx)
            if c is TRUE:
                return walk(v)
            if c is FALSE:
                return read(a, idx)
            return ite(c, walk(v), read(a, idx))
        if arr.op == 'ite':
            c = walk(arr.args[0])
            if c is TRUE:
                return read(arr.args[1], idx)
            if c is FALSE:
                return read(arr.args[2], idx)
            return ite(c, read(arr.args[1], idx), read(arr.args[2], idx))
        if arr.op != 'sym':
            raise NotImplementedError(arr.op)
        known = base.setdefault(arr.id, {})
        if idx.id in known:
            return known[idx.id][2]
        s = sym('%s@%d' % (arr.val, len(known)), arr.sort[2])
        r = s
        for i2, s2, _ in reversed(list(known.values())):
            c = eq(i2, idx)
            if c is not FALSE:
                r = ite(c, s2, r)
        known[idx.id] = (idx, s, r)
        reads.append((arr.val, idx, s))
        return r

    def walk(root):
        for t in collect([root]):
            if t.id in cache or type(t.sort) is tuple:
                continue
            if t.op == 'select':
                cache[t.id] = None
                cache[t.id] = read(t.args[0], walk(t.args[1]))
            elif not t.args:
                cache[t.id] = t
            else:
                a = tuple(cache[x.id] for x in t.args)
                if all(x is y for x, y in zip(a, t.args)):
                    cache[t.id] = t
                else:
                    f = REBUILD.get(t.op)
                    cache[t.id] = f(t, a) if f else mk(t.op, t.sort, a, t.val)
        return cache[root.id]
    return [walk(t) for t in terms], reads


def cells(model, reads):
    """a model of the obligation without arrays -> one with the cells read"""
    from . import numeval
    if not model:
        return model
    out = dict(model)
    env = {k: v[1] for k, v in model.items()}
    for name, idx, s in reads:
        try:
            for t in collect([idx]):
                if t.op == 'sym':
                    env.setdefault(t.val, 0)
            i = numeval.evaluate(collect([idx]), env)[idx.id]
            if s.val in model and '%s[%d]' % (name, i) not in out:
                out['%s[%d]' % (name, i)] = model[s.val]
        except Exception:
            pass
    return out
