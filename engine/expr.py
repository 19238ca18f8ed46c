"""Value expressions (hash-consed) and the multi-interval value-set domain."""

LIM = 40      # intervals kept per set for wide types


class E:
    __slots__ = ('op', 'a', 'bits', 'terms', 'depth', 'id', 'hint', 'nest', '__weakref__')

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def _nest(a):
    n = 0
    for x in a:
        if isinstance(x, E):
            if x.nest > n: n = x.nest
        elif isinstance(x, tuple):
            m = _nest(x)
            if m > n: n = m
    return n


def mk(op, a, bits, terms, depth):
    k = (op, a, bits)
    e = _tab.get(k)
    if e is None:
        e = E()
        e.op = op; e.a = a; e.bits = bits; e.terms = terms; e.depth = depth; e.hint = None
        e.nest = _nest(a)
        _n[0] += 1
        e.id = _n[0]
        _tab[k] = e
    return e


NOT = frozenset()


def const(v, bits):
    return mk('c', (v & ((1 << bits) - 1),), bits, NOT, 0)


NULL = const(0, 64)
TRUE = const(1, 1)
FALSE = const(0, 1)


def term(key, bits):
    k = ('t', (key,), bits)
    e = _tab.get(k)
    if e is None:
        e = E()
        e.op = 't'; e.a = (key,); e.bits = bits; e.depth = 1; e.hint = None
        e.nest = 1 + _nest(key)
        _n[0] += 1
        e.id = _n[0]
        e.terms = frozenset((e,))
        _tab[k] = e
    return e


def alloca(key):
    return mk('al', (key,), 64, NOT, 0)


def glob(name):
    return mk('gl', (name,), 64, NOT, 0)


def func(name):
    return mk('fn', (name,), 64, NOT, 0)


def is_c(e):
    return e.op == 'c'


def cval(e):
    return e.a[0]


def sval(e):
    v = e.a[0]
    return v - (1 << e.bits) if v >> (e.bits - 1) else v


def addr(base, off, idx=(), hint=None):
    """pointer `base + off + sum(i*size)`; base is never itself an addr"""
    if base.op == 'addr':
        b, o, ix = base.a
        off += o
        idx = tuple(sorted(ix + tuple(idx), key=lambda p: (p[0].id, p[1])))
        base = b
    if base.op == 'c' and not idx:
        return const(cval(base) + off, 64)
    m = []
    for i, s in idx:
        if i.op == 'c':
            off += sval(i) * s
        else:
            # pull constants out of sign/zero-extended sums:  p + (x + c)*s
            if i.op == 'op' and i.a[0] == 'add' and i.a[2].op == 'c' and i.bits == 64:
                off += sval(i.a[2]) * s
                i = i.a[1]
            m.append((i, s))
    idx = tuple(m)
    if off == 0 and not idx:
        if hint is None:
            return base
    d = base.depth + 1
    t = base.terms
    for i, _ in idx:
        t = t | i.terms
        d = max(d, i.depth + 1)
    e = mk('addr', (base, off, idx), 64, t, d)
    if hint is not None and e.hint is None:
        e.hint = hint
    return e


COMM = {'add', 'mul', 'and', 'or', 'xor'}


def binop(op, a, b, bits):
    M = (1 << bits) - 1
    if a.op == 'c' and b.op == 'c':
        r = fold(op, cval(a), cval(b), bits)
        if r is not None:
            return const(r, bits)
    if op in COMM and a.op == 'c':
        a, b = b, a
    if op == 'sub' and b.op == 'c':
        op = 'add'; b = const(-cval(b), bits)
    if b.op == 'c':
        v = cval(b)
        if op == 'add':
            if v == 0: return a
            if a.op == 'op' and a.a[0] == 'add' and a.a[2].op == 'c':
                return binop('add', a.a[1], const(v + cval(a.a[2]), bits), bits)
        elif op == 'and':
            if v == 0: return const(0, bits)
            if v == M: return a
            if a.op == 'op' and a.a[0] == 'and' and a.a[2].op == 'c':
                return binop('and', a.a[1], const(v & cval(a.a[2]), bits), bits)
            if a.op == 'op' and a.a[0] == 'or' and a.a[2].op == 'c':
                c = cval(a.a[2])
                if v & ~c == 0: return const(v, bits)
                if v & c == 0: return binop('and', a.a[1], b, bits)
            if a.op == 'zext' and v & ((1 << a.a[0].bits) - 1) == (1 << a.a[0].bits) - 1:
                return a
        elif op == 'or':
            if v == 0: return a
            if v == M: return const(M, bits)
            if a.op == 'op' and a.a[0] == 'or' and a.a[2].op == 'c':
                return binop('or', a.a[1], const(v | cval(a.a[2]), bits), bits)
        elif op == 'xor':
            if v == 0: return a
            if bits == 1:
                return lnot(a)
        elif op == 'mul':
            if v == 1: return a
            if v == 0: return const(0, bits)
        elif op in ('shl', 'lshr', 'ashr'):
            if v == 0: return a
            if op == 'ashr' and a.op == 'zext': op = 'lshr'
            if op == 'lshr' and a.op == 'op' and a.a[0] == 'lshr' and a.a[2].op == 'c':
                v += cval(a.a[2])
                return binop('lshr', a.a[1], const(v, bits), bits) if v < bits else const(0, bits)
        elif op in ('udiv', 'sdiv'):
            if v == 1: return a
    elif op == 'sub' and a is b:
        return const(0, bits)
    elif op in COMM and a.id > b.id:
        a, b = b, a
    return mk('op', (op, a, b), bits, a.terms | b.terms, max(a.depth, b.depth) + 1)


def sx(v, bits):
    return v - (1 << bits) if v >> (bits - 1) else v


def fold(op, x, y, bits):
    M = (1 << bits) - 1
    if op == 'add': return (x + y) & M
    if op == 'sub': return (x - y) & M
    if op == 'mul': return (x * y) & M
    if op == 'and': return x & y
    if op == 'or': return x | y
    if op == 'xor': return x ^ y
    if op == 'shl': return (x << y) & M if y < bits else 0
    if op == 'lshr': return x >> y if y < bits else 0
    if op == 'ashr': return (sx(x, bits) >> min(y, bits - 1)) & M
    if op == 'udiv': return x // y if y else None
    if op == 'urem': return x % y if y else None
    if op == 'sdiv':
        if not y: return None
        a, b = sx(x, bits), sx(y, bits)
        q = abs(a) // abs(b)
        return (q if (a < 0) == (b < 0) else -q) & M
    if op == 'srem':
        if not y: return None
        a, b = sx(x, bits), sx(y, bits)
        r = abs(a) % abs(b)
        return (r if a >= 0 else -r) & M
    return None


def cast(op, a, fb, tb):
    if op in ('bitcast', 'ptrtoint', 'inttoptr') or fb == tb:
        if fb == tb or a.bits == tb:
            return a
        op = 'zext' if tb > fb else 'trunc'
    if a.op == 'c':
        v = cval(a)
        if op == 'sext': v = sx(v, fb)
        return const(v, tb)
    if op == 'trunc':
        if a.op in ('zext', 'sext'):
            x = a.a[0]
            if x.bits == tb: return x
            if x.bits < tb: return cast(a.op, x, x.bits, tb)
            return cast('trunc', x, x.bits, tb)
        if a.op == 'trunc':
            return cast('trunc', a.a[0], a.a[0].bits, tb)
        if a.op == 'op' and a.a[0] in ('and', 'or', 'xor', 'add', 'mul') and a.a[2].op == 'c':
            return binop(a.a[0], cast('trunc', a.a[1], fb, tb), const(cval(a.a[2]), tb), tb)
        if a.op == 'op' and a.a[0] == 'lshr' and a.a[2].op == 'c' and a.a[1].op == 'zext' and a.a[1].a[0].bits == tb:
            v = cval(a.a[2])
            return binop('lshr', a.a[1].a[0], const(v, tb), tb) if v < tb else const(0, tb)
    if op == 'zext' and a.op == 'zext':
        return cast('zext', a.a[0], a.a[0].bits, tb)
    if op == 'sext':
        if a.op == 'zext':
            return cast('zext', a.a[0], a.a[0].bits, tb)
        if a.op == 'sext':
            return cast('sext', a.a[0], a.a[0].bits, tb)
    if op not in ('zext', 'sext', 'trunc'):
        return mk('cv', (op, a), tb, a.terms, a.depth + 1)
    return mk(op, (a,), tb, a.terms, a.depth + 1)


NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
SWP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}


def cmpc(pred, x, y, bits):
    if pred == 'eq': return x == y
    if pred == 'ne': return x != y
    if pred[0] == 's':
        x, y = sx(x, bits), sx(y, bits)
    p = pred[1:]
    if p == 'lt': return x < y
    if p == 'le': return x <= y
    if p == 'gt': return x > y
    return x >= y


def lnot(a):
    if a.op == 'icmp':
        return icmp(NEG[a.a[0]], a.a[1], a.a[2])
    if a.op == 'c':
        return const(1 - cval(a), 1)
    if a.op == 'op' and a.a[0] == 'xor' and a.a[2] is TRUE:
        return a.a[1]
    return mk('op', ('xor', a, TRUE), 1, a.terms, a.depth + 1)


def nonnull_syn(e):
    return e.op in ('al', 'gl', 'fn') or (e.op == 'addr' and e.a[0].op in ('al', 'gl', 'fn'))


def icmp(pred, a, b):
    bits = a.bits
    if a.op == 'c' and b.op == 'c':
        return const(1 if cmpc(pred, cval(a), cval(b), bits) else 0, 1)
    if a.op == 'c':
        a, b, pred = b, a, SWP[pred]
    if a is b:
        return const(1 if pred in ('eq', 'ule', 'uge', 'sle', 'sge') else 0, 1)
    if b.op == 'c':
        v = cval(b)
        if pred in ('eq', 'ne'):
            # boolean results widened to int and compared with 0/1
            if a.op in ('zext', 'sext') and a.a[0].bits == 1:
                t = v != 0
                return a.a[0] if (pred == 'eq') == t else lnot(a.a[0])
            if a.bits == 1:
                return a if (pred == 'eq') == bool(v) else lnot(a)
            if v == 0 and nonnull_syn(a):
                return const(0 if pred == 'eq' else 1, 1)
            if a.op == 'zext' and v < (1 << a.a[0].bits):
                return icmp(pred, a.a[0], const(v, a.a[0].bits))
        if a.op == 'zext' and pred[0] in 'us' and pred not in ('eq', 'ne'):
            x = a.a[0]
            if v < (1 << x.bits):
                return icmp('u' + pred[1:], x, const(v, x.bits))
    else:
        if pred in ('eq', 'ne'):
            if a.id > b.id:
                a, b = b, a
            if nonnull_syn(a) and nonnull_syn(b) and root(a) is not root(b):
                return const(0 if pred == 'eq' else 1, 1)
        if a.op == 'zext' and b.op == 'zext' and a.a[0].bits == b.a[0].bits:
            p = pred if pred in ('eq', 'ne') else 'u' + pred[1:]
            return icmp(p, a.a[0], b.a[0])
        if a.op == 'sext' and b.op == 'sext' and a.a[0].bits == b.a[0].bits:
            return icmp(pred, a.a[0], b.a[0])
    return mk('icmp', (pred, a, b), 1, a.terms | b.terms, max(a.depth, b.depth) + 1)


def root(e):
    while e.op == 'addr':
        e = e.a[0]
    return e


def subst(e, m):
    """replace terms"""
    if e in m:
        return m[e]
    if not e.terms or not any(t in m for t in e.terms):
        return e
    if e.op == 'op':
        return binop(e.a[0], subst(e.a[1], m), subst(e.a[2], m), e.bits)
    if e.op in ('zext', 'sext', 'trunc'):
        x = subst(e.a[0], m)
        return cast(e.op, x, x.bits, e.bits)
    if e.op == 'icmp':
        return icmp(e.a[0], subst(e.a[1], m), subst(e.a[2], m))
    if e.op == 'addr':
        return addr(subst(e.a[0], m), e.a[1], tuple((subst(i, m), s) for i, s in e.a[2]), e.hint)
    return e


def conc(e, t, v):
    """concrete value of e with its only term t = v, or None"""
    if e is t: return v
    op = e.op
    if op == 'c': return e.a[0]
    if op == 'op':
        x = conc(e.a[1], t, v)
        if x is None: return None
        y = conc(e.a[2], t, v)
        if y is None: return None
        return fold(e.a[0], x, y, e.bits)
    if op == 'zext': return conc(e.a[0], t, v)
    if op == 'sext':
        x = conc(e.a[0], t, v)
        return None if x is None else sx(x, e.a[0].bits) & ((1 << e.bits) - 1)
    if op == 'trunc':
        x = conc(e.a[0], t, v)
        return None if x is None else x & ((1 << e.bits) - 1)
    if op == 'icmp':
        x = conc(e.a[1], t, v); y = conc(e.a[2], t, v)
        if x is None or y is None: return None
        return 1 if cmpc(e.a[0], x, y, e.a[1].bits) else 0
    return None


def show(e, d=0):
    if d > 6: return '...'
    op = e.op
    if op == 'c': return str(sval(e)) if e.bits > 1 else str(e.a[0])
    if op == 't': return 't%d<%s>' % (e.id, keystr(e.a[0]))
    if op == 'al': return '&local:%s' % (e.a[0],)
    if op == 'gl': return '@' + str(e.a[0])
    if op == 'fn': return 'fn:' + str(e.a[0])
    if op == 'addr':
        return '(%s+%d%s%s)' % (show(e.a[0], d + 1), e.a[1], ''.join('+%s*%d' % (show(i, d + 1), s) for i, s in e.a[2]), (':' + '.'.join(e.hint)) if e.hint else '')
    if op == 'op': return '(%s %s %s)' % (show(e.a[1], d + 1), e.a[0], show(e.a[2], d + 1))
    if op == 'icmp': return '(%s %s %s)' % (show(e.a[1], d + 1), e.a[0], show(e.a[2], d + 1))
    if op in ('zext', 'sext', 'trunc'): return '%s(%s)' % (op, show(e.a[0], d + 1))
    return op


def keystr(k):
    if isinstance(k, tuple):
        return ','.join(keystr(x) for x in k)
    if isinstance(k, E):
        return show(k, 3)
    return str(k)


# ---------------------------------------------------------------- sets
# A set is a tuple of disjoint ascending (lo,hi) unsigned intervals.

def full(bits):
    return ((0, (1 << bits) - 1),)


def single(v):
    return ((v, v),)


def norm(l, lim=LIM):
    l = sorted(l)
    o = []
    for a, b in l:
        if o and a <= o[-1][1] + 1:
            if b > o[-1][1]:
                o[-1] = (o[-1][0], b)
        else:
            o.append((a, b))
    while len(o) > lim:
        # merge the closest pair
        k = min(range(len(o) - 1), key=lambda i: o[i + 1][0] - o[i][1])
        o[k:k + 2] = [(o[k][0], o[k + 1][1])]
    return tuple(o)


def lim_for(bits):
    return 256 if bits <= 8 else LIM


def inter(x, y):
    if x is y: return x
    o = []
    i = j = 0
    while i < len(x) and j < len(y):
        a = max(x[i][0], y[j][0]); b = min(x[i][1], y[j][1])
        if a <= b: o.append((a, b))
        if x[i][1] < y[j][1]: i += 1
        else: j += 1
    return tuple(o)


def union(x, y, bits):
    if x == y: return x
    return norm(list(x) + list(y), lim_for(bits))


def compl(x, bits):
    o = []; p = 0; M = (1 << bits) - 1
    for a, b in x:
        if a > p: o.append((p, a - 1))
        p = b + 1
    if p <= M: o.append((p, M))
    return tuple(o)


def size(x):
    return sum(b - a + 1 for a, b in x)


def has(x, v):
    return any(a <= v <= b for a, b in x)


def subset(x, y):
    return inter(x, y) == x


def elems(x):
    for a, b in x:
        yield from range(a, b + 1)


def fromvals(vs, bits):
    return norm([(v, v) for v in vs], lim_for(bits))


def shift(x, c, bits):
    """x + c mod 2^bits"""
    N = 1 << bits
    o = []
    for a, b in x:
        if b - a + 1 >= N: return full(bits)
        a2, b2 = (a + c) % N, (b + c) % N
        if a2 <= b2: o.append((a2, b2))
        else:
            o.append((a2, N - 1)); o.append((0, b2))
    return norm(o, lim_for(bits))


def predset(pred, c, bits):
    """{x : x pred c}"""
    M = (1 << bits) - 1; H = 1 << (bits - 1)
    if pred == 'eq': return single(c)
    if pred == 'ne': return compl(single(c), bits)
    if pred == 'ult': return ((0, c - 1),) if c else ()
    if pred == 'ule': return ((0, c),)
    if pred == 'ugt': return ((c + 1, M),) if c < M else ()
    if pred == 'uge': return ((c, M),)
    # signed: map to biased
    s = sx(c, bits)
    lo, hi = -H, H - 1
    if pred == 'slt': hi = s - 1
    elif pred == 'sle': hi = s
    elif pred == 'sgt': lo = s + 1
    elif pred == 'sge': lo = s
    if lo > hi: return ()
    return signed_range(lo, hi, bits)


def signed_range(lo, hi, bits):
    N = 1 << bits
    if lo >= 0: return ((lo, hi),)
    if hi < 0: return ((lo + N, hi + N),)
    return norm([(0, hi), (lo + N, N - 1)])


def smin(x, bits):
    H = 1 << (bits - 1)
    neg = [a for a, b in x if b >= H]
    if neg:
        return min(max(a, H) for a, b in x if b >= H) - (1 << bits)
    return x[0][0]


def smax(x, bits):
    H = 1 << (bits - 1)
    pos = [min(b, H - 1) for a, b in x if a < H]
    if pos: return max(pos)
    return x[-1][1] - (1 << bits)
