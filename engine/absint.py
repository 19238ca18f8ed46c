"""Disjunctive abstract interpreter over the IR.

Forward dataflow over each function's CFG. An abstract state holds symbolic
names for SSA values and memory cells, value sets (unions of intervals) for
those names and order facts between them. States meeting at a block are joined
unless they differ in the rule's automaton state or in what is known (constant,
zero, non-zero) about values later branches depend on: those stay separate
(property simulation). Loops run to a fixpoint with widening."""
import heapq, time
from . import expr as X
from .expr import E, const, term, NULL, TRUE, FALSE, addr, binop, cast, icmp, is_c, cval, full, inter, union, compl
from .ir import callee_name, Fn

MAXNEST = 7
MAXP = 40        # partitions per block before coarsening
WIDEN = 4        # joins on one partition before widening


class State:
    __slots__ = ('env', 'mem', 'facts', 'rel', 'q', 'trace', 'gcl')

    def __init__(self):
        self.env = {}
        self.mem = {}
        self.facts = {}
        self.rel = {}
        self.q = None
        self.trace = ()
        self.gcl = 48

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env); s.mem = dict(self.mem); s.facts = dict(self.facts); s.rel = dict(self.rel)
        s.q = self.q; s.trace = self.trace; s.gcl = self.gcl
        return s


# ------------------------------------------------------------- value sets

def ev(s, e, d=0):
    """IntervalSet of expression e in state s"""
    op = e.op
    if op == 'c':
        return ((e.a[0], e.a[0]),)
    f = s.facts.get(e)
    if f is not None and (X.size(f) == 1 or op == 't'):
        return f
    if op == 't':
        return full(e.bits)
    if op in ('al', 'gl', 'fn'):
        return ((1, (1 << 64) - 1),)
    r = None
    if d < 12:
        if op == 'op':
            r = ev_op(s, e, d)
        elif op == 'zext':
            r = ev(s, e.a[0], d + 1)
        elif op == 'sext':
            x = e.a[0]
            v = ev(s, x, d + 1)
            H = 1 << (x.bits - 1)
            o = []
            off = (1 << e.bits) - (1 << x.bits)
            for a, b in v:
                if b < H: o.append((a, b))
                elif a >= H: o.append((a + off, b + off))
                else:
                    o.append((a, H - 1)); o.append((H + off, b + off))
            r = X.norm(o, X.lim_for(e.bits))
        elif op == 'trunc':
            v = ev(s, e.a[0], d + 1)
            N = 1 << e.bits
            o = []
            for a, b in v:
                if b - a + 1 >= N:
                    o = [(0, N - 1)]
                    break
                a2, b2 = a % N, b % N
                if a2 <= b2: o.append((a2, b2))
                else:
                    o.append((0, b2)); o.append((a2, N - 1))
            r = X.norm(o, X.lim_for(e.bits))
        elif op == 'icmp':
            r = ev_icmp(s, e, d)
        elif op == 'addr':
            b = ev(s, e.a[0], d + 1)
            if not X.has(b, 0):
                r = ((1, (1 << 64) - 1),)
            elif e.a[1] == 0 and not e.a[2]:
                r = b
    if r is None:
        r = full(e.bits)
    # enumerate single small term
    if op in ('op', 'trunc', 'icmp', 'sext') and len(e.terms) == 1 and X.size(r) > 1:
        t = next(iter(e.terms))
        ts = ev(s, t)
        n = X.size(ts)
        if n <= 256:
            vs = set()
            for v in X.elems(ts):
                c = X.conc(e, t, v)
                if c is None:
                    vs = None
                    break
                vs.add(c)
            if vs is not None:
                r = inter(r, X.fromvals(vs, e.bits))
    if f is not None:
        r = inter(r, f)
    return r


def ev_op(s, e, d):
    o, a, b = e.a
    bits = e.bits
    M = (1 << bits) - 1
    A = ev(s, a, d + 1); B = ev(s, b, d + 1)
    if not A or not B:
        return ()
    if o == 'add':
        if b.op == 'c':
            return X.shift(A, cval(b), bits)
        lo, hi = A[0][0] + B[0][0], A[-1][1] + B[-1][1]
        if hi <= M: return ((lo, hi),)
        lo, hi = X.smin(A, bits) + X.smin(B, bits), X.smax(A, bits) + X.smax(B, bits)
        H = 1 << (bits - 1)
        if -H <= lo and hi < H: return X.signed_range(lo, hi, bits)
        return None
    if o == 'sub':
        lo, hi = A[0][0] - B[-1][1], A[-1][1] - B[0][0]
        if lo >= 0: return ((lo, hi),)
        r = relget(s, a, b)
        if r is not None and 'lu' not in r:
            # a >= b unsigned
            return ((max(lo, 0) + (1 if 'eq' not in r else 0), max(hi, 1)),) if hi >= 0 else None
        lo, hi = X.smin(A, bits) - X.smax(B, bits), X.smax(A, bits) - X.smin(B, bits)
        H = 1 << (bits - 1)
        if -H <= lo and hi < H: return X.signed_range(lo, hi, bits)
        return None
    if o == 'and':
        if b.op == 'c':
            m = cval(b)
            hi = min(m, A[-1][1]) if m & (m + 1) == 0 else m
            if m & (m + 1) == 0 and A[-1][1] <= m: return A
            if m & (m - 1) == 0:
                return ((0, 0), (m, m))
            return ((0, hi),)
        return ((0, min(A[-1][1], B[-1][1])),)
    if o == 'or':
        lo = max(A[0][0], B[0][0])
        hi = (1 << max(A[-1][1].bit_length(), B[-1][1].bit_length())) - 1
        return ((lo, max(lo, min(hi, M))),)
    if o == 'xor':
        hi = (1 << max(A[-1][1].bit_length(), B[-1][1].bit_length())) - 1
        return ((0, min(hi, M)),)
    if o == 'mul':
        lo, hi = A[0][0] * B[0][0], A[-1][1] * B[-1][1]
        if hi <= M: return ((lo, hi),)
        return None
    if o == 'shl' and b.op == 'c':
        k = cval(b)
        if (A[-1][1] << k) <= M: return ((A[0][0] << k, A[-1][1] << k),)
        return None
    if o == 'lshr':
        if b.op == 'c':
            k = cval(b)
            return X.norm([(x >> k, y >> k) for x, y in A], X.lim_for(bits))
        return ((0, A[-1][1]),)
    if o == 'ashr' and b.op == 'c':
        H = 1 << (bits - 1)
        if A[-1][1] < H:
            k = cval(b)
            return X.norm([(x >> k, y >> k) for x, y in A], X.lim_for(bits))
        return None
    if o == 'udiv':
        if B[0][0] > 0: return ((A[0][0] // B[-1][1], A[-1][1] // B[0][0]),)
        return ((0, A[-1][1]),)
    if o == 'urem':
        if B[0][0] > 0: return ((0, min(A[-1][1], B[-1][1] - 1)),)
        return ((0, A[-1][1]),)
    return None


RELS = {'eq': {'eq'}, 'ne': {'lu', 'gu'}, 'ult': {'lu'}, 'ugt': {'gu'}, 'ule': {'lu', 'eq'}, 'uge': {'gu', 'eq'}}
ALLR = frozenset(('lu', 'eq', 'gu'))


def relget(s, a, b):
    r = s.rel.get((a, b))
    if r is not None: return r
    r = s.rel.get((b, a))
    if r is not None:
        return frozenset({'lu': 'gu', 'gu': 'lu', 'eq': 'eq'}[x] for x in r)
    return None


def ev_icmp(s, e, d):
    p, a, b = e.a
    A = ev(s, a, d + 1); B = ev(s, b, d + 1)
    if not A or not B: return ()
    bits = a.bits
    t = f = True
    if p in ('eq', 'ne'):
        if not inter(A, B): t = False
        elif X.size(A) == 1 and A == B: f = False
        if p == 'ne': t, f = f, t
    elif p[0] == 'u':
        a0, a1, b0, b1 = A[0][0], A[-1][1], B[0][0], B[-1][1]
        t, f = rng(p[1:], a0, a1, b0, b1)
    else:
        t, f = rng(p[1:], X.smin(A, bits), X.smax(A, bits), X.smin(B, bits), X.smax(B, bits))
    if t and f and (a.op != 'c' and b.op != 'c'):
        r = relget(s, a, b)
        if r is not None:
            if p in RELS:
                y = r & RELS[p]
                if not y: t = False
                elif y == r: f = False
        r2 = s.rel.get(('s', a, b))
        if r2 is not None and p[0] == 's':
            y = r2 & RELS['u' + p[1:]]
            if not y: t = False
            elif y == r2: f = False
    if t and f: return ((0, 1),)
    if t: return ((1, 1),)
    if f: return ((0, 0),)
    return ()


def rng(p, a0, a1, b0, b1):
    if p == 'lt': return a0 < b1, a1 >= b0
    if p == 'le': return a0 <= b1, a1 > b0
    if p == 'gt': return a1 > b0, a0 <= b1
    return a1 >= b0, a0 < b1


def refine(s, e, S, d=0):
    """assume e in S; False if infeasible"""
    cur = ev(s, e)
    new = inter(cur, S)
    if not new: return False
    if new == cur and e.op != 'icmp': return True
    if e.op == 'c': return True
    if e.op == 'icmp':
        if X.size(new) == 1:
            if not assume(s, e, new[0][0] == 1): return False
        return True
    if e.op not in ('al', 'gl', 'fn'):
        s.facts[e] = new
    if d > 8: return True
    op = e.op
    if op == 'op':
        o, a, b = e.a
        if o == 'add' and b.op == 'c':
            if not refine(s, a, X.shift(new, -cval(b), e.bits), d + 1): return False
        elif o == 'xor' and b is TRUE:
            return refine(s, a, tuple(sorted((1 - y, 1 - x) for x, y in new)), d + 1)
        elif o in ('and', 'or') and e.bits == 1:
            if o == 'and' and new == ((1, 1),):
                if not refine(s, a, new, d + 1) or not refine(s, b, new, d + 1): return False
            if o == 'or' and new == ((0, 0),):
                if not refine(s, a, new, d + 1) or not refine(s, b, new, d + 1): return False
        elif o == 'sub' and new == ((0, 0),):
            if not assume(s, icmp('eq', a, b), True): return False
        elif o == 'mul' and b.op == 'c' and not X.has(new, 0):
            if not refine(s, a, ((1, (1 << a.bits) - 1),), d + 1): return False
    elif op == 'zext':
        if not refine(s, e.a[0], inter(new, full(e.a[0].bits)), d + 1): return False
    elif op == 'sext':
        x = e.a[0]
        H = 1 << (x.bits - 1)
        off = (1 << e.bits) - (1 << x.bits)
        o = []
        for a, b in new:
            if a < H: o.append((a, min(b, H - 1)))
            if b >= H + off: o.append((max(a, H + off) - off, b - off))
        o = X.norm(o, X.lim_for(x.bits))
        if not o or not refine(s, x, o, d + 1): return False
    elif op == 'trunc':
        x = e.a[0]
        xs = ev(s, x)
        if xs and xs[-1][1] < (1 << e.bits):
            if not refine(s, x, new, d + 1): return False
    elif op == 'addr':
        if e.a[1] == 0 and not e.a[2]:
            return refine(s, e.a[0], new, d + 1)
    if len(e.terms) == 1 and op in ('op', 'trunc', 'sext', 'zext'):
        t = next(iter(e.terms))
        ts = ev(s, t)
        if X.size(ts) <= 256:
            vs = []
            for v in X.elems(ts):
                c = X.conc(e, t, v)
                if c is None: return True
                if X.has(new, c): vs.append(v)
            if not vs: return False
            s.facts[t] = X.fromvals(vs, t.bits)
    return True


def assume(s, c, truth):
    """refine s with boolean expression c == truth; False if infeasible"""
    if c.op == 'c': return bool(cval(c)) == truth
    if not truth:
        n = X.lnot(c)
        if n.op == 'icmp':
            c = n; truth = True
        else:
            return refine(s, c, ((0, 0),))
    if c.op != 'icmp':
        return refine(s, c, ((1, 1),))
    v = ev_icmp(s, c, 0)
    if not v or v == ((0, 0),): return False
    if v == ((1, 1),): return True
    # enumerate small single-term conditions
    if len(c.terms) == 1:
        t = next(iter(c.terms))
        ts = ev(s, t)
        if X.size(ts) <= 256:
            vs = []
            ok = True
            for x in X.elems(ts):
                k = X.conc(c, t, x)
                if k is None:
                    ok = False
                    break
                if k: vs.append(x)
            if ok:
                if not vs: return False
                s.facts[t] = X.fromvals(vs, t.bits)
                if c.a[1] is t or c.a[1].op == 'c': return True
    p, a, b = c.a
    bits = a.bits
    if b.op == 'c':
        return refine(s, a, X.predset(p, cval(b), bits))
    A = ev(s, a); B = ev(s, b)
    if X.size(B) == 1: return refine(s, a, X.predset(p, B[0][0], bits))
    if X.size(A) == 1: return refine(s, b, X.predset(X.SWP[p], A[0][0], bits))
    if p == 'eq':
        I = inter(A, B)
        if not I or not refine(s, a, I) or not refine(s, b, I): return False
    elif p[0] == 'u':
        M = (1 << bits) - 1
        if p in ('ult', 'ule'):
            k = 1 if p == 'ult' else 0
            hi = B[-1][1] - k
            lo = A[0][0] + k
            if hi < 0 or lo > M: return False
            if not refine(s, a, ((0, hi),)) or not refine(s, b, ((lo, M),)): return False
        elif p in ('ugt', 'uge'):
            k = 1 if p == 'ugt' else 0
            lo = B[0][0] + k
            hi = A[-1][1] - k
            if hi < 0 or lo > M: return False
            if not refine(s, a, ((lo, M),)) or not refine(s, b, ((0, hi),)): return False
    elif p[0] == 's':
        H = 1 << (bits - 1)
        k = 1 if p in ('slt', 'sgt') else 0
        if p in ('slt', 'sle'):
            hi = X.smax(B, bits) - k; lo = X.smin(A, bits) + k
            if hi < -H or lo >= H: return False
            if not refine(s, a, X.signed_range(-H, hi, bits)) or not refine(s, b, X.signed_range(lo, H - 1, bits)): return False
        else:
            lo = X.smin(B, bits) + k; hi = X.smax(A, bits) - k
            if hi < -H or lo >= H: return False
            if not refine(s, a, X.signed_range(lo, H - 1, bits)) or not refine(s, b, X.signed_range(-H, hi, bits)): return False
    if p in RELS:
        old = relget(s, a, b) or ALLR
        new = old & RELS[p]
        if not new: return False
        s.rel.pop((b, a), None)
        s.rel[(a, b)] = frozenset(new)
    else:
        old = s.rel.get(('s', a, b)) or ALLR
        new = old & RELS['u' + p[1:]]
        if not new: return False
        s.rel[('s', a, b)] = frozenset(new)
        s.rel[('s', b, a)] = frozenset({'lu': 'gu', 'gu': 'lu', 'eq': 'eq'}[x] for x in new)
    return True


def cls(s, e):
    """partition class of a value: constant / zero / non-zero / unknown"""
    if e.op == 'c': return ('c', e.a[0])
    if X.nonnull_syn(e): return 'nz'
    v = ev(s, e)
    if not v: return 'bot'
    if X.size(v) == 1: return ('c', v[0][0])
    if not X.has(v, 0): return 'nz'
    return 'T'


# ------------------------------------------------------------- joins

def drop_terms(s, dead):
    """remove every fact that mentions a term of `dead`"""
    if GONE and s.q: s.q = gone_q(s, s.q, dead)
    for k in [k for k in s.facts if k.terms & dead]:
        del s.facts[k]
    for k in [k for k in s.rel if (k[-1].terms | k[-2].terms) & dead]:
        del s.rel[k]


GONE = False  # rules which remember released terms: forget them when the name stands for something new
def gone_q(s, q, dead):
    """entries (term, 'f', line, by, cond): forgotten when the term is renamed; the condition is settled when its term is"""
    o = []
    for e in q:
        if e[1] == 'f':
            if deepterms(e[0]) & dead: continue
            if e[4] and e[4][0].terms & dead:
                v = ev(s, e[4][0])
                if v != ((0, 0),) if e[4][1] == 'z' else X.has(v, 0): continue
                e = e[:4] + (None,)
        elif e[1] == 'h':
            if (deepterms(e[0]) | deepterms(e[5])) & dead: continue
        o.append(e)
    return tuple(o)


_deep = {}


def deepterms(e):
    """terms of e and of the addresses its terms are named after"""
    r = _deep.get(e)
    if r is None:
        o = set(e.terms)
        for t in e.terms:
            todo = [t.a]
            while todo:
                for x in todo.pop():
                    if isinstance(x, tuple): todo.append(x)
                    elif isinstance(x, E): o |= deepterms(x)
        r = _deep[e] = frozenset(o)
    return r


UNDEF = False # rules which follow values nothing has set
def undef(bits, via=None): return term(('undef', bits, via), bits)


def undefs(e):
    for t in e.terms:
        if t.a[0][0] == 'undef': return t
    return None


PHI = {}      # phi term -> what was joined into it


def join(a, b, key, widen=False):
    """-> joined state (new object) ; key names the phi terms"""
    if a is b: return a
    r = State()
    r.q = a.q
    r.trace = a.trace
    r.gcl = a.gcl
    phis = {}

    def jv(x, y, nm):
        if x is y: return x
        k = (x, y)
        t = phis.get(k)
        if t is None:
            t = term(('phi', key, nm), x.bits)
            if (x.hint == 'alloc' and X.has(ev(a, x), 0)) or (y.hint == 'alloc' and X.has(ev(b, y), 0)): t.hint = 'alloc'
            phis[k] = t
            o = PHI.setdefault(t, set())
            if len(o) < 12: o.add(x); o.add(y)
        return t
    for k, x in a.env.items():
        y = b.env.get(k)
        if y is not None:
            r.env[k] = jv(x, y, k)
    for k, x in a.mem.items():
        y = b.mem.get(k)
        if y is None:
            y = init_cell(k, x.bits)
        r.mem[k] = jv(x, y, k)
    for k, y in b.mem.items():
        if k not in a.mem:
            r.mem[k] = jv(init_cell(k, y.bits), y, k)
    newt = set(phis.values())
    if GONE and newt and r.q: r.q = gone_q(a, r.q, newt)
    # facts on the new terms
    fresh = {}
    for (x, y), t in phis.items():
        u = union(ev(a, x), ev(b, y), t.bits)
        if t in fresh:
            u = union(fresh[t], u, t.bits)
        fresh[t] = u
    for k, v in a.facts.items():
        if k.terms & newt: continue
        w = ev(b, k)
        u = union(v, w, k.bits)
        if u != full(k.bits): r.facts[k] = u
    for k, w in b.facts.items():
        if k in a.facts or k.terms & newt: continue
        v = ev(a, k)
        u = union(v, w, k.bits)
        if u != full(k.bits): r.facts[k] = u
    for t, u in fresh.items():
        if widen:
            old = a.facts.get(t)
            if old is None or old != u:
                u = wid(old, u, t.bits)
        if u != full(t.bits): r.facts[t] = u
        else: r.facts.pop(t, None)
    for k, v in a.rel.items():
        if (k[-1].terms | k[-2].terms) & newt: continue
        w = b.rel.get(k)
        if w is not None:
            u = v | w
            if u != ALLR: r.rel[k] = u
        else:
            # may be implied by value sets in b
            if k[0] != 's':
                w = implied(b, k[0], k[1])
                if w is not None and (v | w) != ALLR: r.rel[k] = v | w
    return r


def implied(s, a, b):
    A = ev(s, a); B = ev(s, b)
    if not A or not B: return None
    w = set()
    if A[0][0] < B[-1][1]: w.add('lu')
    if A[-1][1] > B[0][0]: w.add('gu')
    if inter(A, B): w.add('eq')
    return frozenset(w)


def wid(old, new, bits):
    if old is None: return full(bits)
    # keep a zero-exclusion when both have it
    lo = 1 if not X.has(old, 0) and not X.has(new, 0) else 0
    if lo == 0 and new[0][0] == old[0][0] == 0 and new[-1][1] <= old[-1][1]:
        return union(old, new, bits)
    return ((lo, (1 << bits) - 1),)


def gc(s):
    """forget cells and facts nothing can refer to any more"""
    ref = set()
    for e in s.env.values(): ref |= e.terms
    todo = set(s.mem)
    ch = True
    roots = set()
    for t in ref: roots.add(t)
    for x in _flat(s.q): roots |= x.terms
    live = set()
    while ch:
        ch = False
        for k in list(todo):
            r = X.root(k)
            if r.op in ('al', 'gl') or r.op == 't' and (r in roots or r.a[0][0] == 'p'):
                todo.discard(k)
                live.add(k)
                v = s.mem[k]
                n = (k.terms | v.terms) - roots
                if n:
                    roots |= n
                    ch = True
    for k in todo: del s.mem[k]
    for k in [k for k in s.facts if not k.terms <= roots]: del s.facts[k]
    for k in [k for k in s.rel if not (k[-1].terms | k[-2].terms) <= roots]: del s.rel[k]


def _flat(q):
    if isinstance(q, E): yield q
    elif isinstance(q, (tuple, frozenset)):
        for x in q: yield from _flat(x)


def init_cell(k, bits):
    return term(('m0', k), bits)


def same(a, b):
    return a.q == b.q and a.env == b.env and a.mem == b.mem and a.facts == b.facts and a.rel == b.rel


# ------------------------------------------------------------- rule base

class Rule:
    """Subclass per property. q is the automaton state (hashable)."""
    name = 'rule'
    max_depth = 6
    use_rel = True
    force = frozenset()      # functions to inline although inline() says no (context refinement)

    def start(self, fn, s): return ()
    def inline(self, fn, depth, chain): return False
    # return None: default handling; else list of (State, retexpr or None)
    def on_call(self, ip, fr, s, i, name, targets, args): return None
    def post_call(self, ip, fr, s, i, name, targets, args, ret): return None
    def on_load(self, ip, fr, s, i, a, v): pass
    def on_store(self, ip, fr, s, i, a, v): pass
    def on_branch(self, ip, fr, s, i, cond, truth): pass
    def on_default(self, ip, fr, s, i, v): pass   # default of a switch over v
    def on_ret(self, ip, fr, s, i, v): pass       # only outermost frame
    def on_inl_ret(self, ip, fr, s, i, v): pass
    def on_access(self, ip, fr, s, i, a): pass    # pointer operand of load/store
    def extra_key(self, s): return ()
    def keep(self, s, e): return False
    def private(self, s, r, aroots): return False  # object r is known to no one but this function; not reachable by a call with these argument roots


class Frame:
    __slots__ = ('fn', 'ctx', 'depth', 'chain', 'site')

    def __init__(self, fn, ctx, depth, chain, site=None):
        self.fn = fn; self.ctx = ctx; self.depth = depth; self.chain = chain; self.site = site


_relev = {}


def relevance(fn):
    """SSA ids whose zero/constant status later branches or the return depend on"""
    r = _relev.get(fn.key)
    if r is not None: return r
    rel = set()
    ins = fn.ins()
    w = []

    def add(v):
        if isinstance(v, int) and v not in rel:
            rel.add(v); w.append(v)
    for bl in fn.bb:
        for i in bl:
            if i[0] == 'br' and i[3] is not None: add(i[3])
            elif i[0] == 'switch': add(i[3])
            elif i[0] == 'ret' and i[3] is not None: add(i[3])
            elif i[0] == 'select': add(i[3])
            elif i[0] == 'store': add(i[3])
            elif i[0] == 'call':
                for a in i[4]: add(a)
    while w:
        v = w.pop()
        i = ins.get(v)
        if i is None: continue
        if i[0] == 'phi':
            for _, x in i[3]: add(x)
        elif i[0] == 'icmp':
            add(i[4]); add(i[5])
        elif i[0] == 'cast': add(i[4])
        elif i[0] == 'bin': add(i[4]); add(i[5])
        elif i[0] == 'select': add(i[4]); add(i[5])
    # liveness per block
    succ = fn.succ(); nb = len(fn.bb)
    use = [set() for _ in range(nb)]; de = [set() for _ in range(nb)]
    phiu = [set() for _ in range(nb)]
    from .ir import operands, collect_ids
    for b, bl in enumerate(fn.bb):
        for i in bl:
            if i[0] == 'phi':
                for p, x in i[3]:
                    u = {}; collect_ids(x, i, u)
                    phiu[p] |= set(u)
                de[b].add(i[1])
                continue
            u = {}
            for o in operands(i): collect_ids(o, i, u)
            for x in u:
                if x not in de[b]: use[b].add(x)
            de[b].add(i[1])
    live = [set() for _ in range(nb)]
    ch = True
    order = rpo(fn)[::-1]
    while ch:
        ch = False
        for b in order:
            o = set(phiu[b])
            for t in succ[b]: o |= live[t]
            n = use[b] | (o - de[b])
            if n != live[b]:
                live[b] = n; ch = True
    phis = [set(i[1] for i in bl if i[0] == 'phi') for bl in fn.bb]
    addrs = {i[1] for bl in fn.bb for i in bl if i[0] in ('gep', 'alloca')}
    keyed = [(live[b] | phis[b]) & rel - addrs for b in range(nb)]
    livein = [live[b] | phis[b] for b in range(nb)]
    heads = loop_heads(fn)
    # loop-carried phis that change by arithmetic: not partitioned on
    _relev[fn.key] = (livein, keyed, heads)
    return _relev[fn.key]


def rpo(fn):
    succ = fn.succ()
    seen = set(); out = []
    st = [(0, iter(succ[0]))] if fn.bb else []
    seen.add(0)
    while st:
        b, it = st[-1]
        for n in it:
            if n not in seen:
                seen.add(n)
                st.append((n, iter(succ[n])))
                break
        else:
            out.append(b); st.pop()
    return out[::-1]


def loop_heads(fn):
    succ = fn.succ()
    color = {}
    heads = set()
    st = [(0, iter(succ[0]))]
    color[0] = 1
    while st:
        b, it = st[-1]
        for n in it:
            c = color.get(n)
            if c is None:
                color[n] = 1
                st.append((n, iter(succ[n])))
                break
            elif c == 1:
                heads.add(n)
        else:
            color[b] = 2; st.pop()
    return heads


class Interp:
    def __init__(self, P, cg, mod, rule):
        self.P = P; self.cg = cg; self.mod = mod; self.rule = rule
        self.steps = 0
        self.max_steps = 3000000
        self.deadline = time.time() + 90
        self.reports = {}
        self.stat = {'functions': 0, 'blocks': 0, 'states': 0, 'calls': 0}
        self.site_count = 0
        self.incomplete = None
        self._rpo = {}
        self.ctxfn = {}

    # ---- reporting
    def report(self, fr, i, s, msg, key=None):
        loc = fr.fn.loc(i)
        k = (self.rule.name, fr.fn.name, msg if key is None else key)
        if k not in self.reports:
            chain = [c.name for c in fr.chain] + [fr.fn.name]
            self.reports[k] = {'rule': self.rule.name, 'file': fr.fn.file, 'line': i[2] if i is not None and i[2] else fr.fn.line,
                               'function': fr.fn.name, 'message': msg, 'chain': chain, 'path': list(s.trace)[-14:], 'key': '%s|%s|%s' % (k[0], k[1], k[2])}

    # ---- operands
    def val(self, fr, s, v, bits=64):
        if isinstance(v, int):
            e = s.env.get((fr.ctx, v))
            if e is None:
                i = fr.fn.ins().get(v)
                b = 64
                if i is not None:
                    b = ibits(i)
                elif v < len(fr.fn.params):
                    b = tbits(fr.fn.params[v][1])
                e = term(('v', fr.ctx, v), b)
            return e
        k = v[0]
        if k == 'i': return const(v[1], v[2])
        if k == 'n': return NULL
        if k == 'g':
            if self.P.resolve(fr.fn, v[1]) is not None or (None, v[1]) not in self.P.globals and (fr.fn.unit, v[1]) not in self.P.globals:
                return X.func(v[1])
            g = self.P.globals.get((fr.fn.unit, v[1]))
            return X.glob(v[1] if not (g and g[1]) else '%s@%s' % (v[1], fr.fn.unit))
        if k == 'ge':
            return self.gep(fr, s, self.val(fr, s, v[1]), v[2])
        if k == 'u': return const(0, bits or 64) if not UNDEF else undef(bits or 64)
        if k == 'fp': return term(('fp', v[1]), 64)
        return term(('cst', repr(v)), bits or 64)

    def gep(self, fr, s, base, steps):
        off = 0; idx = []; hint = base.hint if base.op == 'addr' else None
        for st in steps:
            if st[0] == 'f':
                off += st[3]; hint = (st[1], st[2])
            else:
                i = self.val(fr, s, st[1])
                sz = st[2]
                if i.op == 'c': off += X.sval(i) * sz
                else:
                    if i.bits < 64: i = cast('sext', i, i.bits, 64)
                    idx.append((i, sz))
        return addr(base, off, tuple(idx), hint)

    # ---- memory
    def canon(self, s, a):
        """a pointer and the address of the first member it points to name the same cell"""
        if a.op == 'addr': return a
        e = X._tab.get(('addr', (a, 0, ()), 64))
        if e is None: return a
        if a in s.mem:
            v = s.mem.pop(a)
            if e not in s.mem: s.mem[e] = v
        return e

    def load(self, s, a, bits):
        a = self.canon(s, a)
        if a.op == 'addr' and a.a[1] == 0 and not a.a[2] and a.a[0] in s.mem: self.canon(s, a.a[0])
        v = s.mem.get(a)
        if v is not None:
            if v.bits == bits: return v
            if v.bits > bits: return cast('trunc', v, v.bits, bits)
            return term(('mx', a, bits), bits)
        if a.nest > MAXNEST:
            # too deep a pointer chain to name
            v = term(('deep', self.cursite), bits)
            drop_terms(s, frozenset((v,)))
            return v
        v = init_cell(a, bits)
        s.mem[a] = v
        return v

    def store(self, s, a, v):
        a = self.canon(s, a)
        if a.op == 'addr' and a.a[1] == 0 and not a.a[2] and a.a[0] in s.mem: del s.mem[a.a[0]]
        r = X.root(a)
        h = a.hint
        local = r.op == 'al'
        kills = []
        ax = a.op == 'addr' and a.a[2]
        for k in s.mem:
            if k is a: continue
            kr = X.root(k)
            if kr is r:
                # same object: overlapping symbolic index, or partial overlap
                kx = k.op == 'addr' and k.a[2]
                if ax or kx:
                    if k.hint == h or h is None or k.hint is None:
                        if not (k.op == 'addr' and a.op == 'addr' and k.a[2] == a.a[2] and k.a[1] != a.a[1]):
                            kills.append(k)
                continue
            if kr.op == 'al' or local: continue
            if kr.op == 'gl' and r.op == 'gl': continue
            if h is not None and k.hint == h: kills.append(k)
        for k in kills: del s.mem[k]; self.fresh_cell(s, k)
        if a.nest <= MAXNEST: s.mem[a] = v

    def fresh_cell(self, s, k, bits=None, site=None):
        self._fc = getattr(self, '_fc', 0)
        t = term(('k', self.cursite, k), bits or 64)
        if False: pass
        # unknown from here on
        dead = frozenset((t,))
        drop_terms(s, dead)
        s.mem[k] = t

    def kill(self, fr, s, i, pred):
        """havoc memory cells for which pred(cell) holds"""
        ks = [k for k in s.mem if pred(k)]
        if not ks: return
        dead = set()
        for k in ks:
            b = s.mem[k].bits
            t = term(('k', fr.ctx, i[1], k), b)
            s.mem[k] = t
            dead.add(t)
        drop_terms(s, frozenset(dead))

    def havoc_call(self, fr, s, i, name, targets, unres, args):
        items = set()
        unknown = False
        aroots = {X.root(a) for a in args}
        for t in targets:
            m = self.mod.of(t.key)
            if m is None: unknown = True
            else: items |= m
        lib = None
        if not targets:
            if name is not None:
                from .cg import LIBW
                if name.startswith('llvm.mem'): lib = (0,)
                else: lib = LIBW.get(name)
                if lib is None:
                    # unknown library function: may write behind every pointer argument it gets
                    lib = tuple(k for k, a in enumerate(args) if X.root(a).op == 'al') if not PURE(name) else ()
            else:
                unknown = True
        roots = []
        fields = set(); globs = set(); dfields = set()
        if targets:
            for x in items:
                if x[0] == 'p':
                    if x[1] < len(args): roots.append(args[x[1]])
                elif x[0] == 'f': fields.add((x[1], x[2]))
                elif x[0] == 'g': globs.add(x[1])
                elif x[0] == 'df': dfields.add((x[1], x[2]))
        if lib:
            for k in lib:
                if k < len(args): roots.append(args[k])
        if unknown:
            def pred(k):
                return (X.root(k).op != 'al' or X.root(k) in escaped) and not self.rule.private(s, X.root(k), aroots)
            escaped = {X.root(a) for a in args}
            self.kill(fr, s, i, pred)
            return
        if not roots and not fields and not globs: return
        rr = []
        for a in roots:
            if a.op == 'c': continue
            rr.append(a)
        bases = {}
        for a in rr:
            bases.setdefault(X.root(a), []).append(a)

        single = {}
        for a in rr:
            n = 0 if lib else self.member_size(a)
            if n: single[a] = n

        def pred(k):
            h = k.hint
            r = X.root(k)
            if h is not None and h in fields: return (r.op != 'al' or self.escapes(r)) and not self.rule.private(s, r, aroots)
            if r in bases:
                for a in bases[r]:
                    o = a.a[1] if a.op == 'addr' else 0
                    ko = k.a[1] if k.op == 'addr' else 0
                    if a in single:
                        if k is a or o <= ko < o + single[a]: return True
                        continue
                    if r.op == 'al':
                        if ko >= o or (a.op == 'addr' and a.a[2]): return True
                    elif lib or k is a or ko >= o:
                        return True
            if r.op == 'gl' and r.a[0].split('@')[0] in globs: return True
            return False
        self.kill(fr, s, i, pred)

    def member_size(self, a):
        """a callee given the address of a member writes within it; the first member may stand for the whole object"""
        if a.op != 'addr' or a.a[2] or not a.hint: return 0
        st = self.P.structs.get(a.hint[0])
        if not st: return 0
        for fn_, o, bits, t in st[1]:
            if fn_ == a.hint[1]: return bits // 8 if o or bits in (8, 16, 32, 64) and t not in self.P.structs and '[' not in t else 0
        return 0

    def leaves(self, fr, e, typ=None, v=None, off=0, d=0):
        """scalar members of a struct type: [(offset, bits, hint)]"""
        out = []
        st = self.P.structs.get(typ)
        if not st or d > 3: return out
        for fn_, o, bits, t in st[1][:40]:
            if t in self.P.structs: out += self.leaves(fr, e, t, None, off + o, d + 1)
            elif bits in (8, 16, 32, 64) and '[' not in t: out.append((off + o, bits, (typ, fn_)))
            if len(out) > 40: break
        return out

    def memop(self, fr, s, i, name, targets, unres, args):
        dst = args[0]
        n = args[2] if len(args) > 2 else None
        size = cval(n) if n is not None and n.op == 'c' else None
        put = []
        if size is not None and size <= 65536:
            if 'memset' in name and args[1].op == 'c':
                byte = cval(args[1]) & 255
                do = dst.a[1] if dst.op == 'addr' else 0
                dx = dst.a[2] if dst.op == 'addr' else ()
                r = X.root(dst)
                if not dx:
                    for k, v in s.mem.items():
                        if X.root(k) is r and not (k.op == 'addr' and k.a[2]):
                            ko = k.a[1] if k.op == 'addr' else 0
                            if do <= ko and ko + v.bits // 8 <= do + size: put.append((k, const(int.from_bytes(bytes([byte]) * max(1, v.bits // 8), 'little'), v.bits)))
                    if r.op == 'al':
                        typ = self.alloca_type(r)
                        for o, b, h in self.leaves(fr, r, typ):
                            if do <= o and o + b // 8 <= do + size:
                                put.append((addr(r, o, (), h), const(int.from_bytes(bytes([byte]) * (b // 8), 'little'), b)))
            elif 'memset' not in name:
                src = args[1]
                sr = X.root(src)
                so = src.a[1] if src.op == 'addr' else 0
                sx = src.a[2] if src.op == 'addr' else ()
                if sr.op == 'gl' and not sx:
                    nme, unit = sr.a[0], fr.fn.unit
                    if '@' in nme: nme, unit = nme.split('@', 1)
                    g = self.P.glob(unit, nme)
                    if g and g[0] and g[3] is not None and g[3][0] == 'st':
                        for h, o, v in flat_init(g[3]):
                            if so <= o < so + size:
                                x = const(v[1], v[2]) if v[0] == 'i' else NULL if v[0] == 'n' else self.val(fr, s, v) if v[0] == 'g' else None
                                if x is not None: put.append((addr(dst, o - so, (), h), x))
                else:
                    for k, v in s.mem.items():
                        if X.root(k) is sr and (k.a[2] if k.op == 'addr' else ()) == sx:
                            ko = k.a[1] if k.op == 'addr' else 0
                            if so <= ko and ko + v.bits // 8 <= so + size: put.append((addr(dst, ko - so, (), k.hint if k.op == 'addr' else None), v))
        self.havoc_call(fr, s, i, name, targets, unres, args)
        for k, v in put:
            k = self.canon(s, k)
            if k.op == 'addr' and k.a[1] == 0 and not k.a[2]: s.mem.pop(k.a[0], None)
            s.mem[k] = v

    def escapes(self, r):
        """the address of a local is handed to a call or stored"""
        ctx, iid, nm = r.a[0]
        f = self.cg.fk.get(ctx) if isinstance(ctx, str) else self.ctxfn.get(ctx)
        if f is None: return True
        return iid in escaped(f)

    def alloca_type(self, r):
        ctx, iid, nm = r.a[0]
        fnname = ctx if isinstance(ctx, str) else None
        f = self.cg.fk.get(fnname) if fnname else self.ctxfn.get(ctx)
        if f is None: return None
        i = f.ins().get(iid)
        t = i[3] if i is not None and i[0] == 'alloca' else None
        return t[2:] if isinstance(t, str) and t.startswith('S:') else None

    # ---- function execution
    def run(self, fn, init=None, chain=()):
        """analyse fn as an entry point; returns list of (state, ret)"""
        s = State()
        fr = Frame(fn, fn.key, 0, chain)
        for k, p in enumerate(fn.params):
            s.env[(fr.ctx, k)] = term(('p', fn.key, k), tbits(p[1]))
        self.cursite = fn.key
        s.q = self.rule.start(fn, s)
        if init: init(self, fr, s)
        return self.exec_fn(fr, s, top=True)

    def exec_fn(self, fr, s0, top=False):
        fn = fr.fn
        rule = self.rule
        livein, keyed, heads = relevance(fn)
        if fn.key not in self._rpo:
            o = rpo(fn)
            self._rpo[fn.key] = {b: n for n, b in enumerate(o)}
        rp = self._rpo[fn.key]
        self.stat['functions'] += 1
        ctx = fr.ctx
        blocks = {}      # b -> {key: state}
        counts = {}
        queue = []
        pend = set()
        rets = {}

        def key_of(b, s):
            l = []
            for v in sorted(keyed[b]):
                e = s.env.get((ctx, v))
                if e is not None:
                    c = cls(s, e)
                    if c != 'T': l.append((v, c))
            for k, e in s.mem.items():
                if k.op == 'al' and k.a[0][0] == ctx:
                    c = cls(s, e)
                    if c != 'T': l.append((k.id, c))
            return (s.q, rule.extra_key(s), tuple(sorted(l, key=lambda z: z[0])))

        entered = {}

        def put(b, s, src=None):
            if GONE and b in heads:
                if src is None or rp.get(src, 0) < rp.get(b, 0):
                    o = entered.setdefault(b, set())
                    for v in s.env.values(): o |= deepterms(v)
                elif s.q:
                    o = entered.get(b, frozenset())
                    s.q = tuple(e for e in s.q if not (e[1] == 'f' and not deepterms(e[0]) <= o) and e[1] != 'h')
            # drop dead SSA values of this frame
            lv = livein[b]
            for k in [k for k in s.env if k[0] == ctx and k[1] not in lv]: del s.env[k]
            if len(s.facts) + len(s.rel) + len(s.mem) // 2 > s.gcl:
                gc(s)
                s.gcl = max(48, 2 * (len(s.facts) + len(s.rel) + len(s.mem) // 2))
            d = blocks.setdefault(b, {})
            n = counts.get(b, 0)
            counts[b] = n + 1
            if b in heads and n > 60 or len(d) > MAXP:
                key = (s.q, rule.extra_key(s), 'coarse')
            else:
                key = key_of(b, s)
                if key not in d and len(d) >= MAXP:
                    key = (s.q, rule.extra_key(s), 'coarse')
            old = d.get(key)
            if old is None:
                d[key] = s
            else:
                c = counts.get((b, key), 0) + 1
                counts[(b, key)] = c
                j = join(old, s, (ctx, b, key_id(key)), widen=(b in heads and c > WIDEN) or c > 40)
                if same(j, old): return
                if c > 120:
                    # give up precision on facts, keep automaton state
                    j.facts = {t: v for t, v in j.facts.items() if t.hint == 'alloc' and old.facts.get(t) == v}; j.rel = {}
                    if same(j, old): return
                d[key] = j
            if (b, key) not in pend:
                pend.add((b, key))
                heapq.heappush(queue, (rp.get(b, 1 << 30), b, len(pend), key_id(key), key))

        s = s0
        put(0, s)
        while queue:
            _, b, _, _, key = heapq.heappop(queue)
            pend.discard((b, key))
            st = blocks[b].get(key)
            if st is None: continue
            self.steps += 1
            if self.steps > self.max_steps or (self.steps & 31) == 0 and time.time() > self.deadline:
                self.incomplete = fn.name
                break
            self.stat['blocks'] += 1
            for nb, ns, kind in self.exec_block(fr, b, st.copy()):
                if nb is None:
                    # return
                    ns.env = {k: v for k, v in ns.env.items() if k[0] != ctx}
                    if top:
                        rets.setdefault(id(ns), (ns, kind))
                    else:
                        k = (ns.q, rule.extra_key(ns), cls(ns, kind) if kind is not None else None, outcls(ns, s0))
                        o = rets.get(k)
                        if o is None: rets[k] = (ns, kind)
                        else:
                            os, ov = o
                            tmp = (ctx, '$ret')
                            if kind is not None:
                                os = os.copy(); ns2 = ns.copy()
                                os.env[tmp] = ov; ns2.env[tmp] = kind
                                j = join(os, ns2, (ctx, 'ret', key_id(k)))
                                v = j.env.pop(tmp)
                                rets[k] = (j, v)
                            else:
                                rets[k] = (join(os, ns, (ctx, 'ret', key_id(k))), None)
                else:
                    put(nb, ns, b)
        self.stat['states'] += sum(len(d) for d in blocks.values())
        out = list(rets.values())
        if not top and len(out) > 24:
            # coarsen
            m = {}
            for st, v in out:
                k = (st.q, rule.extra_key(st), cls(st, v) if v is not None else None)
                if k in m:
                    os, ov = m[k]
                    tmp = (ctx, '$ret')
                    if v is not None:
                        os = os.copy(); n2 = st.copy()
                        os.env[tmp] = ov; n2.env[tmp] = v
                        j = join(os, n2, (ctx, 'ret2', key_id(k)))
                        m[k] = (j, j.env.pop(tmp))
                    else:
                        m[k] = (join(os, st, (ctx, 'ret2', key_id(k))), None)
                else: m[k] = (st, v)
            out = list(m.values())
        return out

    def exec_block(self, fr, b, s):
        """yields (succ block or None, state, retval)"""
        outs = []
        states = [s]
        bl = fr.fn.bb[b]
        rule = self.rule
        for i in bl:
            op = i[0]
            if op in ('br', 'switch', 'ret', 'unreachable') or (op == 'call' and len(i) > 8) or (op == 'other' and len(i) > 6):
                for st in states:
                    outs.extend(self.terminator(fr, b, st, i))
                return outs
            nxt = []
            for st in states:
                r = self.instr(fr, st, i)
                if r is None: nxt.append(st)
                else: nxt.extend(r)
            states = nxt
            if not states: return outs
        return outs

    def edge(self, fr, b, nb, s):
        """evaluate phis of nb for the edge b->nb"""
        vals = []
        for i in fr.fn.bb[nb]:
            if i[0] != 'phi': break
            for p, x in i[3]:
                if p == b:
                    vals.append((i[1], self.val(fr, s, x, tbits(i[4]))))
                    break
        for k, v in vals: s.env[(fr.ctx, k)] = v
        return s

    def terminator(self, fr, b, s, i):
        op = i[0]
        rule = self.rule
        if op == 'br':
            if i[3] is None:
                return [(i[4], self.edge(fr, b, i[4], s), None)]
            c = self.val(fr, s, i[3], 1)
            outs = []
            for truth, nb in ((True, i[4]), (False, i[5])):
                n = s.copy()
                if not assume(n, c, truth): continue
                if c.op != 'c':
                    n.trace = n.trace[-30:] + ('%s:%d %s' % (fr.fn.file, i[2], 'taken' if truth else 'not taken'),)
                rule.on_branch(self, fr, n, i, c, truth)
                outs.append((nb, self.edge(fr, b, nb, n), None))
            return outs
        if op == 'switch':
            v = self.val(fr, s, i[3], 32)
            outs = []
            rest = full(v.bits)
            for cv, nb in i[5]:
                n = s.copy()
                cv &= (1 << v.bits) - 1
                rest = inter(rest, compl(X.single(cv), v.bits))
                if not assume(n, icmp('eq', v, const(cv, v.bits)), True): continue
                rule.on_branch(self, fr, n, i, icmp('eq', v, const(cv, v.bits)), True)
                outs.append((nb, self.edge(fr, b, nb, n), None))
            n = s.copy()
            if refine(n, v, rest):
                rule.on_default(self, fr, n, i, v)
                outs.append((i[4], self.edge(fr, b, i[4], n), None))
            return outs
        if op == 'ret':
            v = self.val(fr, s, i[3], 32) if i[3] is not None else None
            if v is not None:
                tb = tbits(fr.fn.ret)
                if v.op == 'c' and tb and v.bits != tb: v = const(cval(v), tb)
            if fr.depth == 0:
                rule.on_ret(self, fr, s, i, v)
            else:
                rule.on_inl_ret(self, fr, s, i, v)
            return [(None, s, v)]
        if op == 'call':   # invoke: only C++ (not built) - treat normally
            r = self.instr(fr, s, i)
            outs = []
            for st in (r if r is not None else [s]):
                outs.append((i[7], self.edge(fr, b, i[7], st), None))
            return outs
        if op == 'other':
            return [(nb, self.edge(fr, b, nb, s.copy()), None) for nb in i[6]]
        return []

    def instr(self, fr, s, i):
        op = i[0]
        ctx = fr.ctx
        rule = self.rule
        self.cursite = (ctx, i[1])
        if op == 'phi': return None
        if op == 'alloca':
            s.env[(ctx, i[1])] = X.alloca((ctx, i[1], fr.fn.names.get(i[1], '')))
            if UNDEF: rule.on_alloca(self, fr, s, i)
            return None
        if op == 'gep':
            if GONE:
                # another round of a loop over an array than there are elements
                for st in i[4]:
                    if st[0] == 'e' and st[3] > 1:
                        n = self.val(fr, s, st[1])
                        if n.op == 'c' and X.sval(n) > st[3]: return []
                        if n.op == 'c' and X.sval(n) == st[3] and any(u[0] == 'load' for u in fr.fn.uses().get(i[1], ())): return []
            s.env[(ctx, i[1])] = self.gep(fr, s, self.val(fr, s, i[3]), i[4])
            return None
        if op == 'load':
            a = self.val(fr, s, i[3])
            rule.on_access(self, fr, s, i, a)
            bits = i[5] or 64
            if i[6]:
                v = term(('vol', ctx, i[1]), bits)
                drop_terms(s, frozenset((v,)))
            else:
                v = self.gload(fr, s, a, bits)
                if v is None: v = self.load(s, a, bits)
            s.env[(ctx, i[1])] = v
            rule.on_load(self, fr, s, i, a, v)
            return None
        if op == 'store':
            a = self.val(fr, s, i[4])
            v = self.val(fr, s, i[3], i[6])
            rule.on_access(self, fr, s, i, a)
            if v.op == 'c' and v.bits != i[6] and i[6]: v = const(cval(v), i[6])
            rule.on_store(self, fr, s, i, a, v)
            if v.depth > 14:
                v = self.opaque(fr, s, i, v)
            self.store(s, a, v)
            return None
        if op == 'bin':
            a = self.val(fr, s, i[4], i[6]); b2 = self.val(fr, s, i[5], i[6])
            e = binop(i[3], a, b2, i[6])
            # a bit field is put into its word
            if UNDEF and i[3] == 'or' and any(x.op == 'op' and x.a[0] == 'and' and undefs(x) for x in (a, b2)): e = self.fresh(fr, s, i, i[6])
            if e.depth > 14: e = self.opaque(fr, s, i, e)
            s.env[(ctx, i[1])] = e
            return None
        if op == 'icmp':
            a = self.val(fr, s, i[4], i[6]); b2 = self.val(fr, s, i[5], i[6])
            if a.bits != b2.bits:
                if a.op == 'c': a = const(cval(a), b2.bits)
                elif b2.op == 'c': b2 = const(cval(b2), a.bits)
                else:
                    s.env[(ctx, i[1])] = self.fresh(fr, s, i, 1)
                    return None
            s.env[(ctx, i[1])] = icmp(i[3], a, b2)
            return None
        if op == 'cast':
            a = self.val(fr, s, i[4], i[5])
            if i[3] in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr') and a.bits == i[5]:
                s.env[(ctx, i[1])] = cast(i[3], a, i[5], i[6])
            else:
                s.env[(ctx, i[1])] = self.fresh(fr, s, i, i[6] or 64)
            return None
        if op == 'select':
            c = self.val(fr, s, i[3], 1)
            out = []
            for truth, v in ((True, i[4]), (False, i[5])):
                n = s.copy()
                if assume(n, c, truth):
                    if c.op != 'c': rule.on_branch(self, fr, n, i, c, truth)
                    n.env[(ctx, i[1])] = self.val(fr, n, v, 64)
                    out.append(n)
            return out
        if op == 'call':
            return self.call(fr, s, i)
        if op == 'other':
            if i[3] in ('atomicrmw', 'cmpxchg'):
                a = self.val(fr, s, i[4][0])
                self.kill(fr, s, i, lambda k: k is a)
            s.env[(ctx, i[1])] = self.fresh(fr, s, i, tbits(i[5]) or 64)
            return None
        return None

    def gload(self, fr, s, a, bits):
        """loads from constant globals (tables)"""
        r = X.root(a)
        if r.op != 'gl': return None
        n = r.a[0]
        unit = fr.fn.unit
        if '@' in n: n, unit = n.split('@', 1)
        g = self.P.glob(unit, n)
        if not g or not g[0] or g[3] is None: return None
        if a.op == 'addr' and a.a[2]: return None
        v = pick(self.P, g[3], g[2], a.a[1] if a.op == 'addr' else 0)
        if v is None: return None
        if v[0] == 'i' and v[2] == bits: return const(v[1], bits)
        if v[0] == 'n': return NULL
        if v[0] == 'g': return self.val(fr, s, v)
        return None

    def fresh(self, fr, s, i, bits):
        t = term(('x', fr.ctx, i[1]), bits)
        drop_terms(s, frozenset((t,)))
        # the name is being re-used (loop): stale copies in memory keep their value no longer
        return t

    def opaque(self, fr, s, i, e):
        v = ev(s, e)
        t = term(('o', fr.ctx, i[1]), e.bits)
        drop_terms(s, frozenset((t,)))
        if v != full(e.bits): s.facts[t] = v
        return t

    def call(self, fr, s, i):
        ctx = fr.ctx
        rule = self.rule
        name = callee_name(i)
        args = [self.val(fr, s, a) for a in i[4]]
        targets, unres = self.cg.targets(fr.fn, i)
        if name is None:
            fe = self.val(fr, s, i[3])
            if fe.op == 'fn':
                g = self.P.resolve(fr.fn, fe.a[0])
                if g is None:
                    # may have been taken in another frame's unit
                    c = self.P.findall(fe.a[0])
                    g = c[0] if len(c) == 1 else None
                if g: targets = [g]; name = fe.a[0]
        if name and name.startswith('llvm.'):
            if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.va_', 'llvm.stack')):
                s.env[(ctx, i[1])] = term(('x', ctx, i[1]), 64)
                return None
            if name == 'llvm.trap': return []
            if name.startswith('llvm.threadlocal'):
                s.env[(ctx, i[1])] = args[0]
                return None
            if name.startswith('llvm.bswap') or name.startswith('llvm.expect'):
                pass
        self.stat['calls'] += 1
        r = rule.on_call(self, fr, s, i, name, targets, args)
        if r is not None:
            out = []
            for st, v in r:
                if v is not None: st.env[(ctx, i[1])] = v
                out.append(st)
            return out
        if i[6]:            # noreturn
            return []
        if name in ('exit', '_exit', 'abort', '__assert_fail', 'pthread_exit', '__pthread_unwind_next', 'luaL_error', 'lua_error', 'Perl_croak', 'Perl_croak_nocontext'): return []
        bits = tbits(i[5]) or 64
        # inline?
        if len(targets) == 1 and targets[0].bb and targets[0] not in fr.chain and targets[0] is not fr.fn \
                and (targets[0].key in rule.force or fr.depth < rule.max_depth and rule.inline(targets[0], fr.depth, fr.chain)):
            g = targets[0]
            nf = Frame(g, (ctx, i[1], g.name), fr.depth + 1, fr.chain + (fr.fn,), i)
            self.ctxfn[nf.ctx] = g
            n = s.copy()
            for k, p in enumerate(g.params):
                if k < len(args):
                    a = args[k]
                    tb = tbits(p[1])
                    if tb and a.bits != tb:
                        if a.op == 'c': a = const(cval(a), tb)
                        else: a = term(('arg', ctx, i[1], k), tb)
                    n.env[(nf.ctx, k)] = a
            out = []
            for st, v in self.exec_fn(nf, n):
                # forget the callee's locals
                for k in [k for k in st.mem if X.root(k).op == 'al' and X.root(k).a[0][0] == nf.ctx]: del st.mem[k]
                if v is not None: st.env[(ctx, i[1])] = v
                pr = rule.post_call(self, fr, st, i, name, targets, args, v)
                out.extend(pr if pr is not None else [st])
            return out
        if name and name.startswith('llvm.mem'):
            self.memop(fr, s, i, name, targets, unres, args)
        else: self.havoc_call(fr, s, i, name, targets, unres, args)
        if i[5] != 'v':
            v = self.fresh(fr, s, i, bits)
            # drop stale memory copies of this name from an earlier loop round
            for k in [k for k, x in s.mem.items() if v in x.terms]:
                b = s.mem[k].bits
                t = term(('old', fr.ctx, i[1], k), b)
                drop_terms(s, frozenset((t,)))
                s.mem[k] = t
            s.env[(ctx, i[1])] = v
        else:
            v = None
        pr = rule.post_call(self, fr, s, i, name, targets, args, v)
        return pr


_kid = {}


_esc = {}


def escaped(f):
    e = _esc.get(f)
    if e is None:
        e = set()
        der = {}
        for bl in f.bb:
            for i in bl:
                if i[0] == 'alloca': der[i[1]] = {i[1]}
        ch = True
        while ch:
            ch = False
            for bl in f.bb:
                for i in bl:
                    src = [i[3]] if i[0] == 'gep' else [i[4]] if i[0] == 'cast' else [i[4], i[5]] if i[0] == 'select' else [v for _, v in i[3]] if i[0] == 'phi' else ()
                    for v in src:
                        if isinstance(v, int) and v in der and not der[v] <= der.get(i[1], set()):
                            der.setdefault(i[1], set()).update(der[v])
                            ch = True
        for bl in f.bb:
            for i in bl:
                if i[0] == 'call':
                    n = callee_name(i) or ''
                    if n == '__pthread_cleanup_routine' or n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.mem')): continue
                    for a in i[4]:
                        if isinstance(a, int) and a in der: e |= der[a]
                elif i[0] == 'store' and isinstance(i[3], int) and i[3] in der: e |= der[i[3]]
                elif i[0] == 'other':
                    for a in i[4]:
                        if isinstance(a, int) and a in der: e |= der[a]
        _esc[f] = e
    return e


def key_id(k):
    n = _kid.get(k)
    if n is None:
        n = len(_kid)
        _kid[k] = n
    return n


def outcls(s, s0):
    """classes of the caller-visible local cells (out-parameters)"""
    l = []
    for k, e in s.mem.items():
        if k.op == 'al':
            c = cls(s, e)
            if c != 'T': l.append((k.id, c))
    return tuple(sorted(l, key=lambda z: z[0]))


PURES = {'strlen', 'strcmp', 'strncmp', 'strcasecmp', 'memcmp', 'strchr', 'strstr', 'free', 'printf', 'fprintf', 'pthread_mutex_lock',
         'pthread_mutex_unlock', 'pthread_self', 'getpid', 'gettid', 'close', 'strerror', 'strtok', 'pthread_rwlock_rdlock', 'pthread_rwlock_wrlock',
         'pthread_rwlock_unlock', 'write', 'send', 'sendto', 'open', 'fopen', '__errno_location', 'toupper', 'tolower', '__ctype_b_loc'}


def PURE(n):
    return n in PURES or n.startswith('llvm.')


def tbits(t):
    if not t or t == 'v': return 0
    if t == 'p': return 64
    if t[0] == 'i' and t[1:].isdigit(): return int(t[1:])
    if t == 'f': return 64
    return 64


def ibits(i):
    op = i[0]
    if op == 'load': return i[5] or 64
    if op == 'icmp': return 1
    if op == 'bin': return i[6]
    if op == 'cast': return i[6] or 64
    if op == 'call': return tbits(i[5]) or 64
    if op == 'phi': return tbits(i[4]) or 64
    return 64


def typesize(P, t):
    if t == 'p': return 8
    if t[0] == 'i' and t[1:].isdigit(): return max(1, int(t[1:]) // 8)
    if t.startswith('S:'):
        st = P.structs.get(t[2:])
        return st[0] if st else None
    if t[0] == 'A':
        n, r = t[1:].split(':', 1)
        x = typesize(P, r)
        return None if x is None else int(n) * x
    if t == 'f': return 8
    return None


def pick(P, v, t, off):
    """constant initializer element at byte offset"""
    while True:
        if v is None: return None
        if v[0] == 'z':
            # zero initialised: only scalars reachable by size 0.. cannot know width
            return None
        if v[0] == 's':
            b = v[1]
            return ['i', ord(b[off]) & 0xff, 8] if off < len(b) else None
        if v[0] == 'arr':
            if not t.startswith('A'): return None
            et = t[1:].split(':', 1)[1]
            sz = typesize(P, et)
            if not sz: return None
            k = off // sz
            if k >= len(v[1]): return None
            v = v[1][k]; t = et; off -= k * sz
            continue
        if v[0] == 'st':
            best = None
            for fn, o, x in v[2]:
                if o <= off and (best is None or o >= best[1]): best = (fn, o, x)
            if best is None: return None
            off -= best[1]; v = best[2]
            t = '?' if v and v[0] in ('i', 'n', 'g', 'ge') else 'x'
            if v and v[0] in ('arr', 'st', 'z', 's'):
                # nested aggregate: type unknown here, only offset 0 of a struct is followed
                if v[0] == 'st': continue
                if v[0] == 's': continue
                return None
            continue
        return v if off == 0 else None


def flat_init(v, off=0):
    """scalar members of a constant struct initializer: (hint, offset, value)"""
    if v[0] != 'st': return
    for fn, o, x in v[2]:
        if x is None: continue
        if x[0] in ('i', 'n', 'g'): yield (v[1], fn), off + o, x
        elif x[0] == 'st': yield from flat_init(x, off + o)
