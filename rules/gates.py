"""Gates: an operation (the accepting return of a validator, a call, a store) is reached only when
certain facts have been established on the path: the value of a field or of the result of a call
is known to lie in a set.

Values are named by what they are, not by how the code spells them: 'struct.field' for what is
loaded from or stored to a member, 'callee()' for the result of a call, 'callee()[k]' for what a
call left in the k-th argument, 'param.k' for parameters, with 'and(x,mask)', 'shr(x,n)' and so
on around them for derived values."""
import re, itertools
from engine.absint import Rule, ev, PHI
from engine import expr as X
from engine.ir import callee_name
from rules.common import calls
from rules.fmt import strings

FULL = 1 << 64
ARG = re.compile(r'(\w+)\((\d+)\)$')


def only(*v): return tuple(sorted((x, x) if not isinstance(x, tuple) else x for x in v))
ZERO = only(0)
NONZERO = ((1, FULL - 1),)
def upto(n): return ((0, n),)
def supto(n): return ((0, n), (1 << 31, (1 << 32) - 1))    # signed 32 bit
def atleast(n): return ((n, FULL - 1),)


def flat(f):
    """a conjunction may contain conjunctions"""
    if not isinstance(f[0], tuple): return f
    o = []
    for x in f:
        x = flat(x)
        o += list(x) if isinstance(x[0], tuple) else [x]
    return tuple(o)


def as_set(x): return {x} if isinstance(x, str) else set(x)
def LE(a, b, k=0): return ('%s<=%s' % (a, b), k)        # a <= b + k
def EQ(a, b, k=0): return (LE(a, b, k), LE(b, a, -k))


# functions which return the value they are given, in another width or byte order
SAME = re.compile(r'rrr_(be|le)\d+toh$|rrr_hto(be|le)\d+$|rrr_\w*length_from_(size_t|biglength|slength|ssize_t)_?\w*const$|rrr_(size|int|u16|u8)_from_\w*const$|\w+_from_\w+_bug_const$|^(ntoh|hton)[sl]$')
NOTSAME = re.compile(r'_sub_|_add_|_mul_|_ptr')


class Gate:
    def __init__(self, roots, sink, require, what, reset=(), noinline=(), inline=(), unit=None, depth=3, unreset=True, when=(), unless=(), least=1):
        self.roots = roots if isinstance(roots, (list, tuple)) else [roots]
        self.sink = sink; self.require = [[flat(f) for f in r] if isinstance(r, list) else [r] for r in require]
        self.what = what; self.reset = set(reset); self.noinline = set(noinline); self.inl = set(inline); self.unit = unit; self.depth = depth
        self.when = when        # facts under which the sink counts
        self.unless = unless    # facts under which it does not
        self.least = least
        self.facts = []
        for alt in self.require:
            for f in alt:
                for a in (f if isinstance(f[0], tuple) else (f,)):
                    if a not in self.facts: self.facts.append(a)
        if len(self.sink) > 3 and isinstance(self.sink[3], str): self.facts.append((self.sink[3], ((FULL - 1, FULL - 1),)))
        for a in tuple(self.when) + tuple(self.unless):
            if a not in self.facts: self.facts.append(a)

        self.texts = any('"' in f[0] for f in self.facts)
        self.rels = [f for f in self.facts if '<=' in f[0]]
        self.facts = [f for f in self.facts if '<=' not in f[0]]

    def callees(self):
        import re
        return {m.group(1) for l, s in self.facts + self.rels for m in re.finditer(r'(\w+)\((?:\)|")', l)}


class Gates(Rule):
    name = 'gate'

    def __init__(self, P, cg, mod, arg):
        self.P = P; self.cg = cg
        self.g = arg['gate']; self.dump = arg.get('dump')
        self.max_depth = self.g.depth
        self.lab = {}
        self.outs = {}
        self.via = {}
        self.rvia = {}
        self.labels = {l for l, _ in self.g.facts}
        self.masks = {}
        self.rels = self.g.rels
        self.any = any('?' in f[0] for f in self.rels)
        for f in self.g.facts:
            if re.match(r'(\?|[\w.]+(\(\))?)&\d+$', f[0]):
                l, m = f[0].split('&'); self.masks.setdefault(l, []).append((f, l, int(m, 0)))
        # disjunctions of facts which occur nowhere else
        self.groups = [r for r in self.g.require if len(r) > 1 and not any(isinstance(f[0], tuple) for f in r)
            and not any(f in r2 or any(isinstance(x[0], tuple) and f in x for x in r2) for f in r for r2 in self.g.require if r2 is not r)
            and not any(f in self.g.when or f in self.g.unless for f in r)]
        self.nolook = self.g.callees() | self.g.noinline | (as_set(self.g.sink[1]) if self.g.sink[0] == 'call' else set())
        self.data = {'sinks': 0, 'seen': {}}
        self.rootunit = None

    def start(self, fn, s):
        self.rootunit = fn.file
        for k, p in enumerate(fn.params):
            self.tag(X.term(('p', fn.key, k), {'p': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i1': 1}.get(p[1], 64)), 'param.%s' % p[0])
        return frozenset()

    def inline(self, fn, depth, chain):
        if fn.name in self.nolook or fn.name in self.g.reset: return False
        if fn.name in self.g.inl: return True
        return fn.internal and fn.file == self.rootunit and fn.key not in self.cg.taken() and len(fn.bb) <= 120

    # ---- names
    def bits(self, e, d=0):
        """(base, mask, shift): e == (base & mask) >> shift"""
        if d == 0: self.budget = 600
        self.budget -= 1
        if d > 90 or self.budget < 0: return None
        if e in self.via: return self.bits(self.via[e], d + 1)
        if e.op in ('zext', 'trunc', 'sext'):
            x = e.a[0]
            if e.op == 'sext' and x.op not in ('op', 'zext', 'trunc'): return None
            r = self.bits(x, d + 1)
            if r is None: return None
            b, m, h = r
            if e.op == 'trunc' and h == 0 and m is not None: m &= (1 << e.bits) - 1
            return b, m, h
        if e.op == 'op' and e.a[2].op == 'c':
            c = X.sval(e.a[2]) & ((1 << e.bits) - 1)
            r = self.bits(e.a[1], d + 1)
            if r is None: return None
            b, m, h = r
            if e.a[0] == 'and': return b, (c << h) if m is None else m & (c << h), h
            if e.a[0] in ('lshr', 'ashr') and c < 64: return b, m, h + c
            return None
        if e.op == 'op': return None
        if e.op != 't': return None
        if e.a[0][0] == 'phi' and e not in self.lab:
            q = {r and r[1:] for r in (self.bits(x, d + 2) for x in PHI.get(e, ()) if x is not e)} if self.budget > 0 and len(PHI.get(e, ())) < 12 else ()
            if len(q) == 1:
                r = q.pop()
                if r is not None and r[0] is not None: return e, r[0], r[1]
        return e, None, 0

    def fields(self, e, v):
        """facts 'x&mask' implied by e having a value in v"""
        if e.op not in ('op', 'zext', 'trunc', 'sext') and not (e.op == 't' and e.a[0][0] == 'phi'): return set()
        r = self.bits(e)
        if r is None: return ()
        b, m, h = r
        ls = set(self.lab.get(b, ())) | self.rvia.get(b, set())
        if '?' in self.masks and b.bits == 8: ls.add('?')
        if not ls: return ()
        full = (1 << b.bits) - 1
        if m is None: m = full
        m &= full & ~((1 << h) - 1)
        if m == 0: return ()
        tz = (m & -m).bit_length() - 1
        d = max(tz - h, 0)
        w = tuple(((lo + (1 << d) - 1) >> d, hi >> d) for lo, hi in v if (lo + (1 << d) - 1) >> d <= hi >> d)
        out = []
        for l in ls:
            for f in self.masks.get(l, ()):
                if f[2] == m and self.sub(w, f[0][1]): out.append(f[0])
                elif f[2] & ~m == 0 and all(hi == 0 for lo, hi in w) and self.sub(((0, 0),), f[0][1]): out.append(f[0])
            if self.dump is not None: self.dump(None, '%s&%d' % (l, m), w)
        return out

    def tag(self, e, l):
        if e is None or e.op == 'c': return
        s = self.lab.get(e)
        if s is None: self.lab[e] = {l}
        elif l not in s: s.add(l)

    def names(self, e, d=0):
        out = set(self.lab.get(e, ()))
        if e in self.via and d < 4: out |= self.names(self.via[e], d + 1)
        if d > 4: return out
        if e.op == 't' and e.a[0][0] == 'phi':
            o = [self.names(x, d + 1) for x in PHI.get(e, ()) if x is not e]
            if o: out |= set.intersection(*o)
            return out
        op = e.op
        if op in ('zext', 'trunc', 'sext'): out |= self.names(e.a[0], d + 1)
        elif op == 'op' and e.a[2].op == 'c':
            r = self.bits(e)
            if r is not None and r[1] is not None:
                m = r[1] & ((1 << r[0].bits) - 1) & ~((1 << r[2]) - 1)
                if m and (m & -m) >> r[2] & 1: out |= {'%s&%d' % (l, m) for l in self.lab.get(r[0], ())}
            o = {'and': 'and', 'lshr': 'shr', 'sub': 'sub', 'add': 'add', 'or': 'or', 'xor': 'xor', 'mul': 'mul', 'udiv': 'div', 'urem': 'rem', 'shl': 'shl'}.get(e.a[0], e.a[0])
            for n in self.names(e.a[1], d + 1): out.add('%s(%s,%d)' % (o, n, X.sval(e.a[2])))
        elif op == 'op':
            for n in list(self.names(e.a[1], d + 1))[:3]:
                for m in list(self.names(e.a[2], d + 1))[:3]: out.add('%s(%s,%s)' % (e.a[0], n, m))
        elif op == 'icmp' and e.a[2].op != 'c':
            p, a, b = e.a
            for n in list(self.names(a, d + 1))[:4]:
                for m in list(self.names(b, d + 1))[:4]:
                    out.add('%s(%s,%s)' % (p, n, m)); out.add('%s(%s,%s)' % ({'eq': 'eq', 'ne': 'ne'}.get(p) or p[0] + {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}[p[1:]], m, n))
        return out

    NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}

    def learn(self, ip, fr, s, e):
        """facts about e which now hold"""
        new = set()
        for n in self.names(e):
            v = None
            for f in self.g.facts:
                if f[0] != n: continue
                if v is None: v = ev(s, e)
                if self.sub(v, f[1]): new.add(f)
            if self.dump is not None:
                if v is None: v = ev(s, e)
                self.dump(fr, n, v)
        if self.masks or self.dump is not None: new |= set(self.fields(e, ev(s, e)))
        if self.groups: new |= self.oneof(s, e)
        return new

    def oneof(self, s, e):
        """e is one of several values (after a switch), each of which establishes one fact of a disjunction"""
        while e.op in ('zext', 'trunc', 'sext'): e = e.a[0]
        if not (e.op == 't' and e.a[0][0] == 'phi'): return set()
        ops = [x for x in PHI.get(e, ()) if x is not e and x.op != 'c']
        if len(ops) < 2: return set()
        v = ev(s, e); names = [self.names(x) for x in ops]; new = set()
        if any(X.inter(v, ((c, c),)) for c in {X.sval(x) & ((1 << e.bits) - 1) for x in PHI.get(e, ()) if x.op == "c"}): return set()
        for g in self.groups:
            fs = [f for f in g if '<=' not in f[0] and self.sub(v, f[1])]
            if all(any(f[0] in n for f in fs) for n in names): new |= set(fs)
        return new

    def lin(self, e, d=0):
        """(names, c): e == name + c"""
        c = 0
        while d < 8:
            d += 1
            if self.via.get(e) is not None: e = self.via[e]; continue
            if self.lab.get(e): break
            if e.op in ('zext', 'sext', 'trunc'): e = e.a[0]
            elif e.op == 'op' and e.a[0] in ('add', 'sub') and e.a[2].op == 'c':
                k = X.sval(e.a[2])
                c += k if e.a[0] == 'add' else -k; e = e.a[1]
            elif e.op == 'addr':
                near = [(k, ls) for k in (1, 2, -1) for ls in [self.lab.get(X.addr(e.a[0], e.a[1] - k, e.a[2]))] if ls]
                if near and e.a[2]: return set().union(*[ls for k, ls in near[:1]]), c + near[0][0]
                c += e.a[1]
                parts = [self.names(e.a[0])] + [self.names(x) for x, z in e.a[2] if z == 1]
                if len(parts) != len(e.a[2]) + 1 or not all(parts): return (parts[0] if len(parts) == 1 else set()), c
                if len(parts) == 1: return parts[0], c
                return {'+'.join(t) for t in itertools.islice(itertools.product(*[sorted(x)[:4] for x in parts]), 16)}, c
            else: break
        return self.names(e), c

    def relate(self, cond, truth):
        """relations a <= b + k which hold when the comparison has this outcome"""
        p, a, b = cond.a
        if not truth: p = self.NEG[p]
        if b.op == 'c':         # x - y against a constant
            k = 0
            while a.op in ('zext', 'sext', 'trunc') or a in self.via or a.op == 'op' and a.a[0] in ('add', 'sub') and a.a[2].op == 'c':
                if a in self.via: a = self.via[a]; continue
                if a.op == 'op':
                    v = X.sval(a.a[2]); k += v if a.a[0] == 'add' else -v; a = a.a[1]
                else: a = a.a[0]
            if a.op != 'op' or a.a[0] != 'sub': return set()
            an, ca = self.lin(a.a[1]); bn, cb = self.lin(a.a[2]); ca += k; cb += X.sval(b)
        else: an, ca = self.lin(a); bn, cb = self.lin(b)
        if not an and not bn: return set()
        if self.any: an = an | {'?'}; bn = bn | {'?'}
        le = []
        if p in ('ule', 'sle', 'eq'): le.append((an, bn, cb - ca))
        if p in ('uge', 'sge', 'eq'): le.append((bn, an, ca - cb))
        if p in ('ult', 'slt'): le.append((an, bn, cb - ca - 1))
        if p in ('ugt', 'sgt'): le.append((bn, an, ca - cb - 1))
        out = set()
        for x, y, k in le:
            for f in self.rels:
                l, r = f[0].split('<=')
                if l in x and r in y and k <= f[1]: out.add(f)
            if self.dump is not None:
                for l in x:
                    for r in y: self.dump(None, '%s<=%s' % (l, r), k)
        return out

    def sub(self, v, allowed):
        return all(any(a <= lo and hi <= b for a, b in allowed) for lo, hi in v)

    def mark(self, s, new):
        if new and not new <= s.q: s.q = s.q | new

    # ---- events
    def on_load(self, ip, fr, s, i, a, v):
        if v.op == 'c': return
        h = a.hint if a.op == 'addr' else None
        if v.op == 't' and v.a[0][0][0] == 'm':
            for l in self.outs.get(a, ()): self.tag(v, l)
        if h: self.tag(v, '%s.%s' % h)
        elif v.bits == 8: self.tag(v, 'byte')
        if a.op == 't' and a.a[0][0] == 'p' and fr.depth == 0:
            for l in self.lab.get(a, ()): self.tag(v, '*' + l)
        elif '__errno_location()' in self.lab.get(a, ()): self.tag(v, 'errno')

    def on_store(self, ip, fr, s, i, a, v):
        h = a.hint if a.op == 'addr' else None
        if not h: return
        n = '%s.%s' % h
        if v.op != 'c': self.tag(v, n)
        if n in self.labels:
            e = ev(s, v)
            for f in self.g.facts:
                if f[0] == n:
                    if self.sub(e, f[1]): s.q = s.q | {f}
                    elif f in s.q: s.q = s.q - {f}
        if self.g.sink[0] == 'store' and n == self.g.sink[1]:
            e = ev(s, v)
            if any(X.inter(e, ((lo, min(hi, (1 << 64) - 1)),)) for lo, hi in self.g.sink[2]): self.sink(ip, fr, s, i)

        if self.g.sink[0] == 'storebits' and n == self.g.sink[1] and self.mustbits(v) & self.g.sink[2]: self.sink(ip, fr, s, i)

    def mustbits(self, v, d=0):
        if v.op == 'c': return X.sval(v) & ((1 << v.bits) - 1)
        if d > 6: return 0
        if v.op in ('zext', 'trunc', 'sext'): return self.mustbits(v.a[0], d + 1)
        if v.op == 'op' and v.a[0] == 'or': return self.mustbits(v.a[1], d + 1) | self.mustbits(v.a[2], d + 1)
        return 0

    def on_branch(self, ip, fr, s, i, cond, truth):
        c = cond
        while c.op in ('zext', 'sext') or c.op == 'op' and c.a[0] == 'xor' and c.bits == 1: c = c.a[0] if c.op != 'op' else c.a[1]
        new = set()
        if c.op == 'icmp':
            new |= self.learn(ip, fr, s, c.a[1])
            if self.rels or self.dump is not None:
                t = ev(s, c)
                if t in (((0, 0),), ((1, 1),)): new |= self.relate(c, t == ((1, 1),))
            if c.a[2].op != 'c':
                new |= self.learn(ip, fr, s, c.a[2])
                for e in (c,):
                    t = ev(s, e)
                    if t in (((0, 0),), ((1, 1),)):
                        for n in self.names(e):
                            p, r = n.split('(', 1)
                            n2 = (p if t == ((1, 1),) else self.NEG.get(p, p)) + '(' + r
                            for f in self.g.facts:
                                if f[0] == n2 and f[1] == ((1, 1),): new.add(f)
                            if self.dump is not None: self.dump(fr, n2, ((1, 1),))
        else: new |= self.learn(ip, fr, s, c)
        for t in cond.terms: new |= self.learn(ip, fr, s, t)
        self.mark(s, new)

    def on_default(self, ip, fr, s, i, v): self.mark(s, self.learn(ip, fr, s, v) | {f for t in v.terms for f in self.learn(ip, fr, s, t)})

    def on_call(self, ip, fr, s, i, name, targets, args):
        g = self.g
        nm = {name} | {t.name for t in targets} | self.slot(ip, fr, s, i) if name is None or len(targets) > 1 else {name}
        if nm & g.reset and s.q: s.q = frozenset()
        if g.sink[0] == 'call' and as_set(g.sink[1]) & nm:
            for f in g.facts:
                m = ARG.match(f[0])
                if not m or m.group(1) not in nm or int(m.group(2)) >= len(args): continue
                a = args[int(m.group(2))]
                if self.sub(ev(s, a), f[1]): s.q = s.q | {f}
                elif f in s.q: s.q = s.q - {f}
            k = g.sink[2:]
            if k and isinstance(k[1], str):
                if len(args) > k[0] and k[1] in self.names(args[k[0]]): self.sink(ip, fr, s, i)
            elif not k or len(args) > k[0] and any(X.inter(ev(s, args[k[0]]), ((lo, min(hi, (1 << 64) - 1)),)) for lo, hi in k[1]): self.sink(ip, fr, s, i)
        # a result of an earlier round is gone
        if s.q and self.labels:
            dead = {f for f in s.q for n in nm if n and (f[0] == n + '()' or f[0].startswith(n + '()['))}
            if dead: s.q = s.q - dead
        return None

    def texts(self, fr, i):
        """constant texts given as arguments"""
        out = []
        for a in i[4] if self.g.texts else ():
            if isinstance(a, list) and a[0] == 'g':
                t = strings(self.P, fr.fn, a)
                if len(t) == 1 and isinstance(t[0], str): out.append(t[0])
        return out

    def slot(self, ip, fr, s, i):
        """the member a called pointer was loaded from"""
        if callee_name(i): return set()
        fe = ip.val(fr, s, i[3])
        return set(self.lab.get(fe, ()))

    def post_call(self, ip, fr, s, i, name, targets, args, ret):
        g = self.g
        nm = {name} if name else {t.name for t in targets}
        nm = set(nm) | self.slot(ip, fr, s, i)
        for t in self.texts(fr, i):
            for n in nm:
                l = '%s("%s")' % (n, t)
                if s.q: s.q = frozenset(f for f in s.q if f[0] != l)
                if ret is None: continue
                if ret.op != 'c': self.tag(ret, l)
                else: self.mark(s, {f for f in g.facts if f[0] == l and self.sub(ev(s, ret), f[1])})
        for n in nm:
            if ret is not None and ret.op != 'c':
                self.tag(ret, n + '()')
                if len(args) == 1 and SAME.match(n) and not NOTSAME.search(n): self.via[ret] = args[0]; self.rvia.setdefault(args[0], set()).add(n + '()')
                l = self.learn(ip, fr, s, ret)
                self.mark(s, l)
            elif ret is not None:
                self.mark(s, {f for f in g.facts if f[0] == n + '()' and self.sub(ev(s, ret), f[1])})
            for k, a in enumerate(args):
                if a.op == 'addr' and a.hint and ret is not None:
                    l = '%s(&%s.%s)' % ((n,) + a.hint)
                    if l in self.labels:
                        self.tag(ret, l)
                        self.mark(s, {f for f in g.facts if f[0] == l and self.sub(ev(s, ret), f[1])} | self.learn(ip, fr, s, ret))
                if X.root(a).op == 'al' or a.op == 'addr':
                    v = s.mem.get(a)
                    if v is not None and v.op == 't' and v.a[0][0] == 'k': self.tag(v, '%s()[%d]' % (n, k))
                    elif v is None: self.outs.setdefault(a, set()).add('%s()[%d]' % (n, k))
            # facts about arguments at the time of the call: 'callee(k)' = the value given
            for k, a in enumerate(args):
                l = '%s(%d)' % (n, k)
                if l in self.labels:
                    for f in self.g.facts:
                        if f[0] == l and self.sub(ev(s, a), f[1]): s.q = s.q | {f}
        return None

    def on_ret(self, ip, fr, s, i, v):
        g = self.g
        if g.sink[0] not in ('ret', 'retc'): return
        if g.sink[0] == 'retc' and (v is None or v.op != 'c'): return
        for f in g.facts:
            if f[0].startswith('*param.'):
                for e, ls in self.lab.items():
                    if f[0][1:] in ls and e.op == 't' and e.a[0][0] == 'p' and e in s.mem:
                        if self.sub(ev(s, s.mem[e]), f[1]): s.q = s.q | {f}
                        elif f in s.q: s.q = s.q - {f}
        if v is None: self.sink(ip, fr, s, i); return
        e = ev(s, v)
        if any(X.inter(e, ((lo, min(hi, (1 << v.bits) - 1)),)) for lo, hi in g.sink[1] if lo < (1 << v.bits)): self.sink(ip, fr, s, i, v)

    def holds(self, s, f):
        if f in s.q: return True
        if '<=' in f[0]: return False
        for e, ls in self.lab.items():
            if f[0] in ls and (e in s.facts) and self.sub(ev(s, e), f[1]) and any(e in x.terms for x in list(s.env.values()) + list(s.mem.values())): return True
        return False

    def sink(self, ip, fr, s, i, v=None):
        g = self.g
        self.data['sinks'] += 1
        if self.dump is not None: self.dump(fr, '@sink', s)
        for w in g.when:
            if not self.holds(s, w): return
        for w in g.unless:
            if self.holds(s, w): return
        for alt in g.require:
            ok = False
            for f in alt:
                if isinstance(f[0], tuple): ok = all(self.holds(s, x) for x in f)
                else: ok = self.holds(s, f)
                if not ok and v is not None and not isinstance(f[0], tuple) and f[0] in self.names(v): ok = True
                if ok: break
            if not ok:
                ip.report(fr, i, s, '%s although it is not established that %s' % (g.what, ' or '.join(self.say(f) for f in alt)), key='gate|%s|%s' % (g.what, alt[0]))

    def say(self, f):
        if isinstance(f[0], tuple): return ' and '.join(self.say(x) for x in f)
        n, a = f
        if '<=' in n: return n if a == 0 else '%s%+d' % (n, a)
        if a == ZERO: return '%s is 0' % n
        if a == NONZERO: return '%s is not 0' % n
        if a == ((1, 1),) and '(' in n and ',' in n: return n
        return '%s is in %s' % (n, ', '.join(str(x) if x == y else '%d..%s' % (x, y if y < FULL - 1 else '') for x, y in a))


def run(ctx, gates, allsites=()):
    """allsites: callees of which every call site in the program must lie in a root or a function it inlines"""
    from engine import driver
    total = 0
    for g in gates:
        keys = []
        for r in g.roots:
            fs = ctx.P.findall(r)
            if g.unit: fs = [f for f in fs if f.file.endswith(g.unit)]
            keys += [f.key for f in fs]
        if not keys:
            from rules.common import Broken
            raise Broken('function %s not found' % ', '.join(g.roots))
        o = driver.run(Gates, keys, {'gate': g}, 40000, jobs=None if len(keys) > 3 else 1)
        if o['errors']: raise Exception('%s: %s' % o['errors'][0])
        ctx.reports += o['reports']
        n = sum(d['sinks'] for d in o['data'].values())
        total += n
        c = ctx.coverage
        c['functions_analysed'] = c.get('functions_analysed', 0) + o['functions']
        c['abstract_states'] = c.get('abstract_states', 0) + o['stat'].get('states', 0)
        if o['incomplete']: c.setdefault('incomplete', []).extend(o['incomplete'])
        c.setdefault('gates', []).append({'gate': g.what, 'roots': g.roots, 'sink_evaluations': n, 'facts_required': len(g.require)})
        if n < g.least:
            from rules.common import Broken
            raise Broken('gate "%s": %d evaluations of the guarded operation' % (g.what, n))
    ctx.coverage['sink_evaluations'] = total
