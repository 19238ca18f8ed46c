"""set-before-use: nothing is decided by, stored from, returned from or handed on from a local variable, a member of a local
structure or a member of a newly allocated object which no statement has set on the way there, and no new object is handed
out with members which have not been set.

A value which has not been set is a term of its own (absint.undef). States in which a variable is set and states in which
it is not are never merged. What a callee does to the variable it is given the address of is computed for the callee on
demand: with which of its return values the variable may be left as it was, and whether it is read before. A report which
rests on that is confirmed with the callee's code in the caller's place."""
import os
from engine import absint, driver
from engine import expr as X
from engine.expr import term, addr, const
from engine.absint import ev, undef, undefs, Rule, assume
from engine.ir import callee_name
from rules.common import calls


class Sum:
    """what g does to the memory behind its parameter k: left (return intervals with which it may come back
    without having set it), reads (where it uses the value it finds there)"""
    def __init__(self): self.left = {}; self.reads = set()


class Uninit(Rule):
    name = 'uninit'
    max_depth = 3
    memo = {}

    def __init__(self, P, cg, mod, arg=None):
        absint.UNDEF = True
        self.P, self.cg, self.mod = P, cg, mod
        self.param = None; self.sum = None
        self.pend = {}
        self.data = {'locals': 0, 'outs': 0}

    def start(self, fn, s):
        self.top = fn
        if self.param is not None:
            p = s.env[(fn.key, self.param)]
            for o, bits, h in self.places:
                k = addr(p, o, (), h) if o or h else p
                s.mem[k] = undef(bits, ('in', o))
        return frozenset()

    def extra_key(self, s):
        return tuple(sorted([hash(k) for k, v in s.env.items() if undefs(v)])) + tuple(sorted([k.id for k, v in s.mem.items() if undefs(v)]))

    def private(self, s, r, aroots):
        """no one has been told of the variable yet"""
        return (r.op == 'al' or r.op == 't' and r.a[0][0] == 'x' and self.raw(s, r)) and r not in aroots and r not in s.q and ('s', r) not in s.q

    def raw(self, s, r): return any(X.root(k) is r and undefs(x) for k, x in s.mem.items())

    def inline(self, fn, depth, chain): return fn.name == '__pthread_cleanup_routine'

    def rep(self, ip, fr, s, i, u, how):
        via = u.a[0][2]
        if isinstance(via, tuple):
            self.sum.reads.add(via[1])
            return
        if self.param is not None: return
        self.hit = True
        ip.report(fr, i, s, 'uses a value which nothing has set: %s%s' % (how, ' (%s may return without setting it)' % self.cg.fk[via].name if via and 'read by' not in how else ''), key=how)
        ip.reports[(self.name, fr.fn.name, how)].setdefault('via', via)

    def on_alloca(self, ip, fr, s, i):
        if fr.depth == 0: self.data['locals'] += 1
        mark(ip, fr, s, i)

    def on_branch(self, ip, fr, s, i, cond, truth):
        u = undefs(cond)
        if u is None: return
        self.rep(ip, fr, s, i, u, 'decides a branch')
        dead = {t for t in cond.terms if t.a[0][0] == 'undef'}
        absint.drop_terms(s, frozenset(dead))

    def on_access(self, ip, fr, s, i, a):
        u = undefs(a)
        if u is not None: self.rep(ip, fr, s, i, u, 'as a pointer or index')

    def on_store(self, ip, fr, s, i, a, v):
        u = undefs(v)
        ra = X.root(a)
        if u is not None and i[3] != ['u'] and ra.op != 'al' and undefs(a) is None:      # (a plain undef is padding)
            self.rep(ip, fr, s, i, u, 'stored')
        # the address of the variable is stored: may be set by whoever finds it
        self.leak(s, v)
        n = v.bits // 8
        if n > 1 and a.op in ('addr', 'al') or n > 1:
            o = a.a[1] if a.op == 'addr' else 0
            for k in [k for k, x in s.mem.items() if X.root(k) is ra and undefs(x)]:
                ko = k.a[1] if k.op == 'addr' else 0
                if k is not a and o < ko < o + n: s.mem[k] = term(('set', k), s.mem[k].bits)
        if a.op == 'addr' and a.a[2]:
            for k in [k for k, x in s.mem.items() if X.root(k) is ra and undefs(x)]: s.mem[k] = term(('set', k), s.mem[k].bits)

    def leak(self, s, v):
        r = X.root(v)
        if r.op == 't':
            if ('s', r) not in s.q and self.raw(s, r) and r.a[0][0] == 'x': s.q = s.q | {('s', r)}
        elif r.op == 'al' and self.raw(s, r):
            if r not in s.q: s.q = s.q | {r}
            for k in [k for k, x in s.mem.items() if X.root(k) is r and undefs(x)]: s.mem[k] = term(('set', k), s.mem[k].bits)

    def out(self, ip, fr, s, i, r, how):
        """the new object is known elsewhere when the function returns"""
        if self.param is not None or ev(s, r) == ((0, 0),): return
        l = [(k.a[1], k.hint[1]) for k, x in s.mem.items() if X.root(k) is r and k.op == 'addr' and k.hint and undefs(x) and undefs(x).a[0][2] is None]
        # (the links of a list element are set when it is put into the list)
        if any(n not in ('ptr_prev', 'ptr_next') for _, n in l): ip.report(fr, i, s, '%s a new object without having set %s' % (how, ', '.join(n for _, n in sorted(l)[:4]) + (' ...' if len(l) > 4 else '')), key='out|' + how)

    def cells(self, s, a):
        """unset variables the argument is the address of: [(cell, offset, bits, hint)]"""
        if a.op == 'c' or a.op == 'addr' and a.a[2]: return []
        r = X.root(a); ao = a.a[1] if a.op == 'addr' else 0
        if a.op == 'addr' and a.hint:
            # a member: just that, unless it is a structure itself
            sz = ip_member(self.P, a.hint)
        else: sz = 1 << 30
        o = []
        for k, v in s.mem.items():
            if X.root(k) is not r or not undefs(v) or k.op == 'addr' and k.a[2]: continue
            ko = k.a[1] if k.op == 'addr' else 0
            if ao <= ko < ao + sz: o.append((k, ko - ao, v.bits, k.hint if k.op == 'addr' else None))
        return sorted(o, key=lambda x: x[1])

    def on_call(self, ip, fr, s, i, name, targets, args):
        self.todo = None
        if name and name.startswith('llvm.'): return None
        for k, a in enumerate(args):
            u = undefs(a)
            if u is not None and X.root(a).op != 'al': self.rep(ip, fr, s, i, u, 'passed to %s' % (name or 'a function'))
        todo = []
        gs = [g for g in targets if g.bb and not g.file.startswith('/usr/')]
        if len(gs) == len(targets) and 0 < len(gs) < 12 and not any(g.key in self.force for g in gs):
            for k, a in enumerate(args):
                if any(k >= len(g.params) for g in gs): continue
                cs = self.cells(s, a)
                if not cs: continue
                sms = [(g, self.summary(ip, g, k, tuple(c[1:] for c in cs))) for g in gs]
                if any(sm is None for g, sm in sms): continue
                self.data['outs'] += 1
                for c, o, bits, h in cs:
                    u = undefs(s.mem[c])
                    for g, sm in sms:
                        if o in sm.reads:
                            self.rep(ip, fr, s, i, undef(u.bits, g.key) if u.a[0][2] is None else u, '%sread by %s' % ('member %s ' % h[1] if h and o else '', g.name))
                    l = [(g, sm.left[o]) for g, sm in sms if sm.left.get(o)]
                    todo.append((c, tuple(x for g, y in l for x in y), u, l[0][0] if l else gs[0]))
        if todo: self.pend[(fr.ctx, i[1])] = todo
        return None

    def post_call(self, ip, fr, s, i, name, targets, args, ret):
        if targets or name is None:
            al = {X.root(a) for a in args if X.root(a).op in ('al', 't')} | s.q
            if al:
                un = {X.root(k) for k, x in s.mem.items() if undefs(x)}
                s.q = frozenset(x for x in al if (x[1] if isinstance(x, tuple) else x) in un)
        if name in RAW and ret is not None and ret.op == 't':
            typ = made(fr.fn, i)
            if typ:
                for k in [k for k in s.mem if X.root(k) is ret]: del s.mem[k]
                s.q = s.q - {ret, ('s', ret)}
                self.data['objects'] = self.data.get('objects', 0) + 1
                for o, b, h in ip.leaves(fr, ret, typ): s.mem[addr(ret, o, (), h)] = undef(b)
                return None
        ret = self.repeated(ip, fr, s, i, targets, args, ret)
        todo = self.pend.pop((fr.ctx, i[1]), None)
        if not todo: return None
        out = [s]
        groups = {}
        for c, left, u, g in todo: groups.setdefault((tuple(left), g), []).append((c, u))
        if len(groups) > 3: return None
        for (left, g), l in groups.items():
            def unset(w):
                for c, u in l: w.mem[c] = undef(u.bits, g.key if not isinstance(u.a[0][2], tuple) else u.a[0][2])
            # set by the callee, perhaps by another name
            for c, u in l:
                for st in out:
                    if c in st.mem and undefs(st.mem[c]): st.mem[c] = term(('set', c), u.bits)
            if not left: continue
            nxt = []
            for st in out:
                w = st.copy()
                if ret is None or any(x is None for x in left):
                    unset(w)
                    nxt += [st, w]
                    continue
                L = ()
                for x in left: L = X.union(L, x, ret.bits)
                if absint.refine(w, ret, L):
                    unset(w)
                    nxt.append(w)
                if absint.refine(st, ret, X.compl(L, ret.bits)): nxt.append(st)
            out = nxt
        return out

    def repeated(self, ip, fr, s, i, targets, args, ret):
        """a query which is made twice with the same arguments gives the same answer, unless something has been given the object to change it"""
        if len(targets) != 1 or targets[0].key in self.force: return ret
        m = self.mod.of(targets[0].key)
        if m is None: return ret
        w = {x[1] for x in m if x[0] == 'p'}
        if w:
            ch = {X.root(args[k]) for k in w if k < len(args)}
            dead = {t for e in list(s.facts) for t in e.terms if t.a[0][0] == 'q' and t.a[0][2] & ch}
            if dead: absint.drop_terms(s, frozenset(dead))
            return ret
        if ret is None or not args or i[5] == 'p' or not once(fr.fn, i): return ret
        t = term(('q', targets[0].key, frozenset(X.root(a) for a in args if a.op != 'c'), tuple(args)), ret.bits)
        s.env[(fr.ctx, i[1])] = t
        return t

    def on_ret(self, ip, fr, s, i, v):
        if v is not None:
            u = undefs(v)
            if u is not None: self.rep(ip, fr, s, i, u, 'returned')
            if v.op == 't': self.out(ip, fr, s, i, v, 'returns')
        for x in s.q:
            if isinstance(x, tuple): self.out(ip, fr, s, i, x[1], 'leaves')
        if self.param is not None:
            for u in {undefs(x) for x in s.mem.values()}:
                if u is None or not isinstance(u.a[0][2], tuple): continue
                o = u.a[0][2][1]
                if not any(undefs(x) is u and X.root(k).op == 't' and X.root(k).a[0] == ('p', self.top.key, self.param) and (k.a[1] if k.op == 'addr' else 0) == o for k, x in s.mem.items()): continue
                l = self.sum.left.setdefault(o, [])
                e = None if v is None else ev(s, v)
                if e not in l: l.append(e)

    def summary(self, ip, g, k, places):
        """None: g is taken to set it"""
        key = (g.key, k, places)
        if key in Uninit.memo: return Uninit.memo[key]
        Uninit.memo[key] = None     # recursion
        r = Uninit(self.P, self.cg, self.mod)
        r.param = k; r.sum = Sum(); r.places = places
        ip2 = absint.Interp(self.P, self.cg, self.mod, r)
        ip2.max_steps = 4000
        ip2.run(g)
        if ip2.incomplete: return None
        Uninit.memo[key] = r.sum
        return r.sum


def ip_member(P, h):
    for n, o, bits, t in P.structs.get(h[0], (0, ()))[1]:
        if n == h[1]: return max(1, bits // 8)
    return 1


RAW = {'rrr_allocate', 'rrr_allocate_group', 'malloc', 'mallocx'}


def made(f, i):
    """the structure the new object is used as"""
    t = {}
    for j in f.uses().get(i[1], ()):
        if j[0] == 'gep' and j[3] == i[1] and j[4] and j[4][0][0] == 'f' and j[4][0][1]: t[j[4][0][1]] = 1
    t = [x for x in t if 'union.' not in x]
    return t[0] if len(t) == 1 else None


_loops = {}
def once(f, i):
    """the instruction is not part of a loop, and the callee is called more than once"""
    o = _loops.get(f.key)
    if o is None:
        succ = {b: set() for b in range(len(f.bb))}
        for b, bl in enumerate(f.bb):
            t = bl[-1]
            if t[0] == 'br': succ[b] |= {t[4]} | ({t[5]} if t[3] is not None else set())
            elif t[0] == 'switch': succ[b] |= {t[4]} | {n for _, n in t[5]}
        o = set()
        for b in succ:
            seen = set(); todo = list(succ[b])
            while todo:
                x = todo.pop()
                if x in seen: continue
                seen.add(x); todo += succ.get(x, ())
            if b in seen: o |= {x[1] for x in f.bb[b] if x[0] == 'call'}
        n = {}
        for x in calls(f): n[callee_name(x)] = n.get(callee_name(x), 0) + 1
        o |= {x[1] for x in calls(f) if n[callee_name(x)] < 2}
        _loops[f.key] = o
    return i[1] not in o


def mark(ip, fr, s, i):
    """a local variable comes to life"""
    a = s.env[(fr.ctx, i[1])]
    t = i[3]
    if isinstance(t, str) and t.startswith('S:'):
        if 'union.' in t: return
        for o, b, h in ip.leaves(fr, a, t[2:]):
            s.mem[addr(a, o, (), h)] = undef(b)
    elif t in ('p', 'f') or isinstance(t, str) and t[0] == 'i' and t[1:].isdigit():
        s.mem[a] = undef(absint.tbits(t))


def keys(ctx): return sorted(f.key for f in ctx.P.uniq if f.bb)


def run(ctx, ks, jobs=None):
    o = driver.run(Uninit, ks, None, 12000, jobs)
    if o['errors']: raise Exception('%s: %s' % o['errors'][0])
    keep = []; gone = 0
    # what a callee may leave unset is confirmed with the callee's code in place
    for k, rs in sorted(o['byfn'].items()):
        for r in rs:
            force = frozenset()
            while r.get('via') and r['via'] not in force and len(force) < 3:
                force |= {r['via']}
                o2 = driver.run(Uninit, [k], None, 12000, 1, force)
                if o2['incomplete'] or o2['errors']: break
                names = {ctx.cg.fk[g].name for g in force}
                n = [x for x in o2['reports'] if x['line'] == r['line'] and x['function'] == r['function'] or x['function'] in names and len(x['chain']) > 1]
                if not n: r = None; break
                r = dict(r, via=n[0].get('via'))
            if r is None: gone += 1
            else: keep.append(r)
    u = {}
    for r in keep: u.setdefault((r['file'], r['line']), r)
    o['reports'] = [u[k] for k in sorted(u)]
    o['refined_away'] = gone
    return o


def check(ctx):
    o = run(ctx, keys(ctx))
    ctx.reports += o['reports']
    ctx.coverage['functions_analysed'] = o['functions']
    ctx.coverage['incomplete'] = o['incomplete']
    ctx.coverage['abstract_states'] = o['stat'].get('states', 0)
    ctx.floor('objects_followed', sum(d.get('objects', 0) for d in o['data'].values()), 100)
    ctx.floor('variables_followed', sum(d['locals'] for d in o['data'].values()), 2000)
    ctx.floor('calls_which_set_a_variable', sum(d['outs'] for d in o['data'].values()), 300)
