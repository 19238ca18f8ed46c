"""Lock discipline: every lock taken is released on every way out, nothing is released
that was not taken, nothing non-recursive is taken twice, waits hold their mutex, and
shared state is touched only under its lock."""
from engine.absint import Rule, ev, cls, refine
from engine import expr as X
from engine.ir import callee_name
from engine import driver
from .common import *
from . import nullalloc

LOCK = {'pthread_mutex_lock': 'm', 'pthread_rwlock_rdlock': 'r', 'pthread_rwlock_wrlock': 'w', 'pthread_spin_lock': 'm'}
TRY = {'pthread_mutex_trylock': 'm', 'pthread_rwlock_tryrdlock': 'r', 'pthread_rwlock_trywrlock': 'w', 'pthread_mutex_timedlock': 'm',
       'pthread_rwlock_timedrdlock': 'r', 'pthread_rwlock_timedwrlock': 'w'}
UNLOCK = {'pthread_mutex_unlock', 'pthread_rwlock_unlock', 'pthread_spin_unlock'}
WAIT = {'pthread_cond_wait', 'pthread_cond_timedwait'}
PRIMS = set(LOCK) | set(TRY) | UNLOCK | WAIT
EOWNERDEAD = 130
DEBUG = False

# Functions whose contract is to return with a lock taken, or to release one their
# caller took: (effect, parameter). Callers see the contract, and each of these
# bodies is itself checked against it.
HOLDER = ('rrr_msg_holder', 'lock')
CONTRACT = {
    'rrr_posix_mutex_robust_lock': ('try', 0),
    'rrr_posix_mutex_robust_trylock': ('try', 0),
    'rrr_msg_holder_lock': ('lock', 0),
    'rrr_msg_holder_lock_double': ('lock2', 0),
    'rrr_msg_holder_unlock': ('unlock', 0),
    'rrr_msg_holder_unlock_void': ('unlock', 0),
    'rrr_msg_holder_decref_while_locked_and_unlock': ('unlock', 0),
    'rrr_msg_holder_decref_while_locked_and_unlock_void': ('unlock', 0),
}


def item(a):
    r = X.root(a)
    if a.op == 'addr' and a.hint: return '.'.join(a.hint)
    if r.op == 'gl': return '@' + r.a[0].split('@')[0]
    return None


def lclass(e):
    """class of a lock address: struct.field or global"""
    if e.op == 'addr' and e.hint: return '.'.join(e.hint)
    if e.op == 'gl': return '@' + e.a[0].split('@')[0]
    r = X.root(e)
    if r.op == 'gl': return '@' + r.a[0].split('@')[0]
    if e.op == 't':
        k = e.a[0]
        if k[0] in ('m0', 'k') :
            c = k[-1]
            if getattr(c, 'hint', None): return '*' + '.'.join(c.hint)
        if k[0] == 'm0' and hasattr(k[1], 'op') and k[1].op == 'addr' and k[1].hint: return '*' + '.'.join(k[1].hint)
    return '?' + X.show(e)


class Locks(Rule):
    name = 'lock'
    max_depth = 12

    def __init__(self, P, cg, mod, arg):
        self.P = P; self.cg = cg
        self.inl = arg['inline']; self.pre = arg.get('pre') or {}
        self.mode = arg.get('mode', 'plain')
        self.contract = {k: v for k, v in CONTRACT.items() if ('holder' in k) == (self.mode == 'holder')}
        self.skip = {k for k in CONTRACT if 'holder' in k} if self.mode == 'plain' else ()
        self.hoff = [f[1] for f in P.structs[HOLDER[0]][1] if f[0] == HOLDER[1]][0]
        self.data0 = None
        self.cleanup = arg.get('cleanup', ())
        self.data = {'ops': set(), 'unbalanced': False, 'site': {}, 'acq': set(), 'order': {}, 'access': {}, 'need': set(), 'leak': False}
        self.guard = arg.get('guard') or {}
        self.top = None

    def start(self, fn, s):
        self.top = fn
        c = self.contract.get(fn.name)
        self.prims = self.mode == 'plain' or fn.name in CONTRACT
        self.final = 0
        q = ()
        if c:
            if c[0] == 'unlock': q = ((self.target(fn, fn.params and s.env[(fn.key, c[1])], c), 'm', 'the caller'),)
        for k in self.pre.get(fn.key, ()):
            q += ((self.holder(s.env[(fn.key, k)]), 'm', 'the caller'),)
        return q

    def holder(self, e):
        return X.addr(e, self.hoff, (), HOLDER)

    def target(self, fn, e, c):
        return self.holder(e) if 'holder' in fn.name else e

    def inline(self, fn, depth, chain):
        if fn.key in self.inl or fn.name == '__pthread_cleanup_routine': return True
        return self.mode == 'holder' and fn.name in ('rrr_msg_holder_new', 'rrr_msg_holder_clone_no_data', 'rrr_msg_holder_clone_no_locking_no_metadata')

    def _acq(self, ip, fr, s, i, e, kind):
        c = lclass(e)
        self.data['acq'].add(c)
        for h, k, site in s.q:
            self.data['order'].setdefault((lclass(h), c), '%s:%d' % (fr.fn.file, i[2]))
        if c not in RECURSIVE:
            for h, k, site in s.q:
                if h is e and not (kind == 'r' and k == 'r'):
                    ip.report(fr, i, s, 'lock %s is taken again while already held (taken at %s)' % (c, site), key='double|' + c)
        if self._many(fr.fn, i): return
        me = (e, kind, '%s:%d' % (fr.fn.file, i[2]))
        if sum(1 for x in s.q if x[2] == me[2]) < 2: s.q = s.q + (me,)

    def on_call(self, ip, fr, s, i, name, targets, args):
        if name in self.skip: return [(s, X.term(('lk', fr.ctx, i[1]), 32))]
        if name in PRIMS:
            if not self.prims: return [(s, X.term(('lk', fr.ctx, i[1]), 32))]
            self.data['ops'].add((fr.fn.file, i[2]))
        c = self.contract.get(name)
        # what is locked or unlocked is there
        k = c[1] if c is not None else 0 if name in LOCK or name in UNLOCK else None
        if k is not None and k < len(args):
            r = X.root(args[k])
            if r.op == 't' and not refine(s, r, ((1, (1 << 64) - 1),)): return []
        if c is not None:
            e = args[c[1]]
            if c[0] == 'try':
                n = s.copy()
                self._acq(ip, fr, n, i, e, 'm')
                t = X.term(('lk', fr.ctx, i[1]), 32)
                m = s.copy()
                m.facts[t] = ((1, 2),)
                return [(n, X.const(0, 32)), (m, t)]
            e = self.holder(e)
            if c[0] == 'unlock': self._rel(ip, fr, s, i, e)
            else:
                for n in range(2 if c[0] == 'lock2' else 1): self._acq(ip, fr, s, i, e, 'm')
            return [(s, None)]
        if targets:
            ks = set()
            for t in targets: ks |= set(self.pre.get(t.key, ()))
            if ks and not any(t.key in self.inl for t in targets):
                self._site(fr, s, i, targets)
                for k in ks:
                    if k < len(args): self._rel(ip, fr, s, i, self.holder(args[k]))
                return None
        if name in LOCK:
            used = i[1] in fr.fn.uses()
            out = []
            n = s if not used else s.copy()
            self._acq(ip, fr, n, i, args[0], LOCK[name])
            out.append((n, X.const(0, 32)))
            if used:
                n = s.copy()
                self._acq(ip, fr, n, i, args[0], LOCK[name])
                out.append((n, X.const(EOWNERDEAD, 32)))
                n = s.copy()
                t = X.term(('lk', fr.ctx, i[1]), 32)
                n.facts[t] = X.norm([(1, EOWNERDEAD - 1), (EOWNERDEAD + 1, 200)], 8)
                out.append((n, t))
            return out
        if name in TRY:
            n = s.copy()
            self._acq(ip, fr, n, i, args[0], TRY[name])
            out = [(n, X.const(0, 32))]
            n = s.copy()
            self._acq(ip, fr, n, i, args[0], TRY[name])
            if TRY[name] == 'm': out.append((n, X.const(EOWNERDEAD, 32)))
            t = X.term(('lk', fr.ctx, i[1]), 32)
            n = s.copy()
            n.facts[t] = X.norm([(1, EOWNERDEAD - 1), (EOWNERDEAD + 1, 200)], 8)
            out.append((n, t))
            # a robust mutex is the only kind that reports a dead owner
            if not self._robust(fr, args[0]): out = [o for o in out if not (o[1].op == 'c' and X.cval(o[1]) == EOWNERDEAD)]
            return out
        if name in UNLOCK:
            self._rel(ip, fr, s, i, args[0])
            return [(s, X.const(0, 32))]
        if name in WAIT:
            m = args[1]
            if not any(h is m or lclass(h) == lclass(m) for h, k, x in s.q):
                self.data['unbalanced'] = True
                ip.report(fr, i, s, 'waits on a condition without holding mutex %s' % lclass(m), key='wait|' + lclass(m))
            return None
        if targets: self._site(fr, s, i, targets)
        return None

    def _site(self, fr, s, i, targets):
            held = frozenset(lclass(h) for h, k, x in s.q)
            for t in targets:
                k = (fr.fn.key, i[1], t.key)
                if self.top.key in self.inl: break
                o = self.data['site'].get(k)
                self.data['site'][k] = (held if o is None else o[0] & held, i[2], (o[2] | held) if o else held)

    def _many(self, fn, i):
        """an acquisition in a loop which releases nothing: every element of a list is locked first,
        and all of them are released later"""
        if self.mode != 'holder': return False
        return i[1] in many(fn)

    def _robust(self, fr, e):
        return fr.fn.name.startswith('rrr_posix_mutex_robust')

    def _rel(self, ip, fr, s, i, e):
        q = s.q
        for n in range(len(q) - 1, -1, -1):
            if q[n][0] is e:
                s.q = q[:n] + q[n + 1:]
                return
        if c0_many(self, fr.fn): return
        c = lclass(e)
        m = [n for n in range(len(q)) if lclass(q[n][0]) == c]
        if m:
            n = m[-1]
            s.q = q[:n] + q[n + 1:]
            return
        self.data['unbalanced'] = True
        if c == '.'.join(HOLDER) and e.op == 'addr':
            b = e.a[0]
            if b.op == 't' and b.a[0][0] == 'p' and b.a[0][1] == self.top.key: self.data['need'].add(b.a[0][2])
        ip.report(fr, i, s, 'lock %s is released but is not held on this path' % c, key='unheld|' + c)

    def on_ret(self, ip, fr, s, i, v):
        c = self.contract.get(fr.fn.name)
        if c and c[0] != 'unlock':
            e = s.env.get((fr.ctx, c[1])) or X.term(('p', fr.fn.key, c[1]), 64)
            e = self.target(fr.fn, e, c)
            n = sum(1 for h in s.q if h[0] is e)
            want = {'lock': (1,), 'lock2': (2,), 'try': None}[c[0]]
            if c[0] == 'try':
                z = ev(s, v)
                want = (1,) if z == ((0, 0),) else (0,) if not X.has(z, 0) else (7,)
            if n not in want or len(s.q) != n:
                ip.report(fr, i, s, 'the lock is held %d times on return with result %s, contrary to the contract of this function' % (n, X.show(v) if v is not None else ''), key='contract')
            return
        if s.q:
            self.data['unbalanced'] = True
            for h, k, site in s.q:
                if self.mode == 'holder':
                    b = X.root(h)
                    # an entry the caller cannot name is never left locked for it on purpose
                    if not (b.op == 't' and b.a[0][0] == 'p') and not (v is not None and X.root(v) is b): self.data['leak'] = True
                ip.report(fr, i, s, 'returns with lock %s still held (taken at %s)' % (lclass(h), site), key='leak|' + lclass(h))

    def _acc(self, fr, s, i, a, w):
        r = X.root(a)
        if r.op == 'al': return
        if self.guard == '*' and r.op == 't' and r.a[0][0] == 'x' and fresh_object(self.cg, fr, r): return
        k = item(a)
        if k is None or (self.guard != '*' and k not in self.guard): return
        held = frozenset(lclass(x) for x, kd, st in s.q)
        key = (fr.fn.key, i[1], k, w)
        o = self.data['access'].get(key)
        self.data['access'][key] = (held if o is None else o[0] & held, i[2])

    def on_load(self, ip, fr, s, i, a, v): self._acc(fr, s, i, a, False)
    def on_store(self, ip, fr, s, i, a, v): self._acc(fr, s, i, a, True)


RECURSIVE = {'rrr_msg_holder.lock'}


def fresh_object(cg, fr, t):
    """result of an allocation in this activation"""
    ctx, iid = t.a[0][1], t.a[0][2]
    if ctx != fr.ctx: return False
    i = fr.fn.ins().get(iid)
    return i is not None and i[0] == 'call' and callee_name(i) in nullalloc.BASE


def direct(P, names):
    out = set()
    for f in P.uniq:
        for i in calls(f):
            if callee_name(i) in names:
                out.add(f.key)
                break
    return out


def handlers(P, cg):
    """functions whose address only goes into pthread_cleanup_push frames -> their users"""
    users = {}; other = set()
    from engine.ir import operands

    def walk(unit, v, frame):
        if isinstance(v, list) and v:
            if v[0] == 'st':
                for fn_, o, x in v[2]: walk(unit, x, 'pthread_cleanup' in v[1])
            elif v[0] == 'arr':
                for x in v[1]: walk(unit, x, frame)
            elif v[0] == 'g':
                k = cg.fkey(unit, v[1])
                if k and not frame: other.add(k)
    for (unit, n), g in P.globals.items():
        if g[3] is not None: walk(unit, g[3], False)
    for f in P.uniq:
        for bl in f.bb:
            for i in bl:
                ops = i[4] if i[0] == 'call' else operands(i)
                for o in ops:
                    if not (isinstance(o, list) and o and o[0] == 'g'): continue
                    if i[0] == 'call' and 'clframe' in o[1]:
                        g = P.glob(f, o[1])
                        if g and g[3] and g[3][0] == 'st':
                            for fn_, off, x in g[3][2]:
                                if x and x[0] == 'g': users.setdefault(cg.fkey(f, x[1]), set()).add(f.key)
                        continue
                    k = cg.fkey(f, o[1])
                    if not k: continue
                    if i[0] == 'store':
                        p = i[4]
                        gi = f.ins().get(p) if isinstance(p, int) else None
                        at = f.ins().get(gi[3]) if gi is not None and gi[0] == 'gep' and isinstance(gi[3], int) else gi
                        if at is not None and at[0] == 'alloca' and 'pthread_cleanup' in str(at[3]):
                            users.setdefault(k, set()).add(f.key)
                            continue
                    other.add(k)
    return {k: u for k, u in users.items() if k not in other}


def close(ctx, mode, guard=None):
    """fixpoint over helpers that change the set of held locks"""
    P, cg = ctx.P, ctx.cg
    taken = cg.taken()
    callers = cg.callers()
    hand = handlers(P, cg)
    pre = {}
    cs = {k for k in CONTRACT if ('holder' in k) == (mode == 'holder')}
    base = direct(P, PRIMS | cs if mode == 'plain' else cs)
    if mode == 'plain': base = {k for k in base if 'rrr_msg_holder_lock' not in k and not (cg.fk[k].name in CONTRACT and 'holder' in cg.fk[k].name)}
    else: base |= {f.key for f in P.uniq if f.name in cs}
    inl = set()
    for k in base:
        if k in hand and cg.fk[k].name not in CONTRACT: inl.add(k)
    for k in set(base):
        if k in hand: base |= hand[k]
    rounds = 0
    data = {}
    reports = {}
    todo = set(base)
    while True:
        rounds += 1
        o = driver.run(Locks, sorted(todo), {'inline': frozenset(inl), 'guard': guard, 'pre': pre, 'mode': mode}, 30000)
        if DEBUG: print('round', rounds, len(todo), o['stat'], o['slow'], o['incomplete'], flush=True)
        if o['errors']: raise Broken('%s: %s' % o['errors'][0])
        if o['incomplete']: ctx.coverage['incomplete'] = sorted(set(ctx.coverage.get('incomplete', [])) | set(o['incomplete']))
        for k in todo: reports[k] = []
        for k, rs in o['byfn'].items(): reports[k] = rs
        data.update(o['data'])
        new = set(); newpre = set()
        for k, d in o['data'].items():
            if d['need'] and k not in inl and cg.fk[k].name not in CONTRACT and not d['need'] <= pre.get(k, set()):
                pre[k] = pre.get(k, set()) | d['need']
                newpre.add(k)
        # functions in the same callback slot share the contract
        for k in list(newpre):
            for sib in siblings(cg, k):
                if pre.get(sib, set()) != pre[k]:
                    pre[sib] = set(pre[k])
                    newpre.add(sib)
        for k, d in o['data'].items():
            f = cg.fk[k]
            if k in newpre or d['leak']: continue
            if d['unbalanced'] and k not in inl and f.name not in CONTRACT:
                if callers.get(k) and (f.internal and k not in taken or f.file.endswith('.h')): new.add(k)
                elif k in hand: new.add(k)
        if not new and not newpre: break
        inl |= new
        todo = set(newpre)
        for k in new | newpre:
            for c, i in callers.get(k, ()): todo.add(c.key)
            if k in new: todo |= hand.get(k, set())
        base |= todo
        if rounds > 12: raise Broken('lock helper inference does not settle')
    return inl, base, data, reports, pre


_many = {}


def many(f):
    """acquisition sites of holder locks in loops with no release"""
    if f in _many: return _many[f]
    rel = {}; acq = {}
    for b, bl in enumerate(f.bb):
        for i in bl:
            if i[0] == 'call':
                n = callee_name(i)
                c = CONTRACT.get(n)
                if n is None or (c is None or c[0] == 'unlock') and not n.startswith('llvm.'): rel[b] = 1
                if c and c[0] in ('lock',): acq.setdefault(b, []).append(i[1])
    out = set()
    if acq:
        comp = sccs(f)
        for b, l in acq.items():
            c = comp.get(b)
            if c is None: continue
            if not any(comp.get(x) == c for x in rel): out |= set(l)
    _many[f] = out
    return out


def c0_many(rule, f):
    return rule.mode == 'holder' and bool(many(f))


def sccs(f):
    """block -> id of its non-trivial strongly connected component"""
    succ = f.succ()
    n = len(succ)
    idx = {}; low = {}; st = []; on = set(); out = {}
    cnt = 0; comp = 0
    for r in range(n):
        if r in idx: continue
        work = [(r, 0)]
        while work:
            v, k = work.pop()
            if k == 0:
                idx[v] = low[v] = cnt; cnt += 1
                st.append(v); on.add(v)
            rec = False
            for j in range(k, len(succ[v])):
                w = succ[v][j]
                if w not in idx:
                    work.append((v, j + 1)); work.append((w, 0))
                    rec = True
                    break
                if w in on: low[v] = min(low[v], idx[w])
            if rec: continue
            if low[v] == idx[v]:
                c = []
                while True:
                    w = st.pop(); on.discard(w); c.append(w)
                    if w == v: break
                if len(c) > 1 or v in succ[v]:
                    for w in c: out[w] = comp
                    comp += 1
            if work:
                u = work[-1][0]
                low[u] = min(low[u], low[v])
    return out


def siblings(cg, k):
    """functions that can be called from an indirect call site that can call k"""
    if not hasattr(cg, '_sib'):
        cg._sib = {}
        for f in cg.P.uniq:
            for i in calls(f):
                if not callee_name(i):
                    ts = {t.key for t in cg.targets(f, i)[0]}
                    for t in ts: cg._sib.setdefault(t, set()).update(ts)
    return cg._sib.get(k, set()) - {k}




# ------------------------------------------------------------------ checks

def _final(ctx, reports, inl):
    for k in sorted(reports):
        if k not in inl: ctx.reports.extend(reports[k])


def _count(ctx, data, base):
    ctx.coverage['functions_with_lock_operations'] = len(base)
    ctx.coverage['functions_analysed'] = len(data)
    ops = set()
    for d in data.values(): ops |= d['ops']
    ctx.coverage['lock_operations'] = len(ops)
    return ops


def check_balance(ctx):
    """pthread mutexes and rwlocks"""
    inl, base, data, reports, pre = close(ctx, 'plain')
    ops = _count(ctx, data, base)
    ctx.floor('lock_operations', len(ops), 150)
    ctx.coverage['helpers_inlined'] = len(inl)
    _final(ctx, reports, inl)
    lock_order(ctx, inl, data)
    ctx.explain('typestate over every function with a lock operation, including error paths, pthread_cleanup handlers and robust-mutex recovery: held locks are '
                'released exactly once on every way out, nothing is released or waited on that is not held, nothing non-recursive is taken twice; '
                'lock classes are acquired in an acyclic order along direct calls')


def many_pairs(ctx):
    """functions that lock every element of a list in one loop release them in another loop"""
    n = 0
    for f in ctx.P.uniq:
        m = many(f)
        if not m: continue
        comp = sccs(f)
        acq = set(); rel = set(); where = None
        for b, bl in enumerate(f.bb):
            for i in bl:
                if i[0] != 'call': continue
                if i[1] in m:
                    acq.add(comp[b]); where = i
                elif CONTRACT.get(callee_name(i), ('',))[0] == 'unlock' and comp.get(b) is not None: rel.add(comp[b])
        n += len(acq)
        if len(rel - acq) < len(acq):
            ctx.report(f, where, 'entries are locked in a loop but there is no loop that unlocks them', 'many|' + f.name)
    ctx.coverage['list_lock_loops'] = n


def check_holder(ctx):
    """the lock of message entries, across poll and broker callbacks"""
    inl, base, data, reports, pre = close(ctx, 'holder')
    n = sum(1 for f in ctx.P.uniq for i in calls(f) if callee_name(i) in CONTRACT and 'holder' in callee_name(i))
    _count(ctx, data, base)
    ctx.floor('entry_lock_operations', n, 80)
    ctx.coverage['functions_entered_locked'] = len(pre)
    ctx.floor('functions_entered_locked_n', len(pre), 30)
    _final(ctx, reports, inl)
    many_pairs(ctx)
    ctx.explain('typestate of the message entry lock: a function entered with a locked entry (inferred from its unlocks and shared by every function in the same callback slot) '
                'releases it exactly once on every path, and every function that locks an entry releases it or hands it on')


def lock_order(ctx, inl, data):
    P, cg = ctx.P, ctx.cg
    g = {f.key: {t.key for i in calls(f) if callee_name(i) and callee_name(i) != '__pthread_cleanup_routine' for t in cg.targets(f, i)[0]} for f in P.uniq}
    own = {k: d['acq'] for k, d in data.items()}
    rev = {}
    for k, ts in g.items():
        for t in ts: rev.setdefault(t, set()).add(k)
    may = {k: set(own.get(k, ())) for k in g}
    for k in g:
        if cg.fk[k].file.startswith('src/lib/log'): may[k] = set()
    work = [k for k in may if may[k]]
    while work:
        k = work.pop()
        for c in rev.get(k, ()):
            if cg.fk[c].file.startswith('src/lib/log'): continue
            if not may[k] <= may[c]:
                may[c] |= may[k]
                work.append(c)
    edges = {}
    for k, d in sorted(data.items()):
        if k in inl: continue
        for (a, b), site in d['order'].items(): edges.setdefault((a, b), (k, k, int(site.rsplit(':', 1)[1])))
        for (ck, iid, t), (held, line, mh) in d['site'].items():
            if t not in g.get(ck, ()): continue
            for h in mh:
                for b in may.get(t, ()): edges.setdefault((h, b), (ck, t, line))
    adj = {}
    for a, b in edges:
        if a != b and a[0] != '?' and b[0] != '?': adj.setdefault(a, set()).add(b)
    ctx.coverage['lock_order_edges'] = sum(len(v) for v in adj.values())
    # cycles
    seen = set()

    def path(a, b):
        st = [(a, (a,))]; vis = {a}
        while st:
            x, p = st.pop()
            for y in sorted(adj.get(x, ())):
                if y == b: return p + (y,)
                if y not in vis:
                    vis.add(y)
                    st.append((y, p + (y,)))
        return None
    for a, b in sorted(edges):
        if a == b or b not in adj: continue
        p = path(b, a)
        if p:
            cyc = frozenset(p)
            if cyc in seen: continue
            seen.add(cyc)
            k, t, line = edges[(a, b)]
            f = cg.fk[k]
            k2, t2, l2 = edges[(p[-2], a)]
            ctx.report(f, None, 'lock %s is taken while %s is held, but elsewhere (%s:%d) the order is the opposite' % (b, a, cg.fk[k2].file, l2), 'lock-order', line=line,
                       chain=[f.name, cg.fk[t].name], key='|'.join(sorted(cyc)))
    # the same global lock again in a callee
    for (a, b), (k, t, line) in sorted(edges.items()):
        if a == b and a[0] == '@' and a not in RECURSIVE and k != t:
            f = cg.fk[k]
            ctx.report(f, None, 'calls %s, which takes lock %s that is already held' % (cg.fk[t].name, a), 'lock-order', line=line, chain=[f.name, cg.fk[t].name], key='self|' + a)


# state -> the lock that guards it
GUARD = {}
for _l in """@errors @lock
@first_ctx @perl5_ctx_lock
rrr_perl5_ctx.next @perl5_ctx_lock
@first_exit_cleanup_method @exit_cleanup_lock
rrr_exit_cleanup_method.* @exit_cleanup_lock
@main_python_tstate @main_python_lock
@python_users @main_python_lock
@mysql_users @mysql_global_lock
@perl5_initialized @perl5_init_lock
@perl5_users @perl5_init_lock
@rrr_log_hooks @rrr_log_hook_lock
@rrr_log_hook_handle_pos @rrr_log_hook_lock
@rrr_openssl_global_usercount @rrr_openssl_global_lock
@rrr_rand_initialized @rrr_rand_lock
@rrr_umask_global @rrr_umask_lock
@rrr_umask_global_was_set @rrr_umask_lock
@shm_holders @shm_holders_lock
rrr_shm_holder.* @shm_holders_lock
rrr_shm_holder_collection.* @shm_holders_lock
journal_data.delivery_queue journal_data.delivery_lock
journal_data.is_in_hook journal_data.delivery_lock
journal_data.delivery_queue_sleep_event_count journal_data.delivery_lock
journal_queue.* journal_data.delivery_lock
journal_queue_entry.* journal_data.delivery_lock
rrr_fifo_protected.gptr_first rrr_fifo_protected.rwlock
rrr_fifo_protected.gptr_last rrr_fifo_protected.rwlock
rrr_fifo_protected.gptr_write_queue_first rrr_fifo_protected.write_queue_mutex
rrr_fifo_protected.gptr_write_queue_last rrr_fifo_protected.write_queue_mutex
rrr_fifo_protected.stats rrr_fifo_protected.stats_mutex
rrr_fork.pid rrr_fork_handler.lock
rrr_fork.exit_notify rrr_fork_handler.lock
rrr_fork.exit_notify_arg rrr_fork_handler.lock
rrr_fork.parent_pid rrr_fork_handler.lock
rrr_fork.was_waited_for rrr_fork_handler.lock
rrr_message_broker.ptr_first rrr_message_broker.lock
rrr_message_broker.ptr_last rrr_message_broker.lock
rrr_message_broker.node_count rrr_message_broker.lock
rrr_message_broker_costumer.ptr_next rrr_message_broker.lock
rrr_message_broker_costumer.ptr_prev rrr_message_broker.lock
rrr_mmap.* rrr_mmap_collection.index_lock
rrr_mmap_collection.allocation_limit rrr_mmap_collection.index_lock
rrr_mmap_collection.mmap_count rrr_mmap_collection.index_lock
rrr_mmap_heap_block_index.block_used_map rrr_mmap_collection.index_lock
rrr_mmap_channel.entry_count rrr_mmap_channel.index_lock
rrr_mmap_channel.cleanup_needed rrr_mmap_channel.index_lock
rrr_mmap_channel.write_full_counter rrr_mmap_channel.index_lock
rrr_msg_holder_slot.entry rrr_msg_holder_slot.lock
rrr_msg_holder_slot.reader_count rrr_msg_holder_slot.lock
rrr_msg_holder_slot.total_entries_written rrr_msg_holder_slot.lock
rrr_msg_holder_slot.total_entries_deleted rrr_msg_holder_slot.lock
rrr_signal_handler_collection.ptr_last @signal_lock
rrr_signal_handler_collection.node_count @signal_lock
rrr_socket_holder.* @socket_lock
rrr_socket_holder_collection.* @socket_lock
rrr_socket_private_data.* @socket_lock
rrr_socket_private_data_collection.* @socket_lock
rrr_stats_engine.in_send_ctx_tid rrr_stats_engine.log_stream_lock
rrr_stats_engine.log_stream rrr_stats_engine.log_stream_lock
rrr_stats_engine.message_pairs rrr_stats_engine.log_stream_lock
rrr_stats_named_message_list.* rrr_stats_engine.main_lock
rrr_stats_named_message_list_collection.* rrr_stats_engine.main_lock
rrr_strerror_collection.* @lock
rrr_strerror_node.* @lock""".splitlines():
    _a, _b = _l.split()
    GUARD[_a] = _b


def guard_of(it):
    g = GUARD.get(it)
    if g is None and it[0] != '@': g = GUARD.get(it.split('.')[0] + '.*')
    return g


def syntactic_item(f, p):
    if isinstance(p, int):
        g = f.ins().get(p)
        if g is not None and g[0] == 'gep':
            fs = [x for x in g[4] if x[0] == 'f']
            if fs: return '%s.%s' % (fs[-1][1], fs[-1][2])
            return syntactic_item(f, g[3]) if not isinstance(g[3], int) else None
        return None
    if p[0] == 'g': return '@' + p[1]
    if p[0] == 'ge':
        fs = [x for x in p[2] if x[0] == 'f']
        if fs: return '%s.%s' % (fs[-1][1], fs[-1][2])
        return syntactic_item(f, p[1]) if isinstance(p[1], list) else None
    return None


def local_root(f, p):
    """address inside a local variable of this function"""
    while isinstance(p, int):
        g = f.ins().get(p)
        if g is None: return False
        if g[0] == 'gep': p = g[3]
        else: return g[0] == 'alloca'
    return False


def check_guarded(ctx):
    P, cg = ctx.P, ctx.cg
    inl, base, data, reports, pre = close(ctx, 'plain', '*')
    callers = cg.callers()
    # call sites: what is certainly held, as seen from each function analysed on its own
    sites = {}
    for k, d in data.items():
        if k in inl: continue
        for (ck, iid, t), (held, line, may) in d['site'].items():
            sites.setdefault((ck, iid, t), []).append((k, held))
    entry = {f.key: None for f in P.uniq}
    for f in P.uniq:
        if not callers.get(f.key): entry[f.key] = frozenset()
    work = [k for k, v in entry.items() if v is not None]
    out = {}
    for t, cs in callers.items():
        for c, i in cs: out.setdefault(c.key, []).append((i[1], t))
    # functions analysed inline pass locksets on through the function they were inlined into
    via = {}
    for (ck, iid, t), l in sites.items():
        for k, h in l: via.setdefault(k, []).append((ck, iid, t))
    while work:
        k = work.pop()
        e0 = entry[k]
        if e0 is None: continue
        todo = [(k, iid, t) for iid, t in out.get(k, ())] + via.get(k, [])
        for ck, iid, t in todo:
            l = sites.get((ck, iid, t))
            if l:
                h = None
                for top, held in l:
                    e = entry[top]
                    if e is None: continue
                    x = held | e
                    h = x if h is None else h & x
                if h is None: continue
            elif ck in inl: continue
            else:
                if entry[ck] is None: continue
                h = entry[ck]
            o = entry[t]
            n = h if o is None else o & h
            if n != o:
                entry[t] = n
                work.append(t)
    # initialisers and destructors of the object that contains the lock
    initd = {}
    for f in P.uniq:
        for i in calls(f):
            n = callee_name(i) or ''
            if ('mutex' in n or 'rwlock' in n) and ('init' in n or 'destroy' in n) and 'attr' not in n:
                for a in i[4]:
                    it = syntactic_item(f, a) if not isinstance(a, int) or f.ins().get(a) else None
                    if it: initd.setdefault(f.key, set()).add(it)
    extra = []
    for f in P.uniq:
        if f.key in data: continue
        for bl in f.bb:
            for i in bl:
                if i[0] in ('load', 'store'):
                    p = i[3] if i[0] == 'load' else i[4]
                    it = syntactic_item(f, p)
                    if it and guard_of(it) and not local_root(f, p):
                        extra.append(f.key)
                        break
            else: continue
            break
    o = driver.run(Locks, sorted(extra), {'inline': frozenset(), 'guard': '*', 'pre': {}, 'mode': 'plain'}, 20000)
    if o['errors']: raise Broken('%s: %s' % o['errors'][0])
    data = dict(data)
    data.update(o['data'])
    acc = {}
    for k, d in data.items():
        if k in inl: continue
        for (fk, iid, it, w), (held, line) in d['access'].items():
            h = held | (entry[k] or frozenset())
            o = acc.get((fk, iid, it, w))
            acc[(fk, iid, it, w)] = (h if o is None else o[0] & h, line)
    n = 0
    items = set()
    for (fk, iid, it, w), (held, line) in sorted(acc.items()):
        g = guard_of(it)
        if g is None: continue
        f = cg.fk[fk]
        if it == g or it.split('.')[-1] == g.split('.')[-1]: continue
        n += 1
        items.add(it)
        if g in held or g in initd.get(fk, ()): continue
        ctx.report(f, None, '%s of %s without holding %s' % ('write' if w else 'read', it, g), 'guarded-state', line=line, key='%s|%s' % (it, 'w' if w else 'r'))
    ctx.floor('guarded_accesses', n, 500)
    ctx.floor('guarded_items', len(items), 80)
    ctx.coverage['functions_analysed'] = len(data)
    ctx.explain('lockset analysis: the locks certainly held at every access, intersected over all paths and (for helpers and callbacks) over all resolved callers; '
                'each access to an item of the guarded-state table must hold its lock')
