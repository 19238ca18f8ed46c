"""alloc-checked: an allocation that may have failed is never dereferenced, and a
function never reports success after a failed allocation it was asked to make."""
from engine.absint import Rule, ev, cls
from engine import expr as X
from engine.ir import callee_name
from engine.driver import load

BASE = {'malloc', 'calloc', 'realloc', 'strdup', 'strndup', 'mallocx', 'rallocx', 'rrr_allocate', 'rrr_allocate_zero', 'rrr_callocate',
        'rrr_allocate_group', 'rrr_allocate_group_zero', 'rrr_reallocate', 'rrr_reallocate_group', 'rrr_strdup', '__rrr_reallocate'}
# library functions that dereference a pointer argument unconditionally
LIBDEREF = {'memcpy': (0, 1), 'memmove': (0, 1), 'memset': (0,), 'strcpy': (0, 1), 'strncpy': (0, 1), 'strlen': (0,), 'strcmp': (0, 1),
            'strncmp': (0, 1), 'strcasecmp': (0, 1), 'strncasecmp': (0, 1), 'sprintf': (0,), 'snprintf': (), 'strcat': (0, 1), 'memcmp': (0, 1), 'strchr': (0,), 'strstr': (0, 1),
            'strtol': (0,), 'strtoull': (0,), 'pthread_mutex_lock': (0,), 'strdup': (0,), 'vsprintf': (0,)}


def deref_summary(P, cg):
    """fn.key -> set of params that may be dereferenced on a path that never
    compares them with NULL first"""
    summ = {f.key: set() for f in P.uniq}
    info = {}
    for f in P.uniq:
        # per param: aliases (SSA values equal to the param), blocks with null test
        ali = {}
        for k, p in enumerate(f.params):
            if p[1] == 'p': ali[k] = k
        for bl in f.bb:
            for i in bl:
                if i[0] == 'gep' and isinstance(i[3], int) and i[3] in ali: ali[i[1]] = ali[i[3]]
                elif i[0] == 'cast' and isinstance(i[4], int) and i[4] in ali: ali[i[1]] = ali[i[4]]
        info[f.key] = ali
    ch = True
    rnd = 0
    work = {f.key: f for f in P.uniq}
    callers = cg.callers()
    q = list(work)
    inq = set(q)
    while q:
        k = q.pop()
        inq.discard(k)
        f = work[k]
        ali = info[k]
        if not ali: continue
        new = set()
        for p in set(ali.values()):
            if p in summ[k]: continue
            if _may_deref(f, p, ali, cg, summ): new.add(p)
        if new:
            summ[k] |= new
            for c, i in callers.get(k, ()):
                if c.key not in inq:
                    inq.add(c.key)
                    q.append(c.key)
    return summ


def _may_deref(f, p, ali, cg, summ):
    seen = {0}
    st = [0]
    succ = f.succ()
    ins = f.ins()
    while st:
        b = st.pop()
        tested = False
        for i in f.bb[b]:
            op = i[0]
            if op == 'load':
                if isinstance(i[3], int) and ali.get(i[3]) == p: return True
            elif op == 'store':
                if isinstance(i[4], int) and ali.get(i[4]) == p: return True
            elif op == 'call':
                n = callee_name(i)
                ts, _ = cg.targets(f, i)
                for k, a in enumerate(i[4]):
                    if isinstance(a, int) and ali.get(a) == p:
                        if ts:
                            # a member address of NULL handed on is not a test of it
                            if any(k in summ.get(t.key, ()) for t in ts): return True
                        elif n:
                            if n.startswith('llvm.mem') and k < (2 if 'memset' not in n else 1): return True
                            if k in LIBDEREF.get(n, ()): return True
            elif op == 'icmp':
                for x, y in ((i[4], i[5]), (i[5], i[4])):
                    if isinstance(x, int) and ali.get(x) == p and isinstance(y, list) and y[0] == 'n': tested = True
        if tested: continue
        for n in succ[b]:
            if n not in seen:
                seen.add(n)
                st.append(n)
    return False


_c = {}


def summary():
    if 'd' not in _c:
        P, cg, mod = load()
        _c['d'] = deref_summary(P, cg)
    return _c['d']


class NullAlloc(Rule):
    name = 'alloc-checked'
    max_depth = 0

    def __init__(self, P, cg, mod, arg):
        self.P = P; self.cg = cg
        self.allocs = arg['allocs']; self.ds = summary()
        self.data = {'sites': [], 'returns_alloc': False}
        self.sites = set()

    def post_call(self, ip, fr, s, i, name, targets, args, ret):
        if ret is not None and ret.op == 't':
            n = name
            if n in self.allocs or (targets and any(t.key in self.allocs for t in targets)):
                ret.hint = 'alloc'
                if any(ret in x[:2] for x in s.q): s.q = tuple(x for x in s.q if ret not in x[:2])
                if i[1] not in self.sites:
                    self.sites.add(i[1])
                    self.data['sites'].append(i[2])
        # null passed on
        for k, a in enumerate(args):
            r = X.root(a)
            if r.hint == 'alloc' and r.op == 't':
                bad = False
                if targets:
                    bad = any(k in self.ds.get(t.key, ()) for t in targets)
                elif name:
                    if name.startswith('llvm.mem'): bad = k < (2 if 'memset' not in name else 1)
                    else: bad = k in LIBDEREF.get(name, ())
                if bad and X.has(ev(s, r), 0):
                    ip.report(fr, i, s, 'result of allocation passed to %s which dereferences it, without a NULL check on this path' % name)
        return None

    def on_branch(self, ip, fr, s, i, cond, truth):
        if s.q and any(x[0] == 'st' and x[1] in cond.terms for x in s.q):
            s.q = tuple(x for x in s.q if not (x[0] == 'st' and x[1] in cond.terms))
        for t in cond.terms:
            if t.hint == 'alloc' and t.a[0][0] == 'x' and ev(s, t) == ((0, 0),) and not any(x[0] == t for x in s.q):
                ln = 0
                if t.a[0][1] == fr.ctx: ln = fr.fn.ins()[t.a[0][2]][2]
                s.q = s.q + ((t, ln),)

    def on_access(self, ip, fr, s, i, a):
        r = X.root(a)
        if r.op == 't' and r.hint == 'alloc' and X.has(ev(s, r), 0):
            ip.report(fr, i, s, 'result of allocation dereferenced without a NULL check on this path')

    def on_store(self, ip, fr, s, i, a, v):
        # failure signalled through caller memory instead of the return value
        r = X.root(a)
        if r.op != 'al' and v.op == 'c' and X.cval(v) and any(x[0] != 'st' for x in s.q):
            s.q = tuple(x for x in s.q if x[0] == 'st')
        if r.op != 'al' and any(x[0] == v for x in s.q):
            s.q = tuple(x for x in s.q if x[0] != v)   # NULL result handed to the caller through an out-parameter
        if r.op != 'al' and v.op == 't' and v.hint == 'alloc' and v.a[0][0] == 'x' and v not in s.facts and fr.depth == 0:
            cell = '.'.join(a.hint) if a.hint else ('*' + (fr.fn.names.get(r.a[0][2]) or 'memory') if r.op == 't' and r.a[0][0] == 'p' else 'memory')
            if not any(x[0] == 'st' and x[1] == v for x in s.q): s.q = s.q + (('st', v, cell),)

    def on_ret(self, ip, fr, s, i, v):
        if v is not None and v.hint == 'alloc' and v.op == 't' and fr.fn.ret == 'p':
            if X.has(ev(s, v), 0): self.data['returns_alloc'] = True
            return
        # published unchecked / failure reported as success
        ok = v is None or fr.fn.ret == 'v' or (v.bits == 32 and X.has(ev(s, v), 0))
        if fr.fn.ret == 'p':
            if v is not None and v.op == 'c' and X.cval(v) == 0:
                for t in list(s.facts):
                    if t.hint == 'alloc' and ev(s, t) == ((0, 0),): self.data['returns_alloc'] = True
                return
            ok = True
        if not ok: return
        for x in s.q:
            if x[0] == 'st' and X.has(ev(s, x[1]), 0):
                ip.report(fr, i, s, 'unchecked allocation result stored in %s and function returns success' % x[2], key='unchecked|swallowed|%s|%s' % (fr.fn.name, x[2]))
        if v is not None and fr.fn.ret == 'i32' and ev(s, v) == ((0, 0),):
            for t, ln in [x for x in s.q if x[0] != 'st']:
                ip.report(fr, i, s, 'failed allocation at line %d is reported as success (returns 0)' % ln, key='swallowed|%s' % fr.fn.name)


def discover(cg, P, run):
    """BASE plus every function that may hand on a possibly-NULL allocation"""
    allocs = set(BASE)
    callers = {}
    for f in P.uniq:
        if f.ret != 'p' or f.name in BASE: continue
        for bl in f.bb:
            for i in bl:
                if i[0] == 'call':
                    n = callee_name(i)
                    ts, _ = cg.targets(f, i)
                    for k in [t.key for t in ts] + ([n] if n else []): callers.setdefault(k, set()).add(f.key)
    todo = set()
    for a in allocs: todo |= callers.get(a, set())
    done = {}
    while todo:
        o = run(NullAlloc, sorted(todo), {'allocs': allocs})
        new = {k for k, d in o['data'].items() if d['returns_alloc']} - allocs
        allocs |= new
        todo = set()
        for a in new: todo |= callers.get(a, set())
        todo -= allocs
    return allocs


def scope(P, cg, allocs):
    keys = []
    for f in P.uniq:
        if f.name in BASE: continue
        hit = False
        for bl in f.bb:
            for i in bl:
                if i[0] == 'call':
                    n = callee_name(i)
                    if n in allocs: hit = True
                    elif not n or n not in BASE:
                        if any(t.key in allocs for t in cg.targets(f, i)[0]): hit = True
                if hit: break
            if hit: break
        if hit: keys.append(f.key)
    return keys


def check(ctx):
    P, cg = ctx.P, ctx.cg
    ds = summary()
    allocs = discover(cg, P, driver_run)
    keys = scope(P, cg, allocs)
    o = ctx.rule(NullAlloc, keys, {'allocs': allocs})
    sites = sum(len(d['sites']) for d in o['data'].values())
    ctx.floor('allocation_sites', sites, 380)
    ctx.floor('allocation_functions', len(allocs), 25)
    ctx.coverage['dereferencing_parameters'] = sum(len(v) for v in ds.values())
    ctx.coverage['samples'] = sorted(k for k in allocs if k not in BASE)[:12]
    ctx.explain('abstract interpretation of every function with an allocation call: on no path may a result that can still be NULL be '
                'dereferenced, passed to a function that dereferences that parameter, or left unchecked in a structure or out-parameter '
                'while the function returns success; allocation wrappers are inferred')


def driver_run(cls, keys, arg):
    from engine import driver
    return driver.run(cls, keys, arg)
