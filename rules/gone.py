"""released-once: what has been released is not used any more and not released again."""
import re
from engine import absint, driver
from engine.absint import ev
from engine import expr as X
from engine.ir import callee_name
from rules import release
from rules.release import FREE, SHARED, REALLOC, BORROW, Track
from rules.common import calls
from rules.errprop import text
from rules.fmt import parse
from engine.expr import const


class Gone(Track):
    name = 'gone'

    def __init__(self, P, cg, mod, arg):
        super().__init__(P, cg, mod, arg)
        absint.GONE = True
        self.eff = arg.get('eff', {}); self.use = arg.get('use', {})
        self.inl = set(); self.want = None
        self.data = {'rel': set(), 'ret': {'z': [], 'nz': []}, 'where': {}, 'use': set(), 'pass': set(), 'left': set()}

    def start(self, fn, s):
        self.top = fn
        return ()

    def inline(self, fn, depth, chain):
        return fn.name == '__pthread_cleanup_routine' or fn.key == self.want

    max_depth = 3

    def freed(self, s, a):
        """released term the value is, or is an address in"""
        if a.op == 'c' or not s.q: return None
        r = X.root(a)
        for e in s.q:
            if e[1] == 'f' and (e[0] is a or e[0] is r) and self.holds(s, e[4]): return e
        return None

    def holds(self, s, cond):
        if cond is None: return True
        v = ev(s, cond[0])
        return v == ((0, 0),) if cond[1] == 'z' else not X.has(v, 0)

    def on_access(self, ip, fr, s, i, a):
        e = self.freed(s, a)
        if e: self.rep(ip, fr, s, i, e, 'used')
        self.used(X.root(a))

    def used(self, t):
        """the function uses (or releases) what it finds in a place of its caller's"""
        if t.op == 't' and t.a[0][0] == 'm0':
            p = self.path(self.top, t.a[0][1])
            if p: self.data['use'].add(p)

    def on_store(self, ip, fr, s, i, a, v):
        if s.q: self.unhand(s, lambda e: e[5] is a)
        # a member of some structure refers to it from now on
        if v.op != 't' or i[6] != 64: return
        r = X.root(a)
        out = a is r and r.op == 't' and r.a[0][0] == 'p'           # *param
        lst = a.hint and a.hint[1] in ('ptr_first', 'ptr_last')
        if (out or a.hint and (r.op != 'al' or lst)) and r is not v and not self.freed(s, v) and ev(s, v) != ((0, 0),):
            if not any(e[1] == 'h' and e[0] is v and e[5] is a for e in s.q):
                self.setq(s, list(s.q) + [(v, 'h', i[2], a.hint[1] if a.hint else 'the caller', None, a)])

    def unhand(self, s, pred):
        l = [e for e in s.q if not (e[1] == 'h' and pred(e))]
        if len(l) != len(s.q): s.q = tuple(l)

    def on_load(self, ip, fr, s, i, a, v): pass

    def rep(self, ip, fr, s, i, e, how):
        ip.report(fr, i, s, 'what %s released at line %d is %s' % (e[3], e[2], how), key='gone|%s|%s' % (fr.fn.name, how))

    def on_call(self, ip, fr, s, i, name, targets, args):
        r = self.examine(ip, fr, s, i, name, targets, args)
        # logging changes nothing of interest
        if name == 'rrr_log_printf': return [(s, const(0, 32) if i[5] != 'v' else None)]
        return r

    def texts(self, fr, i):
        """arguments which are printed as text"""
        for k, v in enumerate(i[4]):
            t = text(self.P, fr.fn, v)
            if t and '%' in t:
                c = parse(t)
                if isinstance(c, list) and len(c) == len(i[4]) - k - 1: return {k + 1 + n for n, (kd, x) in enumerate(c) if x.endswith('s')}
        return ()

    def examine(self, ip, fr, s, i, name, targets, args):
        self.want = None
        self.inl.discard((fr.ctx, i[1]))
        for k, a in enumerate(args):
            if a.op == 'c': continue
            z, nz = self.fate(name, targets, k)
            if 'f' in z | nz and name not in SHARED or self.derefs(name, targets, k): self.used(X.root(a))
            p = self.path(self.top, a)
            if p:
                for t in targets: self.data['pass'].add((t.key, k, p))
        if not s.q: return None
        # whoever gets the structure may take it back
        roots = {X.root(a) for a in args}
        rel = {a for k, a in enumerate(args) if 'f' in self.fate(name, targets, k)[0]}
        if name != 'rrr_log_printf' and not (name or '').startswith(('llvm.', 'pthread_mutex')): self.unhand(s, lambda e: X.root(e[5]) in roots or e[0] in roots and e[0] not in rel)
        # a function which uses what it finds in a place that refers to something released: followed into
        if len(targets) == 1 and targets[0].bb and fr.depth < 2 and self.touches(ip, s, targets[0], args):
            self.want = targets[0].key
            self.inl.add((fr.ctx, i[1]))
        for k, a in enumerate(args):
            e = self.freed(s, a)
            if e is None: continue
            z, nz = self.fate(name, targets, k)
            if 'f' in z | nz and a is e[0] and name not in SHARED: self.rep(ip, fr, s, i, e, 'released again')
            elif self.derefs(name, targets, k) or k in self.texts(fr, i): self.rep(ip, fr, s, i, e, 'used by %s' % name)
        return None

    def derefs(self, name, targets, k):
        if targets: return any(k < len(t.params) and (t.key, k) in self.acc for t in targets)
        return bool(name) and bool(re.match(r'mem(cpy|move|set|cmp|chr)|str|llvm\.mem|read$|write$|recv|send|pthread_(mutex|cond|rwlock)|event_|fcntl|ioctl|poll', name))

    def mark(self, s, t, line, name, cond):
        for e in s.q:
            if e[1] == 'f' and e[0] is t and (e[4] is None or e[4] == cond): return
        self.setq(s, list(s.q) + [(t, 'f', line, name, cond)])

    def setq(self, s, l):
        s.q = tuple(sorted(l, key=lambda e: (e[0].id, e[1], e[2], e[3], e[4][1] if e[4] else '')))

    def post_call(self, ip, fr, s, i, name, targets, args, ret):
        if name and name.startswith('llvm.') or (fr.ctx, i[1]) in self.inl: return None
        if any(t.key in self.force or t.name == '__pthread_cleanup_routine' for t in targets): return None
        if name not in SHARED:
            for k, a in enumerate(args):
                if a.op != 't' or ret is not None and ret in absint.deepterms(a): continue
                z, nz = self.fate(name, targets, k)
                if z == nz == {'f'}: cond = None
                elif ret is not None and z == {'f'} and 'f' not in nz: cond = (ret, 'z')
                elif ret is not None and nz == {'f'} and 'f' not in z: cond = (ret, 'nz')
                else: continue
                if ev(s, a) == ((0, 0),): continue
                self.data['rel'].add(i[1])
                self.mark(s, a, i[2], name, cond)
        # what the callee has released and left a reference to
        if not targets: return None
        es = [self.eff.get(t.key, {}) for t in targets]
        out = [s]
        for path in sorted(set.intersection(*[set(e) for e in es]), key=str) if es else ():
            cs = es[0][path]
            if any(e[path] != cs for e in es): continue
            for c, must in cs:
                if c != 'all' and ret is None: continue
                n = []
                for st in out:
                    if not must and len(out) < 8: n.append(st.copy())
                    a = self.place(ip, st, args, path)
                    v = a is not None and ip.load(st, a, 64)
                    if v and v.op == 't' and ev(st, v) != ((0, 0),): self.mark(st, v, i[2], name, None if c == 'all' else (ret, c))
                    n.append(st)
                out = n
        return out

    def touches(self, ip, s, t, args):
        for path in self.use.get(t.key, ()):
            a = self.place(ip, s, args, path)
            if a is None: continue
            v = s.mem.get(a)
            if v is not None and any(e[1] == 'f' and e[0] is v for e in s.q): return True
        return False

    def place(self, ip, s, args, path):
        if path[0] == 'p':
            if path[1] >= len(args): return None
            b = args[path[1]]
        else:
            b = self.place(ip, s, args, path[1])
            if b is None: return None
            b = ip.load(s, b, 64)
        if b.op == 'c': return None
        return X.addr(b, path[2])

    def path(self, fn, a):
        """how a caller names the cell: ('p', k, off) | ('ld', path, off)"""
        r = X.root(a); off = 0
        if a.op == 'addr':
            if a.a[2]: return None
            off = a.a[1]
        if r.op != 't': return None
        k = r.a[0]
        if k[0] == 'p' and k[1] == fn.key: return ('p', k[2], off)
        if k[0] == 'm0':
            p = self.path(fn, k[1])
            return p and ('ld', p, off)
        return None

    def on_ret(self, ip, fr, s, i, v):
        if fr.depth: return
        d = {}; null = set()
        held = {e[0]: e for e in s.q if e[1] == 'f' and self.holds(s, e[4])}
        for e in s.q:
            if e[1] == 'h' and e[0] in held and X.root(e[5]) not in held and (e[5].op == 'addr' or v is None or ev(s, v) == ((0, 0),)):
                ip.report(fr, i, s, '%s releases at line %d what has been handed over to %s at line %d' % (held[e[0]][3], held[e[0]][2], e[3], e[2]), key='gone|%s|handed' % fr.fn.name)
        for c, x in s.mem.items():
            p = self.path(fr.fn, c)
            if p is None: continue
            if x.op == 'c':
                null.add(p); continue
            e = held.get(x)
            if e is None:
                if ev(s, x) == ((0, 0),): null.add(p)
                continue
            if X.root(c) in held: null.add(p); continue       # the place has gone too
            d[p] = e
            if x.a[0][0] == 'm0' and x.a[0][1] is c: self.data['left'].add(p)
            if e[2] and not (x.a[0][0] == "m0" and x.a[0][1] is c) and (v is None or ev(s, v) == ((0, 0),)):
                ip.report(fr, i, s, 'returns with %s referring to what %s has released at line %d' % (X.show(c).rsplit(':', 1)[-1].rstrip('>'), e[3], e[2]), key='gone|%s|stale' % fr.fn.name)
            self.data['where'].setdefault(p, (e[2], e[3], X.show(c).rsplit(':', 1)[-1].rstrip('>')))
        gone = {e for e in held}
        if v is not None and v.bits != 64:
            x = ev(s, v)
            cl = ('z',) if x == ((0, 0),) else ('nz',) if not X.has(x, 0) else ('z', 'nz')
        else: cl = ('z', 'nz')
        for c in cl: self.data['ret'][c].append((frozenset(d), frozenset(null)))

    def on_branch(self, ip, fr, s, i, cond, truth): pass


def effects(data):
    """place -> ((kind of return, always),): it refers to what the function has released"""
    r = {}
    for c in 'z', 'nz':
        l = data['ret'][c]
        for p in set().union(*[d for d, _ in l]) if l else ():
            r.setdefault(p, {})[c] = all(p in d or p in n for d, n in l)
    return {p: (('all', True),) if all(c.values()) and (len(c) == 2 or any(not data['ret'][x] for x in ('z', 'nz'))) else tuple(sorted(c.items())) for p, c in r.items()}


def shift(path, off): return path[:-1] + (path[-1] + off,)


def compose(p, q):
    """the callee's place q as the caller's, when the argument is the address p"""
    if q[0] == 'p': return shift(p, q[2])
    return ('ld', compose(p, q[1]), q[2])


def nest(p): return 0 if p[0] == 'p' else 1 + nest(p[1])


def uses(data):
    use = {k: {p for p in d['use'] if nest(p) < 2} for k, d in data.items()}
    by = {}
    for k, d in data.items():
        for t, n, p in d['pass']:
            if nest(p) < 2: by.setdefault((t, n), []).append((k, p))
    todo = [(k, q) for k in use for q in use[k]]
    while todo:
        t, q = todo.pop()
        b = q
        while b[0] != 'p': b = b[1]
        for k, p in by.get((t, b[1]), ()):
            c = compose(p, q)
            if nest(c) < 2 and c not in use[k]:
                use[k].add(c)
                todo.append((k, c))
    return use


def accesses(P, cg):
    """(fn, param) which are dereferenced by the function or something it hands them to"""
    acc = set()
    drv = {f.key: release.derive(f)[0] for f in P.uniq if f.bb}
    ch = True
    while ch:
        ch = False
        for f in P.uniq:
            if not f.bb: continue
            a = drv[f.key]
            for bl in f.bb:
                for i in bl:
                    hit = ()
                    if i[0] == 'load': hit = a.get(i[3], ()) if isinstance(i[3], int) else ()
                    elif i[0] == 'store': hit = a.get(i[4], ()) if isinstance(i[4], int) else ()
                    elif i[0] == 'call':
                        n = callee_name(i); ts, un = cg.targets(f, i)
                        for k, v in enumerate(i[4]):
                            if isinstance(v, int) and v in a and (any((t.key, k) in acc for t in ts) or not ts and n and n.startswith(('mem', 'str', 'llvm.mem'))): hit = set(hit) | set(a[v])
                    for p, l in hit:
                        if l == 0 and (f.key, p) not in acc: acc.add((f.key, p)); ch = True
    return acc


def check(ctx):
    fates, cont, acq, done = release.close(ctx)
    acc = accesses(ctx.P, ctx.cg)
    keys = []
    for f in ctx.P.uniq:
        if not f.bb: continue
        for i in calls(f):
            n = callee_name(i); ts, un = ctx.cg.targets(f, i)
            if n in FREE or any(fates.get((t.key, k)) == ({'f'}, {'f'}) for t in ts for k in range(len(t.params))): keys.append(f.key); break
    Gone.acc = acc
    o = analyse(ctx, keys, {'fates': fates, 'cont': cont, 'acq': acq, 'mode': 'gone'})
    ctx.reports += o['reports']
    ctx.coverage['functions_analysed'] = len(o['keys'])
    ctx.coverage['incomplete'] = sorted(o['incomplete'])
    ctx.coverage['functions_leaving_references'] = len(o['eff'])
    ctx.floor('releases_followed', sum(len(d['rel']) for d in o['data'].values()), 500)


def analyse(ctx, keys, arg, jobs=None, eff=None, use=None):
    callers = ctx.cg.callers()
    eff = eff or {}; use = use or {}
    out = {'reports': {}, 'data': {}, 'incomplete': set(), 'keys': set(keys)}
    todo = set(keys)
    for _ in range(8):
        if not todo: break
        o = driver.run(Gone, sorted(todo), dict(arg, eff=eff, use=use), 12000, jobs=jobs)
        if o['errors']: raise Exception('%s: %s' % o['errors'][0])
        out.setdefault('slow', []).append((len(todo), o['slow']))
        new = {}
        for k, d in o['data'].items():
            out['data'][k] = d
            if k in o['incomplete']: out['incomplete'].add(k); e = {}
            else: e = effects(d)
            if e != eff.get(k, {}): new[k] = e
            out['reports'][k] = o['byfn'].get(k, [])
        eff = dict(eff); eff.update(new)
        nu = dict(use, **uses(out['data']))
        todo = set()
        for k in set(new) | {k for k in nu if nu[k] != use.get(k)}: todo |= {f.key for f, i in callers.get(k, ())}
        # without something released nothing can happen
        rel = {k for k, d in out['data'].items() if d['rel']} | {f.key for k in eff if eff[k] for f, i in callers.get(k, ())}
        todo &= rel
        use = nu
        out['keys'] |= todo
    out['eff'] = {k: e for k, e in eff.items() if e}
    # the structure lives on: functions which nothing in the program calls (event callbacks),
    # and such which only leave the reference when they fail (or only when they do not)
    out['roots'] = []
    for k, e in out['eff'].items():
        if k not in out['data']: continue
        d = out['data'][k]
        f = ctx.cg.fk[k]
        for p, c in e.items():
            # (set up by a function which has been given its address: not there before)
            filled = any(q[0] == p[0] and q[1] == p[1] and q[2] <= p[2] for _, _, q in d['pass'])
            one = p in d['left'] and not filled and all(d['ret'][x] for x in ('z', 'nz')) and len(c) == 1 and c[0][0] != 'all'
            if callers.get(k) and not one: continue
            ln, by, what = d['where'][p]
            out['roots'].append({'rule': 'gone', 'file': f.file, 'line': ln or f.line, 'function': f.name, 'chain': [f.name], 'path': [],
                                 'message': 'returns%s with %s still referring to what %s has released' % (' failure' if one and c[0][0] == 'nz' else ' success' if one else '', what, by), 'key': 'gone|%s|left' % f.name})
    out['reports'] = out['roots'] + [r for k in sorted(out['reports']) for r in out['reports'][k]]
    return out
