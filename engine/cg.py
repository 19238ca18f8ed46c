"""Function-pointer resolution, call graph and MOD summaries."""
from .ir import *


class CG:
    def __init__(self, P):
        self.P = P
        self.slots = {}         # slot -> set of function names/keys (Fn.key)
        self.edges = {}         # slot -> set of slots that flow into it
        self._src = {}
        self.call_slots = {}    # (fn.key, iid) -> set of slots (indirect)
        self.address_taken = set()
        self._build()

    # -- constants
    def fkey(self, f_or_unit, name):
        unit = f_or_unit.unit if isinstance(f_or_unit, Fn) else f_or_unit
        g = self.P.unit_funcs.get((unit, name)) or self.P.by_name.get(name)
        return g.key if g else None

    def _add(self, slot, k):
        self.slots.setdefault(slot, set()).add(k)

    def _init_tree(self, unit, gname, v, slot):
        if not isinstance(v, list) or not v:
            return
        if v[0] == 'g':
            k = self.fkey(unit, v[1])
            if k:
                self._add(slot, k)
        elif v[0] == 'arr':
            for x in v[1]:
                self._init_tree(unit, gname, x, slot)
        elif v[0] == 'st':
            for fn, off, x in v[2]:
                self._init_tree(unit, gname, x, ('f', v[1], fn))
                # also reachable as a member of the global itself
                self._init_tree(unit, gname, x, ('g', gname)) if isinstance(x, list) and x and x[0] == 'g' else None

    def src(self, f, v, seen=None):
        """slots/function constants an operand may come from"""
        if isinstance(v, list):
            if v and v[0] == 'g':
                k = self.fkey(f, v[1])
                return {('fn', k)} if k else {('ext', v[1])}
            return set()
        key = (f.key, v)
        if key in self._src:
            return self._src[key]
        if seen is None:
            seen = set()
        if key in seen:
            return set()
        seen.add(key)
        r = set()
        if v < len(f.params):
            r = {('p', f.key, v)}
        else:
            i = f.ins().get(v)
            if i is None:
                return r
            op = i[0]
            if op == 'load':
                r = self.ptr_slot(f, i[3])
            elif op == 'phi':
                for _, x in i[3]:
                    r |= self.src(f, x, seen)
            elif op == 'select':
                r = self.src(f, i[4], seen) | self.src(f, i[5], seen)
            elif op == 'cast':
                r = self.src(f, i[4], seen)
            elif op == 'call':
                n = callee_name(i)
                g = self.P.resolve(f, n) if n else None
                if g:
                    r = {('r', g.key)}
        if len(seen) == 1:
            self._src[key] = r
        return r

    def ptr_slot(self, f, p):
        """slot for the memory behind pointer operand p"""
        if isinstance(p, list):
            if p[0] == 'g':
                return {('g', p[1])}
            if p[0] == 'ge':
                last = [s for s in p[2] if s[0] == 'f']
                if last:
                    return {('f', last[-1][1], last[-1][2])}
                return self.ptr_slot(f, p[1])
            return set()
        if p < len(f.params):
            return {('d', f.key, p)}
        i = f.ins().get(p)
        if i is None:
            return set()
        if i[0] == 'gep':
            last = [s for s in i[4] if s[0] == 'f']
            if last:
                return {('f', last[-1][1], last[-1][2])}
            return self.ptr_slot(f, i[3])
        if i[0] == 'alloca':
            return {('l', f.key, p)}
        if i[0] == 'load':
            return set()
        if i[0] == 'cast':
            return self.ptr_slot(f, i[4])
        return set()

    def _build(self):
        P = self.P
        for (unit, name), g in P.globals.items():
            if unit is None or g[3] is None:
                continue
            self._init_tree(unit, name, g[3], ('g', name))
        indirect = []
        direct = []
        flows = []
        for f in P.uniq:
            for bl in f.bb:
                for i in bl:
                    if i[0] == 'store':
                        s = self.src(f, i[3]) if i[5] == 'p' else None
                        if s:
                            for d in self.ptr_slot(f, i[4]):
                                for x in s:
                                    flows.append((d, x))
                    elif i[0] == 'ret' and i[3] is not None and f.ret == 'p':
                        for x in self.src(f, i[3]):
                            flows.append((('r', f.key), x))
                    elif i[0] == 'call':
                        n = callee_name(i)
                        if n:
                            g = P.resolve(f, n)
                            if g:
                                for k, a in enumerate(i[4][:len(g.params)]):
                                    if g.params[k][1] == 'p':
                                        for x in self.src(f, a):
                                            flows.append((('p', g.key, k), x))
                        else:
                            s = self.src(f, i[3])
                            self.call_slots[(f.key, i[1])] = s
                            indirect.append((f, i, s))
        into = {}
        for d, x in flows:
            if x[0] == 'fn':
                self._add(d, x[1])
            elif x[0] != 'ext':
                into.setdefault(x, set()).add(d)
        # propagate, resolving indirect-call arguments on the fly
        work = list(self.slots)
        done_ind = set()
        byslot = {}
        for f, i, s in indirect:
            for x in s:
                byslot.setdefault(x, []).append((f, i))

        def push(d, k, work):
            t = self.slots.setdefault(d, set())
            if k not in t:
                t.add(k)
                work.append(d)

        fk = {f.key: f for f in P.uniq}
        self.fk = fk
        # direct function constants in call position via ('fn',k)
        while work:
            s = work.pop()
            ks = list(self.slots.get(s, ()))
            for d in into.get(s, ()):
                for k in ks:
                    push(d, k, work)
            for f, i in byslot.get(s, ()):
                for k in ks:
                    if (f.key, i[1], k) in done_ind:
                        continue
                    done_ind.add((f.key, i[1], k))
                    g = fk.get(k)
                    if not g:
                        continue
                    for n, a in enumerate(i[4][:len(g.params)]):
                        if g.params[n][1] == 'p':
                            for x in self.src(f, a):
                                if x[0] == 'fn':
                                    push(('p', g.key, n), x[1], work)
                                elif x[0] != 'ext':
                                    into.setdefault(x, set()).add(('p', g.key, n))
                                    work.append(x)

    def targets(self, f, i):
        """-> (list of Fn, unresolved?)"""
        n = callee_name(i)
        if n:
            g = self.P.resolve(f, n)
            return ([g], False) if g else ([], False)
        s = self.call_slots.get((f.key, i[1]))
        if not s:
            return [], True
        ks = set()
        un = False
        for x in s:
            if x[0] == 'fn':
                ks.add(x[1])
            else:
                t = self.slots.get(x)
                if t:
                    ks |= t
                else:
                    un = True
        nargs = len(i[4])
        out = []
        for k in sorted(ks):
            g = self.fk.get(k)
            if g and (len(g.params) == nargs or g.vararg):
                out.append(g)
        return out, (un and not out) or not out

    def graph(self):
        if hasattr(self, '_g'):
            return self._g
        g = {}
        for f in self.P.uniq:
            s = set()
            for bl in f.bb:
                for i in bl:
                    if i[0] == 'call':
                        for t in self.targets(f, i)[0]:
                            s.add(t.key)
            g[f.key] = s
        self._g = g
        return g

    def callers(self):
        if hasattr(self, '_c'):
            return self._c
        c = {}
        for f in self.P.uniq:
            for bl in f.bb:
                for i in bl:
                    if i[0] == 'call':
                        for t in self.targets(f, i)[0]:
                            c.setdefault(t.key, []).append((f, i))
        self._c = c
        return c

    def taken(self):
        """keys of functions whose address is used other than as a callee"""
        if hasattr(self, '_t'): return self._t
        t = set()

        def walk(unit, v):
            if isinstance(v, list) and v:
                if v[0] == 'g':
                    k = self.fkey(unit, v[1])
                    if k: t.add(k)
                elif v[0] != 'i':
                    for x in v[1:]:
                        if isinstance(x, list):
                            if x and isinstance(x[0], str): walk(unit, x)
                            else:
                                for y in x:
                                    if isinstance(y, list): walk(unit, y if y and (y[0] in ('g', 'ge', 'arr', 'st', 'ce')) else (y[-1] if y else None))
        for (unit, name), g in self.P.globals.items():
            if unit is not None and g[3] is not None: walk(unit, g[3])
        for f in self.P.uniq:
            for bl in f.bb:
                for i in bl:
                    ops = i[4] if i[0] == 'call' else operands(i)
                    for o in ops:
                        if isinstance(o, list): walk(f.unit, o)
        self._t = t
        return t

    def reach(self, roots, stop=()):
        g = self.graph()
        seen = set(roots)
        w = list(roots)
        while w:
            k = w.pop()
            for n in g.get(k, ()):
                if n not in seen and n not in stop:
                    seen.add(n)
                    w.append(n)
        return seen


# library functions that write through pointer arguments: name -> arg indexes
LIBW = {'memcpy': (0,), 'memmove': (0,), 'memset': (0,), 'strcpy': (0,), 'strncpy': (0,), 'sprintf': (0,), 'snprintf': (0,),
        'read': (1,), 'recv': (1,), 'recvfrom': (1, 4, 5), 'fread': (0,), 'stat': (1,), 'fstat': (1,), 'lstat': (1,), 'getsockname': (1, 2),
        'getpeername': (1, 2), 'accept': (1, 2), 'accept4': (1, 2), 'clock_gettime': (1,), 'gettimeofday': (0,), 'pthread_create': (0,),
        'sigemptyset': (0,), 'sigfillset': (0,), 'strtol': (1,), 'strtoul': (1,), 'strtoull': (1,), 'strtoll': (1,), 'strtod': (1,),
        'pipe': (0,), 'vsnprintf': (0,), 'waitpid': (1,), 'getsockopt': (3, 4), 'realpath': (1,), 'strcat': (0,), 'strftime': (0,),
        'localtime_r': (1,), 'gmtime_r': (1,), 'strerror_r': (1,), 'getaddrinfo': (3,), 'getline': (0, 1), 'sscanf': (2, 3, 4, 5, 6),
        'pthread_cond_init': (0,), 'pthread_mutex_init': (0,), 'inet_pton': (2,), 'poll': (0,), 'readlink': (1,), 'getrandom': (0,)}


class Mod:
    """flow-insensitive MOD: per function the set of items it may write:
       ('f',struct,field), ('g',global), ('p',k) (memory behind parameter k, unnamed), ('*',) unknown"""

    def __init__(self, cg):
        self.cg = cg
        P = cg.P
        own = {}
        calls = {}
        for f in P.uniq:
            m = set(); cs = []
            for bl in f.bb:
                for i in bl:
                    if i[0] == 'store':
                        self.ptr(f, i[4], m)
                    elif i[0] == 'call':
                        n = callee_name(i)
                        ts, un = cg.targets(f, i)
                        if ts:
                            for t in ts:
                                cs.append((t.key, i))
                        elif n:
                            if n.startswith('llvm.mem'):
                                self.ptr(f, i[4][0], m, raw=True)
                            elif n in LIBW:
                                for k in LIBW[n]:
                                    if k < len(i[4]):
                                        self.ptr(f, i[4][k], m, raw=True)
                    elif i[0] == 'other' and i[3] in ('atomicrmw', 'cmpxchg'):
                        self.ptr(f, i[4][0], m)
            own[f.key] = m
            calls[f.key] = cs
        # bit sets: named items get one bit each, parameters are kept as a second mask
        num = {}; self.items = []

        def bits(m):
            r = 0; p = 0
            for x in m:
                if x[0] == 'p': p |= 1 << x[1]
                else:
                    n = num.get(x)
                    if n is None:
                        n = num[x] = len(self.items)
                        self.items.append(x)
                    r |= 1 << n
            return r, p
        M = {}; Pm = {}
        for k, m in own.items(): M[k], Pm[k] = bits(m)
        rev = {}; edges = {}
        for k, cs in calls.items():
            f = cg.fk[k]
            es = edges[k] = {}
            for t, i in cs:
                rev.setdefault(t, set()).add(k)
                l = es.setdefault(t, [])
                for n, a in enumerate(i[4]):
                    m = set()
                    self.ptr(f, a, m, raw=True)
                    if m: l.append((1 << n,) + bits(m))
        work = list(M)
        inw = set(work)
        while work:
            k = work.pop()
            inw.discard(k)
            m = m0 = M[k]; p = p0 = Pm[k]
            for t, l in edges[k].items():
                m |= M[t]
                pt = Pm[t]
                if pt:
                    for n, am, ap in l:
                        if pt & n:
                            m |= am; p |= ap
            if m != m0 or p != p0:
                M[k] = m; Pm[k] = p
                for c in rev.get(k, ()):
                    if c not in inw:
                        inw.add(c)
                        work.append(c)
        self.M = M; self.Pm = Pm
        self._of = {}

    def ptr(self, f, p, m, raw=False, d=0):
        if d > 8:
            return
        if isinstance(p, list):
            if p[0] == 'g':
                m.add(('g', p[1]))
            elif p[0] == 'ge':
                last = [s for s in p[2] if s[0] == 'f']
                if last:
                    m.add(('f', last[-1][1], last[-1][2]))
                else:
                    self.ptr(f, p[1], m, raw, d + 1)
            return
        if p < len(f.params):
            m.add(('p', p))
            return
        i = f.ins().get(p)
        if i is None:
            return
        if i[0] == 'gep':
            last = [s for s in i[4] if s[0] == 'f']
            if last:
                m.add(('f', last[-1][1], last[-1][2]))
            else:
                self.ptr(f, i[3], m, raw, d + 1)
        elif i[0] == 'alloca':
            pass
        elif i[0] == 'load':
            # write through a loaded pointer: memory behind that field
            for s in self.cg.ptr_slot(f, i[3]):
                if s[0] == 'f':
                    m.add(('df', s[1], s[2]))
                elif s[0] == 'l':
                    m.add(('*',)) if False else None
        elif i[0] in ('phi',):
            for _, v in i[3]:
                self.ptr(f, v, m, raw, d + 1)
        elif i[0] == 'cast':
            self.ptr(f, i[4], m, raw, d + 1)
        elif i[0] == 'select':
            self.ptr(f, i[4], m, raw, d + 1); self.ptr(f, i[5], m, raw, d + 1)

    def of(self, key):
        r = self._of.get(key)
        if r is None and key in self.M:
            r = set()
            m = self.M[key]
            while m:
                b = m & -m
                r.add(self.items[b.bit_length() - 1])
                m ^= b
            p = self.Pm[key]; n = 0
            while p:
                if p & 1: r.add(('p', n))
                p >>= 1; n += 1
            self._of[key] = r
        return r
