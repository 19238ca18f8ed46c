"""Program model over the irx JSON."""
import json, os, sys, pickle
from concurrent.futures import ProcessPoolExecutor
from . import build as B


class Fn:
    __slots__ = ('name', 'unit', 'internal', 'linkonce', 'line', 'file', 'ret', 'rty', 'params', 'names', 'bb', 'vararg',
                 '_ins', '_succ', '_pred', '_uses', 'key', '_bbof', 'prog')

    def __init__(self, d, unit):
        self.name = d['name']; self.unit = unit
        self.internal = bool(d['internal']); self.linkonce = bool(d['linkonce'])
        self.line = d['line']; self.ret = d['ret']; self.rty = d['rty']
        self.file = norm(d['dir'], d['file'])
        self.params = d['params']; self.vararg = bool(d['vararg'])
        self.names = {int(k): v for k, v in d['names'].items()}
        self.bb = d['bb']
        self._ins = self._succ = self._pred = self._uses = self._bbof = None
        self.key = None

    def ins(self):
        if self._ins is None:
            self._ins = {}
            self._bbof = {}
            for b, l in enumerate(self.bb):
                for i in l:
                    self._ins[i[1]] = i
                    self._bbof[i[1]] = b
        return self._ins

    def bbof(self, iid):
        self.ins()
        return self._bbof[iid]

    def succ(self):
        if self._succ is None:
            self._succ = [succs(l[-1]) if l else [] for l in self.bb]
        return self._succ

    def pred(self):
        if self._pred is None:
            p = [[] for _ in self.bb]
            for b, ss in enumerate(self.succ()):
                for s in ss:
                    p[s].append(b)
            self._pred = p
        return self._pred

    def uses(self):
        if self._uses is None:
            u = {}
            for l in self.bb:
                for i in l:
                    for o in operands(i):
                        collect_ids(o, i, u)
            self._uses = u
        return self._uses

    def loc(self, i):
        return '%s:%d' % (self.file, i[2] if i is not None and i[2] else self.line)

    def __repr__(self):
        return '<%s %s>' % (self.name, self.unit)


def collect_ids(o, i, u):
    if isinstance(o, int):
        u.setdefault(o, []).append(i)
    elif isinstance(o, list) and o and o[0] in ('ge', 'ce'):
        for x in o[1:]:
            collect_ids(x, i, u)


def succs(t):
    op = t[0]
    if op == 'br':
        return [t[4]] if t[3] is None else ([t[4], t[5]] if t[4] != t[5] else [t[4]])
    if op == 'switch':
        r = [t[4]]
        for c, b in t[5]:
            if b not in r:
                r.append(b)
        return r
    if op == 'call':  # invoke
        return [t[7], t[8]] if len(t) > 8 else []
    if op == 'other' and len(t) > 6:
        return t[6]
    return []


def operands(i):
    op = i[0]
    if op == 'load': return [i[3]]
    if op == 'store': return [i[3], i[4]]
    if op == 'gep': return [i[3]] + [s[1] for s in i[4] if s[0] in 'ae']
    if op == 'call': return [i[3]] + i[4]
    if op == 'br': return [] if i[3] is None else [i[3]]
    if op == 'switch': return [i[3]]
    if op == 'ret': return [] if i[3] is None else [i[3]]
    if op == 'phi': return [v for _, v in i[3]]
    if op == 'icmp': return [i[4], i[5]]
    if op == 'bin': return [i[4], i[5]]
    if op == 'cast': return [i[4]]
    if op == 'select': return [i[3], i[4], i[5]]
    if op == 'other': return i[4]
    return []


def norm(d, f):
    if not f:
        return '?'
    p = f if f.startswith('/') else os.path.join(d, f)
    p = os.path.normpath(p)
    r = os.path.normpath(B.REPO)
    if p.startswith(r + '/'):
        return p[len(r) + 1:]
    return p


class Program:
    def __init__(self, unit_filter=None):
        files = B.build()
        self.units = {}
        self.funcs = []          # all, linkonce/header statics de-duplicated by (name,file,line)
        self.by_name = {}        # external name -> Fn
        self.unit_funcs = {}     # (unit, name) -> Fn
        self.globals = {}        # (unit,name) -> entry ; external by (None,name)
        self.structs = {}
        self.enums = {}
        for p in sorted(files):
            if unit_filter and not unit_filter(p):
                continue
            d = json.load(open(files[p]))
            for n, s in d['structs'].items():
                if n not in self.structs or len(self.structs[n][1]) < len(s[1]):
                    self.structs[n] = s
            self.enums.update(d['enums'])
            for n, g in d['globals'].items():
                self.globals[(p, n)] = g
                if not g[1] and g[3] is not None:
                    self.globals[(None, n)] = g
            for fd in d['funcs']:
                f = Fn(fd, p)
                f.prog = self
                f.key = f.name if not f.internal else '%s@%s' % (f.name, p)
                self.unit_funcs[(p, f.name)] = f
                if not f.internal:
                    if f.name in self.by_name and not f.linkonce:
                        prev = self.by_name[f.name]
                        # two programs may each define main()/helpers; keep first, both analysed
                    self.by_name.setdefault(f.name, f)
                self.funcs.append(f)
            self.units[p] = len(d['funcs'])
        # pthread_cleanup_push/pop compile to a call of this glibc inline function
        cf = '__pthread_cleanup_frame'
        self.structs.setdefault(cf, [24, [['__cancel_routine', 0, 64, '*'], ['__cancel_arg', 8, 64, '*'], ['__do_it', 16, 32, 'int']]])
        if '__pthread_cleanup_routine' not in self.by_name and '__pthread_cleanup_routine' not in {f.name for f in self.funcs}:
            f = Fn({'name': '__pthread_cleanup_routine', 'internal': 0, 'linkonce': 0, 'line': 0, 'ret': 'v', 'rty': 'v', 'dir': '/usr/include', 'file': 'pthread.h',
                    'params': [['__frame', 'p', 'S:' + cf]], 'vararg': 0, 'names': {}, 'bb': [
                        [['gep', 1, 0, 0, [['f', cf, '__do_it', 16]]], ['load', 2, 0, 1, 'i32', 32, 0], ['icmp', 3, 0, 'ne', 2, ['i', 0, 32], 32], ['br', 4, 0, 3, 1, 2]],
                        [['gep', 5, 0, 0, [['f', cf, '__cancel_routine', 0]]], ['load', 6, 0, 5, 'p', 64, 0], ['gep', 7, 0, 0, [['f', cf, '__cancel_arg', 8]]],
                         ['load', 8, 0, 7, 'p', 64, 0], ['call', 9, 0, 6, [8], 'v', 0], ['br', 10, 0, None, 2]],
                        [['ret', 11, 0, None]]]}, '<glibc>')
            f.prog = self
            f.key = f.name
            self.unit_funcs[('<glibc>', f.name)] = f
            self.by_name[f.name] = f
            self.funcs.append(f)
        cnt = {}
        for f in self.funcs:
            if not f.internal and not f.linkonce:
                cnt[f.name] = cnt.get(f.name, 0) + 1
        for f in self.funcs:
            if cnt.get(f.name, 0) > 1 and not f.internal:
                f.key = '%s@%s' % (f.name, f.unit)
        # de-duplicate static inline functions from headers
        seen = {}
        uniq = []
        for f in self.funcs:
            k = (f.name, f.file, f.line)
            if f.internal and f.file.endswith(('.h', '.hpp', '.hxx')):
                if k in seen:
                    self.unit_funcs[(f.unit, f.name)] = seen[k]
                    continue
                seen[k] = f
            uniq.append(f)
        self.uniq = uniq

    def resolve(self, f, name):
        """function called `name` from f -> Fn or None (external library)"""
        g = self.unit_funcs.get((f.unit, name))
        if g is not None:
            return g
        return self.by_name.get(name)

    def glob(self, f_or_unit, name):
        unit = f_or_unit.unit if isinstance(f_or_unit, Fn) else f_or_unit
        g = self.globals.get((unit, name))
        if g is not None and g[3] is not None:
            return g
        return self.globals.get((None, name))

    def find(self, name, unit=None):
        if unit is not None:
            return self.unit_funcs.get((unit, name))
        if name in self.by_name:
            return self.by_name[name]
        c = [f for f in self.uniq if f.name == name]
        return c[0] if len(c) == 1 else None

    def findall(self, name):
        return [f for f in self.uniq if f.name == name]


def callee_name(i):
    c = i[3]
    if isinstance(c, list) and c and c[0] == 'g':
        return c[1]
    return None
