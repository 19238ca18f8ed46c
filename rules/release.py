"""resources-released: what a function acquires (memory, descriptors, library objects, objects
made by constructors of this program) is released or handed over on every path; nothing is
used after release or released twice.

Summaries, inferred bottom-up: for every pointer or descriptor parameter what becomes of it
when the function returns zero and when it returns non-zero (kept, freed, stored away), and
which functions hand out a new resource through their return value or an output parameter."""
import re
from engine.absint import Rule, ev
from engine import expr as X
from engine.ir import callee_name
from engine import driver
from rules.common import calls

Z, NZ = 0, 1

# library functions and primitives: result is a new resource of a kind
ACQ = {'malloc': 'mem', 'calloc': 'mem', 'strdup': 'mem', 'strndup': 'mem', 'realloc': 'mem', 'mallocx': 'mem', 'rallocx': 'mem', 'rrr_allocate': 'mem', 'rrr_allocate_zero': 'mem', 'rrr_callocate': 'mem',
       'rrr_allocate_group': 'mem', 'rrr_allocate_group_zero': 'mem', 'rrr_reallocate': 'mem', 'rrr_reallocate_group': 'mem', 'rrr_strdup': 'mem',
       'fopen': 'stream', 'fdopen': 'stream', 'opendir': 'directory', 'dlopen': 'library',
       'open': 'fd', 'open64': 'fd', 'socket': 'fd', 'accept': 'fd', 'dup': 'fd', 'mkstemp': 'fd', 'shm_open': 'fd', 'eventfd': 'fd', 'epoll_create1': 'fd', 'timerfd_create': 'fd',
       'json_object_new_array': 'json object', 'json_object_new_int64': 'json object', 'json_object_new_uint64': 'json object', 'json_object_new_object': 'json object',
       'json_object_new_string': 'json object', 'json_object_new_string_len': 'json object', 'json_tokener_new': 'json tokener', 'json_tokener_parse_ex': 'json object',
       'event_new': 'event', 'event_base_new_with_config': 'event base', 'event_config_new': 'event config',
       'SSL_CTX_new': 'SSL context', 'SSL_get1_peer_certificate': 'certificate', 'SSL_get1_supported_ciphers': 'cipher list', 'BIO_new_ssl': 'BIO',
       'mysql_stmt_init': 'statement', 'lua_newstate': 'lua state', 'perl_alloc': 'perl',
       'PyByteArray_FromStringAndSize': 'python object', 'PyByteArray_FromObject': 'python object', 'PyLong_FromLong': 'python object', 'PyLong_FromLongLong': 'python object', 'PyLong_FromUnsignedLong': 'python object',
       'PyLong_FromUnsignedLongLong': 'python object', 'PyList_New': 'python object', 'PyTuple_New': 'python object', 'PyUnicode_FromString': 'python object', 'PyUnicode_FromStringAndSize': 'python object',
       'PyUnicode_FromFormat': 'python object', 'PyObject_CallObject': 'python object', 'PyObject_CallFunctionObjArgs': 'python object', 'PyObject_GetIter': 'python object', 'PyImport_ImportModule': 'python object',
       'PyRun_StringFlags': 'python object', '_PyObject_New': 'python object', 'PyDict_Keys': 'python object', 'PyLong_FromUnicodeObject': 'python object'}
ACQOUT = {'getaddrinfo': (3, 'address list'), 'nghttp2_session_callbacks_new': (0, 'nghttp2 callbacks'), 'nghttp2_session_client_new': (0, 'nghttp2 session'), 'nghttp2_session_server_new': (0, 'nghttp2 session'),
          'asprintf': (0, 'mem'), 'vasprintf': (0, 'mem')}
FREE = {'free': 0, 'rrr_free': 0, 'dallocx': 0, 'close': 0, 'fclose': 0, 'closedir': 0, 'dlclose': 0, 'freeaddrinfo': 0, 'json_object_put': 0, 'json_tokener_free': 0, 'event_free': 0, 'event_base_free': 0,
        'event_config_free': 0, 'SSL_CTX_free': 0, 'SSL_free': 0, 'X509_free': 0, 'BIO_free_all': 0, 'OPENSSL_sk_free': 0, 'mysql_stmt_close': 0, 'nghttp2_session_del': 0, 'nghttp2_session_callbacks_del': 0,
        'munmap': 0, 'rrr_socket_close': 0, 'rrr_socket_close_no_unlink': 0, 'rrr_socket_close_ignore_unregistered': 0, 'shmdt': 0, '_Py_Dealloc': 0, 'PyObject_Free': 0, 'perl_free': 0, 'lua_close': 0, 'mysql_close': 0}
REALLOC = {'realloc', 'rallocx', 'rrr_reallocate', 'rrr_reallocate_group'}
RAWFREE = {'free', 'rrr_free', 'dallocx'}
SHARED = {'json_object_put', '_Py_Dealloc', 'event_free'}      # reference counted: not gone for certain
# the socket list only records descriptors, closing them stays with whoever opened them
RECORDS = {'__rrr_socket_add_unlocked': (0,)}
BORROW = re.compile(r'^(str|mem|llvm\.|v?s?n?f?printf$|printf|fprintf|sprintf|puts|put|is|to(upper|lower)|read|write|recv|send|poll$|bind$|connect$|listen$|accept$|getsock|getpeer|setsockopt|getnameinfo|getaddrinfo|fcntl|ioctl|lseek|'
                    r'fstat|f(seek|tell|read|gets?c?|error|ileno|flush|truncate|write)|stat|lstat|unlink|rename|mkdir|mkfifo|rmdir|chmod|chdir|access|realpath|opendir|readdir|open|close|shm_|shmctl|inet_|htons|ntohs|gai_|pthread_(mutex|cond|rwlock|self|testcancel|cancel|join|detach|setname)|'
                    r'json_object_(array_get|array_len|get_|iter|object_len|to_)|json_tokener_|json_type|event_(add|del|active|pending|priority|base|reinit|config)|SSL_|X509_|ERR_|EVP_|PKCS5|RAND|BIO_(ctrl|read|test|write|new_ssl)|OPENSSL_sk_|TLS_|'
                    r'mysql_|nghttp2_(session|submit|strerror|pack|select|http2)|Py(Err|List|Long|Unicode|Bytes|ByteArray|Tuple_(Get|Size)|Callable|Dict|Float|Object_(Is|Call|GetIter)|Import|Module_Get|Module_Create|Run|State|Eval|Thread|Type)|'
                    r'setenv|getenv|getcwd|gethostname|setproctitle|dl(sym|error)|tc[gs]etattr|cf[gs]et|nanosleep|clock|gettime|sig|kill|waitpid|umask|sysconf|mmap|__errno|__ctype|__assert|__xpg|dirname|basename|deflate|inflate|lua_(?!pushlight)|luaL_|Perl_newSV|exec|sd_journal|modfl|event_new$|__sigsetjmp|_setjmp|__pthread_(un)?register|pthread_setspecific$)')


def derive(f):
    """SSA id -> set of (param, level): level 0 the pointer itself or an address in it, 1 what it points to"""
    a = {}
    for k, p in enumerate(f.params):
        if p[1] in ('p', 'i32'): a[k] = {(k, 0)}
    al = {}
    ch = True

    def of(v):
        if isinstance(v, int): return a.get(v, ())
        return ()
    n = 0
    while ch and n < 12:
        ch = False
        n += 1
        for bl in f.bb:
            for i in bl:
                op = i[0]; new = ()
                if op == 'gep': new = of(i[3])
                elif op == 'cast': new = of(i[4])
                elif op == 'phi':
                    new = set()
                    for _, v in i[3]: new |= set(of(v))
                elif op == 'select': new = set(of(i[4])) | set(of(i[5]))
                elif op == 'load':
                    p = base_alloca(f, i[3])
                    if p is not None: new = al.get(p, ())
                    else: new = {(k, 1) for k, l in of(i[3])}
                elif op == 'store':
                    p = base_alloca(f, i[4])
                    if p is not None:
                        v = of(i[3])
                        if v and not set(v) <= al.get(p, set()):
                            al.setdefault(p, set()).update(v); ch = True
                    continue
                else: continue
                if new and not set(new) <= a.get(i[1], set()):
                    a.setdefault(i[1], set()).update(new); ch = True
    return a, al


def base_alloca(f, v, d=0):
    while isinstance(v, int) and d < 20:
        i = f.ins().get(v)
        if i is None: return None
        if i[0] == 'alloca': return v
        if i[0] == 'gep': v = i[3]
        elif i[0] == 'cast': v = i[4]
        else: return None
        d += 1
    return None


def may(P, cg):
    """flow-insensitive: (fn,param) -> may be freed or stored ('c'), contents may be freed or stored ('k')"""
    info = {}
    cons = {}; cont = {}
    for f in P.uniq:
        if not f.bb: continue
        info[f.key] = derive(f)
    callers = cg.callers()
    work = [f.key for f in P.uniq if f.bb]
    inw = set(work)
    while work:
        key = work.pop(); inw.discard(key)
        f = cg.fk[key]
        a, al = info[key]
        c = set(cons.get(key, ())); k = set(cont.get(key, ()))

        def mark(v, cc, kk):
            for p, l in (a.get(v, ()) if isinstance(v, int) else ()):
                if l == 0 and cc: c.add(p)
                if l == 1 and cc or kk: k.add(p)
        for bl in f.bb:
            for i in bl:
                if i[0] == 'store':
                    if isinstance(i[3], int) and i[3] in a and base_alloca(f, i[4]) is None: mark(i[3], True, False)
                elif i[0] == 'ret':
                    if i[3] is not None: mark(i[3], True, False)
                elif i[0] == 'other':
                    for v in i[4] or (): mark(v, True, True)
                elif i[0] == 'call':
                    n = callee_name(i); ts, un = cg.targets(f, i)
                    for x, v in enumerate(i[4]):
                        if not isinstance(v, int): continue
                        ba = base_alloca(f, v)
                        if ba is not None and al.get(ba):
                            kk = any(x in cont.get(t.key, ()) for t in ts) if ts else not (n and (n in FREE or BORROW.match(n)))
                            if kk:
                                for p, l in al[ba]:
                                    if l == 0: c.add(p)
                                    k.add(p)
                        if v not in a: continue
                        if n in FREE or n in REALLOC: mark(v, x == 0, False)
                        elif ts:
                            for t in ts:
                                if n in RECORDS and x in RECORDS[n]: continue
                                mark(v, x in cons.get(t.key, ()), x in cont.get(t.key, ()))
                        elif n and BORROW.match(n): pass
                        else: mark(v, True, True)
        if c != cons.get(key, set()) or k != cont.get(key, set()):
            cons[key] = c; cont[key] = k
            for g, _ in callers.get(key, ()):
                if g.key not in inw: inw.add(g.key); work.append(g.key)
    return cons, cont


class Track(Rule):
    """shared machinery. Entries in q: (term, state, info...)
       own:  (t, 'o', site line, what, cond)         cond: status term, resource exists only if it is zero
       held: (t, 'h', site line, what, cond, root, off)
       out:  (t, 'u', site line, what, cond, param)  stored in *param only
       par:  (t, 'p'|'c', k)                         parameter: kept / consumed
       gone: (t, 'f', line, by)"""
    max_depth = 1

    def inline(self, fn, depth, chain): return fn.name == '__pthread_cleanup_routine'

    def __init__(self, P, cg, mod, arg):
        self.P = P; self.cg = cg
        self.fates = arg['fates']; self.cont = arg['cont']; self.acq = arg.get('acq', {})
        self.mode = arg['mode']

    # ------------------------------------------------------------ state helpers
    def setq(self, s, l): s.q = tuple(sorted(l, key=lambda e: (e[0].id, str(e[1:3]))))

    def drop(self, s, t, why='c', line=0, by=''):
        """t and everything held by it has been consumed"""
        o = []
        for e in s.q:
            if e[0] is t:
                if e[1] in 'pc': o.append((t, why, e[2]))
                elif e[1] == 'f': o.append(e)
                continue
            if e[1] == 'h' and e[5] is t: continue
            o.append(e)
        self.setq(s, o)

    def find(self, s, t):
        for e in s.q:
            if e[0] is t: return e
        return None

    def tracked(self, s, v):
        """entries whose term the value v is, or is an address in"""
        return [e for e in s.q if e[1] != 'f' and (e[0] is v or e[0] in v.terms)]

    def isnull(self, s, t, kind):
        v = ev(s, t)
        if kind == 'fd': return all(a >= 1 << 31 for a, b in v)
        return v == ((0, 0),)

    def private(self, s, r, aroots):
        d = 0
        while d < 6:
            if r in aroots: return False
            e = self.find(s, r)
            if e is None: return False
            if e[1] == 'o': return True
            if e[1] != 'h': return False
            r = e[5]
            if r.op == 'al': return r not in aroots
            d += 1
        return False

    # ------------------------------------------------------------ events
    def on_store(self, ip, fr, s, i, a, v):
        if v.op == 'c' or not s.q: return
        for e in self.tracked(s, v):
            t = e[0]
            if e[1] in 'c': continue
            r = X.root(a)
            if r is t: continue
            if r.op == 'al':
                if a is r: continue
                if e[1] in 'ou' and v is t:
                    off = a.a[1] if a.op == 'addr' else 0
                    self.replace(s, e, (t, 'h', e[2], e[3], e[4], r, off))
                elif e[1] == 'p' and v is t: pass       # in a local structure; see contents() in post_call
                elif e[1] != 'h': self.drop(s, t)
                continue
            c = self.find(s, r)
            if c is not None and c[1] in 'oh' and e[1] in 'oh' and v is t:
                off = a.a[1] if a.op == 'addr' else 0
                self.replace(s, e, (t, 'h', e[2], e[3], e[4], r, off))
                continue
            if e[1] == 'o' and v is t and a.op == 't' and a.a[0][0] == 'p' and a.a[0][1] == fr.fn.key:
                self.replace(s, e, (t, 'u', e[2], e[3], e[4], a.a[0][2]))
                continue
            self.drop(s, t)

    def replace(self, s, e, n): self.setq(s, [n if x is e else x for x in s.q])

    def deep(self, s, r):
        """other locals of which the address is found through local r"""
        out = set(); work = [r]
        while work:
            x = work.pop()
            for c, v in s.mem.items():
                if X.root(c) is x and v.op != 'c':
                    y = X.root(v)
                    if v.op == 't' and v.a[0][0] == 'k' and v.bits == 64:      # changed by some call: may be any local
                        return {X.root(c2) for c2 in s.mem if X.root(c2).op == 'al'} - {r}
                    if y.op == 'al' and y is not r and y not in out: out.add(y); work.append(y)
        return out

    def fate(self, name, targets, k):
        """-> (set of fates when zero is returned, set when non-zero is returned)"""
        if name in FREE: return ({'f'}, {'f'}) if k == FREE[name] else ({'k'}, {'k'})
        if name in REALLOC: return ({'k'}, {'f'}) if k == 0 else ({'k'}, {'k'})
        if name in RECORDS and k in RECORDS[name]: return {'k'}, {'k'}
        if targets:
            z = set(); nz = set()
            for t in targets:
                f = self.fates.get((t.key, k))
                if f is None: z.add('k'); nz.add('k')
                else: z |= f[0]; nz |= f[1]
            return z, nz
        if name and BORROW.match(name): return {'k'}, {'k'}
        return {'c'}, {'c'}

    def contents(self, name, targets, k):
        if name in FREE: return name not in RAWFREE
        if name in REALLOC: return False
        if targets: return any(k in self.cont.get(t.key, ()) for t in targets)
        return not (name and BORROW.match(name))

    def on_call(self, ip, fr, s, i, name, targets, args):
        self.cells = [(e[0], [c for c, v in s.mem.items() if e[0] in v.terms]) for e in s.q if e[1] == 'o']
        return None

    def acquires(self, name, targets):
        """-> [('ret',kind) | ('out',k,kind)]"""
        if name in ACQ: return [('ret', ACQ[name])]
        if name in ACQOUT: return [('out',) + ACQOUT[name]]
        r = []
        for t in targets:
            x = self.acq.get(t.key)
            if not x: return []
            r = r or list(x)
            if set(r) != set(x): return []
        return r

    def post_call(self, ip, fr, s, i, name, targets, args, ret):
        if name and name.startswith('llvm.dbg'): return None
        if any(t.key in self.force or t.name == '__pthread_cleanup_routine' for t in targets): return None
        states = [(s, None)]
        if s.q:
            need = False
            acts = []
            for k, a in enumerate(args):
                if a.op == 'c': continue
                ts = self.tracked(s, a)
                # released through another name of the same cell
                if not ts and a.op == 't':
                    for c, v in s.mem.items():
                        if v is a:
                            r = X.root(c); off = c.a[1] if c.op == 'addr' else 0
                            for e in s.q:
                                if e[1] == 'h' and e[5] is r and e[6] == off: ts.append(e)
                if ts:
                    z, nz = self.fate(name, targets, k)
                    if 'r' in z or 'r' in nz:
                        # handed back as the result of the call
                        x = 'c' if fr.fn.uses().get(i[1]) else 'k'
                        z = {x if y == 'r' else y for y in z}; nz = {x if y == 'r' else y for y in nz}
                    for e in ts:
                        inner = not (e[0] is a or a.op == 't' or a.op == 'addr' and a.a[1] == 0 and not a.a[2])
                        zz, nn = (z - {'f'} or {'k'}, nz - {'f'} or {'k'}) if inner else (z, nz)
                        if e[1] == 'c': continue
                        acts.append((e[0], k, zz, nn))
                        if zz != nn: need = True
                r = X.root(a)
                if r.op == 'al' and self.mode == 'fate' and self.contents(name, targets, k):
                    for c, v in list(s.mem.items()):
                        if X.root(c) is r and c is not a and v.op != 'c':
                            for e in self.tracked(s, v): self.drop(s, e[0])
                if r.op == 'al':
                    deep = self.deep(s, r)
                    if deep and self.contents(name, targets, k):
                        for c, v in list(s.mem.items()):
                            if v.op != 'c' and X.root(c) in deep:
                                for e in self.tracked(s, v): self.drop(s, e[0])
                cell = s.mem.get(a) if r.op == 'al' else None
                if cell is not None and cell.op != 'c' and self.tracked(s, cell) and self.contents(name, targets, k):
                    for e in self.tracked(s, cell): self.drop(s, e[0])
                if any(e[1] == 'h' and e[5] is r for e in s.q):
                    if name in RAWFREE or self.fate(name, targets, k)[1] == {'f'} and not self.contents(name, targets, k):
                        if a is r and r.op != 'al': self.container_freed(ip, fr, s, i, r)
                    elif self.contents(name, targets, k):
                        self.setq(s, [e for e in s.q if not (e[1] == 'h' and e[5] is r)])
            if acts:
                if need and ret is not None and ret.op == 't' and fr.fn is not None and targets and targets[0].ret in ('i32', 'p', 'i1', 'i8') or need and name in REALLOC:
                    from engine.absint import assume
                    out = []
                    for truth in (True, False):
                        n = s.copy()
                        if assume(n, X.icmp('eq', ret, X.const(0, ret.bits)), truth): out.append((n, truth))
                    states = out
                for n, truth in states:
                    for t, k, z, nz in acts:
                        f = z if truth is True else nz if truth is False else z | nz
                        if f == {'k'}: continue
                        self.gone(ip, fr, n, i, name, t, k, f)
        acq = self.acquires(name, targets)
        for n, truth in states:
            # resources nothing refers to any more because the call may have changed what did
            lost = {t for t, cs in self.cells if any(t not in n.mem[c].terms for c in cs if c in n.mem)}
            if lost: self.setq(n, [e for e in n.q if e[0] not in lost])
            if not acq: continue
            for x in acq:
                if x[0] == 'ret' and ret is not None and ret.op == 't': self.own(ip, fr, n, i, ret, x[1], name, None)
                elif x[0] == 'out' and x[1] < len(args):
                    a = args[x[1]]
                    if a.op == 'c': continue
                    r = X.root(a)
                    t = X.term(('acq', fr.ctx, i[1], x[1]), 32 if x[2] == 'fd' else 64)
                    a = ip.canon(n, a)
                    from engine.absint import drop_terms
                    if self.mode == 'leak': self.overwritten(ip, fr, n, i, n.mem.get(a), a)
                    for c in [c for c, v in n.mem.items() if t in v.terms]:
                        o = X.term(('old', fr.ctx, i[1], c), n.mem[c].bits); drop_terms(n, frozenset((o,))); n.mem[c] = o
                    drop_terms(n, frozenset((t,)))
                    n.mem[a] = t
                    cond = ret if ret is not None and ret.op == 't' and ret.bits == 32 else None
                    if r.op == 'al':
                        self.own(ip, fr, n, i, t, x[2], name, cond)
                        if a is not r:
                            e = self.find(n, t)
                            if e: self.replace(n, e, (t, 'h') + e[2:5] + (r, a.a[1]))
                    elif self.mode == 'leak' and a.op == 't' and a.a[0][0] == 'p' and a.a[0][1] == fr.fn.key and fr.depth == 0:
                        self.own(ip, fr, n, i, t, x[2], name, cond)
                        e = self.find(n, t)
                        if e: self.replace(n, e, (t, 'u') + e[2:5] + (a.a[0][2],))
                    else:
                        c = self.find(n, r)
                        if c is not None and c[1] in 'oh':
                            self.own(ip, fr, n, i, t, x[2], name, cond)
                            e = self.find(n, t)
                            if e: self.replace(n, e, (t, 'h') + e[2:5] + (r, a.a[1] if a.op == 'addr' else 0))
        if len(states) == 1 and states[0][0] is s: return None
        return [n for n, _ in states]

    def own(self, ip, fr, s, i, t, kind, name, cond): pass
    def overwritten(self, ip, fr, s, i, v, a): pass
    def gone(self, ip, fr, s, i, name, t, k, f): self.drop(s, t, 'c')
    def container_freed(self, ip, fr, s, i, r): pass


class Fate(Track):
    name = 'fate'

    def __init__(self, P, cg, mod, arg):
        super().__init__(P, cg, mod, arg)
        self.cand = arg['cand']
        self.data = {}

    def start(self, fn, s):
        for k in self.cand[fn.key]: self.data[k] = (set(), set())
        return tuple(sorted(((X.term(('p', fn.key, k), 64 if fn.params[k][1] == 'p' else 32), 'p', k) for k in self.cand[fn.key]), key=lambda e: e[0].id))

    def gone(self, ip, fr, s, i, name, t, k, f):
        e = self.find(s, t)
        if e is None: return
        if f == {'f'}: self.replace(s, e, (t, 'f', e[2]))
        else: self.replace(s, e, (t, 'c', e[2]))

    def on_ret(self, ip, fr, s, i, v):
        r = None
        if v is not None:
            e = ev(s, v)
            r = Z if e == ((0, 0),) else None if X.has(e, 0) else NZ
        for e in s.q:
            st = {'p': 'k', 'f': 'f', 'c': 'c'}[e[1]]
            if st == 'k' and v is not None and e[0] in v.terms: st = 'r' if v is e[0] else 'c'
            if st == 'k' and e[0].bits == 64 and ev(s, e[0]) == ((0, 0),): continue
            if r != NZ: self.data[e[2]][0].add(st)
            if r != Z: self.data[e[2]][1].add(st)


class Leak(Track):
    name = 'released'

    def __init__(self, P, cg, mod, arg):
        super().__init__(P, cg, mod, arg)
        self.data = {'acq': set(), 'sites': set(), 'noacq': set()}

    def start(self, fn, s): return ()

    def on_call(self, ip, fr, s, i, name, targets, args):
        super().on_call(ip, fr, s, i, name, targets, args)
        if s.q and fr.depth == 0:
            t = X.term(('x', fr.ctx, i[1]), 32 if i[5] == 'i32' else 64)
            e = self.find(s, t)
            if e is not None and e[1] == 'o' and X._tab is not None:
                rest = [v for k, v in s.env.items() if k != (fr.ctx, i[1])] + list(s.mem.values())
                if not any(t in v.terms for v in rest) and not self.isnull(s, t, e[3][0]) and not X.has(ev(s, t), 0): self.leak(ip, fr, s, i, e, ' when it is overwritten')
            if e is not None: self.setq(s, [x for x in s.q if t not in (x[0],) and t not in x[0].terms and not (x[1] == 'h' and x[5] is t)])
        return None

    def own(self, ip, fr, s, i, t, kind, name, cond):
        self.data['sites'].add(i[1])
        self.setq(s, [e for e in s.q if e[0] is not t and not (e[1] == 'h' and e[5] is t)] + [(t, 'o', i[2], (kind, name or 'function pointer'), cond)])

    def overwritten(self, ip, fr, s, i, v, a):
        if v is None or v.op != 't': return
        e = self.find(s, v)
        if e is None or e[1] != 'o' and not (e[1] == 'h' and e[5].op == 'al'): return
        rest = [x for k, x in s.env.items()] + [x for c, x in s.mem.items() if c is not a]
        if not any(v in x.terms for x in rest) and not self.absent(s, e) and not X.has(ev(s, v), 0): self.leak(ip, fr, s, i, e, ' when it is overwritten')

    def gone(self, ip, fr, s, i, name, t, k, f):
        self.drop(s, t)

    def container_freed(self, ip, fr, s, i, r):
        o = []
        for e in s.q:
            if e[1] == 'h' and e[5] is r:
                if self.absent(s, e): continue
                t = e[0]
                if any(t in v.terms for v in s.env.values()) or any(t in v.terms and X.root(c) is not r for c, v in s.mem.items()): o.append((t, 'o') + e[2:5])
                else: self.leak(ip, fr, s, i, e, ' when the object holding it is freed')
            else: o.append(e)
        self.setq(s, o)

    def on_branch(self, ip, fr, s, i, cond, truth):
        if not s.q: return
        gone = [e[0] for e in s.q if e[1] in 'ohu' and (e[0] in cond.terms or e[4] is not None and e[4] in cond.terms) and self.absent(s, e)]
        if gone: self.setq(s, [e for e in s.q if e[0] not in gone and not (e[1] == 'h' and e[5] in gone)])

    def on_load(self, ip, fr, s, i, a, v):
        # what holds it has been changed in a way not followed
        if v.op != 't' or not s.q: return
        r = X.root(a); off = a.a[1] if a.op == 'addr' else 0
        lost = [e for e in s.q if e[1] == 'h' and e[5] is r and e[6] == off and e[0] is not v]
        if lost: self.setq(s, [e for e in s.q if e not in lost])

    def absent(self, s, e):
        if e[4] is not None:
            if ev(s, e[4]) != ((0, 0),): return True
        v = ev(s, e[0])
        if e[3][0] == 'fd': return all(b == 0 or a >= 1 << 31 for a, b in v)
        return v == ((0, 0),)

    def leak(self, ip, fr, s, i, e, how=''):
        ip.report(fr, i, s, '%s from %s at line %d is neither released nor handed over%s' % (e[3][0], e[3][1], e[2], how), key='leak|%s|%s' % (fr.fn.name, e[3][1]))

    def on_ret(self, ip, fr, s, i, v):
        if fr.fn.name == 'main': return
        rv = ev(s, v) if v is not None else None
        ok = v is None or fr.fn.ret == 'p' or X.has(rv, 0)
        for e in list(s.q):
            if e[1] == 'u':
                if ok and (not self.absent(s, e) or v is not None and e[4] is v and X.has(rv, 0)): self.data['acq'].add(('out', e[5], e[3][0]))
                continue
            if v is not None and (e[0] is v or e[0] in v.terms):
                if v is e[0] and not self.absent(s, e): self.data['acq'].add(('ret', e[3][0]))
                self.drop(s, e[0])
        for e in list(s.q):
            if e[1] not in 'oh': continue
            if e[1] == 'h' and e[5].op != 'al': continue
            if self.absent(s, e): continue
            self.leak(ip, fr, s, i, e)


def close(ctx, log=None):
    P, cg = ctx.P, ctx.cg
    cons, cont = may(P, cg)
    callers = cg.callers()
    fates = {}
    cand = {}
    for k, ps in cons.items():
        f = cg.fk[k]
        if f.name in FREE or f.name in REALLOC: continue
        if ps:
            cand[k] = sorted(ps)
            for p in ps: fates[(k, p)] = ({'k', 'f', 'c'}, {'k', 'f', 'c'})
    todo = set(cand)
    n = 0
    while todo and n < 6:
        n += 1
        o = driver.run(Fate, sorted(todo), {'fates': fates, 'cont': cont, 'cand': cand, 'mode': 'fate'})
        if o['errors']: raise Exception('%s: %s' % o['errors'][0])
        nxt = set()
        for k, d in o['data'].items():
            if k in o['incomplete']: continue
            chg = False
            for p, (z, nz) in d.items():
                z = z or nz or {'k'}; nz = nz or z
                if fates[(k, p)] != (z, nz):
                    fates[(k, p)] = (z, nz); chg = True
            if chg:
                for g, _ in callers.get(k, ()):
                    if g.key in cand: nxt.add(g.key)
        if log: log('fate round', n, len(todo), len(o['incomplete']), o['slow'][:5])
        todo = nxt
    # constructors
    acq = {}
    keys = set()
    for f in P.uniq:
        if f.name in ACQ or f.name in FREE: continue
        if any(callee_name(i) in ACQ or callee_name(i) in ACQOUT for i in calls(f)): keys.add(f.key)
    done = {}
    todo = keys
    n = 0
    while todo and n < 8:
        n += 1
        o = driver.run(Leak, sorted(todo), {'fates': fates, 'cont': cont, 'acq': acq, 'mode': 'leak'}, 12000)
        if o['errors']: raise Exception('%s: %s' % o['errors'][0])
        nxt = set()
        for k in todo: done[k] = (o['byfn'].get(k, []), o['data'].get(k), k in o['incomplete'])
        for k, d in o['data'].items():
            a = tuple(sorted(d['acq'], key=str))
            if a != acq.get(k, ()):
                if a: acq[k] = a
                else: acq.pop(k, None)
                for g, _ in callers.get(k, ()):
                    if g.name not in ACQ: nxt.add(g.key)
        if log: log('leak round', n, len(todo), len(o['incomplete']), o['slow'][:5])
        todo = nxt
    return fates, cont, acq, done


def check(ctx):
    fates, cont, acq, done = close(ctx)
    inc = []
    for k, (rs, d, i) in done.items():
        ctx.reports += rs
        if i: inc.append(k)
    ctx.coverage['functions_analysed'] = len(done)
    ctx.coverage['incomplete'] = sorted(inc)
    ctx.floor('acquisition_sites', sum(len(d['sites']) for _, d, _ in done.values() if d), 600)
    ctx.floor('functions_which_hand_out_resources', len(acq), 150)
    ctx.floor('parameters_consumed', len(fates), 800)
    from rules import members
    members.check(ctx, fates, cont, acq)
    ctx.explain('every path from each acquisition (allocation, descriptor, lock object, reference, or result of a function inferred to hand one out) to the return of the '
                'function: the resource must have been released, stored where others find it, handed to a callee which consumes it, or returned')
