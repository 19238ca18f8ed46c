"""Formatted output: the format string is a constant (or the format of the caller which is itself such a
function) and its conversions match the arguments given in number and kind."""
import re
from engine.ir import callee_name
from rules.common import calls
from rules.errprop import text

EXT = {'printf': 0, 'fprintf': 1, 'dprintf': 1, 'sprintf': 1, 'snprintf': 2, 'asprintf': 1, 'syslog': 1, 'luaL_error': 1, 'lua_pushfstring': 1,
       'Perl_croak_nocontext': 0, 'Perl_warn_nocontext': 0, 'PyErr_Format': 1, 'sd_journal_print': 1, 'sscanf': 1, 'fscanf': 1, 'PyBytes_FromFormat': 0, 'PyUnicode_FromFormat': 0}
SCAN = {'sscanf', 'fscanf'}
EXTV = {'vprintf': 0, 'vfprintf': 1, 'vdprintf': 1, 'vsprintf': 1, 'vsnprintf': 2, 'vasprintf': 1, 'vsyslog': 1, 'sd_journal_printv': 1}
CONV = re.compile(r"%([-+ #0']*)(\*|\d+)?(?:\.(\*|-?\d*))?(hh|h|ll|l|L|q|j|z|t)?([a-zA-Z%])", re.S)


def parse(fmt, scan=False, lua=False):
    """-> list of expected kinds, or a string telling what is wrong"""
    out = []
    p = 0
    while True:
        p = fmt.find('%', p)
        if p < 0: return out
        if scan:
            m = re.compile(r'%(\*)?(\d+)?(hh|h|ll|l|L|q|j|z|t)?(\[\^?\]?[^\]]*\]|[a-zA-Z%])').match(fmt, p)
            if not m: return 'incomplete conversion'
            p = m.end()
            if m.group(4) != '%' and not m.group(1): out.append(('p', m.group(0)))
            continue
        m = CONV.match(fmt, p)
        if not m: return 'incomplete conversion'
        p = m.end()
        fl, w, pr, ln, c = m.groups()
        if c == '%': continue
        if w == '*': out.append(('i32', '*'))
        if pr == '*': out.append(('i32', '*'))
        t = m.group(0)
        if c in 'diouxX': out.append(('i64' if ln in ('l', 'll', 'q', 'j', 'z', 't') else 'i32', t))
        elif c == 'c': out.append(('i32', t))
        elif c in 'aAeEfFgG': out.append(('fp128' if ln == 'L' else 'double', t))
        elif c in 'sp': out.append(('p', t))
        elif c == 'm': pass
        elif c in 'IU' and lua: out.append(('i64', t))
        else: return 'conversion %s is not allowed' % t


def kind(P, f, v, mod):
    if isinstance(v, int):
        if v < len(f.params): return f.params[v][1]
        i = f.ins().get(v)
        if i is None: return None
        op = i[0]
        if op in ('gep', 'alloca'): return 'p'
        if op == 'load': return {32: 'double', 64: 'double'}.get(i[5], 'fp128') if i[4] == 'f' else i[4]
        if op == 'call': return i[5]
        if op == 'icmp': return 'i1'
        if op == 'bin': return 'f' if i[3].startswith('f') else bits(i[6])
        if op == 'cast':
            if i[3] in ('inttoptr', 'bitcast') and not i[5]: return 'p'
            if i[3] == 'inttoptr': return 'p'
            return None if i[3].startswith('fp') or i[3].endswith('fp') else bits(i[6])
        if op == 'phi': return i[4]
        if op == 'select':
            return kind(P, f, i[4], mod) or kind(P, f, i[5], mod)
        if op == 'other': return i[5] if len(i) > 5 else None
        return None
    if isinstance(v, list) and v:
        if v[0] == 'i': return bits(v[2])
        if v[0] in ('g', 'ge', 'n', 'null'): return 'p'
        if v[0] == 'ce': return None
    return None


def bits(b): return 'i%d' % b if isinstance(b, int) and b else None


def wrappers(P):
    """format functions: name -> (index of format parameter, variadic); found from what they pass on"""
    w = dict((k, (v, True)) for k, v in EXT.items())
    w.update((k, (v, False)) for k, v in EXTV.items())
    chg = True
    while chg:
        chg = False
        for f in P.uniq:
            if f.name in w: continue
            for i in calls(f):
                n = callee_name(i)
                if n not in w or w[n][1]: continue
                p = param_of(f, i[4][w[n][0]] if len(i[4]) > w[n][0] else None)
                if p is not None:
                    w[f.name] = (p, f.vararg); chg = True
                    break
    return w


def param_of(f, v):
    """the parameter a value is (through the stack cell of the parameter)"""
    for _ in range(6):
        if not isinstance(v, int): return None
        # a local buffer into which the format was copied with something before it
        for u in f.uses().get(v, []):
            if u[0] == 'call' and callee_name(u) in ('sprintf', 'snprintf') and u[4][0] == v:
                for a in u[4][1:]:
                    r = param_of(f, a) if isinstance(a, int) and a != v else None
                    if r is not None and f.params[r][1] == 'p': return r
        if v < len(f.params): return v
        i = f.ins().get(v)
        if i is None: return None
        if i[0] == 'load' and isinstance(i[3], int) and f.ins().get(i[3], [None])[0] == 'alloca':
            src = [s for bl in f.bb for s in bl if s[0] == 'store' and s[4] == i[3]]
            if len(src) != 1: return None
            v = src[0][3]
        else: return None
    return None


def strings(P, f, v, depth=0):
    """all constant strings a format operand can be; None in the list for anything else"""
    t = text(P, f, v)
    if t is not None: return [t]
    if isinstance(v, int):
        i = f.ins().get(v)
        if i is None: return [None]
        if depth < 4:
            if i[0] == 'select': return strings(P, f, i[4], depth + 1) + strings(P, f, i[5], depth + 1)
            if i[0] == 'phi': return [x for _, y in i[3] for x in strings(P, f, y, depth + 1)]
            if i[0] == 'load' and isinstance(i[3], int) and f.ins().get(i[3], [None])[0] == 'alloca':
                st = [s for bl in f.bb for s in bl if s[0] == 'store' and s[4] == i[3]]
                us = [u for u in f.uses().get(i[3], []) if u[0] not in ('load', 'store')]
                if st and not us and all(not (isinstance(s[3], int) and s[3] < len(f.params)) for s in st):
                    return [x for s in st for x in strings(P, f, s[3], depth + 1)]
    return [None]


def check(ctx):
    P = ctx.P
    w = wrappers(P)
    n = 0; nc = 0; skipped = 0
    for f in P.uniq:
        for i in calls(f):
            c = callee_name(i)
            if c not in w: continue
            k, var = w[c]
            if len(i[4]) <= k: continue
            n += 1
            fs = strings(P, f, i[4][k])
            if None in fs:
                p = param_of(f, i[4][k])
                if p is None or w.get(f.name, (None,))[0] != p:
                    # a local helper which is handed the format: all its callers give constants
                    if not (p is not None and helper_ok(ctx, f, p)):
                        ctx.report(f, i, 'format given to %s is not a constant' % c, 'fmt', key='nonconst|%s' % c)
                continue
            if not var: continue
            args = i[4][k + 1:]
            for t in fs:
                nc += 1
                e = parse(t, c in SCAN, c.startswith('lua'))
                q = t if len(t) < 50 else t[:47] + '...'
                q = q.replace('\n', '\\n')
                if isinstance(e, str):
                    ctx.report(f, i, "%s in format '%s' of %s" % (e, q, c), 'fmt', key='bad|%s' % t[:60]); continue
                if len(e) != len(args):
                    ctx.report(f, i, "format '%s' of %s takes %d arguments but %d are given" % (q, c, len(e), len(args)), 'fmt', key='count|%s' % t[:60]); continue
                for j, ((ek, conv), a) in enumerate(zip(e, args)):
                    ak = kind(P, f, a, ctx.mod)
                    if ak is None: skipped += 1; continue
                    if ak in ('i1', 'i8', 'i16'): ak = 'i32'
                    if ak == 'f' and ek in ('double', 'fp128'): continue
                    if ak != ek:
                        ctx.report(f, i, "argument %d of format '%s' of %s is of kind %s but %s takes %s" % (j + 1, q, c, ak, conv, ek), 'fmt', key='kind|%s|%d' % (t[:60], j))
    ctx.coverage['functions_analysed'] = len(P.uniq)
    ctx.coverage['format_functions'] = sorted(x for x in w if x not in EXT and x not in EXTV)
    ctx.coverage['arguments_of_unknown_kind'] = skipped
    ctx.floor('formatted_output_calls', n, 3000)
    ctx.floor('formats_checked', nc, 3000)
    ctx.explain('every call of a printf-like function (those of libc and the wrappers found by following format parameters): the format must be constant, each conversion must have an argument of its kind')


def helper_ok(ctx, f, p):
    cs = ctx.cg.callers().get(f.key, ())
    if not cs or f.key in ctx.cg.taken(): return False
    for g, i in cs:
        if len(i[4]) <= p or None in strings(ctx.P, g, i[4][p]): return False
    return True
