"""Members of structures which own what they point to: a destructor releases them."""
import re
from engine.ir import callee_name
from rules.common import calls
from rules import release as R


def path(P, f, v):
    """address operand -> (base value, [(struct, field)...]) following geps"""
    out = []
    for _ in range(12):
        if not isinstance(v, int): return v, out
        i = f.ins().get(v)
        if i is None: return v, out
        if i[0] == 'gep':
            out = [(s[1], s[2]) for s in i[4] if s[0] == 'f'] + out
            v = i[3]
        elif i[0] == 'cast': v = i[4]
        else: return v, out
    return v, out


class Flow:
    """values of a function through its local variables, flow-insensitively"""
    def __init__(self, P, f):
        self.P = P; self.f = f
        self.st = {}
        for bl in f.bb:
            for i in bl:
                if i[0] == 'store' and isinstance(i[4], int):
                    d = f.ins().get(i[4])
                    if d is not None and d[0] == 'alloca': self.st.setdefault(i[4], []).append(i[3])

    def sources(self, v, seen=None):
        """instructions (or ('param',k)) the value may come from"""
        f = self.f
        if seen is None: seen = set()
        if not isinstance(v, int) or v in seen: return []
        seen.add(v)
        if v < len(f.params): return [('param', v)]
        i = f.ins().get(v)
        if i is None: return []
        if i[0] == 'cast': return self.sources(i[4], seen)
        if i[0] == 'phi': return [x for _, y in i[3] for x in self.sources(y, seen)]
        if i[0] == 'select': return self.sources(i[4], seen) + self.sources(i[5], seen)
        if i[0] == 'load' and isinstance(i[3], int):
            d = f.ins().get(i[3])
            if d is not None and d[0] == 'alloca' and i[3] in self.st:
                return [x for y in self.st[i[3]] for x in self.sources(y, seen)]
            return [i]
        return [i]


def analyse(ctx, fates, cont, acq):
    P, cg = ctx.P, ctx.cg
    owned = {}      # (T,F) -> [(fn, ins)]
    embed = {}      # (T,F) address given to a function which ...
    released = {}   # fn key -> set of (T,F)
    whole = {}      # fn key -> set of T : a structure of this type is freed
    for f in P.uniq:
        if not f.bb: continue
        fl = Flow(P, f)
        rel = set(); wh = set()
        for bl in f.bb:
            for i in bl:
                if i[0] == 'store':
                    _, p = path(P, f, i[4])
                    if not p: continue
                    for s in fl.sources(i[3]):
                        if s[0] == 'call' and acquires(cg, f, s, acq): owned.setdefault(p[-1], []).append((f, i))
                elif i[0] == 'call':
                    n = callee_name(i)
                    if n and n.startswith('llvm.'): continue
                    ts, un = cg.targets(f, i)
                    for k, a in enumerate(i[4]):
                        if not isinstance(a, int): continue
                        b, p = path(P, f, a)
                        if p and outs(cg, f, i, acq, k): owned.setdefault(p[-1], []).append((f, i))
                        if p and ts and any(k in cont.get(t.key, ()) for t in ts) and not any(x[0] == 'out' and x[1] == k for t in ts for x in acq.get(t.key, ())): rel.update(p)
                        if not frees(n, ts, k, fates): continue
                        if p: rel.update(p)            # address of a member given away
                        if n in R.RAWFREE:
                            for s in fl.sources(a):
                                if s[0] == 'param':
                                    for b2 in f.bb:
                                        for g in b2:
                                            if g[0] == 'gep' and isinstance(g[3], int) and any(x == s for x in fl.sources(g[3])):
                                                for e in g[4]:
                                                    if e[0] == 'f': wh.add(e[1])
                                                    break
                                    m = re.match(r'struct (\w+) ?\*$', f.params[s[1]][2])
                                    if m: wh.add(m.group(1))
                        for s in fl.sources(a):
                            if s[0] == 'load':
                                _, q = path(P, f, s[3])
                                rel.update(q)
        released[f.key] = rel
        if wh: whole[f.key] = wh
    return owned, released, whole


def closure(cg, key, released, depth=6):
    out = set(released.get(key, ()))
    seen = {key}; front = [key]
    for _ in range(depth):
        nxt = []
        for k in front:
            f = cg.fk[k]
            for i in calls(f):
                for t in cg.targets(f, i)[0]:
                    if t.key not in seen: seen.add(t.key); nxt.append(t.key); out |= released.get(t.key, set())
        front = nxt
    return out


def acquires(cg, f, i, acq):
    n = callee_name(i)
    if n in R.ACQ: return R.ACQ[n] in ('mem',) or R.ACQ[n] != 'fd'
    ts, _ = cg.targets(f, i)
    return bool(ts) and all(any(x[0] == 'ret' and x[1] != 'fd' for x in acq.get(t.key, ())) for t in ts)


def outs(cg, f, i, acq, k):
    n = callee_name(i)
    if n in R.ACQOUT: return R.ACQOUT[n][0] == k
    ts, _ = cg.targets(f, i)
    return bool(ts) and all(any(x[0] == 'out' and x[1] == k and x[2] != 'fd' for x in acq.get(t.key, ())) for t in ts)


def frees(n, ts, k, fates):
    if n in R.FREE: return R.FREE[n] == k
    if n in R.REALLOC: return k == 0
    for t in ts:
        x = fates.get((t.key, k))
        if x and (x[0] | x[1]) & {'f', 'c'}: return True
    return False


def embedded(P, owned):
    """members which are themselves structures owning something"""
    types = {t for t, _ in owned} - {'rrr_event_handle'}
    types |= {t for t, d in P.structs.items() if any(m[0] == 'ptr_first' for m in d[1])}
    out = set()
    chg = True
    while chg:
        chg = False
        for t, d in P.structs.items():
            for m in d[1]:
                e = m[3] if isinstance(m[3], str) else ''
                e = e.replace('struct ', '')
                if e in types and (t, m[0]) not in out:
                    out.add((t, m[0])); types.add(t); chg = True
    return out


# members which hold something the destructor need not release
EXEMPT = {
    ('cmodule_run_data', 'dl_ptr'): 'closed by the caller through a copy',
    ('rrr_event_handle', 'event'): 'belongs to the event collection',
    ('rrr_event_function', 'queue'): 'reference back to the queue',
    ('rrr_http_util_uri_encode_foreach_byte_callback_data', 'wpos'): 'cursor',
    ('rrr_instance_config_parse_array_tree_definition_from_config_silent_fail_callback_data', 'new_tree'): 'result of a callback, taken by the caller',
    ('rrr_mqtt_p_sub_usub', 'subscriptions'): 'released by the destructor of the packet type of the same layout',
    ('rrr_mqtt_p_sub_usub', 'data_tmp'): 'released by the destructor of the packet type of the same layout',
    ('rrr_mqtt_p', 'payload'): 'released before the destructor is called, when the last reference is dropped',
    ('rrr_mqtt_p_publish', 'payload'): 'released before the destructor is called, when the last reference is dropped',
    ('rrr_net_transport', 'graylist'): 'released before the destructor of the submodule is called',
    ('rrr_net_transport', 'handles'): 'released before the destructor of the submodule is called',
    ('rrr_net_transport', 'events'): 'released before the destructor of the submodule is called',
    ('rrr_net_transport_tls', 'graylist'): 'released before the destructor of the submodule is called',
    ('rrr_net_transport_tls', 'handles'): 'released before the destructor of the submodule is called',
    ('rrr_net_transport_tls', 'events'): 'released before the destructor of the submodule is called',
    ('rrr_net_transport_plain', 'handles'): 'released before the destructor of the submodule is called',
    ('rrr_net_transport_plain', 'events'): 'released before the destructor of the submodule is called',
    ('rrr_net_transport_handle', 'handle'): 'number',
    ('rrr_net_transport_connection_id_pair.', 'a'): 'array of the same identifiers', ('rrr_net_transport_connection_id_pair.', 'src'): 'same',
    ('rrr_http_client_data', 'net_transport_config'): 'program without configuration strings',
    ('rrr_mqtt_p_puback', 'properties'): 'released through the common structure', ('rrr_mqtt_p_pubrec', 'properties'): 'released through the common structure',
    ('rrr_mqtt_p_unsuback', 'properties'): 'released through the common structure', ('rrr_mqtt_p_unsubscribe', 'properties'): 'released through the common structure',
    ('rrr_thread', 'watchdog'): 'reference to another thread',
}
EXEMPT_FN = {('__rrr_fifo_protected_entry_destroy_simple_void', 'rrr_fifo_protected_entry'): 'used when the data has been taken out'}


def check(ctx, fates, cont, acq):
    owned, rel, whole = analyse(ctx, fates, cont, acq)
    emb = embedded(ctx.P, owned)
    own = {}
    for o, l in owned.items():
        if not o[1].startswith('ptr_'): own[o] = l
    for o in emb: own.setdefault(o, [])
    allrel = {}
    for k, r in rel.items():
        for o in r: allrel.setdefault(o, set()).add(k)
    bytype = {}
    for o in own: bytype.setdefault(o[0], []).append(o)
    covered = set()
    n = 0
    for k, ts in sorted(whole.items()):
        f = ctx.cg.fk[k]
        cl = closure(ctx.cg, k, rel)
        for T in sorted(ts):
            if (f.name, T) in EXEMPT_FN: continue
            covered.add(T)
            for o in sorted(bytype.get(T, ())):
                n += 1
                if o in cl or o in EXEMPT: continue
                ctx.report(f, None, 'struct %s is freed but its member %s, which owns what it points to%s, is not released' % (T, o[1], where(own[o])), 'released', key='member|%s|%s' % o)
    for o, l in sorted(own.items()):
        if o in EXEMPT or o[0] in covered: continue
        n += 1
        st = {x[0].key for x in l}
        if allrel.get(o, set()) - st: continue
        if not l:
            d = ctx.P.structs.get(o[0])
            g = anyuser(ctx, o)
            ctx.report(g, None, 'what member %s of struct %s holds is released nowhere' % (o[1], o[0]), 'released', key='member|%s|%s' % o)
        else:
            ctx.report(l[0][0], l[0][1], 'member %s of struct %s is given ownership here but is released nowhere else' % (o[1], o[0]), 'released', key='member|%s|%s' % o)
    ctx.floor('owning_members', n, 350)
    ctx.floor('destructors', len(whole), 100)


def where(l): return ' (it is set in %s)' % l[0][0].name if l else ''


def anyuser(ctx, o):
    for f in ctx.P.uniq:
        for bl in f.bb:
            for i in bl:
                if i[0] == 'gep' and any(s[0] == 'f' and (s[1], s[2]) == o for s in i[4]): return f
    return ctx.P.uniq[0]
