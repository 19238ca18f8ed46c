"""errors-propagate: a failure that a function detects and reports in the log at error
level is not turned into success by that same function."""
import re
from engine.absint import Rule, ev
from engine import expr as X
from engine.ir import callee_name
from rules.common import calls

LOG = {'rrr_log_printf': 2}
NOTFALLIBLE = re.compile(r'^(str|mem|is[a-z]+$|to(upper|lower)|snprintf|sprintf|printf|fprintf|v?asprintf|sscanf|EVP_|SSL_get_error|rrr_slow_noop$|rrr_parse_match_|\w+_(has|get_by_tag_const|reason_get_v5)$|llvm\.|rrr_log_|getpid|gettid|getc|fgetc|atoi|read$|recv|write$|send|poll$|sysconf)')


# The message says that the failure is handled here and how; after it success is correct.
WARNING = re.compile(r'^\W*(warning|note|info)\b', re.I)
HANDLED = re.compile(r'drop|discard|ignor|skip|later retry|trying again|destroying|will be lost|deleting file|non-critical', re.I)
# Failures which the code reports and deliberately does not return; keyed by what is reported.
TOLERATED = [
    ('Error from PING callback', 'the periodic function of the worker fork goes on; a worker which does not answer is killed by its parent'),
    ('while disconnecting existing client', 'documented at the return statement: only internal errors are returned'),
    ('while iterating local delivery queue', 'soft errors are masked, internal errors are returned'),
    ('Could not load function', 'the next path is tried; the error is kept in a variable which is tested after the last function'),
    ('Error while parsing incoming array in influxdb', 'message is discarded as the one not being an array just before it'),
    ('RRR message_final ', 'received data which is not an RRR message is not an error; no result is set'),
    ('Error while accepting', 'server loop of the test server goes on with the next connection'),
    ('Data is lost', 'stream error with nobody to deliver it to'),
    ('HTTP too many redirects', 'the transaction ends here'),
    ('Redirect timeout after', 'the transaction ends here'),
    ('Unknown class ', 'dump of a message for debugging'),
    ('Unsupported version ', 'dump of a message for debugging'),
    ('Internal error while checking keep-alive', 'the outputs say that the connection is not alive'),
    ('did not find corresponding original packet', 'duplicates from the peer are accepted'),
    ('Sending ACK for malformed PUBLISH', 'the peer is told in the acknowledgement'),
    ('Not forwarding matching PUBLISH', 'too big for this particular client'),
    ('were not removed from the session as requested', 'the peer is told in the acknowledgement'),
    ('MQTT not removing topic', 'the peer is told in the acknowledgement'),
    ('Zero-length topic in message db server', 'the peer gets a negative acknowledgement'),
    ('Send timeout for ', 'the timeout action has been carried out'),
    ('was not an array message as expected', 'the message is not for this purpose'),
    ('Error response ', 'the response is processed'),
    ('exceeded maximum size, cannot be stored', 'the request is answered, but not stored'),
    ('did not contain excactly one element', 'the first element is used'),
    ('A PUBLISH was rejected by the broker', 'the information is for the user'),
    ('but this is not implemented', 'signal without function'),
    ('Write to client failed', 'connection of the test server is closed'),
]
# Internal functions of which a failure may be turned into success without further message.
TOLERATED_CALLEES = {
    'rrr_fork': 'returns a process ID',
    'rrr_main_print_banner_help_and_version': 'non-zero when the help was printed, which is no failure of the program',
    'rrr_socket_sendto_nonblock': 'the next address is tried; the number of bytes written tells whether any succeeded',
    'rrr_mqtt_conn_iterator_ctx_send_disconnect': 'documented at the return statement: only internal errors are returned',
    '__rrr_settings_get_string_noconvert': 'absence of an optional setting',
    'rrr_stats_engine_handle_obtain': 'statistics are optional, the instance works without',
    'cacher_process': 'the message being cached is dropped', 'incrementer_process_id': 'the message is dropped',
    'incrementer_process_subject': 'the message is dropped', 'rrr_msg_msg_topic_match': 'the message is dropped',
    'rrr_ip_network_start_udp': 'the other IP version is used', 'rrr_ip_network_start_tcp': 'the other IP version is used',
    'mqttclient_publish_add_payload': "comment in the code: the message is dropped, no error return",
    'mqttclient_publish_handle_retain': "comment in the code: the message is dropped, no error return",
    'rrr_msg_check_data_checksum_and_length': 'received data is not an RRR message, other formats are tried',
    'rrr_msg_head_to_host_and_verify': 'received data is not an RRR message, other formats are tried',
    'rrr_msg_msg_to_host_and_verify': 'received data is not an RRR message, other formats are tried',
    'mqttclient_input_queue_process': 'the event loop is told to stop instead',
    '__rrr_msg_read': 'errors are ignored on request by the user',
}
TOLERATED_FILES = [('src/lib/perl5/perl5_xsub.c', 'functions called from perl programs return TRUE and FALSE')]


def text(P, fn, v):
    """string constant operand -> text"""
    while isinstance(v, list) and v and v[0] in ('ge', 'ce'): v = v[1]
    if isinstance(v, list) and v and v[0] == 'g':
        g = P.glob(fn.unit, v[1])
        if g and isinstance(g[3], list) and g[3] and g[3][0] == 's': return g[3][1].rstrip('\0')
    return None


def is_error_log(P, fn, i, n):
    """call that writes an error message (level 0), other than a warning"""
    if n != 'rrr_log_printf': return False
    a = i[4]
    if len(a) < 5 or not (isinstance(a[2], list) and a[2][0] == 'i' and a[2][1] == 0): return False
    t = text(P, fn, a[4]) or ''
    return not WARNING.match(t) and not HANDLED.search(t) and not any(x in t for x, _ in TOLERATED)


class ErrProp(Rule):
    name = 'error-propagated'
    max_depth = 0

    def __init__(self, P, cg, mod, arg):
        self.P = P; self.cg = cg
        self.data = {'logs': 0, 'sites': set(), 'rets': {}}
        self.fall = arg['fall']; self.inv = arg['inv']; self.must = set()

    def failing(self, s, t):
        v = ev(s, t)
        if t.hint == 'call': return not X.has(v, 0)
        if t.hint == 'ext': return bool(v) and not X.has(v, 0) and v[-1][1] >= 1 << 31
        return v == ((0, 0),)

    def on_branch(self, ip, fr, s, i, cond, truth):
        ts = [t for t in cond.terms if t.op == 't' and t.hint in ('call', 'ext', 'ptr') and t.a[0][0] == 'x']
        if s.q and s.q[0][0] in 'fg': return
        bad = [t for t in ts if self.failing(s, t)]
        if bad:
            t = max(bad, key=lambda t: t.a[0][2])
            soft = t.hint == 'call' and self.eqconst(cond, t, truth)
            if s.q and s.q[0][1] is t and s.q[0][0] == 's': soft = True
            s.q = (('s' if soft else 'b', t),)
        elif any(t.hint != 'ptr' for t in ts): s.q = ()

    def eqconst(self, c, t, truth):
        """compared equal to one particular non-zero code: the failure was told apart on purpose"""
        if c.op == 'op' and c.a[0] == 'xor': return self.eqconst(c.a[1], t, not truth)
        if c.op == 'icmp' and c.a[2].op == 'c' and X.cval(c.a[2]) == 0 and c.a[1].op == 'op' and c.a[1].a[0] == 'and' and c.a[1].a[2].op == 'c' and t in c.a[1].terms:
            # nothing but particular flags is set / a particular flag is set
            zero = (c.a[0] == 'eq') == truth
            return c.a[0] in ('eq', 'ne') and zero == (bin(X.cval(c.a[1].a[2])).count('1') > 16)
        return c.op == 'icmp' and c.a[0] == ('eq' if truth else 'ne') and c.a[2].op == 'c' and X.cval(c.a[2]) != 0 and t in c.a[1].terms

    def ambient(self, t):
        """configuration, errno and the like"""
        return t.op == 't' and 'rrr_config_global' in X.show(t)

    def on_call(self, ip, fr, s, i, name, targets, args):
        if name == 'rrr_log_printf' and not (s.q and s.q[0][0] in 'bsf') and is_error_log(self.P, fr.fn, i, name):
            s.q = (('g', None, i[2], text(self.P, fr.fn, i[4][4])),); return None
        if name == 'rrr_log_printf' and s.q and s.q[0][0] == 'b' and is_error_log(self.P, fr.fn, i, name):
            t = s.q[0][1]
            self.data['sites'].add(i[2])
            ci = fr.fn.ins()[t.a[0][2]]
            s.q = (('f', t, ci[2], callee_name(ci) or 'function pointer'),)
        elif name == 'rrr_log_printf' and s.q and s.q[0][0] in 'bs' and len(i[4]) > 4:
            s.q = ()
        elif name == 'rrr_log_printf' and s.q and s.q[0][0] in 'fg' and HANDLED.search(text(self.P, fr.fn, i[4][4]) or '' if len(i[4]) > 4 else ''):
            s.q = ()
        return None

    def post_call(self, ip, fr, s, i, name, targets, args, ret):
        if ret is not None and ret.op == 't':
            if s.q and s.q[0][1] == ret: s.q = ()
            if name and NOTFALLIBLE.match(name): return None
            if i[5] == 'i32' and s.q and s.q[0][0] not in 'fg' and i[1] in fr.fn.uses(): s.q = ()
            if i[5] == 'i32' and targets and all(t.key in self.inv for t in targets): ret.hint = 'ptr'
            elif i[5] == 'i32':
                ret.hint = 'call' if targets else 'ext'
                if targets and all(t.key in self.fall for t in targets): self.must.add(ret.a[0])
            elif i[5] == 'p': ret.hint = 'ptr'
        return None

    def on_store(self, ip, fr, s, i, a, v):
        r = X.root(a)
        if s.q and r.op != 'al' and v.op == 'c' and X.cval(v): s.q = ()

    def on_ret(self, ip, fr, s, i, v):
        if fr.fn.key in self.fall and v is not None:
            e = ev(s, v); bad = bool(s.q and s.q[0][0] in 'fg')
            self.data['rets'].setdefault(fr.fn.key, set()).add((bad, X.has(e, 0), e != ((0, 0),)))
        if s.q and s.q[0][0] == 'b' and s.q[0][1].a[0] in self.must and v is not None and fr.fn.ret == 'i32' and ev(s, v) == ((0, 0),):
            ci = fr.fn.ins()[s.q[0][1].a[0][2]]; n = callee_name(ci) or 'function pointer'
            if n in TOLERATED_CALLEES: return
            ip.report(fr, i, s, 'failure of %s at line %d is turned into success (0)' % (n, ci[2]), key='err|%s|%s' % (fr.fn.name, n))
            return
        if not s.q or s.q[0][0] not in 'fg' or v is None or fr.fn.ret != 'i32': return
        e = ev(s, v)
        if e == ((0, 0),) or (v.op == "t" and v.hint not in ("call", "ext") and X.has(e, 0) and e[-1][1] < 8):
            _, t, ln, n = s.q[0]
            if s.q[0][0] == 'g': m = 'the error \'%s\' is logged at line %d but success (0) is returned' % ((n or '?').strip(), ln)
            else: m = 'failure of %s at line %d is logged as an error but success (0) is returned' % (n, ln)
            ip.report(fr, i, s, m, key='err|%s|%s' % (fr.fn.name, n))


def check(ctx):
    P, cg = ctx.P, ctx.cg
    keys = []
    fall = set()
    for f in P.uniq:
        if f.ret == 'i32' and any(is_error_log(P, f, i, callee_name(i)) for i in calls(f)): fall.add(f.key)
        if f.ret != 'i32' or any(f.file.endswith(x) for x, _ in TOLERATED_FILES): continue
        keys.append(f.key)
    o = ctx.rule(ErrProp, keys, {'fall': fall, 'inv': set()}, refine=False)
    # Functions which tell success by 1 and failure by 0: all returns after an error are 0,
    # and no other return is. Zero is then the failure for the callers.
    rets = {}
    for d in o['data'].values():
        for k, v in d['rets'].items(): rets.setdefault(k, set()).update(v)
    inv = {k for k, v in rets.items() if v >= {(True, True, False), (False, False, True)} and len(v) == 2}
    ctx.coverage['functions_with_inverted_result'] = sorted(k for k in inv)
    if inv:
        del ctx.reports[:]
        ctx.coverage['functions_analysed'] = 0
        o = ctx.rule(ErrProp, [k for k in keys if k not in inv], {'fall': fall - inv, 'inv': inv}, refine=False)
    n = sum(len(d['sites']) for d in o['data'].values())
    ctx.floor('reported_failures', n, 300)
