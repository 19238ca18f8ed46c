"""Shared driver: loads the program once, forks workers, runs a rule over functions."""
import os, sys, time, traceback
import multiprocessing as mp
from .ir import Program, callee_name
from .cg import CG, Mod
from .absint import Interp

_S = {}


def load(unit_filter=None):
    if 'P' not in _S:
        P = Program(unit_filter)
        _S['P'] = P
        _S['cg'] = CG(P)
        _S['mod'] = Mod(_S['cg'])
    return _S['P'], _S['cg'], _S['mod']


def _worker(a):
    k, rulecls, arg, steps, force = a
    P, cg, mod = _S['P'], _S['cg'], _S['mod']
    fn = cg.fk[k]
    r = rulecls(P, cg, mod, arg) if arg is not None else rulecls(P, cg, mod)
    r.force = force
    ip = Interp(P, cg, mod, r)
    ip.max_steps = steps
    t = time.time()
    err = None
    try:
        ip.run(fn)
        fin = getattr(r, 'finish', None)
        if fin: fin(ip, fn)
    except Exception:
        err = traceback.format_exc()
    return k, list(ip.reports.values()), ip.stat, ip.incomplete, err, getattr(r, 'data', None), time.time() - t


def run(rulecls, keys, arg=None, steps=30000, jobs=None, force=frozenset()):
    """-> dict with reports, stats"""
    load()
    jobs = jobs or os.cpu_count() or 4
    ctx = mp.get_context('fork')
    out = {'reports': [], 'stat': {}, 'incomplete': [], 'errors': [], 'data': {}, 'byfn': {}, 'functions': 0, 'slow': []}
    tasks = [(k, rulecls, arg, steps, force) for k in keys]
    fk = _S['cg'].fk
    tasks.sort(key=lambda t: -len(fk[t[0]].bb))
    if len(tasks) == 1 or jobs == 1:
        it = map(_worker, tasks)
        pool = None
    else:
        pool = ctx.Pool(jobs)
        it = pool.imap_unordered(_worker, tasks, chunksize=max(1, min(8, len(tasks) // (jobs * 8) or 1)))
    for k, rep, stat, inc, err, data, dt in it:
        out['functions'] += 1
        out['reports'].extend(rep)
        if rep: out['byfn'][k] = rep
        for n, v in stat.items(): out['stat'][n] = out['stat'].get(n, 0) + v
        if inc: out['incomplete'].append(k)
        if err: out['errors'].append((k, err))
        if data is not None: out['data'][k] = data
        if dt > 5: out['slow'].append((k, round(dt, 1)))
    if pool: pool.close(); pool.join()
    u = {}
    for r in out['reports']: u.setdefault((r['file'], r['line'], r['message']), r)
    out['reports'] = sorted(u.values(), key=lambda r: (r['file'], r['line'], r['message']))
    return out


def refine(rulecls, o, arg=None, steps=30000, levels=2, maxcallers=8):
    """Context refinement. A report inside a static helper that is only ever called
    directly is confirmed by re-analysing its callers with the helper inlined: kept
    when the analysis of some caller reports it too."""
    P, cg, mod = load()
    taken = cg.taken()
    callers = cg.callers()
    byname = {}
    for f in P.uniq: byname.setdefault((f.file, f.name), f)

    def local(f):
        return f.internal and f.key not in taken and 0 < len({c.key for c, _ in callers.get(f.key, ())}) <= maxcallers
    keep = []; dropped = []
    cache = {}
    for r in o['reports']:
        f = byname.get((r['file'], r['function']))
        if f is None or '|swallowed|' in r['key'] or not local(f):
            keep.append(r); continue
        front = [(f, frozenset((f.key,)))]
        confirmed = None
        for lv in range(levels):
            nxt = []
            for g, force in front:
                for ck in sorted({c.key for c, _ in callers[g.key]}):
                    if ck in force: continue
                    c = cg.fk[ck]
                    k = (ck, force)
                    if k not in cache: cache[k] = run(rulecls, [ck], arg, steps, jobs=1, force=force)
                    o2 = cache[k]
                    if o2['incomplete'] or o2['errors']:
                        confirmed = r
                        continue
                    for r2 in o2['reports']:
                        if r2['key'] == r['key']:
                            if local(c) and lv + 1 < levels: nxt.append((c, force | {ck}))
                            else: confirmed = r2
                            break
                    if confirmed: break
                if confirmed: break
            if confirmed: break
            front = nxt
            if not front: break
        if confirmed: keep.append(confirmed)
        else: dropped.append(r)
    o['reports'] = keep
    o['refined_away'] = len(dropped)
    return o
