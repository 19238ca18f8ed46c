#!/usr/bin/env python3
"""Development aid: make /verif/seeded/<id>/ from a description and try it on /repo.
usage: seed.py FILE.py [ID...]     FILE.py defines seed(id, prop, needs, breaks, [(file, old, new)...], c_source)"""
import sys, os, subprocess, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
only = set(sys.argv[2:])
DEMO = '''#!/bin/bash
# cwd: /repo, after build.sh
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
set -e
gcc -std=gnu11 -O1 -w -D_GNU_SOURCE -DHAVE_CONFIG_H -include ./config.h -I. -Isrc -Isrc/lib -Isrc/lib/util -o "$T/demo" "$D/demo.c" -Lsrc/lib/.libs -Wl,--no-as-needed -ljemalloc -lrrr -lpthread -ldl %s
set +e
cd "$T"
LD_LIBRARY_PATH=/repo/src/lib/.libs timeout -k 5 60 "$T/demo" >"$T/out" 2>&1
rc=$?
tail -5 "$T/out"
exit $rc
'''


def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)


def seed(id, prop, needs, breaks, edits, src, libs='', extra=None, tryit=True):
    if only and id not in only: return
    d = HERE + '/seeded/' + id
    os.makedirs(d, exist_ok=True)
    assert not sh('git', '-C', R, 'status', '--porcelain').stdout.strip(), 'dirty'
    try:
        for f, a, b in edits:
            p = R + '/' + f
            s = open(p).read()
            assert s.count(a) == 1, (id, f, s.count(a))
            open(p, 'w').write(s.replace(a, b))
        open(d + '/patch.diff', 'w').write(sh('git', '-C', R, 'diff').stdout)
        open(d + '/demo.c', 'w').write('const char *rrr_default_log_prefix = "demo";\n' + src.lstrip())
        open(d + '/demo.sh', 'w').write(DEMO % libs)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        for n, t in (extra or {}).items(): open(d + '/' + n, 'w').write(t)
        r = sh('bash', '/opt/vp/build.sh', cwd=R)
        if r.returncode: print(id, 'BUILD FAILED', r.stdout[-500:], r.stderr[-500:]); return
        r1 = sh('bash', d + '/demo.sh', cwd=R)
        c = sh(sys.executable, HERE + '/check.py', '--property', prop, cwd=HERE)
    finally:
        sh('git', '-C', R, 'checkout', '--', '.')
    sh('bash', '/opt/vp/build.sh', cwd=R)
    r0 = sh('bash', d + '/demo.sh', cwd=R)
    print(id, 'GOOD' if r0.returncode == 0 and r1.returncode != 0 else 'BAD', 'clean', r0.returncode, 'bug', r1.returncode, 'check', c.returncode, flush=True)
    print('   ', (r1.stdout + r1.stderr)[-200:].strip().replace('\n', ' | '))
    if r0.returncode: print('    CLEAN:', (r0.stdout + r0.stderr)[-400:])
    print('   ', '; '.join(l for l in c.stdout.splitlines() if not l.startswith('    '))[:300])


exec(open(sys.argv[1]).read())
