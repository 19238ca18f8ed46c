"""Turns /repo's current working tree into per-unit IR descriptions.

Every translation unit of the real build (engine/compdb.json, taken from the
Makefiles) is preprocessed and compiled to LLVM IR with its real flags, then
described as JSON by engine/irx. Results are cached by the hash of the
preprocessed text, so a change anywhere in the tree is always seen."""
import hashlib, json, os, subprocess, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RSA_REPO', '/repo')
BUILD = os.environ.get('RSA_BUILD', os.path.join(VERIF, 'build'))
CLANG = 'clang'


class EngineBroken(Exception):
    pass


def tool():
    src = os.path.join(VERIF, 'engine', 'irx.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'irx-' + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    cfg = subprocess.check_output(['/usr/lib/llvm-18/bin/llvm-config', '--cxxflags'], text=True).replace('-fno-exceptions', '').split()
    tmp = out + '.%d' % os.getpid()
    r = subprocess.run(['clang++', '-O1', '-fno-rtti'] + cfg + [src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise EngineBroken('cannot build irx: ' + r.stderr[-2000:])
    os.rename(tmp, out)
    return out


def units():
    db = json.load(open(os.path.join(VERIF, 'engine', 'compdb.json')))
    return db


FLAGS = ['-w', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names', '-fexceptions', '-DRRR_STATIC_ANALYSIS']


def _args(e):
    a = []
    fb = os.path.join(VERIF, 'engine', 'fallback')
    for x in e['args']:
        a.append(x)
    # generated headers: used from the tree when present, else the frozen copies
    a += ['-idirafter', fb, '-idirafter', os.path.join(fb, 'src/lib')]
    return a


def one(e, irx, cache):
    cwd = os.path.join(REPO, e['dir'])
    path = os.path.join(REPO, e['path'])
    if not os.path.exists(path):
        return e['path'], None, 'missing source file'
    lang = []
    pre = subprocess.run([CLANG] + lang + _args(e) + FLAGS + ['-E', '-o', '-', e['src']], cwd=cwd, capture_output=True)
    if pre.returncode != 0:
        return e['path'], None, pre.stderr.decode('utf8', 'replace')[-1500:]
    h = hashlib.sha256(pre.stdout)
    h.update(irx.encode()); h.update(repr(FLAGS).encode()); h.update(e['path'].encode())
    out = os.path.join(cache, h.hexdigest()[:32] + '.json')
    if not os.path.exists(out):
        bc = out + '.%d.bc' % os.getpid()
        r = subprocess.run([CLANG] + lang + _args(e) + FLAGS + ['-emit-llvm', '-c', '-o', bc, e['src']], cwd=cwd, capture_output=True)
        if r.returncode != 0:
            return e['path'], None, r.stderr.decode('utf8', 'replace')[-1500:]
        tmp = out + '.%d' % os.getpid()
        r = subprocess.run([irx, bc, tmp, e['path']], capture_output=True)
        os.unlink(bc)
        if r.returncode != 0:
            return e['path'], None, r.stderr.decode('utf8', 'replace')[-1500:]
        os.rename(tmp, out)
    return e['path'], out, None


def build(jobs=None, verbose=False):
    """-> {repo path: json file}"""
    irx = tool()
    cache = os.path.join(BUILD, 'cache')
    os.makedirs(cache, exist_ok=True)
    jobs = jobs or os.cpu_count() or 4
    res = {}
    errs = []
    with ThreadPoolExecutor(jobs) as ex:
        for p, out, err in ex.map(lambda e: one(e, irx, cache), units()):
            if err:
                errs.append((p, err))
            else:
                res[p] = out
    if errs:
        raise EngineBroken('units that do not compile: ' + '; '.join('%s: %s' % (p, m.strip()[:600]) for p, m in errs[:4]))
    return res


if __name__ == '__main__':
    t = time.time()
    r = build()
    print('%d units, %.1f s, %d MB' % (len(r), time.time() - t, sum(os.path.getsize(x) for x in r.values()) >> 20))
