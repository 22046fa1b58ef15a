"""Extraction: compiles the real sources of /repo (as they stand) and a contract file to LLVM IR, and to a native program."""
import os
import re
import subprocess
import concurrent.futures as cf

REPO = os.environ.get('VC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = '/usr/lib/llvm-18/bin/clang++'
LINK = '/usr/lib/llvm-18/bin/llvm-link'

DROPPED = [
    "C++ exceptions (-fno-exceptions): throwing library calls are treated as errors that must be unreachable",
    "IEEE-754 rounding, NaN, infinities and signed zero: float/double arithmetic is mathematical real arithmetic",
    "data races and weak memory: execution is sequential",
]


class BuildError(Exception):
    pass


def settings(dir_, double=False):
    inc = os.path.join(dir_, 'include', 'edyn')
    os.makedirs(inc, exist_ok=True)
    src = open(os.path.join(REPO, 'cmake/in/build_settings.h.in')).read()
    on = {'EDYN_DISABLE_PROFILING'} | ({'EDYN_DOUBLE_PRECISION'} if double else set())
    out = re.sub(r'#cmakedefine[ \t]+(\w+).*', lambda m: f"#define {m.group(1)}" if m.group(1) in on else f"/* #undef {m.group(1)} */", src)
    open(os.path.join(inc, 'build_settings.h'), 'w').write(out)
    return os.path.join(dir_, 'include')


def flags(dir_, shim, double=False):
    inc = settings(dir_, double)
    f = ['-std=c++17', '-DEDYN_DEBUG', '-I' + os.path.join(REPO, 'include'), '-I' + inc, '-I' + os.path.join(VERIF, 'contracts'),
         '-w']
    if shim:
        f += ['-I' + os.path.join(VERIF, 'shim')]
    return f


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def providers(undefined, have):
    """repository sources that look like they define some of the undefined edyn functions (code moved between files, new helpers)"""
    names = set()
    for u in undefined:
        for m in re.finditer(r'(\d+)', u):
            n = int(m.group(1))
            w = u[m.end():m.end() + n]
            if len(w) == n and w != 'edyn' and re.fullmatch(r'[A-Za-z_]\w*', w):
                names.add(w)
    if not names:
        return []
    rx = re.compile(r'\b(' + '|'.join(map(re.escape, sorted(names))) + r')\s*\(')
    out = []
    for root, _, files in os.walk(os.path.join(REPO, 'src', 'edyn')):
        for f in files:
            p = os.path.relpath(os.path.join(root, f), REPO)
            if f.endswith('.cpp') and p not in have and '/windows/' not in p and rx.search(open(os.path.join(root, f), errors='replace').read()):
                out.append(p)
    return sorted(out)


def undefined(objs):
    un, de = set(), set()
    for o in objs:
        rc, out = _run(['/usr/lib/llvm-18/bin/llvm-nm', o])
        for line in out.splitlines():
            w = line.split()
            if len(w) >= 2 and w[-1].startswith(('_ZN4edyn', '_ZNK4edyn')):
                (un if w[-2] == 'U' else de).add(w[-1])
    return un - de


def complete(objs, sources, compile_one, known):
    """adds sources while functions of edyn are undefined; those undefined with the listed sources on the pinned tree are left alone"""
    have = set(sources)
    bad = set()
    for _ in range(3):
        un = {u for u in undefined(objs) if u not in known}
        if not un:
            break
        new = [s for s in providers(un, have | bad)]
        if not new:
            break
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(compile_one, new))
        added = False
        for s, (rc, o) in zip(new, res):
            if rc != 0:
                bad.add(s)
            else:
                d = {x for x in _defs(o)}
                if d & un:
                    objs.append(o)
                    have.add(s)
                    added = True
                else:
                    bad.add(s)
        if not added:
            break
    return objs


def _defs(o):
    rc, out = _run(['/usr/lib/llvm-18/bin/llvm-nm', '--defined-only', o])
    return {line.split()[-1] for line in out.splitlines() if line.split()}


def known_undefined():
    fn = os.path.join(VERIF, 'vcg', 'undefined.txt')
    return set(open(fn).read().split()) if os.path.exists(fn) else set()


def src_path(s):
    return s if s.startswith('/') else (os.path.join(VERIF, 'contracts', s[2:]) if s.startswith('@/') else os.path.join(REPO, s))


def compile_ir(dir_, sources, shim=False, extra=()):
    os.makedirs(dir_, exist_ok=True)
    fl = flags(dir_, shim) + ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-exceptions', '-fno-rtti', '-ffp-contract=off',
                              '-fno-discard-value-names', '-fno-threadsafe-statics', '-emit-llvm', '-c'] + list(extra)
    outs, jobs = [], []
    sources = list(sources) + ['@/vc_stl.cpp'] + (['@/vc_threads.cpp'] if any('c19' in s for s in sources) else [])
    with cf.ThreadPoolExecutor(8) as ex:
        for s in sources:
            o = os.path.join(dir_, re.sub(r'\W', '_', s) + '.bc')
            outs.append(o)
            jobs.append((s, ex.submit(_run, [CLANG] + fl + [src_path(s), '-o', o])))
        for s, j in jobs:
            rc, out = j.result()
            if rc != 0:
                raise BuildError(f"extraction: clang failed on {s}:\n{out[-3000:]}")
    def one(s):
        o = os.path.join(dir_, re.sub(r'\W', '_', s) + '.bc')
        return _run([CLANG] + fl + [src_path(s), '-o', o])[0], o
    complete(outs, sources, one, known_undefined())
    res = os.path.join(dir_, 'all.bc')
    rc, out = _run([LINK] + outs + ['-o', res])
    if rc != 0:
        raise BuildError("extraction: llvm-link failed:\n" + out[-3000:])
    return res


def compile_native(dir_, sources, shim=False, extra=(), double=False):
    os.makedirs(dir_, exist_ok=True)
    fl = flags(dir_, shim, double) + ['-O1', '-g1', '-DVC_NATIVE', '-fexceptions', '-ffp-contract=off', '-fPIC'] + list(extra)
    outs, jobs = [], []
    with cf.ThreadPoolExecutor(8) as ex:
        for s in list(sources) + ['@/vc_native.cpp']:
            o = os.path.join(dir_, re.sub(r'\W', '_', s) + '.o')
            outs.append(o)
            jobs.append((s, ex.submit(_run, [CLANG] + fl + ['-c', src_path(s), '-o', o])))
        for s, j in jobs:
            rc, out = j.result()
            if rc != 0:
                raise BuildError(f"native build failed on {s}:\n{out[-3000:]}")
    def one(s):
        o = os.path.join(dir_, re.sub(r'\W', '_', s) + '.o')
        return _run([CLANG] + fl + ['-c', src_path(s), '-o', o])[0], o
    complete(outs, sources, one, known_undefined())
    res = os.path.join(dir_, 'native')
    rc, out = _run([CLANG] + outs + ['-Wl,--unresolved-symbols=ignore-all', '-rdynamic', '-ldl', '-lpthread', '-o', res])
    if rc != 0:
        raise BuildError("native link failed:\n" + out[-3000:])
    return res


if __name__ == '__main__':
    # python3 -m vcg.build DIR JSON: native build in a process of its own; leaves native.done or native.failed
    import json
    import sys
    d, a = sys.argv[1], json.loads(sys.argv[2])
    exe = os.path.join(d, 'native')
    try:
        compile_native(d, a['sources'], a['shim'], a['flags'], double=a['double'])
        open(exe + '.done', 'w').close()
    except Exception as e:
        with open(exe + '.tmp', 'w') as f:
            f.write(str(e))
        os.rename(exe + '.tmp', exe + '.failed')
