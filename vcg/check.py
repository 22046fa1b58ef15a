"""Driver: decides one property.

For every contract of the property: compile /repo's current sources + the contract to IR, generate the obligations,
discharge them, and report. A failing obligation is reported with a failing input replayed on the real code when one is
found (solver model, or native random search driven by the contract), else with the words no-failing-input-found.
"""
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import signal
import multiprocessing as mp
from fractions import Fraction

from . import build, llvmir, symex, prover
from . import terms as tm

VERIF = build.VERIF
NPROC = 8


def demangle(names):
    try:
        p = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(names), capture_output=True, text=True)
        return p.stdout.strip().split('\n')
    except OSError:
        return list(names)


class Slots:
    """NPROC execution slots as file locks, so that a killed process gives its slot back"""

    def __init__(self, n):
        self.files = []
        for _ in range(n):
            fd, fn = tempfile.mkstemp(prefix='vcg_slot')
            os.close(fd)
            self.files.append(fn)
        self.fd = None

    def __enter__(self):
        k = os.getpid()
        while True:
            for i in range(len(self.files)):
                fd = os.open(self.files[(i + k) % len(self.files)], os.O_RDWR | os.O_CLOEXEC)
                try:
                    fcntl.flock(fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
                    self.fd = fd
                    return self
                except OSError:
                    os.close(fd)
            time.sleep(0.004)

    def __exit__(self, *_):
        fcntl.flock(self.fd, fcntl.LOCK_UN)
        os.close(self.fd)
        self.fd = None

    def remove(self):
        for fn in self.files:
            os.unlink(fn)


# ----------------------------------------------------------------- one contract
class WallLimit(Exception):
    pass


def _on_alarm(*_):
    raise WallLimit()


def prove_limited(P, o, nl_timeout):
    t = time.time()
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(int(nl_timeout / 1000 * 4) + 20)
    try:
        return P.prove(o.hyps, o.goal, o.hints)
    except WallLimit:
        return prover.Result('unknown', 'wall limit', time.time() - t)
    finally:
        signal.alarm(0)


def prove_range(obls, counter, lock, sem, conn, nl_timeout, seedless):
    out = []
    P = prover.Prover(nl_timeout=nl_timeout)
    while True:
        with lock:
            i = counter.value
            counter.value += 1
        if i >= len(obls):
            break
        o = obls[i]
        with sem:
            r = prove_limited(P, o, nl_timeout)
        model = None
        if r.model:
            model = {str(k): str(v) for k, v in r.model.items()}
        out.append((i, r.status, r.backend, r.time, model))
    conn.send(out)
    conn.close()


def contract_job(bc, name, sem, conn, nl_timeout, opts):
    """runs in its own process"""
    os.setpgid(0, 0)
    res = {'contract': name}
    t0 = time.time()
    try:
        m = llvmir.Module(bc)
        ex = symex.Executor(m, feas=prover.Feas(), max_paths=opts.get('max_paths', 20000))
        ex.deadline = time.time() + opts.get('symex_secs', 240)
        with sem:
            ex.run('vc_contract_' + name)
        res['symex_s'] = time.time() - t0
        obls = ex.obligations
        # drop duplicates (same hypotheses and goal)
        seen, uniq = set(), []
        for o in obls:
            k = (o.goal.id, frozenset(h.id for h in o.hyps), o.label)
            if k not in seen:
                seen.add(k)
                uniq.append(o)
        obls = uniq
        n = len(obls)
        k = min(NPROC, max(1, n // 3))
        ctx = mp.get_context('fork')
        counter, lock = ctx.Value('i', 0), ctx.Lock()
        procs = []
        for _ in range(k):
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=prove_range, args=(obls, counter, lock, sem, b, nl_timeout, None))
            p.start()
            b.close()
            procs.append((p, a))
        st = {}
        for p, a in procs:
            try:
                for r in a.recv():
                    st[r[0]] = r
            except EOFError:
                pass
            p.join()
        rows = []
        for i, o in enumerate(obls):
            r = st.get(i, (i, 'unknown', 'worker died', 0.0, None))
            row = {'label': o.label, 'kind': o.kind, 'where': o.where, 'status': r[1], 'backend': r[2], 'time': round(r[3], 4)}
            if r[1] != 'proved':
                row['model'] = r[4]
                row['goal'] = tm.show(o.goal)[:1500]
                row['hyps'] = [tm.show(h)[:300] for h in o.hyps[:60]]
            rows.append(row)
        res['rows'] = rows
        # vacuity: every cover point must be satisfiable together with its path condition
        res['covers'] = {}
        seen_native = native_covers(opts.get('_cover_exe'), name) if ex.covers else set()
        for lab, pts in ex.covers.items():
            res['covers'][lab] = 'reached' if lab in seen_native else cover(ex, pts)
        res['paths'] = ex.paths
        res['ended'] = ex.ended
        res['functions'] = sorted(ex.functions_seen)
        res['assumptions'] = sorted(ex.assumptions)
        res['bounded'] = sorted(getattr(ex, 'bounded', []))
    except (symex.Unsupported, symex.PathLimit, tm.TooBig, NotImplementedError, RecursionError) as e:
        res['error'] = f"{type(e).__name__}: {e}"
    except Exception as e:  # a defect of the generator, reported as such
        import traceback
        res['error'] = "internal: " + traceback.format_exc()[-1500:]
    res['wall'] = time.time() - t0
    conn.send(res)
    conn.close()


def native_covers(exe, name):
    """cover points reached by random runs of the real code (double precision build)"""
    if not exe:
        return set()
    end = time.time() + 90
    while time.time() < end and not os.path.exists(exe + '.done') and not os.path.exists(exe + '.failed'):
        time.sleep(0.05)
    if not os.path.exists(exe + '.done'):
        return set()
    out = native_run(exe, [name, '--seed', '7', '--n', '20000', '--secs', '2', '--cover'], 2)
    return {l[6:] for l in out.splitlines() if l.startswith('COVER ')}


def cover(ex, pts):
    """'reached' when some path condition at the point has a model"""
    verdict = 'unknown'
    for pc, inputs in pts[:40]:
        P = prover.Prover(nl_timeout=3000, use_ext=False)
        r = P.prove(pc, tm.FALSE)
        if r.status == 'refuted':
            return 'reached'
        if r.status == 'unknown':
            verdict = 'undecided'
        elif verdict == 'unknown':
            verdict = 'unreachable'
    return verdict


def scout(bc, names, exe, out_dir, seed, secs):
    """short random runs of the real code for every contract, next to the proofs: a failing input confirmed by exact evaluation settles the
    contract early. Finding nothing has no consequence."""
    os.setpgid(0, 0)
    end = time.time() + 90
    while time.time() < end and not os.path.exists(exe + '.done') and not os.path.exists(exe + '.failed'):
        time.sleep(0.1)
    if not os.path.exists(exe + '.done'):
        os._exit(0)
    for nm in names:
        out = native_run(exe, [nm, '--seed', str(seed), '--n', '100000', '--secs', str(secs), '--tol', '0.00001', '--maxfail', '6'], secs)
        fails, _ = parse_native(out)
        for f in fails[:6]:
            r = concrete_fails(bc, nm, f['inputs'])
            how = 'native search, confirmed by exact evaluation of the IR'
            if r.get('bad') and r.get('approx'):
                # irrational values were rounded: the failure has to persist all around the input as well
                tmp = os.path.join(out_dir, 'scout.txt')
                with open(tmp, 'w') as g:
                    for k, v in f['inputs']:
                        g.write(f"INPUT {k} {float(Fraction(v)):.17g}\n")
                ok = True
                for jit in ('0.00001', '0.001'):
                    o2 = native_run(exe, [nm, '--replay', tmp, '--tol', '0.001', '--jitter', jit, '--n', '24', '--secs', '3'], 3)
                    m = re.search(r'RUNS (\d+) REJECTED (\d+) FAILS (\d+)', o2)
                    runs, rej, bad = map(int, m.groups()) if m else (0, 0, 0)
                    ok = ok and runs - rej >= 12 and bad >= 0.9 * (runs - rej)
                if ok:
                    r['approx'] = False
                    how = 'native search, confirmed by high precision evaluation of the IR and persisting under perturbation of the input'
            if r.get('bad') and not r.get('approx'):
                fn = os.path.join(out_dir, nm + '.json')
                with open(fn + '.tmp', 'w') as g:
                    json.dump({'label': r['bad'][0], 'inputs': f['inputs'],
                               'how': how, 'native': f['label']}, g)
                os.rename(fn + '.tmp', fn)
                break
    os._exit(0)


def run_contracts(bc, names, nl_timeout, opts, deadline):
    ctx = mp.get_context('fork')
    sem = Slots(NPROC)
    live, results = [], {}
    todo = list(names)
    while todo or live:
        while todo and len(live) < 12:
            nm = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=contract_job, args=(bc, nm, sem, b, nl_timeout, opts))
            p.start()
            b.close()
            live.append((nm, p, a, time.time()))
        for item in list(live):
            nm, p, a, t0 = item
            if a.poll(0.02):
                try:
                    results[nm] = a.recv()
                except EOFError:
                    results[nm] = {'contract': nm, 'error': 'contract process died'}
                p.join()
                live.remove(item)
            elif opts.get('_scout') and os.path.exists(os.path.join(opts['_scout'], nm + '.json')):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    p.kill()
                p.join()
                results[nm] = {'contract': nm, 'scouted': json.load(open(os.path.join(opts['_scout'], nm + '.json')))}
                live.remove(item)
            elif time.time() > deadline:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    p.kill()
                p.join()
                results[nm] = {'contract': nm, 'error': 'timeout: contract not finished within the time budget'}
                live.remove(item)
        if time.time() > deadline:
            for nm in todo:
                results[nm] = {'contract': nm, 'error': 'timeout: not started within the time budget'}
            todo = []
    sem.remove()
    return results


# ---------------------------------------------------------------- replaying
def parse_native(out):
    fails, cur = [], None
    runs = 0
    for line in out.splitlines():
        if line.startswith('FAIL '):
            cur = {'label': line[5:], 'inputs': []}
        elif line.startswith('INPUT ') and cur is not None:
            _, n, v = line.split(' ', 2)
            cur['inputs'].append((n, v))
        elif line == 'END' and cur is not None:
            fails.append(cur)
            cur = None
        elif line.startswith('RUNS '):
            runs = int(line.split()[1])
    return fails, runs


def concrete_fails(bc, name, inputs, limit=20):
    """labels of obligations false under exact (rational) evaluation of the same IR; None if it cannot be evaluated"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(limit)
            try:
                m = llvmir.Module(bc)
                ex = symex.Executor(m, feas=None, concrete={k: Fraction(v) for k, v in inputs})
                ex.run('vc_contract_' + name)
                bad = [o.label for o in ex.obligations if o.goal is tm.FALSE]
                und = [o.label for o in ex.obligations if o.goal.op != 'const']
                msg = {'bad': bad, 'undecided': und, 'approx': tm.FRAGILE}
            except Exception as e:
                msg = {'error': f"{type(e).__name__}: {e}"[:300]}
            os.write(w, json.dumps(msg).encode())
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(data)
    except ValueError:
        return {'error': 'concrete evaluation did not finish'}


def native_run(exe, args, secs):
    try:
        p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=secs + 20)
        return p.stdout
    except subprocess.TimeoutExpired as e:
        o = e.stdout or ''
        return o.decode(errors='replace') if isinstance(o, bytes) else o


# ------------------------------------------------------------------ property
class Check:
    def __init__(self, prop, spec):
        self.prop, self.spec = prop, spec
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.budget = 780 if self.tier == 'quick' else 3000
        self.tmp = tempfile.mkdtemp(prefix='vcg_')
        self.nat = {}

    def left(self):
        return self.budget - (time.time() - self.t0)

    def run(self):
        try:
            return self._run()
        finally:
            for t in self.nat.values():
                t[0].wait()
            shutil.rmtree(self.tmp, ignore_errors=True)

    def _run(self):
        groups = self.spec['groups']
        rows_all, failures, errors, fallback = [], [], [], []
        funcs, assumptions, bounded = set(), set(), []
        covers = {}
        self.bcs = {}
        info, scouted = [], []
        for gi, g in enumerate(groups):
            d = os.path.join(self.tmp, f"g{gi}")
            try:
                bc = build.compile_ir(d, ['@/' + g['contract']] + g.get('sources', []), g.get('shim', False), g.get('flags', ()))
            except build.BuildError as e:
                print(str(e))
                print(f"ERROR property={self.prop}: extraction failed for {g['contract']}")
                return 2
            m = llvmir.Module(bc)
            names = sorted(n[len('vc_contract_'):] for n in m.function_names() if n.startswith('vc_contract_'))
            if self.tier != 'thorough':
                names = [n for n in names if not n.startswith('thorough_')]
            only = os.environ.get('VC_ONLY')
            if only:
                names = [n for n in names if re.search(only, n)]
            info.append((g, gi, bc, names))
            self.start_native(g, gi)
        nl = 20000 if self.tier == 'quick' else 60000
        for g, gi, bc, names in info:
            opts = dict(g.get('opts', {}), _cover_exe=os.path.join(self.tmp, f"n{gi}d", 'native'))
            sdir = os.path.join(self.tmp, f"scout{gi}")
            os.makedirs(sdir, exist_ok=True)
            known_c = {k['contract'] for k in load_known(self.prop)}
            sp = mp.get_context('fork').Process(target=scout, args=(bc, [n for n in names if n not in known_c and not n.startswith('bounded_')],
                                                                    opts['_cover_exe'], sdir, self.seed + 77, 2))
            sp.start()
            opts['_scout'] = sdir
            # contracts declared bounded are decided by bounded runs of the real code only
            res = {nm: {'contract': nm, 'error': 'declared bounded'} for nm in names if nm.startswith('bounded_')}
            res.update(run_contracts(bc, [nm for nm in names if nm not in res], nl, opts, self.t0 + self.budget * 0.6))
            if sp.is_alive():
                for kill in (lambda: os.killpg(sp.pid, signal.SIGKILL), sp.kill):
                    try:
                        kill()
                    except OSError:
                        pass
            sp.join()
            # retry undecided contracts alone, with a larger budget
            for nm in names:
                r = res[nm]
                bad = [x for x in r.get('rows', []) if x['status'] == 'unknown']
                if (bad or r.get('error', '').startswith('timeout')) and self.left() > 200:
                    r2 = run_contracts(bc, [nm], nl * 3, opts, min(time.time() + 240, self.t0 + self.budget * 0.8))[nm]
                    if 'rows' in r2:
                        res[nm] = r2
            for nm in names:
                r = res[nm]
                if os.environ.get('VC_VERBOSE'):
                    print(f"[{g['contract']}:{nm}] paths={r.get('paths')} {r.get('ended')} obl={len(r.get('rows', []))} "
                          f"symex={r.get('symex_s', 0):.1f}s wall={r.get('wall', 0):.1f}s covers={r.get('covers')} {r.get('error', '')}")
                    for x in r.get('rows', []):
                        if x['status'] != 'proved' or x['time'] > 2 or os.environ['VC_VERBOSE'] == '2':
                            print('    ', x['kind'], '|', x['label'], '|', x['where'], x['status'], x['backend'], x['time'], x.get('model') or '')
                if 'scouted' in r:
                    scouted.append((nm, g, r['scouted']))
                    continue
                if 'error' in r:
                    fallback.append((g, gi, bc, nm, r['error']))
                    continue
                n_post = sum(1 for x in r['rows'] if x['kind'] in ('post', 'lemma', 'assert'))
                refuted = [x for x in r['rows'] if x['status'] != 'proved']
                if (not r['rows'] or n_post == 0) and not refuted:
                    errors.append(f"{nm}: no obligation generated (vacuous)")
                for lab, v in r['covers'].items():
                    covers[f"{nm}:{lab}"] = v
                if not r['covers'] and not refuted:
                    errors.append(f"{nm}: contract has no cover point")
                for lab, v in r['covers'].items():
                    if v == 'unreachable':
                        failures.append((g, gi, bc, nm, [{'label': f"cover '{lab}' reachable", 'kind': 'cover', 'status': 'refuted',
                                                           'backend': 'prover', 'where': nm, 'time': 0}]))
                funcs.update(r['functions'])
                assumptions.update(r['assumptions'])
                bounded += [f"{nm}: {b}" for b in r['bounded']]
                for x in r['rows']:
                    x['contract'] = nm
                    x['file'] = g['contract']
                    rows_all.append(x)
                bad = [x for x in r['rows'] if x['status'] != 'proved']
                if bad:
                    failures.append((g, gi, bc, nm, bad))
        if errors:
            for e in errors:
                print("ERROR", e)
            return 2
        # known findings
        known = load_known(self.prop)
        violations = [(nm, g, conf, [{'label': conf['label'], 'kind': 'post', 'status': 'failed', 'backend': 'exact evaluation', 'where': '', 'time': 0}])
                      for nm, g, conf in scouted]

        def native(g, gi):
            return self.native_of(gi)
        fb_runs = {}
        for g, gi, bc, nm, err in fallback:
            # outside the generator's reach on this tree: bounded stand-in on the real code
            try:
                exe = native(g, gi)
            except build.BuildError as e:
                print(str(e))
                return 2
            n = 200000 if self.tier == 'quick' else 2000000
            out = native_run(exe[0], [nm, '--seed', str(self.seed), '--n', str(n), '--secs', '30', '--tol', '0.00001'], 30)
            fails, runs = parse_native(out)
            fb_runs[nm] = runs
            conf = self.confirm(bc, nm, fails, exe)
            if conf:
                violations.append((nm, g, conf, [{'label': conf['label'], 'kind': 'bounded stand-in', 'status': 'failed', 'backend': 'native',
                                                  'where': '', 'time': 0}]))
            else:
                print(f"BOUNDED {nm}: not decided by proof on this tree ({err[:300]}); bounded stand-in: {runs} random runs of the real code, none failing")
        for g, gi, bc, nm, bad in failures:
            bad2 = [x for x in bad if not is_known(known, nm, x)]
            if not bad2:
                for x in bad:
                    k = is_known(known, nm, x)
                    print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
                continue
            conf = None
            try:
                exe = native(g, gi)
                conf = self.search(bc, nm, bad2, exe)
            except build.BuildError as e:
                print(str(e)[-500:])
            violations.append((nm, g, conf, bad2))
        rc = 0
        for nm, g, conf, bad in violations:
            path = self.write_replay(nm, g, conf, bad)
            if conf:
                print(f"  failing input for {nm}: {conf['label']}: " + ', '.join(f"{k}={v}" for k, v in conf['inputs'][:24]))
                print(f"VIOLATION property={self.prop} replay={path}")
            else:
                x = bad[0]
                print(f"  obligation not discharged: {nm}: {x['label']} ({x['status']}, {x['backend']})")
                print(f"VIOLATION property={self.prop} replay={path} no-failing-input-found")
            rc = 1
        self.evidence(rows_all, funcs, assumptions, bounded, covers, fallback, fb_runs, violations, info)
        nd = sum(1 for x in rows_all if x['status'] == 'proved')
        print(f"property={self.prop} contracts={sum(len(i[3]) for i in info)} obligations={len(rows_all)} discharged={nd} "
              f"wall={time.time() - self.t0:.1f}s")
        return rc

    # find a failing input and confirm it
    def search(self, bc, nm, bad, exe):
        for k, x in enumerate(bad):
            if x.get('model') or k == 0:        # also contracts without inputs
                x['model'] = x.get('model') or {}
                variants = [[(k, v) for k, v in x['model'].items()]]
                for q in (4, 16, 256):          # the model and roundings of it (a tiny value often stands for zero)
                    v = [(k, str(Fraction(round(Fraction(v) * q), q))) for k, v in variants[0]]
                    if v not in variants:
                        variants.append(v)
                for inputs in variants if k < 4 else variants[:1]:
                    r = concrete_fails(bc, nm, inputs)
                    if r.get('bad') and (not r.get('approx') or self.persists(nm, inputs, exe)):
                        return {'label': r['bad'][0], 'inputs': inputs, 'how': 'solver model, confirmed by exact evaluation of the IR',
                                'native': self.native_replay(exe, nm, inputs)}
        secs = 25 if self.tier == 'quick' else 120
        for rnd in range(2):
            if self.left() < 60:
                break
            out = native_run(exe[rnd], [nm, '--seed', str(self.seed + 1000 * rnd), '--n', '3000000', '--secs', str(secs), '--tol',
                                        '0.00001' if rnd == 0 else '0.003', '--maxfail', '30'], secs)
            fails, _ = parse_native(out)
            c = self.confirm(bc, nm, fails, exe)
            if c:
                return c
        return None

    def confirm(self, bc, nm, fails, exe):
        """A failing input counts when exact rational evaluation of the IR fails without having rounded an irrational value,
        or when the failure shows in single and in double precision and persists in the neighbourhood of the input."""
        t_end = time.time() + 40
        for f in fails:
            if time.time() > t_end:
                break
            r = concrete_fails(bc, nm, f['inputs'])
            if r.get('bad') and not r.get('approx'):
                return {'label': r['bad'][0], 'inputs': f['inputs'], 'how': 'native search, confirmed by exact evaluation of the IR',
                        'native': f['label']}
            if 'bad' in r and not r['bad']:
                continue
            if f['label'].startswith(('signal', 'exception')) or self.persists(nm, f['inputs'], exe):
                return {'label': f['label'], 'inputs': f['inputs'],
                        'how': 'native runs in single and double precision, persisting under perturbation of the input',
                        'native': f['label']}
        return None

    def persists(self, nm, inputs, exe):
        fn = self.input_file(inputs)
        for e, tol, jit in ((exe[0], '0.00001', '0.00001'), (exe[1], '0.003', '0.0001')):
            out = native_run(e, [nm, '--replay', fn, '--tol', tol, '--jitter', jit, '--n', '24', '--secs', '5'], 5)
            m = re.search(r'RUNS (\d+) REJECTED (\d+) FAILS (\d+)', out)
            if not m:
                return False
            runs, rej, bad = map(int, m.groups())
            if runs - rej < 6 or bad < 0.7 * (runs - rej):
                return False
        return True

    def start_native(self, g, gi):
        """double precision build of the same sources, in the background"""
        d = os.path.join(self.tmp, f"n{gi}d")
        os.makedirs(d, exist_ok=True)
        arg = json.dumps({'sources': ['@/' + g['contract']] + g.get('sources', []), 'shim': g.get('shim', False),
                          'flags': list(g.get('flags', ())), 'double': True})
        t = subprocess.Popen([sys.executable, '-m', 'vcg.build', d, arg], cwd=VERIF, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                             stderr=subprocess.DEVNULL)
        self.nat[gi] = [t, g, d, None]

    def native_of(self, gi):
        """(double precision program, single precision program)"""
        t, g, d, fl = self.nat[gi]
        t.wait()
        if not os.path.exists(os.path.join(d, 'native.done')):
            fn = os.path.join(d, 'native.failed')
            raise build.BuildError(open(fn).read() if os.path.exists(fn) else 'native build died')
        if fl is None:
            fl = build.compile_native(os.path.join(self.tmp, f"n{gi}"), ['@/' + g['contract']] + g.get('sources', []),
                                      g.get('shim', False), g.get('flags', ()))
            self.nat[gi][3] = fl
        return (os.path.join(d, 'native'), fl)

    def input_file(self, inputs):
        fn = os.path.join(self.tmp, 'inp.txt')
        with open(fn, 'w') as f:
            for k, v in inputs:
                f.write(f"INPUT {k} {float(Fraction(v)):.17g}\n")
        return fn

    def native_replay(self, exe, nm, inputs, tol='0.001'):
        return native_run(exe[1], [nm, '--replay', self.input_file(inputs), '--tol', tol], 10)

    def write_replay(self, nm, g, conf, bad):
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}_{nm}.json")
        json.dump({'property': self.prop, 'contract': nm, 'contract_file': 'contracts/' + g['contract'], 'sources': g.get('sources', []),
                   'failing_input': conf, 'failed_obligations': bad,
                   'replay': f"VC_REPLAY={path} python3-vt -m vcg.check {self.prop}" if conf else None}, open(path, 'w'), indent=1)
        return path

    def evidence(self, rows, funcs, assumptions, bounded, covers, fallback, fb_runs, violations, info):
        by = {}
        for x in rows:
            if x['status'] == 'proved':
                by[x['backend']] = by.get(x['backend'], 0) + 1
        named = demangle(sorted(funcs))
        repo_fns = sorted({n for n in named if n.startswith('edyn::') or ' edyn::' in n.split('(')[0]})
        kinds = {}
        for x in rows:
            kinds[x['kind']] = kinds.get(x['kind'], 0) + 1
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.spec.get('level', 'proof'),
            'coverage': {
                'obligations': len(rows), 'discharged': sum(1 for x in rows if x['status'] == 'proved'),
                'checker_cmd': f"python3-vt -m vcg.check {self.prop}",
                'trusted_base': ["vcg (this VC generator: LLVM IR semantics, memory model, polynomial simplifier)", "clang 18 front end (-O0)",
                                 "z3 4.x/cvc5 verdicts"] + self.spec.get('trusted', []),
                'discharged_by_backend': by, 'obligations_by_kind': kinds,
                'solver_time_s': round(sum(x['time'] for x in rows), 2),
                'contracts': [f"{g['contract']}:{n}" for g, _, _, ns in info for n in ns],
                'functions_under_contract': repo_fns,
                'covers': covers,
                'bounded': self.spec.get('bounded', []) + bounded,
                'bounded_fallbacks': {nm: {'reason': err[:400], 'native_runs': fb_runs.get(nm, 0)} for _, _, _, nm, err in fallback},
                'labels': sorted({f"{x['contract']}: {x['label']}" for x in rows if x['kind'] in ('post', 'lemma')}),
            },
            'assumptions': build.DROPPED + self.spec.get('assumptions', []) + sorted(assumptions),
            'wall_s': round(time.time() - self.t0, 2), 'violations': len(violations),
        }
        if self.spec.get('level') == 'other':
            ev['coverage']['explanation'] = self.spec.get('explanation', '')
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.prop + '.json'), 'w'), indent=1)


def load_known(prop):
    fn = os.path.join(VERIF, 'known-findings.json')
    try:
        return [k for k in json.load(open(fn)).get('known', []) if k['property'] == prop]
    except (OSError, ValueError):
        return []


def is_known(known, contract, row):
    for k in known:
        if k['contract'] == contract and re.fullmatch(k['label'], row['label']):
            return k
    return None


def main():
    from . import props
    prop = sys.argv[1]
    if prop not in props.PROPS:
        print("unknown property", prop)
        return 2
    if len(sys.argv) > 2 and sys.argv[2] == '--replay':
        return replay(prop, sys.argv[3])
    return Check(prop, props.PROPS[prop]).run()


def replay(prop, path):
    from . import props
    d = json.load(open(path))
    spec = props.PROPS[prop]
    g = next(g for g in spec['groups'] if 'contracts/' + g['contract'] == d['contract_file'])
    tmp = tempfile.mkdtemp(prefix='vcg_')
    try:
        exe = build.compile_native(tmp, ['@/' + g['contract']] + g.get('sources', []), g.get('shim', False), g.get('flags', ()))
        fn = os.path.join(tmp, 'inp')
        with open(fn, 'w') as f:
            for k, v in d['failing_input']['inputs']:
                f.write(f"INPUT {k} {float(Fraction(v)):.17g}\n")
        out = native_run(exe, [d['contract'], '--replay', fn], 20)
        print(out)
        return 1 if 'FAIL' in out else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
