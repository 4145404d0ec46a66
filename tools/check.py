#!/usr/bin/env python3
"""Runs the static check of one property against /repo's current source.

  check.py <ID> [--tier quick|thorough]
  check.py --setup          build the analyser and warm the dependency build
"""
import fcntl, hashlib, importlib, json, os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
sys.modules.setdefault('check', sys.modules[__name__])
sys.path[:0] = [os.path.join(VERIF, 'tools'), os.path.join(VERIF, 'props')]
NIGHTLY = ['cargo', '+nightly']
FLAGS = '-Zalways-encode-mir -Coverflow-checks=on -Zmir-opt-level=0'


class Broken(Exception):
    pass


def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()


TARGET = 'x86_64-unknown-linux-gnu'


def std_sysroot():
    """A standard library which keeps the MIR of all its functions (the one Miri uses)."""
    home = os.environ.get('MIRI_SYSROOT') or os.path.expanduser('~/.cache/miri')
    if os.path.isdir(os.path.join(home, 'lib', 'rustlib', TARGET, 'lib')):
        return home
    own = os.path.join(BUILD, 'std')
    with Lock('std'):
        if not os.path.isdir(os.path.join(own, 'lib', 'rustlib', TARGET, 'lib')):
            e = env_base()
            e['MIRI_SYSROOT'] = own
            r = subprocess.run(NIGHTLY + ['miri', 'setup'], env=e, capture_output=True, text=True)
            if r.returncode:
                raise SystemExit('cannot build the standard library: ' + r.stderr[-2000:])
    return own


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        for root, ds, fs in sorted(os.walk(p)) if os.path.isdir(p) else [(os.path.dirname(p), [], [os.path.basename(p)])]:
            ds[:] = sorted(d for d in ds if d not in ('target', '.git'))
            for fn in sorted(fs):
                q = os.path.join(root, fn)
                h.update(q.encode())
                with open(q, 'rb') as f:
                    h.update(f.read())
    return h.hexdigest()[:16]


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + '.lock')

    def __enter__(self):
        self.f = open(self.p, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def env_base():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    return e


def bitflow():
    src = os.path.join(VERIF, 'bitflow')
    h = tree_hash([os.path.join(src, 'src'), os.path.join(src, 'Cargo.toml')])
    out = os.path.join(BUILD, 'bitflow-' + h)
    exe = os.path.join(out, 'release', 'bitflow')
    with Lock('bitflow'):
        if not os.path.exists(exe):
            for d in os.listdir(BUILD):
                if d.startswith('bitflow-') and os.path.isdir(os.path.join(BUILD, d)):
                    shutil.rmtree(os.path.join(BUILD, d))
            e = env_base()
            e['CARGO_TARGET_DIR'] = out
            r = subprocess.run(NIGHTLY + ['build', '--release', '--offline'], cwd=src, env=e, capture_output=True, text=True)
            if r.returncode:
                sys.stderr.write(r.stderr)
                raise SystemExit(2)
    return exe


def repo_inputs():
    return [os.path.join(REPO, x) for x in ('midi2/src', 'midi2/Cargo.toml', 'midi2/README.md', 'midi2_proc/src', 'midi2_proc/Cargo.toml', 'Cargo.toml')]


def deps(features='full'):
    """Type-check midi2 from the current tree, keeping every function's MIR."""
    h = tree_hash(repo_inputs())
    tag = f'deps-{h}-{features.replace("/", "").replace(",", "+")[:80]}'
    out = os.path.join(BUILD, tag)
    done = os.path.join(out, 'ok.json')
    with Lock('deps'):
        if not os.path.exists(done):
            old = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith('deps-') and not d.startswith(f'deps-{h}')),
                         key=os.path.getmtime)
            for d in old[:-1] if len(old) > 1 else []:
                shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(out, ignore_errors=True)
            e = env_base()
            e['RUSTFLAGS'] = FLAGS + ' --sysroot ' + std_sysroot()
            e['CARGO_TARGET_DIR'] = out
            src = os.path.join(BUILD, tag + '-src')
            shutil.rmtree(src, ignore_errors=True)
            os.makedirs(os.path.join(src, 'src'))
            t = open(os.path.join(VERIF, 'deps', 'Cargo.toml')).read().replace('/repo/', REPO + '/')
            open(os.path.join(src, 'Cargo.toml'), 'w').write(t)
            shutil.copy(os.path.join(VERIF, 'deps', 'Cargo.lock'), src)
            shutil.copy(os.path.join(VERIF, 'deps', 'src', 'lib.rs'), os.path.join(src, 'src'))
            r = subprocess.run(NIGHTLY + ['check', '--offline', '--target', TARGET, '--features', features, '--message-format=json'], cwd=src, env=e,
                               capture_output=True, text=True)
            shutil.rmtree(src, ignore_errors=True)
            if r.returncode:
                msgs = [json.loads(l)['message']['rendered'] for l in r.stdout.splitlines()
                        if l.startswith('{') and '"compiler-message"' in l and '"level":"error"' in l]
                raise Broken('the crate does not type-check: ' + (msgs[0] if msgs else r.stderr[-2000:]))
            rm = {}
            for l in r.stdout.splitlines():
                if l.startswith('{'):
                    m = json.loads(l)
                    if m.get('reason') == 'compiler-artifact':
                        for f in m['filenames']:
                            if f.endswith('.rmeta'):
                                rm[m['target']['name'].replace('-', '_')] = f
            open(done, 'w').write(json.dumps(rm))
        os.utime(out)
        rm = json.load(open(done))
    dirs = set()
    for root, _, fs in os.walk(out):
        if any(f.endswith(('.rmeta', '.rlib', '.so')) for f in fs):
            dirs.add(root)
    return rm, sorted(dirs)


LIMITS = {}


def analyse(source, rm, dirs, work, name, only=None, edition='2021', extra_env=None):
    os.makedirs(work, exist_ok=True)
    src = os.path.join(work, name + '.rs')
    open(src, 'w').write(source)
    out = os.path.join(work, name + '.out')
    for f in os.listdir(work):
        if f.startswith(name + '.out'):
            os.remove(os.path.join(work, f))
    sr = sysroot()
    e = env_base()
    e.update(LD_LIBRARY_PATH=os.path.join(sr, 'lib'), RUST_MIN_STACK='4000000000', BITFLOW_OUT=out)
    e.setdefault('BITFLOW_NODES', '24000000')
    e.setdefault('BITFLOW_SECS', '300')
    if LIMITS:
        e.update(LIMITS)
    if only:
        e['BITFLOW_ROOTS'] = only
    e.update(extra_env or {})
    cmd = [bitflow(), src, '--crate-name', 'obligations', '--edition', edition, '--crate-type', 'lib', '--emit=metadata',
           '-o', os.path.join(work, name + '.rmeta')] + FLAGS.split() + ['--sysroot', std_sysroot()]
    for c in ('midi2', 'ux', 'fixed'):
        if c in rm:
            cmd += ['--extern', f'{c}={rm[c]}']
    for d in dirs:
        cmd += ['-L', 'dependency=' + d]
    r = subprocess.run(cmd, env=e, capture_output=True, text=True)
    if not os.path.exists(out + '.list'):
        errs = [l for l in r.stderr.splitlines() if l.startswith('error')]
        raise Broken('the obligations no longer type-check against the public API: ' + ' / '.join(errs[:5]) + '\n' + r.stderr[:6000])
    listed = open(out + '.list').read().split('\n')
    res, visited = {}, set()
    for f in sorted(os.listdir(work)):
        if re.fullmatch(re.escape(name) + r'\.out\.\d+', f):
            for l in open(os.path.join(work, f)):
                try:
                    d = json.loads(l)
                except ValueError:    # the worker was stopped while writing; its roots are reported as not finished
                    continue
                if 'root' in d:
                    res[d['root'].split('::')[-1]] = d
                else:
                    visited.update(d['visited'])
    if os.environ.get('BITFLOW_PATHS'):    # for finding functions no obligation reaches
        with open(os.environ['BITFLOW_PATHS'], 'a') as f:
            f.write(''.join(v[1:] + '\n' for v in sorted(visited) if v.startswith('@')))
    return listed, res, {v for v in visited if not v.startswith('@')}, r.stderr


def known(prop):
    out = {}
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                d = json.loads(l)
                if d.get('property') == prop and d.get('status') == 'known':
                    out[d['key']] = d
    return out


def witness_values(w):
    vals = {}
    for k, v in w.items():
        n, _, b = k.rpartition('.')
        if b.isdigit():
            vals.setdefault(n, 0)
            vals[n] |= v << int(b)
        else:
            vals[k] = v
    return {k: hex(v) for k, v in vals.items()}


class Report:
    """Collects what one run analysed and found."""

    def __init__(self, prop, tier):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        self.viol, self.known, self.cov, self.samples = [], [], {}, []
        self.obligations = self.discharged = 0
        self.assumptions = []
        self.k = known(prop)

    def violation(self, key, text, detail=None):
        if key in self.k:
            if key not in [x[0] for x in self.known]:
                self.known.append((key, text))
            return
        self.viol.append((key, text, detail or {}))

    def finish(self, level):
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level,
                  coverage=self.cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        self.cov['obligations'] = self.obligations
        self.cov['discharged'] = self.discharged
        self.cov['samples'] = self.samples[:12]
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1)
        for k, t in self.known:
            print(f'KNOWN-FINDING: property={self.prop} {k}: {t}')
        if self.viol:
            rd = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rd, exist_ok=True)
            for i, (k, t, d) in enumerate(self.viol):
                rp = os.path.join(rd, f'{self.prop}-{i}.json')
                json.dump(dict(property=self.prop, key=k, text=t, detail=d), open(rp, 'w'), indent=1)
                if i < 25:
                    print(f'VIOLATION property={self.prop} replay={rp}')
                    print(f'  {t}')
            if len(self.viol) > 25:
                print(f'  ... {len(self.viol)} in total')
            return 1
        print(f'{self.prop}: {self.discharged}/{self.obligations} obligations discharged, {len(self.known)} known findings, {time.time() - self.t0:.1f}s')
        return 0


def evaluate(rep, h, listed, res, visited, err):
    names = {x.split('::')[-1] for x in listed}
    blocks = calls = checks = 0
    secs = 0.0
    for n, meta in h.roots.items():
        rep.obligations += 1
        d = res.get(n)
        if n not in names or d is None:
            rep.violation(f'{n}|missing', f'{n}: the analysis did not finish ({meta["desc"]})', dict(stderr=err[-2000:]))
            continue
        blocks += d['blocks']; calls += d['calls']; checks += d['checks']; secs += d['secs']
        bad = False
        if d['status'] != 'analysed':
            rep.violation(f'{n}|undecided', f'{n}: not decided: {d["why"]} ({meta["desc"]})', d)
            bad = True
        events = d['events']
        if meta.get('panics'):
            if not any(e['kind'] == 'panic' for e in events):
                rep.violation(f'{n}|nopanic', f'{n}: no panic is reachable ({meta["desc"]})', d)
                bad = True
            events = [e for e in events if e['kind'] != 'panic']
        for e in events:
            key = f'{n}|{e["kind"]}|{e["msg"].split(" [")[0]}'
            rep.violation(key, f'{n}: {e["kind"]}: {e["msg"]} at {e["site"]} in {e["func"]}; input {witness_values(e["witness"])} ({meta["desc"]})', e)
            bad = True
        if not bad:
            for c in meta['covers']:
                if c not in d['covers']:
                    rep.violation(f'{n}|vacuous|{c}', f'{n}: no input reaches "{c}": the obligation is vacuous ({meta["desc"]})', d)
                    bad = True
            if d['checks'] == 0 and not meta.get('panics'):
                rep.violation(f'{n}|nochecks', f'{n}: no check evaluated ({meta["desc"]})', d)
                bad = True
        if not bad:
            rep.discharged += 1
            if len(rep.samples) < 12 and (rep.discharged % max(1, len(h.roots) // 10) == 1 or len(h.roots) < 12):
                rep.samples.append(f'{n}: {meta["desc"]}; {d["blocks"]} MIR blocks, {d["calls"]} calls, {d["checks"]} checks, {d["nodes"]} diagram nodes')
    if os.environ.get('STATS'):
        for k in ('nodes', 'blocks', 'secs'):
            print(k, ' '.join(f'{n}={res[n][k]}' for n in sorted(res, key=lambda n: -res[n][k])[:6]))
    c = rep.cov
    c['mir_blocks_interpreted'] = c.get('mir_blocks_interpreted', 0) + blocks
    c['calls_followed'] = c.get('calls_followed', 0) + calls
    c['checks_evaluated'] = c.get('checks_evaluated', 0) + checks
    mine = sorted(v for v in visited if 'midi2::' in v or v.startswith('midi2'))
    c['functions_of_subject_analysed'] = max(c.get('functions_of_subject_analysed', 0), len(mine))
    c.setdefault('function_list', [])
    c['function_list'] = sorted(set(c['function_list']) | set(mine))[:400]


def run(prop, tier, only=None):
    if tier == 'quick':    # an endless loop in the analysed code must end in a verdict, not in a timeout
        LIMITS['BITFLOW_UNTIL'] = str(int(time.time()) + 720)
    else:
        LIMITS['BITFLOW_BLOCKS'] = '400000000'
        LIMITS['BITFLOW_SECS'] = '1800'
    mod = importlib.import_module(prop.lower())
    rep = Report(prop, tier)
    rep.cov['rule'] = mod.RULE
    rep.cov['checker_cmd'] = f'python3 tools/check.py {prop} --tier {tier}'
    rep.cov['trusted_base'] = getattr(mod, 'TRUSTED', []) + [
        'rustc nightly front end and MIR construction', 'bitflow MIR interpreter and decision-diagram package (/verif/bitflow)',
        'frozen layout tables (/verif/tools/spec.py)']
    rep.assumptions = list(getattr(mod, 'ASSUME', []))
    try:
        if hasattr(mod, 'run'):
            mod.run(rep, tier, only)
        if callable(getattr(mod, 'harness', None)):
            for h in mod.harness(tier):
                rm, dirs = deps(getattr(h, 'features', 'full'))
                work = os.path.join(BUILD, f'work-{os.getpid()}')
                try:
                    listed, res, vis, err = analyse(h.source(), rm, dirs, work, f'{prop.lower()}_{getattr(h, "tag", "a")}', only)
                finally:
                    if not os.environ.get('KEEP'):
                        shutil.rmtree(work, ignore_errors=True)
                if only:
                    h.roots = {k: v for k, v in h.roots.items() if any(o in k for o in only.split(','))}
                evaluate(rep, h, listed, res, vis, err)
    except Broken as e:
        rep.obligations += 1
        rep.violation('broken', str(e))
    floor = getattr(mod, 'FLOOR', 1)
    if not only and rep.obligations < floor:
        rep.violation('floor', f'only {rep.obligations} obligations were built; at least {floor} were confirmed by hand')
    return rep.finish(mod.LEVEL)


def selftest():
    """The analyser must find every seeded fault of bitflow/selftest.rs and stay quiet on the sound obligations."""
    import harness
    src = harness.Harness('S').source() + open(os.path.join(VERIF, 'bitflow', 'selftest.rs')).read()
    rm, dirs = deps('full')
    work = os.path.join(BUILD, f'work-{os.getpid()}')
    try:
        listed, res, vis, err = analyse(src, rm, dirs, work, 'selftest')
    finally:
        shutil.rmtree(work, ignore_errors=True)
    bad = 0
    for n in re.findall(r'pub fn (ob_\w+)', src):
        d = res.get(n, dict(status='missing', why='', events=[], covers=[]))
        kinds = {e['kind'] for e in d['events']}
        want = set() if n.startswith('ob_ok_') else {n.split('_')[2]}
        if d['status'] != 'analysed' or kinds != want or (not want and 'end' not in d['covers']):
            print('selftest:', n, d['status'], d['why'], sorted(kinds), 'expected', sorted(want))
            bad = 1
    print('selftest', 'FAILED' if bad else 'passed')
    return bad


def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        bitflow()
        deps('full')
        return selftest()
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    only = a[a.index('--only') + 1] if '--only' in a else None
    return run(a[0], tier, only)


if __name__ == '__main__':
    sys.exit(main())
