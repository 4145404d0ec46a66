"""Type-checks midi2 from the current tree under chosen feature sets, against a standard library of the matching size."""
import glob, json, os, re, subprocess, tempfile, tomllib
import check

OPTIONAL = ['channel-voice1', 'channel-voice2', 'ci', 'flex-data', 'sysex7', 'sysex8', 'system-common', 'ump-stream', 'utility']


def declared():
    return tomllib.load(open(os.path.join(check.REPO, 'midi2', 'Cargo.toml'), 'rb')).get('features', {})


def closure(fs):
    """The features cargo would enable for a request, as Cargo.toml declares them."""
    d, out, todo = declared(), set(), list(fs)
    while todo:
        f = todo.pop()
        if f not in out and '/' not in f and not f.startswith('dep:'):
            out.add(f)
            todo += d.get(f, [])
    return out


class Builder:
    def __init__(self, work):
        self.rm, dirs = check.deps('full')
        self.dirs = [d for d in dirs if not re.search(r'/(midi2|deps)/|/incremental/', d)]
        self.work = work
        os.makedirs(work, exist_ok=True)
        so = [f for d in dirs for f in glob.glob(os.path.join(d, 'libmidi2_proc-*.so'))]
        self.externs = {k: self.rm[k] for k in ('derive_more', 'fixed', 'ux')}
        self.externs['midi2_proc'] = so[0]
        self.full = check.std_sysroot()
        self.core = os.path.join(work, 'core-only')
        src = os.path.join(self.full, 'lib', 'rustlib', check.TARGET, 'lib')
        dst = os.path.join(self.core, 'lib', 'rustlib', check.TARGET, 'lib')
        os.makedirs(dst, exist_ok=True)
        for f in os.listdir(src):
            if re.match(r'lib(core|compiler_builtins|rustc_std_workspace_core)-', f):
                q = os.path.join(dst, f)
                if not os.path.exists(q):
                    os.symlink(os.path.join(src, f), q)

    def rustc(self, args, sysroot):
        e = check.env_base()
        e.update(CARGO_PKG_VERSION='0.0.0', CARGO_PKG_NAME='midi2', CARGO_MANIFEST_DIR=os.path.join(check.REPO, 'midi2'), CARGO_CRATE_NAME='midi2')
        cmd = ['rustc', '+nightly'] + args + ['--edition', '2021', '--target', check.TARGET, '--sysroot', sysroot, '--error-format=json',
                                              '--cap-lints=allow' if '-F' not in args else '--cap-lints=forbid']
        if '--emit=obj' not in args:
            cmd.append('--emit=metadata')
        for d in self.dirs:
            cmd += ['-L', 'dependency=' + d]
        return subprocess.run(cmd, env=e, capture_output=True, text=True)

    def midi2(self, features, mir=False):
        """(path of the metadata or None, first errors)"""
        on = closure(features)
        tag = '+'.join(sorted(on)) or 'none'
        out = os.path.join(self.work, 'm-' + tag + ('-mir' if mir else ''))
        os.makedirs(out, exist_ok=True)
        rm = os.path.join(out, 'libmidi2.rmeta')
        args = [os.path.join(check.REPO, 'midi2', 'src', 'lib.rs'), '--crate-name', 'midi2', '--crate-type', 'lib', '-o', rm, '-F', 'unsafe_code']
        if mir:
            args += check.FLAGS.split()
        for f in sorted(on):
            args += ['--cfg', f'feature="{f}"']
        for k, v in self.externs.items():
            args += ['--extern', f'{k}={v}']
        r = self.rustc(args, self.full if 'std' in on else self.core)
        return (rm if r.returncode == 0 else None), errors(r.stderr)

    def witness(self, source, rm, name, std=True, obj=False):
        """Type-check a client; returns (accepted, [(code, message)])."""
        src = os.path.join(self.work, name + '.rs')
        open(src, 'w').write(source)
        args = [src, '--crate-name', name, '--crate-type', 'lib', '--extern', 'midi2=' + rm]
        args += ['--emit=obj', '-Cdebuginfo=0', '-o', os.path.join(self.work, name + '.o')] if obj else ['-o', os.path.join(self.work, name + '.rmeta')]
        r = self.rustc(args, self.full if std else self.core)
        return r.returncode == 0, errors(r.stderr)


def errors(text):
    out = []
    for l in text.splitlines():
        if l.startswith('{'):
            d = json.loads(l)
            if d.get('level') == 'error':
                sp = [s for s in d['spans'] if s['is_primary']]
                out.append(((d.get('code') or {}).get('code') or '', d['message'], f"{os.path.relpath(sp[0]['file_name'], check.REPO) if sp[0]['file_name'].startswith('/') else sp[0]['file_name']}:{sp[0]['line_start']}" if sp else ''))
    return out


def _lines(self, source, rm, name, obj=False):
    """Type-check many one-line clients at once: (accepted, {line: [messages]}, messages that belong to no line)."""
    src = os.path.join(self.work, name + '.rs')
    open(src, 'w').write(source)
    args = [src, '--crate-name', name, '--crate-type', 'lib', '--extern', 'midi2=' + rm]
    args += ['--emit=obj', '-Cdebuginfo=0', '-Ccodegen-units=1', '-o', os.path.join(self.work, name + '.o')] if obj else ['-o', os.path.join(self.work, name + '.rmeta')]
    r = self.rustc(args, self.full)
    hit, stray = {}, []

    def spans(d):
        for s in d.get('spans', []):
            while s:
                if os.path.basename(s['file_name']) == name + '.rs':
                    yield s['line_start'], s['is_primary']
                s = (s.get('expansion') or {}).get('span')
        for ch in d.get('children', []):
            yield from ((l, False) for l, _ in spans(ch))
    for l in r.stderr.splitlines():
        if not l.startswith('{'):
            continue
        d = json.loads(l)
        if d.get('level') != 'error' or d['message'].startswith('aborting due to'):
            continue
        at = list(spans(d))
        text = f"{(d.get('code') or {}).get('code') or ''} {d['message']}"
        prim = {x for x, p in at if p} or {x for x, _ in at}
        for x in prim:
            hit.setdefault(x, []).append(text)
        if not prim:
            stray.append(text)
    return r.returncode == 0, hit, stray


Builder.lines = _lines
