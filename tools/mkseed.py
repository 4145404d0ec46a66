"""mkseed.py: reads a python file defining seed(id, prop, file, old, new, needs, breaks, demo, features) calls; writes seeded/<id>."""
import difflib, json, os, sys
V = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
DEMO = '''#!/bin/bash
# Builds main.rs (beside this file) against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
[ -e "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
midi2 = { path = "$repo/midi2", default-features = false, features = [%s] }
TOML
cd "$t" && CARGO_TARGET_DIR="$t/target" timeout 250 cargo run --offline -q
'''
ALL = ["std", "channel-voice1", "channel-voice2", "ci", "flex-data", "sysex7", "sysex8", "system-common", "ump-stream", "utility"]


def seed(id, prop, edits, needs, breaks, demo, features=None):
    d = os.path.join(V, id)
    os.makedirs(d, exist_ok=True)
    diff = ''
    for file in sorted({e[0] for e in edits}):
        t0 = open('/repo/' + file).read()
        t = t0
        for f, old, new, *nth in edits:
            if f != file:
                continue
            if nth:
                parts = t.split(old)
                assert len(parts) > nth[0] + 1, (id, 'occurrence')
                t = old.join(parts[:nth[0] + 1]) + new + old.join(parts[nth[0] + 1:])
            else:
                assert t.count(old) == 1, (id, file, t.count(old))
                t = t.replace(old, new)
        diff += ''.join(difflib.unified_diff(t0.splitlines(True), t.splitlines(True), 'a/' + file, 'b/' + file))
    open(d + '/patch.diff', 'w').write(diff)
    fs = ', '.join('"%s"' % f for f in (features or ALL))
    open(d + '/demo.sh', 'w').write(DEMO % fs)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/main.rs', 'w').write(demo.lstrip())
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)


exec(open(sys.argv[1]).read())
