"""Feature combinations: each builds, offers exactly what it names, needs no standard library, and behaves as the layout tables say."""
import concurrent.futures, importlib, itertools, os, re, shutil
import check, feat, harness, spec
from check import BUILD, Broken
LEVEL = 'proof'
RULE = ('For every combination of cargo features: the crate type-checks with unsafe code forbidden and, without the std feature, against a standard library '
        'that consists of core alone (dependencies included). For every single feature without std: clients naming each item of the feature type-check, clients '
        'naming an item of another feature do not, and abstract interpretation of the MIR built with that feature alone decides parsing, construction, getters, '
        'setters and the routing of UmpMessage and BytesMessage as for the full build.')
ASSUME = ['features are enabled through midi2/Cargo.toml as cargo resolves them; dependencies are built with their default configuration',
          'without std, UTF-8 validity of texts is not part of what parsing checks']
FLOOR = 4500
FAM = {'channel-voice1': 'ChannelVoice1', 'channel-voice2': 'ChannelVoice2', 'flex-data': 'FlexData', 'sysex7': 'Sysex7', 'sysex8': 'Sysex8',
       'system-common': 'SystemCommon', 'ump-stream': 'UmpStream', 'utility': 'Utility'}
NIB = {'channel-voice1': 2, 'channel-voice2': 4, 'flex-data': 0xD, 'sysex7': 3, 'sysex8': 5, 'system-common': 1, 'ump-stream': 0xF, 'utility': 0}
BYTES = {'channel-voice1': 'w[0] >= 0x80 && w[0] <= 0xEF', 'sysex7': 'w[0] == 0xF0', 'system-common': 'w[0] >= 0xF1 && w[0] != 0xF7'}


def mod(f):
    return f.replace('-', '_')


def items(f):
    """Public items of a feature: (path, generic argument) pairs."""
    m = mod(f)
    if f == 'ci':
        return ['ci::DiscoveryQuery', 'ci::Ci']
    out = [f'{m}::{FAM[f]}', f'{m}::Packet']
    out += sorted({x.path for x in spec.FIXED if x.path.startswith(m + '::')})
    if f == 'flex-data':
        out += [f'flex_data::{n}' for n, *_ in spec.FLEX_TEXT]
    if f == 'ump-stream':
        out += [f'ump_stream::{n}' for n, *_ in spec.STREAM_TEXT]
    return out


def combos(tier):
    """Distinct sets of enabled features, by what cargo would enable."""
    o = feat.OPTIONAL
    sizes = range(len(o) + 1) if tier == 'thorough' else (0, 1, 2, len(o) - 1, len(o))
    seen = {}
    for n in sizes:
        for c in itertools.combinations(o, n):
            for std in ([], ['std']):
                seen.setdefault(frozenset(feat.closure(list(c) + std)), list(c) + std)
    return list(seen.values())


def matrix(rep, b, tier, pool):
    cs = combos(tier)
    for c, (rm, errs) in zip(cs, pool.map(b.midi2, cs)):
        name = '+'.join(c) or 'no features'
        rep.obligations += 1
        if rm is None:
            e = (errs or [('', 'no diagnostics', '')])[0]
            rep.violation(f'build|{name}', f'the crate does not build with {name}: {e[1]} at {e[2]}', dict(features=c, errors=errs[:10]))
        else:
            rep.discharged += 1
            if len(rep.samples) < 4:
                rep.samples.append(f'midi2 type-checks with {name}' + ('' if 'std' in c else ', core only'))
    rep.cov['feature_combinations_type_checked'] = len(cs)
    d = feat.closure(['default'])
    rep.obligations += 1
    if d - {'default'} != {'std', 'channel-voice2'}:
        rep.violation('default', f'the default features enable {sorted(d)} instead of std and channel-voice2')
    else:
        rep.discharged += 1


HEAD = '#![no_std]\n#![allow(unused)]\n'


def witnesses(b, rmof):
    """(name, source, metadata, std, wanted error codes or None, description)"""
    out = []
    for f in feat.OPTIONAL:
        on = feat.closure([f]) & set(feat.OPTIONAL)
        rm = rmof[f]
        for g in feat.OPTIONAL:
            for it in items(g):
                n = f'w_{mod(f)}_{it.replace("::", "_").lower()}'
                src = HEAD + f'pub use midi2::{it};\n'
                if g in on:
                    out.append((n, src, rm, False, None, f'{it} with feature {f}'))
            if g not in on:
                out.append((f'n_{mod(f)}_{mod(g)}', HEAD + f'pub use midi2::{mod(g)};\n', rm, False, {'E0432', 'E0433'}, f'module {mod(g)} with feature {f} only'))
        for g, v in FAM.items():
            src = HEAD + f'pub fn f(m: midi2::UmpMessage<[u32; 4]>) -> bool {{ match m {{ midi2::UmpMessage::{v}(_) => true, _ => false }} }}\n'
            out.append((f'u_{mod(f)}_{mod(g)}', src, rm, False, None if g in on else {'E0599'}, f'UmpMessage::{v} with feature {f}'))
        if on & set(BYTES):
            for g in BYTES:
                src = HEAD + f'pub fn f(m: midi2::BytesMessage<[u8; 4]>) -> bool {{ match m {{ midi2::BytesMessage::{FAM[g]}(_) => true, _ => false }} }}\n'
                out.append((f'b_{mod(f)}_{mod(g)}', src, rm, False, None if g in on else {'E0599'}, f'BytesMessage::{FAM[g]} with feature {f}'))
    for f in [''] + feat.OPTIONAL:
        rm = rmof[f]
        out.append((f'base_{mod(f)}', HEAD + 'pub use midi2::{buffer::{Buffer, BufferMut, BufferDefault, BufferResize, BufferTryResize, FromBuffer, TryFromBuffer, Ump, Bytes, Unit}, error::{InvalidData, BufferOverflow}, ux::u7, num::Fixed7_9, num::Fixed7_25, Data, Grouped, Channeled, RebufferInto, TryRebufferInto, ArrayRebufferInto, IntoBytes, IntoUmp, TryIntoBytes, TryIntoUmp};\n', rm, False, None, f'common items with feature {f or "none"}'))
        v = 'pub fn f<B: midi2::buffer::Buffer>() {}\npub fn g() { f::<std::vec::Vec<u32>>() }\n'
        out.append((f'vec_{mod(f)}', v, rm, True, {'E0277'}, f'vectors are no buffers with feature {f or "none"} without std'))
        out.append((f'vecstd_{mod(f)}', v + 'pub fn h() { f::<&mut std::vec::Vec<u8>>() }\npub fn e(x: midi2::error::InvalidData, y: midi2::error::BufferOverflow) { fn t<E: std::error::Error>(e: E) {} t(x); t(y) }\n', rmof[f + '+std'], True, None, f'vectors are buffers with feature {f or "none"} and std'))
    return out


def routing(h, f):
    v, nib, m = FAM[f], NIB[f], mod(f)
    fam = f'{m}::{v}'
    for n in range(0, 7):
        h.root(f'route_{m}_{n}', f'w: [u32; {max(n, 1)}]', f'''let s = &w[..{n}]; let mine = {n} > 0 && w[0] >> 28 == {nib:#x};
    match UmpMessage::try_from(s) {{
        Ok(x) => {{ bf_check(mine, "only messages of an enabled type are accepted"); match (x, {fam}::try_from(s)) {{
            (UmpMessage::{v}(a), Ok(b)) => {{ bf_eq(a.data().len(), b.data().len(), "length of the data"); let k = a.data().len(); for i in 0..{n}usize {{ if i < k {{ bf_eq(a.data()[i], w[i], "data"); }} }} }}
            _ => bf_check(false, "the variant of the type"), }} }}
        Err(_) => bf_check(!mine || {fam}::try_from(s).is_err(), "every message of the type is accepted"),
    }}''', f'UmpMessage::try_from of any {n} words with feature {f} only')
    if f in BYTES:
        for n in range(0, 5):
            h.root(f'routeb_{m}_{n}', f'w: [u8; {max(n, 1)}]', f'''let s = &w[..{n}]; let mine = {n} > 0 && {BYTES[f]};
    match BytesMessage::try_from(s) {{
        Ok(x) => {{ bf_check(mine, "only messages of an enabled type are accepted"); match (x, {fam}::try_from(s)) {{
            (BytesMessage::{v}(a), Ok(b)) => {{ bf_eq(a.data().len(), b.data().len(), "length of the data"); }}
            _ => bf_check(false, "the variant of the type"), }} }}
        Err(_) => bf_check(!mine || {fam}::try_from(s).is_err(), "every message of the type is accepted"),
    }}''', f'BytesMessage::try_from of any {n} bytes with feature {f} only')


def restricted(f, tier):
    """The obligations of the other properties about the types of one feature, without vectors and strings."""
    m = mod(f)
    others = [mod(g) for g in feat.OPTIONAL if g not in feat.closure([f])]
    bad = re.compile(r'\bVec\b|\bString\b|to_vec|vec!|\b(' + '|'.join(others) + r')::')
    skip = {k for p in ('C03', 'C04') for k in check.known(p)}
    skip = {k.split('|')[0] for k in skip}
    out = harness.Harness('C20')
    routing(out, f)
    full = spec.FIXED
    mods = {'sysex7': ['c12', 'c13', 'c14'], 'sysex8': ['c12', 'c13', 'c14'], 'flex-data': ['c01', 'c02', 'c03', 'c04', 'c15'],
            'ump-stream': ['c01', 'c02', 'c03', 'c04', 'c16']}.get(f, ['c01', 'c02', 'c03', 'c04'])
    try:
        spec.FIXED = [x for x in full if x.path.startswith(m + '::')]
        for name in mods:
            for h in importlib.import_module(name).harness('quick'):
                out.text.append(f'pub mod {name} {{ use super::*;')
                for piece in h.text[1:]:
                    r = re.search(r'pub fn (ob_\w+)\(', piece)
                    if r and r.group(1) in h.roots:
                        if bad.search(piece) or r.group(1) in skip or '_utf8_' in r.group(1):
                            continue
                        new = f'ob_{name}_{r.group(1)[3:]}'
                        out.roots[new] = h.roots[r.group(1)]
                        out.text.append(piece.replace(f'pub fn {r.group(1)}(', f'pub fn {new}('))
                    elif not bad.search(piece):
                        out.text.append(piece)
                out.text.append('}')
    finally:
        spec.FIXED = full
    return out


def run(rep, tier, only=None):
    work = os.path.join(BUILD, f'work-{os.getpid()}-feat')
    try:
        b = feat.Builder(work)
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            matrix(rep, b, tier, pool)
            rmof, todo = {}, []
            for f in [''] + feat.OPTIONAL:
                for std in (False, True):
                    todo.append(([f] if f else []) + (['std'] if std else []))
            for c, (rm, errs) in zip(todo, pool.map(b.midi2, todo)):
                rmof[(c[0] if c and c[0] != 'std' else '') + ('+std' if 'std' in c else '')] = rm
            if None in rmof.values():
                return                      # reported above
            ws = witnesses(b, rmof)
            for (n, src, rm, std, want, desc), (ok, errs) in zip(ws, pool.map(lambda w: b.witness(w[1], w[2], w[0], w[3]), ws)):
                rep.obligations += 1
                codes = {e[0] for e in errs}
                if want is None and not ok:
                    rep.violation(f'witness|{n}', f'{desc}: a client is refused: {errs[0][1] if errs else ""}', dict(source=src, errors=errs[:5]))
                elif want is not None and ok:
                    rep.violation(f'witness|{n}', f'{desc}: a client which must be refused is accepted', dict(source=src))
                elif want is not None and not codes & want:
                    rep.violation(f'witness|{n}', f'{desc}: refused for another reason: {errs[:2]}', dict(source=src, errors=errs[:5]))
                else:
                    rep.discharged += 1
            rep.cov['clients_type_checked'] = len(ws)
            mirs = list(pool.map(lambda f: b.midi2([f], mir=True), list(FAM)))
        for f, (rm, errs) in zip(FAM, mirs):
            h = restricted(f, tier)
            if only:
                h.roots = {k: v for k, v in h.roots.items() if any(o in k for o in only.split(','))}
            full, dirs = check.deps('full')
            full = dict(full, midi2=rm)
            listed, res, vis, err = check.analyse(h.source(), full, b.dirs, work, 'c20_' + mod(f), only)
            check.evaluate(rep, h, listed, res, vis, err)
            rep.cov.setdefault('obligations_per_feature_build', {})[f] = len(h.roots)
    finally:
        if not os.environ.get('KEEP'):
            shutil.rmtree(work, ignore_errors=True)
