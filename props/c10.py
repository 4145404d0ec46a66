"""Effects of the call graph below every operation over borrowed and fixed storage: flow insensitive, so for inputs of any length."""
import os, shutil
import check, c21, c23, tx, zoo
from harness import *
LEVEL = 'proof'
RULE = ('For every message type, enum and packet type over slices, mutable slices, arrays and caller supplied storage of any length: no function reachable from parsing, building, '
        'reading, editing, converting, iterating, comparing or formatting (calls that do not return excepted) allocates, frees, touches global or thread-local state, '
        'calls foreign code or runs assembly. Text reading is decided in the build without std, which has no String.')
FLOOR = 943
SINK = '''
pub struct Nothing;
impl core::fmt::Write for Nothing { fn write_str(&mut self, _s: &str) -> core::fmt::Result { Ok(()) } }
fn fmt<T: core::fmt::Debug>(x: &T) { let _ = core::fmt::write(&mut Nothing, format_args!("{:?}", x)); }
fn drain<I: Iterator + Clone>(it: I) where I::Item: PartialEq { let _ = it.size_hint(); let _ = it.clone().count(); let _ = it.clone().nth(3); run(it) }
fn run<I: Iterator>(mut it: I) where I::Item: PartialEq { let _ = it.size_hint(); let _ = it.nth(3); for x in it { let _ = x == x; } }
fn packets(it: PacketsIterator<'_>) { let _ = it.size_hint(); let _ = it.len(); for p in it { let _ = p.len(); let _ = p.first(); fmt(&p); } }
/// positive control: an allocation behind a function pointer, a trait object and a generic
trait Grows { fn grow(&self) -> usize; }
impl Grows for u8 { fn grow(&self) -> usize { let mut v = Vec::new(); v.push(*self); v.len() } }
pub fn ob_control(x: u8) -> usize { let f: fn(&dyn Grows) -> usize = |d| d.grow(); [x].iter().map(|b| f(b)).sum() }
/// positive control: hidden state
static STATE: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
pub fn ob_control_state() -> usize { STATE.fetch_add(1, core::sync::atomic::Ordering::Relaxed) }
/// negative control: a panic is not followed
pub fn ob_control_panic(x: &[u8], i: usize) -> u8 { if i > 7 { let t = String::from("too much"); panic!("{i} is {t}") } else { x[i] } }
'''


def harness_for(std):
    h = Harness('C10')
    h.features, h.tag = ('full', 'std') if std else ('nostd', 'core')
    h.raw(SINK + 'use midi2::ci::Ci;')

    def root(name, params, body, desc):
        h.root(name, params, f'{body}', desc, cover=False)
    for k in spec.KINDS:
        h.use_kind(k)
    common = 'fmt(&m); let _ = m.data().len(); let _ = m == m.clone();'
    for m in spec.FIXED:
        for u in ('u32', 'u8') if m.nbytes else ('u32',):
            n = m.words if u == 'u32' else m.nbytes
            fs = [f for f in m.fields if u == 'u32' or f.bytes]
            gets = ' '.join(f'let _ = m.{f.name}();' for f in fs) + (' packets(m.packets());' if u == 'u32' else '')
            sets = ' '.join(f'm.set_{f.name}(dec_{f.kind}(c));' for f in fs)
            root(f'{m.id}_{u}_read', f'w: &[{u}]', f'if let Ok(m) = {m.path}::try_from(w) {{ {common} {gets} }}', f'{m.path}: parsing and reading a slice of any length')
            for kind, mk, P in (('slice', f'{m.path}::try_new_with_buffer(w)', f'w: &mut [{u}]'), ('own', f'{m.path}::try_new_with_buffer(Buf(w))', f'w: [{u}; {n + 3}]'), ('array', f'Ok::<_, error::BufferOverflow>({m.path}::<[{u}; {n}]>::new())', '')):
                if m.name == 'FunctionBlockDiscovery' and kind == 'array':
                    mk = f'Ok::<_, error::BufferOverflow>({m.path}::<[{u}; 4]>::new())'
                root(f'{m.id}_{u}_write_{kind}', f'c: u64, {P}', f'if let Ok(mut m) = {mk} {{ {sets} {gets} let _ = m.data().len(); fmt(&m); {"" if kind == "own" else "let _ = m == m;"} }}', f'{m.path}: building and editing over {kind}')
            conv = f'let x: Result<{m.path}<[{u}; {n + 1}]>, error::BufferOverflow> = {m.path}::try_from(w).unwrap().try_rebuffer_into(); let y: {m.path}<[{u}; {n + 2}]> = {m.path}::try_from(w).unwrap().array_rebuffer_into(); let z: Result<{m.path}<Buf<{u}, 9>>, error::BufferOverflow> = Err(error::BufferOverflow);'
            if m.nbytes:
                o, go = ('u8', 'into_bytes') if u == 'u32' else ('u32', 'into_ump')
                big = 8
                conv += f' let a: {m.path}<[{o}; {big}]> = {m.path}::try_from(w).unwrap().array_{go}();' if False else f' let a: {m.path}<[{o}; {big}]> = {m.path}::try_from(w).unwrap().{go}(); let b: Result<{m.path}<[{o}; 4]>, error::BufferOverflow> = {m.path}::try_from(w).unwrap().try_{go}();'
            agg = spec.AGG[m.family][0]
            top = 'UmpMessage' if u == 'u32' else 'BytesMessage'
            conv += f' let e: {m.family}::{agg}<&[{u}]> = {m.path}::try_from(w).unwrap().into(); fmt(&e); let t: {top}<&[{u}]> = e.into(); fmt(&t);'
            root(f'{m.id}_{u}_convert', f'w: &[{u}]', conv, f'{m.path}: converting to other storage, the other representation and the enums')
    for fam in sorted({m.family for m in spec.FIXED}):
        if std and fam in ('flex_data', 'ump_stream'):
            continue
        agg = spec.AGG[fam][0]
        for u in ('u32', 'u8'):
            if u == 'u8' and not any(m.nbytes for m in spec.FIXED if m.family == fam):
                continue
            more = ('packets(m.packets());' if u == 'u32' else '') + (' let _ = m.group();' if u == 'u32' and fam not in ('utility', 'ump_stream') else '')
            root(f'{fam}_{u}_read', f'w: &[{u}]', f'if let Ok(m) = {fam}::{agg}::try_from(w) {{ {common} {more} let x: Result<{fam}::{agg}<[{u}; 64]>, error::BufferOverflow> = m.try_rebuffer_into(); if let Ok(x) = x {{ let _ = x.data().len(); }} }}', f'{fam}::{agg}: parsing, reading and moving to an array')
    if not std:
        for top, u in (('UmpMessage', 'u32'), ('BytesMessage', 'u8')):
            more = 'packets(m.packets());' if u == 'u32' else ''
            root(f'{top.lower()}_read', f'w: &[{u}]', f'if let Ok(m) = {top}::try_from(w) {{ {common} {more} let x: Result<{top}<[{u}; 64]>, error::BufferOverflow> = m.try_rebuffer_into(); if let Ok(x) = x {{ let _ = x.data().len(); }} }}', f'{top}: parsing, reading and moving to an array')
    for t in tx.FLEX + tx.STREAM:
        g = ' let _ = m.group(); let _ = m.optional_channel();' if t.flex else ' let _ = m.function_block();' if t.fb else ''
        s = ' m.set_group(u4::new(c)); m.set_optional_channel(Some(u4::new(c)));' if t.flex else ' m.set_function_block(c);' if t.fb else ''
        if not std:
            root(f'{t.tag}_read', 'w: &[u32]', f'if let Ok(m) = {t.path}::try_from(w) {{ {common} {g} packets(m.packets()); run(m.{t.field}_bytes()); let x: Result<{t.path}<[u32; 64]>, error::BufferOverflow> = m.try_rebuffer_into(); if let Ok(x) = x {{ let _ = x.data().len(); }} }}', f'{t.path}: parsing and reading a slice of any length')
        for kind, mk, P in (('slice', f'{t.path}::try_new_with_buffer(w)', 'w: &mut [u32]'), ('own', f'{t.path}::try_new_with_buffer(Buf(w))', 'w: [u32; 40]'), ('grow', f'{t.path}::try_new_with_buffer(Grow(w, 4))', 'w: [u32; 40]'), ('array', f'Ok::<_, error::BufferOverflow>({t.path}::<[u32; 40]>::new())', '')):
            wr = '' if kind == 'slice' else f' let _ = m.try_set_{t.field}(x);'
            root(f'{t.tag}_write_{kind}', f'x: &str, c: u8, {P}', f'if let Ok(mut m) = {mk} {{ {s} {wr} {g} packets(m.packets()); run(m.{t.field}_bytes()); let _ = m.data().len(); fmt(&m); }}', f'{t.path}: building and editing over {kind}')
    for T, u, mk, ids in (('sysex7::Sysex7', 'u32', 'u7::new', 'm.set_group(u4::new(c));'), ('sysex7::Sysex7', 'u8', 'u7::new', ''), ('sysex8::Sysex8', 'u32', '', 'm.set_group(u4::new(c)); m.set_stream_id(c);')):
        tag = f'{T[:6]}_{u}'
        rd = f'fmt(&m); let _ = m.data().len(); let _ = m.payload_size(); drain(m.payload()); let _ = m.payload().len();' + (' packets(m.packets()); let _ = m.group();' if u == 'u32' else '')
        root(f'{tag}_read', f'w: &[{u}]', f'if let Ok(m) = {T}::try_from(w) {{ {rd} let x: Result<{T}<[{u}; 64]>, error::BufferOverflow> = m.try_rebuffer_into(); if let Ok(x) = x {{ let _ = x.data().len(); }} }}', f'{T}: parsing and reading {u} of any length')
        it = f'p.iter().map(|x| {mk}(*x))'
        for kind, new, P in (('own', f'{T}::try_new_with_buffer(Buf(w))', f'w: [{u}; 64]'), ('grow', f'{T}::try_new_with_buffer(Grow(w, 4))', f'w: [{u}; 64]'), ('array', f'Ok::<_, error::BufferOverflow>({T}::<[{u}; 64]>::new())', '')):
            root(f'{tag}_write_{kind}', f'p: &[u8], a: usize, b: usize, c: u8, {P}', f'if let Ok(mut m) = {new} {{ {ids} let _ = m.try_set_payload({it}); let _ = m.try_splice_payload({it}, a..b); let _ = m.try_insert_payload({it}, a); let _ = m.try_append_payload({it}); let _ = m.try_append_byte({mk}(c)); m.set_byte({mk}(c), a); {rd} }}', f'{T}: building and editing the payload over {kind}')
        if T.startswith('sysex7'):
            o, go = ('u8', 'try_into_bytes') if u == 'u32' else ('u32', 'try_into_ump')
            root(f'{tag}_convert', f'w: &[{u}]', f'let x: Result<{T}<[{o}; 64]>, error::BufferOverflow> = {T}::try_from(w).unwrap().{go}(); if let Ok(x) = x {{ let _ = x.data().len(); }}', f'{T}: converting to {o}')
    for mod, n, mt, lo, var in c23.FAM:
        more = ''
        if mod not in ('utility', 'ump_stream'):
            more += ' let _ = p.group();'
        if mod in ('channel_voice1', 'channel_voice2'):
            more += ' let _ = p.channel();'
        if mod in ('flex_data', 'ump_stream'):
            more += ' let _ = p.format();'
        if mod in ('sysex7', 'sysex8'):
            more += ' let _ = p.status(); run(p.payload());'
        root(f'packet_{mod}', 'w: &[u32]', f'if let Ok(p) = {mod}::Packet::try_from(w) {{ fmt(&p); let _ = p.len(); let _ = p == p.clone(); {more} }}', f'{mod}::Packet: parsing and reading')
    for ver in (1, 2):
        fields = [f for f in c21.FIELDS if ver == 2 or f[0] != 'output_path_id']
        rd = 'let _ = m.data().len();' + ''.join(f' let _ = m.{f[0]}();' for f in fields)
        root(f'ci_{ver}_read', 'w: &[u8]', f'if let Ok(m) = {c21.T}::<{ver}, _>::try_from(w) {{ fmt(&m); {rd} }}', f'DiscoveryQuery of version {ver}: parsing and reading')
        root(f'ci_{ver}_write', 'v: u32, w: &mut [u8]', f'if let Ok(mut m) = {c21.T}::<{ver}, _>::try_new_with_buffer(w) {{ {" ".join(c21.sett(f)[1] for f in fields)} {rd} }}', f'DiscoveryQuery of version {ver}: building and editing')
    return h


def run(rep, tier, only=None):
    seen = {}
    rep.cov.update(call_edges=0, function_bodies=0, functions_of_subject_analysed=0)
    funcs = set()
    for std in (True, False):
        h = harness_for(std)
        rm, dirs = check.deps(h.features)
        work = os.path.join(check.BUILD, f'work-{os.getpid()}')
        try:
            listed, res, vis, err = check.analyse(h.source(), rm, dirs, work, 'c10_' + h.tag, only, extra_env=dict(BITFLOW_EFFECTS='1'))
        finally:
            if not os.environ.get('KEEP'):
                shutil.rmtree(work, ignore_errors=True)
        funcs |= vis
        if not only:
            for c, want in (('ob_control', {'allocates'}), ('ob_control_state', {'uses global state'}), ('ob_control_panic', set())):
                got = {e['kind'] for e in res.get(c, dict(effects=[dict(kind='missing')]))['effects']}
                rep.obligations += 1
                if got != want:
                    rep.violation(f'{c}|{h.tag}', f'control {c}: effects {sorted(got)}, expected {sorted(want)}')
                else:
                    rep.discharged += 1
        for n, meta in h.roots.items():
            if only and not any(o in n for o in only.split(',')):
                continue
            rep.obligations += 1
            d = res.get(n)
            if d is None:
                rep.violation(f'{n}|{h.tag}|missing', f'{n}: the analysis did not finish ({meta["desc"]})', dict(stderr=err[-2000:]))
                continue
            rep.cov['call_edges'] += d['call_edges']
            rep.cov['function_bodies'] += d['functions']
            if d['subject_functions'] == 0:
                rep.violation(f'{n}|{h.tag}|vacuous', f'{n}: no function of midi2 is reached ({meta["desc"]})', d)
            elif d['effects']:
                for e in d['effects']:
                    k = f'{e["kind"]}|{e["func"]}'
                    if k not in seen:
                        seen[k] = n
                        rep.violation(k, f'{e["func"]} {e["kind"]} ({e["what"]}), reached from {n} ({h.tag}): {" <- ".join(e["chain"][:6])}', e)
            else:
                rep.discharged += 1
                if rep.discharged % 70 == 5:
                    rep.samples.append(f'{n} ({h.tag}): {meta["desc"]}: {d["functions"]} functions, {d["call_edges"]} call edges, no effect')
    mine = sorted(v for v in funcs if 'midi2' in v)
    rep.cov['functions_of_subject_analysed'] = len(mine)
    rep.cov['function_list'] = mine[:400]
