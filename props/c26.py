"""Recursion in the monomorphised call graph: flow insensitive, so for inputs of any length."""
import os, shutil
import c10, c21, check, tx
from harness import *
LEVEL = 'proof'
RULE = ('For every message type, enum and packet type over borrowed, fixed and growing storage of any length: no function of the library reachable from parsing, building, reading, editing, '
        'splicing, converting, iterating, comparing or formatting (calls that do not return excepted) can be called again while it is running, directly or through others, '
        'so the depth of the stack is bounded whatever the input.')
FLOOR = 1030
CONTROL = '''
/// positive controls: a function which calls itself, two which call each other through a closure and a trait object
pub fn ob_control_self(x: &[u8]) -> usize { match x { [] => 0, [_, r @ ..] => 1 + ob_control_self(r) } }
trait Step { fn step(&self, n: usize) -> usize; }
impl Step for u8 { fn step(&self, n: usize) -> usize { if n == 0 { *self as usize } else { through(*self, n - 1) } } }
fn through(b: u8, n: usize) -> usize { let f = |d: &dyn Step| d.step(n); f(&b) }
pub fn ob_control_mutual(x: u8, n: usize) -> usize { through(x, n) }
/// negative control: the same generic function at two types
fn len<T: AsRef<[u8]>>(x: T) -> usize { x.as_ref().iter().map(|b| *b as usize).sum() }
pub fn ob_control_flat(x: &[u8], y: [u8; 3]) -> usize { len(x) + len(y) + x.iter().zip(y.iter()).filter(|(a, b)| a == b).count() }
'''
CONTROLS = dict(ob_control_self=True, ob_control_mutual=True, ob_control_flat=False)


def harness_for(std):
    h = c10.harness_for(std)
    h.raw(CONTROL)
    if not std:
        return h

    def root(name, params, body, desc):
        h.root(name, params, body, desc, cover=False)
    for m in spec.FIXED:
        for u in ('u32', 'u8') if m.nbytes else ('u32',):
            sets = ' '.join(f'm.set_{f.name}(dec_{f.kind}(c));' for f in m.fields if u == 'u32' or f.bytes)
            root(f'{m.id}_{u}_vec', f'c: u64, w: Vec<{u}>, v: &mut Vec<{u}>, s: &[{u}]', f'{{ let mut m = {m.path}::new_with_buffer(w); {sets} fmt(&m); let _ = m == m.clone(); }} {{ let m: {m.path}<Vec<{u}>> = {m.path}::try_from(s).unwrap().rebuffer_into(); let _ = m == m.clone(); }} let mut m = {m.path}::new_with_buffer(v); {sets} let _ = m.data().len();',
                 f'{m.path}: building and editing in vectors')
    for top, u in (('UmpMessage', 'u32'), ('BytesMessage', 'u8')):
        more = 'packets(m.packets());' if u == 'u32' else ''
        root(f'{top.lower()}_std', f'w: &[{u}]', f'if let Ok(m) = {top}::try_from(w) {{ fmt(&m); let _ = m.data().len(); {more} let x: {top}<Vec<{u}>> = m.clone().rebuffer_into(); let _ = x == x.clone(); let y: Result<{top}<[{u}; 64]>, error::BufferOverflow> = m.try_rebuffer_into(); if let Ok(y) = y {{ let _ = y.data().len(); }} }}', f'{top}: parsing, reading and rebuffering')
    for t in tx.FLEX + tx.STREAM:
        root(f'{t.tag}_std', 'w: &[u32], x: &str, v: Vec<u32>', f'if let Ok(m) = {t.path}::try_from(w) {{ fmt(&m); let _ = m.{t.field}(); run(m.{t.field}_bytes()); let mut m: {t.path}<Vec<u32>> = m.rebuffer_into(); m.set_{t.field}(x); let _ = m.clone() == m; }} let mut m = {t.path}::new_with_buffer(v); m.set_{t.field}(x);', f'{t.path}: parsing, reading and writing in vectors')
    for T, u, mk in (('sysex7::Sysex7', 'u32', 'u7::new'), ('sysex7::Sysex7', 'u8', 'u7::new'), ('sysex8::Sysex8', 'u32', '')):
        it = f'p.iter().map(|x| {mk}(*x))'
        conv = '' if 'sysex8' in T else f' let x: {T}<Vec<{"u8" if u == "u32" else "u32"}>> = m.into_{"bytes" if u == "u32" else "ump"}(); fmt(&x);'
        root(f'{T[:6]}_{u}_vec', f'p: &[u8], a: usize, b: usize, v: Vec<{u}>, g: &mut Vec<{u}>', f'{{ let mut m = {T}::new_with_buffer(v); m.set_payload({it}); m.splice_payload({it}, a..b); m.insert_payload({it}, a); m.append_payload({it}); m.append_byte({mk}(7)); m.set_byte({mk}(7), a); let _ = m.payload_size(); drain(m.payload()); let _ = m == m.clone(); {conv} }} let mut m = {T}::new_with_buffer(g); m.set_payload({it}); m.splice_payload({it}, ..); fmt(&m);', f'{T} over {u}: building, editing and reading in vectors')
    for ver in (1, 2):
        sets = ' '.join(c21.sett(f)[1] for f in c21.FIELDS if ver == 2 or f[0] != 'output_path_id')
        root(f'ci_{ver}_vec', 'v: u32, w: Vec<u8>', f'let mut m = {c21.T}::<{ver}, _>::new_with_buffer(w); {sets} fmt(&m); let _ = m.data().len();', f'DiscoveryQuery of version {ver}: building and editing in vectors')
    return h


def run(rep, tier, only=None):
    seen = set()
    rep.cov.update(call_edges=0, function_bodies=0, functions_of_subject_analysed=0, longest_call_chain=0)
    funcs = set()
    for std in (True, False):
        h = harness_for(std)
        rm, dirs = check.deps(h.features)
        work = os.path.join(check.BUILD, f'work-{os.getpid()}')
        try:
            listed, res, vis, err = check.analyse(h.source(), rm, dirs, work, 'c26_' + h.tag, only, extra_env=dict(BITFLOW_EFFECTS='1'))
        finally:
            if not os.environ.get('KEEP'):
                shutil.rmtree(work, ignore_errors=True)
        funcs |= vis
        for c, want in CONTROLS.items():
            if only:
                continue
            got = c in res and bool(res[c]['cycles'])
            rep.obligations += 1
            if c not in res or got != want:
                rep.violation(f'{c}|{h.tag}', f'control {c}: recursion {got}, expected {want}')
            else:
                rep.discharged += 1
        for n, meta in h.roots.items():
            if only and not any(o in n for o in only.split(',')):
                continue
            rep.obligations += 1
            d = res.get(n)
            if d is None:
                rep.violation(f'{n}|{h.tag}|missing', f'{n}: the analysis did not finish ({meta["desc"]})', dict(stderr=err[-2000:]))
                continue
            rep.cov['call_edges'] += d['call_edges']
            rep.cov['function_bodies'] += d['functions']
            rep.cov['longest_call_chain'] = max(rep.cov['longest_call_chain'], d['depth'])
            unseen = [e for e in d['effects'] if e['kind'] in ('calls code which cannot be seen', 'makes an owned trait object') or e['kind'] == 'calls foreign code' and not std]
            if d['subject_functions'] == 0:
                rep.violation(f'{n}|{h.tag}|vacuous', f'{n}: no function of midi2 is reached ({meta["desc"]})', d)
            elif d['cycles'] or unseen:
                for e in d['cycles']:
                    if e['func'] not in seen:
                        seen.add(e['func'])
                        rep.violation(f'recursion|{e["func"]}', f'{e["func"]} can be called again while it is running: {"; ".join(e["cycle"][:4])}; reached from {n} ({h.tag}): {" <- ".join(e["chain"][:6])}', e)
                for e in unseen:
                    if e['what'] not in seen:
                        seen.add(e['what'])
                        rep.violation(f'{e["kind"]}|{e["what"]}', f'{e["func"]} {e["kind"]} ({e["what"]}), reached from {n} ({h.tag})', e)
            else:
                rep.discharged += 1
                if rep.discharged % 90 == 5:
                    rep.samples.append(f'{n} ({h.tag}): {meta["desc"]}: {d["functions"]} functions, {d["call_edges"]} call edges, no recursion, at most {d["depth"]} nested calls')
    mine = sorted(v for v in funcs if 'midi2' in v)
    rep.cov['functions_of_subject_analysed'] = len(mine)
    rep.cov['function_list'] = mine[:400]
