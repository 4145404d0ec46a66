"""Misuse which the types rule out: every witness that breaks a rule must be refused by the type checker, and its twin, which keeps the rule, accepted."""
import concurrent.futures, os, re, shutil
import check, feat, spec
from check import BUILD
LEVEL = 'proof'
RULE = ('For every rule and every message type it speaks about there is a pair of clients that differ only in the point of the rule. The type checker of the '
        'compiler decides both over the current sources: the client that breaks the rule must be refused, its twin accepted. Rules about array sizes are decided '
        'by evaluating the constants of the instantiated functions, also at compile time; nothing is run.')
ASSUME = ['safe client code, with every feature of the crate enabled']
FLOOR = 6500
MT = spec.AGG
BYTE_FAMS = ('channel_voice1', 'system_common', 'sysex7')


class Cases:
    def __init__(s):
        s.by = {}

    def add(s, phase, name, desc, bad, good):
        s.by.setdefault(phase, []).append((name, desc, bad.replace('\n', ' ') if bad else None, good.replace('\n', ' ') if good else None))

    def source(s, phase, which):
        head = '#![allow(unused, dead_code)]\nextern crate std;\nuse midi2::{prelude::*, *, buffer::*};\n'
        lines = head.count('\n')
        out, where = [head], {}
        for c in s.by[phase]:
            t = c[2] if which == 'bad' else c[3]
            if t:
                lines += 1
                where[lines] = c
                out.append(f'pub mod m{lines} {{ use super::*; use std::vec::Vec; {t} }}\n')
        return ''.join(out), where


def types():
    """(path, words, bytes or None, a setter call on `m`, group?, channel?)"""
    out = []
    for m in spec.actual_sizes(spec.FIXED):
        names = [f.name for f in m.fields]
        out.append((m.path, m.words, m.nbytes, 'group' in names, 'channel' in names))
    for n, *_ in spec.FLEX_TEXT:
        out.append((f'flex_data::{n}', 4, None, True, False))
    for n, *_ in spec.STREAM_TEXT:
        out.append((f'ump_stream::{n}', 4, None, False, False))
    out += [('sysex7::Sysex7', 2, 2, True, False), ('sysex8::Sysex8', 4, None, True, False)]
    return out


def cases():
    c = Cases()
    ident = lambda p: p.replace('::', '_').lower()
    # borrowed slices are read only, for each field; values have the width of the field
    for m in spec.actual_sizes(spec.FIXED):
        for fl in m.fields:
            ty = spec.KINDS[fl.kind]['ty']
            f = lambda b, t=ty, v='v': f'pub fn f(m: &mut {m.path}<{b}>, v: {t}) {{ m.set_{fl.name}({v}) }}'
            n = f'{m.id}_{fl.name}'
            for b in [f'[u32; {m.words}]', 'Vec<u32>', '&mut [u32]'] + ([f'[u8; {m.nbytes}]', 'Vec<u8>', '&mut [u8]'] if fl.bytes else []):
                ro = '&[u8]' if 'u8' in b else '&[u32]'
                c.add('types', f'{n}_ro_{re.sub("[^a-z0-9]", "", b.lower())}', f'set_{fl.name} of {m.path} over {ro} (twin: {b})', f(ro), f(b))
            w = re.fullmatch(r'u(\d+)', ty)
            if w and int(w.group(1)) not in (8, 16, 32):
                wide = 'u8' if int(w.group(1)) < 8 else 'u16' if int(w.group(1)) < 16 else 'u32'
                c.add('types', f'{n}_wide', f'set_{fl.name} of {m.path} with a {wide} for a {ty}', f(f'[u32; {m.words}]', wide), f(f'[u32; {m.words}]'))
    for n, fld, *_ in spec.FLEX_TEXT + spec.STREAM_TEXT:
        flex = (n, fld) in [(x[0], x[1]) for x in spec.FLEX_TEXT]
        p = ('flex_data::' if flex else 'ump_stream::') + n
        inf = lambda b: f'pub fn f(m: &mut {p}<{b}>, v: &str) {{ m.set_{fld}(v) }}'
        fal = lambda b: f'pub fn f(m: &mut {p}<{b}>, v: &str) -> Result<(), error::BufferOverflow> {{ m.try_set_{fld}(v) }}'
        for b in ('&[u32]', '[u32; 16]', '&mut [u32]'):
            c.add('types', f'{ident(p)}_set_{re.sub("[^a-z0-9]", "", b)}', f'infallible set_{fld} of {p} over {b} (twin: a vector)', inf(b), inf('Vec<u32>'))
        c.add('types', f'{ident(p)}_tryset', f'try_set_{fld} of {p} over a borrowed slice (twin: an array)', fal('&[u32]'), fal('[u32; 16]'))
        c.add('types', f'{ident(p)}_tryset_mut', f'try_set_{fld} of {p} over a borrowed slice (twin: a mutable slice)', fal('&[u32]'), fal('&mut [u32]'))
        props = [('set_group', 'u4'), ('set_optional_channel', 'Option<u4>')] if flex else [('set_function_block', 'u8')] if n == 'FunctionBlockName' else []
        for s, t in props:
            g = lambda b: f'pub fn f(m: &mut {p}<{b}>, v: {t}) {{ m.{s}(v) }}'
            c.add('types', f'{ident(p)}_{s}', f'{s} of {p} over a borrowed slice', g('&[u32]'), g('[u32; 4]'))
    for p, byte in (('sysex7::Sysex7', 'u7'), ('sysex8::Sysex8', 'u8')):
        for u in ('u32', 'u8') if byte == 'u7' else ('u32',):
            calls = [('set_payload', f'd: std::vec::IntoIter<{byte}>', 'd'), ('splice_payload', f'd: std::vec::IntoIter<{byte}>', 'd, 0..1'),
                     ('insert_payload', f'd: std::vec::IntoIter<{byte}>', 'd, 0'), ('append_payload', f'd: std::vec::IntoIter<{byte}>', 'd'), ('append_byte', f'd: {byte}', 'd')]
            for s, par, arg in calls:
                inf = lambda b: f'pub fn f(m: &mut {p}<{b}>, {par}) {{ m.{s}({arg}) }}'
                fal = lambda b: f'pub fn f(m: &mut {p}<{b}>, {par}) {{ m.try_{s}({arg}); }}'
                for b in (f'&[{u}]', f'[{u}; 16]', f'&mut [{u}]'):
                    c.add('types', f'{ident(p)}_{s}_{re.sub("[^a-z0-9]", "", b)}', f'infallible {s} of {p} over {b} (twin: a vector)', inf(b), inf(f'Vec<{u}>'))
                    if b != f'&[{u}]':
                        c.add('types', f'{ident(p)}_try_{s}_{re.sub("[^a-z0-9]", "", b)}', f'try_{s} of {p} over a borrowed slice (twin: {b})', fal(f'&[{u}]'), fal(b))
            sb = lambda b: f'pub fn f(m: &mut {p}<{b}>, v: {byte}) {{ m.set_byte(v, 0) }}'
            c.add('types', f'{ident(p)}_set_byte_{u}', f'set_byte of {p} over a borrowed slice', sb(f'&[{u}]'), sb(f'[{u}; 16]'))
        g = lambda b: f'pub fn f(m: &mut {p}<{b}>, v: u4) {{ m.set_group(v) }}'
        c.add('types', f'{ident(p)}_set_group', f'set_group of {p} over a borrowed slice', g('&[u32]'), g('[u32; 4]'))
        wide = lambda t: f'pub fn f(m: &mut {p}<Vec<u32>>, v: std::vec::IntoIter<{t}>) {{ m.set_payload(v) }}'
        c.add('types', f'{ident(p)}_bytes', f'payload of {p} of another byte type', wide('u8' if byte == 'u7' else 'u7'), wide(byte))
    enums = [('UmpMessage', 'u32')] + [(f'{k}::{v[0]}', 'u32') for k, v in MT.items() if not k.startswith('sysex')]
    for e, u in enums:
        if e not in ('UmpMessage', 'utility::Utility', 'ump_stream::UmpStream'):
            g = lambda b: f'pub fn f(m: &mut {e}<{b}>, v: u4) {{ m.set_group(v) }}'
            c.add('types', f'{ident(e)}_set_group', f'set_group of {e} over a borrowed slice', g('&[u32]'), g('[u32; 4]'))
        if 'channel_voice' in e:
            g = lambda b: f'pub fn f(m: &mut {e}<{b}>, v: u4) {{ m.set_channel(v) }}'
            c.add('types', f'{ident(e)}_set_channel', f'set_channel of {e} over a borrowed slice', g('&[u32]'), g('[u32; 4]'))
    # which representations there are
    for p, w, nb, grp, ch in types():
        i = ident(p)
        if nb is None:
            s = lambda u: f'pub fn f(m: &{p}<[{u}; 16]>) {{}}'
            c.add('sig', f'{i}_bytes', f'{p} over bytes', s('u8'), s('u32'))
            c.add('types', f'{i}_tobytes', f'{p} to bytes (twin: to a vector of words)', f'pub fn f(m: {p}<&[u32]>) {{ let x = midi2::IntoBytes::<{p}<Vec<u32>>>::into_bytes(m); }}', f'pub fn f(m: {p}<&[u32]>) {{ let x = midi2::RebufferInto::<{p}<Vec<u32>>>::rebuffer_into(m); }}')
        else:
            pk = lambda u: f'pub fn f(m: &{p}<[{u}; 16]>) {{ m.packets(); }}'
            c.add('types', f'{i}_packets', f'packets() of {p} over bytes', pk('u8'), pk('u32'))
            if grp:
                gr = lambda u: f'pub fn f(m: &{p}<[{u}; 16]>) {{ m.group(); }}'
                c.add('types', f'{i}_group', f'group() of {p} over bytes', gr('u8'), gr('u32'))
            up = lambda e, u: f'pub fn f(m: {p}<[{u}; 16]>) -> {e}<[{u}; 16]> {{ m.into() }}'
            sg = lambda e, u: f'pub fn f(m: &{e}<[{u}; 16]>) {{}}'
            c.add('types', f'{i}_toump', f'{p} over bytes into UmpMessage', f'pub fn f(m: {p}<[u8; 16]>) {{ let x = UmpMessage::from(m); }}', f'pub fn f(m: {p}<[u32; 16]>) {{ let x = UmpMessage::from(m); }}')
            c.add('types', f'{i}_tobytesmsg', f'{p} over words into BytesMessage', f'pub fn f(m: {p}<[u32; 16]>) {{ let x = BytesMessage::from(m); }}', f'pub fn f(m: {p}<[u8; 16]>) {{ let x = BytesMessage::from(m); }}')
            c.add('types', f'{i}_cross', f'{p} rebuffered from bytes to words', f'pub fn f(m: {p}<&[u8]>) -> {p}<Vec<u32>> {{ m.rebuffer_into() }}', f'pub fn f(m: {p}<&[u32]>) -> {p}<Vec<u32>> {{ m.rebuffer_into() }}')
            c.add('types', f'{i}_crossb', f'{p} rebuffered from words to bytes', f'pub fn f(m: {p}<&[u32]>) -> {p}<Vec<u8>> {{ m.rebuffer_into() }}', f'pub fn f(m: {p}<&[u8]>) -> {p}<Vec<u8>> {{ m.rebuffer_into() }}')
            conv = ('try_', 'Result<', ', error::BufferOverflow>') if 'sysex' in p else ('', '', '')
            c.add('types', f'{i}_umpump', f'{p}: into_ump of a message over words', f'pub fn f(m: {p}<&[u32]>) -> {conv[1]}{p}<[u32; 16]>{conv[2]} {{ m.{conv[0]}into_ump() }}', f'pub fn f(m: {p}<&[u8]>) -> {conv[1]}{p}<[u32; 16]>{conv[2]} {{ m.{conv[0]}into_ump() }}')
            c.add('types', f'{i}_bytebyte', f'{p}: into_bytes of a message over bytes', f'pub fn f(m: {p}<&[u8]>) -> {conv[1]}{p}<[u8; 16]>{conv[2]} {{ m.{conv[0]}into_bytes() }}', f'pub fn f(m: {p}<&[u32]>) -> {conv[1]}{p}<[u8; 16]>{conv[2]} {{ m.{conv[0]}into_bytes() }}')
        # no message without validation
        for u, n in [('u32', w)] + ([('u8', nb)] if nb else []):
            t = f'{i}_{u}'
            r = f'pub fn f(b: &[{u}]) -> Option<{p}<&[{u}]>> {{ {p}::try_from(b).ok() }}'
            c.add('resolve', f'{t}_ctor', f'{p} made from a buffer without validation', f'pub fn f(b: &[{u}]) -> Option<{p}<&[{u}]>> {{ Some({p}(b)) }}', r)
            c.add('types', f'{t}_field', f'the buffer of {p} taken as a field', f'pub fn f(m: &mut {p}<[{u}; 16]>) -> &[{u}] {{ &mut m.0[..] }}', f'pub fn f(m: &mut {p}<[{u}; 16]>) -> &[{u}] {{ m.data() }}')
            for call in ('buffer_access_mut()', 'buffer_access()'):
                c.add('types', f'{t}_{call[:-2]}', f'{call} of {p} from outside the crate', f'pub fn f(m: &mut {p}<[{u}; 16]>) {{ m.{call}; }}', f'pub fn f(m: &mut {p}<[{u}; 16]>) {{ m.data(); }}')
            for tr in (f'core::convert::From<[{u}; 16]>', f'core::ops::DerefMut', f'core::convert::AsMut<[{u}]>', f'core::convert::AsMut<[{u}; 16]>', f'core::ops::IndexMut<usize>', f'core::borrow::BorrowMut<[{u}]>', f'core::borrow::BorrowMut<[{u}; 16]>'):
                c.add('types', f'{t}_{re.sub("[^a-z0-9]", "", tr.lower())}', f'{tr} for {p}', f'pub fn g<T: {tr}>() {{}} pub fn f() {{ g::<{p}<[{u}; 16]>>() }}', None)
            c.add('borrow', f'{t}_data', f'the data of {p} overwritten', f'pub fn f(m: &mut {p}<[{u}; 16]>) {{ m.data()[0] = 0; }}', f'pub fn f(m: &mut {p}<[{u}; 16]>) {{ let x = m.data()[0]; }}')
            # sizes
            c.add('new', f'{t}_new', f'{p}::<[{u}; {n - 1}]>::new()', f'pub fn f() {{ {p}::<[{u}; {n - 1}]>::new(); }}', f'pub fn f() {{ {p}::<[{u}; {n}]>::new(); }}')
            re_ = lambda k: f'pub fn f(m: {p}<&[{u}]>) -> {p}<[{u}; {k}]> {{ m.array_rebuffer_into() }}'
            c.add('array', f'{t}_array', f'{p} into [{u}; {n - 1}]', re_(n - 1), re_(n))
            if nb and 'sysex' not in p:
                o = 'u8' if u == 'u32' else 'u32'
                cv = lambda k: f'pub fn f(m: {p}<&[{o}]>) -> {p}<[{u}; {k}]> {{ m.into_{"ump" if u == "u32" else "bytes"}() }}'
                c.add('convert', f'{t}_convert', f'{p} over {o} into [{u}; {n - 1}]', cv(n - 1), cv(n))
            # infallible constructors need a buffer that can grow
            nw = lambda b: f'pub fn f(b: {b}) -> {p}<{b}> {{ {p}::new_with_buffer(b) }}'
            for b in (f'[{u}; 16]', f'&\'static mut [{u}]', f'&\'static [{u}]'):
                c.add('types', f'{t}_newbuf_{re.sub("[^a-z0-9]", "", b)}', f'{p}::new_with_buffer over {b} (twin: a vector)', nw(b), nw(f'Vec<{u}>'))
            tn = lambda b: f'pub fn f(b: {b}) -> Result<{p}<{b}>, error::BufferOverflow> {{ {p}::try_new_with_buffer(b) }}'
            c.add('types', f'{t}_trynewbuf', f'{p}::try_new_with_buffer over a borrowed slice', tn(f"&'static [{u}]"), tn(f"&'static mut [{u}]"))
            # a message lives no longer than its buffer and is not changed behind its back
            c.add('borrow', f'{t}_outlive', f'{p} outlives its buffer', f'pub fn f() -> Option<{p}<&\'static [{u}]>> {{ let b = [0{u}; 16]; {p}::try_from(&b[..]).ok() }}', f'pub fn f(b: &\'static [{u}; 16]) -> Option<{p}<&\'static [{u}]>> {{ {p}::try_from(&b[..]).ok() }}')
            c.add('borrow', f'{t}_alias', f'the buffer of {p} changed under it', f'pub fn f() {{ let mut b = [0{u}; 16]; let m = {p}::try_from(&b[..]); b[0] = 1; m.is_ok(); drop(m); }}', f'pub fn f() {{ let mut b = [0{u}; 16]; let m = {p}::try_from(&b[..]); m.is_ok(); drop(m); b[0] = 1; }}')
            c.add('borrow', f'{t}_alias_mut', f'the mutable buffer of {p} changed under it', f'pub fn f() {{ let mut b = [0{u}; 16]; let m = {p}::try_new_with_buffer(&mut b[..]).ok().unwrap(); b[0] = 1; m.data(); }}', f'pub fn f() {{ let mut b = [0{u}; 16]; let m = {p}::try_new_with_buffer(&mut b[..]).ok().unwrap(); m.data(); b[0] = 1; }}')
            set_ = 'set_group(u4::new(1))' if grp and u == 'u32' else 'set_channel(u4::new(1))' if ch else None
            if set_:
                c.add('borrow', f'{t}_view', f'{p} changed while its data is viewed', f'pub fn f(m: &mut {p}<[{u}; 16]>) {{ let d = m.data(); m.{set_}; let x = d[0]; }}', f'pub fn f(m: &mut {p}<[{u}; 16]>) {{ m.{set_}; let d = m.data(); let x = d[0]; }}')
                if u == 'u32':
                    c.add('borrow', f'{t}_packets', f'{p} changed while its packets are read', f'pub fn f(m: &mut {p}<[{u}; 16]>) {{ let mut d = m.packets(); m.{set_}; d.next(); }}', f'pub fn f(m: &mut {p}<[{u}; 16]>) {{ m.{set_}; let mut d = m.packets(); d.next(); }}')
            # auto traits
            has = lambda tr, b: f'pub fn g<T: {tr}>() {{}} pub fn f() {{ g::<{p}<{b}>>() }}'
            c.add('types', f'{t}_copy', f'Copy for {p} over a vector (twin: an array)', has('Copy', f'Vec<{u}>'), has('Copy', f'[{u}; 16]'))
            c.add('types', f'{t}_copy_mut', f'Copy for {p} over a mutable slice (twin: a slice)', has('Copy', f"&'static mut [{u}]"), has('Copy', f"&'static [{u}]"))
            c.add('types', f'{t}_clone_mut', f'Clone for {p} over a mutable slice (twin: a vector)', has('Clone', f"&'static mut [{u}]"), has('Clone', f'Vec<{u}>'))
            for b in (f"&'static [{u}]", f"&'static mut [{u}]", f'[{u}; 16]', f'Vec<{u}>'):
                c.add('types', f'{t}_auto_{re.sub("[^a-z0-9]", "", b.lower())}', f'Send, Sync, Unpin, Eq and Debug for {p} over {b}', None, has('Send + Sync + Unpin + Eq + core::fmt::Debug', b))
    # readers of long messages
    c.add('borrow', 'sysex7_payload', 'a payload reader of Sysex7 kept while the payload changes', 'pub fn f(m: &mut sysex7::Sysex7<Vec<u32>>) { let mut d = m.payload(); m.append_byte(u7::new(1)); d.next(); }', 'pub fn f(m: &mut sysex7::Sysex7<Vec<u32>>) { m.append_byte(u7::new(1)); let mut d = m.payload(); d.next(); }')
    c.add('borrow', 'sysex7b_payload', 'a payload reader of Sysex7 over bytes kept while the payload changes', 'pub fn f(m: &mut sysex7::Sysex7<Vec<u8>>) { let mut d = m.payload(); m.append_byte(u7::new(1)); d.next(); }', 'pub fn f(m: &mut sysex7::Sysex7<Vec<u8>>) { m.append_byte(u7::new(1)); let mut d = m.payload(); d.next(); }')
    c.add('borrow', 'sysex8_payload', 'a payload reader of Sysex8 kept while the payload changes', 'pub fn f(m: &mut sysex8::Sysex8<Vec<u32>>) { let mut d = m.payload(); m.append_byte(1); d.next(); }', 'pub fn f(m: &mut sysex8::Sysex8<Vec<u32>>) { m.append_byte(1); let mut d = m.payload(); d.next(); }')
    for n, fld, *_ in spec.FLEX_TEXT + spec.STREAM_TEXT:
        p = ('flex_data::' if n in [x[0] for x in spec.FLEX_TEXT] else 'ump_stream::') + n
        c.add('borrow', f'{ident(p)}_reader', f'a text reader of {p} kept while the text changes', f'pub fn f(m: &mut {p}<Vec<u32>>) {{ let mut d = m.{fld}_bytes(); m.set_{fld}("x"); d.next(); }}', f'pub fn f(m: &mut {p}<Vec<u32>>) {{ m.set_{fld}("x"); let mut d = m.{fld}_bytes(); d.next(); }}')
    # enums and sealed traits
    for e, u in enums + [('BytesMessage', 'u8')]:
        one = {'UmpMessage': 'ChannelVoice1', 'BytesMessage': 'ChannelVoice1'}.get(e)
        c.add('borrow', f'{ident(e)}_outlive', f'{e} outlives its buffer', f'pub fn f() -> Option<{e}<&\'static [{u}]>> {{ let b = [0{u}; 16]; {e}::try_from(&b[..]).ok() }}', f'pub fn f(b: &\'static [{u}; 16]) -> Option<{e}<&\'static [{u}]>> {{ {e}::try_from(&b[..]).ok() }}')
        has = lambda tr, b: f'pub fn g<T: {tr}>() {{}} pub fn f() {{ g::<{e}<{b}>>() }}'
        c.add('types', f'{ident(e)}_copy', f'Copy for {e} over a vector (twin: an array)', has('Copy', f'Vec<{u}>'), has('Copy', f'[{u}; 16]'))
        for b in (f"&'static [{u}]", f'[{u}; 16]', f'Vec<{u}>'):
            c.add('types', f'{ident(e)}_auto_{re.sub("[^a-z0-9]", "", b.lower())}', f'Send, Sync, Unpin, Eq, Clone and Debug for {e} over {b}', None, has('Send + Sync + Unpin + Eq + Clone + core::fmt::Debug', b))
        if e in ('UmpMessage', 'BytesMessage', 'channel_voice2::ChannelVoice2', 'flex_data::FlexData', 'ump_stream::UmpStream', 'utility::Utility'):
            o = 'u32' if u == 'u8' else 'u8'
            s = lambda u: f'pub fn f(m: &{e}<[{u}; 16]>) {{}}'
            c.add('sig', f'{ident(e)}_unit', f'{e} over {o}', s(o), s(u))
    c.add('types', 'unit_u16', 'a Unit of another type', 'impl Unit for u16 { fn zero() -> u16 { 0 } }', None)
    c.add('types', 'unit_i32', 'a Unit of another type', 'pub struct X; impl Buffer for X { type Unit = i32; fn buffer(&self) -> &[i32] { &[] } }', 'pub struct X; impl Buffer for X { type Unit = u32; fn buffer(&self) -> &[u32] { &[] } }')
    c.add('types', 'resize_array', 'an array as a growable buffer (twin: a vector)', 'pub fn g<T: BufferResize>() {} pub fn f() { g::<[u32; 4]>() }', 'pub fn g<T: BufferResize>() {} pub fn f() { g::<Vec<u32>>() }')
    c.add('types', 'resize_slice', 'a slice as a growable buffer (twin: a reference to a vector)', "pub fn g<T: BufferResize>() {} pub fn f() { g::<&'static mut [u32]>() }", "pub fn g<T: BufferResize>() {} pub fn f() { g::<&'static mut Vec<u32>>() }")
    c.add('types', 'mut_slice', 'a borrowed slice as a mutable buffer', "pub fn g<T: BufferMut>() {} pub fn f() { g::<&'static [u32]>() }", "pub fn g<T: BufferMut>() {} pub fn f() { g::<&'static mut [u32]>() }")
    c.add('types', 'tryresize_slice', 'a borrowed slice as a resizable buffer', "pub fn g<T: BufferTryResize>() {} pub fn f() { g::<&'static [u32]>() }", "pub fn g<T: BufferTryResize>() {} pub fn f() { g::<&'static mut [u32]>() }")
    c.add('types', 'from_slice_mut', 'a mutable buffer from a borrowed slice (twin: the reverse)', "pub fn f(x: &'static [u32]) -> &'static mut [u32] { FromBuffer::from_buffer(x) }", "pub fn f(x: &'static mut [u32]) -> &'static [u32] { FromBuffer::from_buffer(x) }")
    c.add('types', 'from_vec_array', 'an array from a vector without failure', 'pub fn f(x: Vec<u32>) -> [u32; 4] { FromBuffer::from_buffer(x) }', 'pub fn f(x: Vec<u32>) -> Option<[u32; 4]> { TryFromBuffer::try_from_buffer(x).ok() }')
    for p in ('sysex7::Sysex7', 'sysex8::Sysex8'):
        for call in ('compact()', 'resize(1)', 'try_resize(1)', 'move_payload_tail(0, 1)'):
            c.add('types', f'{ident(p)}_{call.split("(")[0]}', f'{call} of {p} from outside the crate', f'pub fn f(m: &mut {p}<Vec<u32>>) {{ m.{call}; }}', f'pub fn f(m: &mut {p}<Vec<u32>>) {{ m.payload_size(); }}')
    for mods in ('detail', 'traits', 'message', 'packet', 'packets'):
        c.add('resolve', f'private_{mods}', f'module {mods} from outside the crate', f'pub use midi2::{mods}::*;', 'pub use midi2::buffer::Unit;')
    for it, tr in (('PacketsIterator', 'ExactSizeIterator + core::iter::FusedIterator + Clone + Send + Sync'),):
        c.add('types', 'packets_traits', f'{tr} for {it}', None, f"pub fn g<T: {tr}>(x: T) {{}} pub fn f(m: &sysex7::Sysex7<[u32; 16]>) {{ g(m.packets()) }}")
    for p, u in (('sysex7::Sysex7', 'u32'), ('sysex7::Sysex7', 'u8'), ('sysex8::Sysex8', 'u32')):
        c.add('types', f'{ident(p)}_{u}_payload_traits', f'the payload of {p} over {u} is an iterator of known length', None, f"pub fn g<T: ExactSizeIterator + Clone + Send + Sync>(x: T) {{}} pub fn f(m: &{p}<[{u}; 16]>) {{ g(m.payload()) }}")
    return c


def run(rep, tier, only=None):
    work = os.path.join(BUILD, f'work-{os.getpid()}-types')
    c = cases()
    try:
        b = feat.Builder(work)
        rm, errs = b.midi2(['std'] + feat.OPTIONAL, mir=True)
        if rm is None:
            raise check.Broken(f'the crate does not type-check: {errs[:1]}')
        jobs = [(ph, w) for ph in c.by for w in ('bad', 'good')]
        MONO = ('new', 'array', 'convert')

        def single(x):
            ok, errs = b.witness('#![allow(unused)]\nextern crate std;\nuse std::vec::Vec;\nuse midi2::{prelude::*, *, buffer::*};\n' + x[2] + '\n', rm, 'one_' + x[0], obj=True)
            return x, ok, errs

        def one(j):
            src, where = c.source(*j)
            if j[0] in MONO and j[1] == 'bad':
                return (False, {}, []), {}
            return b.lines(src, rm, f'{j[0]}_{j[1]}', obj=j[0] in MONO), where
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            res = dict(zip(jobs, pool.map(one, jobs)))
            singles = list(pool.map(single, [x for ph in MONO for x in c.by[ph]]))
        n = 0
        for x, ok, errs in singles:
            rep.obligations += 1
            n += 1
            if ok:
                rep.violation(f'{x[0]}|refused', f'{x[0]}: a client which breaks the rule is accepted: {x[1]}', dict(source=x[2]))
            else:
                rep.discharged += 1
        for ph in c.by:
            (okb, hit, strayb), whereb = res[ph, 'bad']
            (okg, hitg, strayg), whereg = res[ph, 'good']
            for line, case in whereg.items():
                rep.obligations += 1
                if line in hitg:
                    rep.violation(f'{case[0]}|accepted', f'{case[0]}: a client which keeps the rule is refused: {hitg[line][0]} ({case[1]})', dict(source=case[3], errors=hitg[line][:3]))
                else:
                    rep.discharged += 1
            if strayg:
                rep.violation(f'{ph}|stray', f'the clients of phase {ph} are refused: {strayg[0]}', dict(errors=strayg[:5]))
            for line, case in whereb.items():
                rep.obligations += 1
                n += 1
                if line not in hit:
                    rep.violation(f'{case[0]}|refused', f'{case[0]}: a client which breaks the rule is accepted: {case[1]}', dict(source=case[2]))
                else:
                    rep.discharged += 1
                    if n % 150 == 1:
                        rep.samples.append(f'{case[0]}: {case[1]}: refused: {hit[line][0]}')
        rep.cov['clients_refused'] = n
        rep.cov['clients_type_checked'] = rep.obligations
    finally:
        if not os.environ.get('KEEP'):
            shutil.rmtree(work, ignore_errors=True)
