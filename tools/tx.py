"""Shared pieces for the obligations about text messages of flex data and stream type."""
from harness import *

RUST = '''
fn oct(d: &[u32], i: usize) -> u8 { (d[i / 4] >> (24 - 8 * (i % 4))) as u8 }
fn st(x: &[u8]) -> &str { unsafe { core::str::from_utf8_unchecked(x) } }
/// what a message of text `s` is: `ch` is the channel, or 16 for none
fn canon_flex(d: &[u32], s: &[u8], code: u32, g: u8, ch: u8) {
    let np = if s.len() == 0 { 1 } else { (s.len() + 11) / 12 };
    bf_eq(d.len(), 4 * np, "length of the data");
    for k in 0..np {
        let form: u32 = if np == 1 { 0 } else if k == 0 { 1 } else if k + 1 == np { 3 } else { 2 };
        let addr = if ch < 16 { ch as u32 } else { 0x10 };
        bf_eq(d[4 * k], 0xD000_0000 | ((g as u32) << 24) | (form << 22) | (addr << 16) | code, "header of a packet");
        for i in 0..12 { bf_eq(oct(d, 16 * k + 4 + i), if 12 * k + i < s.len() { s[12 * k + i] } else { 0 }, "text byte"); }
    }
}
/// `code` is the status, `fb` the function block where the message has one
fn canon_stream(d: &[u32], s: &[u8], code: u32, fb: Option<u8>) {
    let per = if fb.is_some() { 13 } else { 14 };
    let np = if s.len() == 0 { 1 } else { (s.len() + per - 1) / per };
    bf_eq(d.len(), 4 * np, "length of the data");
    for k in 0..np {
        let form: u32 = if np == 1 { 0 } else if k == 0 { 1 } else if k + 1 == np { 3 } else { 2 };
        bf_eq(d[4 * k] >> 16, 0xF000 | (form << 10) | code, "header of a packet");
        if let Some(fb) = fb { bf_eq(oct(d, 16 * k + 2), fb, "function block of a packet"); }
        for i in 0..per { bf_eq(oct(d, 16 * k + 16 - per + i), if per * k + i < s.len() { s[per * k + i] } else { 0 }, "text byte"); }
    }
}
/// make `d` the packets of a message of np packets with any text
fn frame_flex(d: &mut [u32], np: usize, code: u32, g: u8) {
    for k in 0..np {
        let form: u32 = if np == 1 { 0 } else if k == 0 { 1 } else if k + 1 == np { 3 } else { 2 };
        d[4 * k] = (d[4 * k] & 0x003F_0000) | 0xD000_0000 | ((g as u32) << 24) | (form << 22) | code;
    }
}
fn frame_stream(d: &mut [u32], np: usize, code: u32, fb: Option<u8>) {
    for k in 0..np {
        let form: u32 = if np == 1 { 0 } else if k == 0 { 1 } else if k + 1 == np { 3 } else { 2 };
        d[4 * k] = (d[4 * k] & 0xFFFF) | 0xF000_0000 | (form << 26) | (code << 16);
        if let Some(fb) = fb { d[4 * k] = (d[4 * k] & 0xFF) | (d[4 * k] & 0xFFFF_0000) | ((fb as u32) << 8); }
    }
}
'''


class Text:
    def __init__(self, mod, name, field, code, per, fb):
        self.mod, self.name, self.field, self.code, self.per, self.fb = mod, name, field, code, per, fb
        self.path = f'{mod}::{name}'
        self.flex = mod == 'flex_data'
        self.tag = name.lower()

    def units(self, n):
        return 4 * max(1, -(-n // self.per))

    def ids(self, m='m', channel=True):
        if self.flex:
            return f'{m}.set_group(u4::new(g & 15)); ' + (f'{m}.set_optional_channel(if c < 16 {{ Some(u4::new(c)) }} else {{ None }});' if channel else '')
        return f'{m}.set_function_block(g);' if self.fb else ''

    def par(self):
        return 'g: u8, c: u8'

    def canon(self, d, s, ch='if c < 16 { c } else { 16 }'):
        if self.flex:
            return f'canon_flex({d}, {s}, {self.code:#x}, g & 15, {ch});'
        return f'canon_stream({d}, {s}, {self.code:#x}, {"Some(g)" if self.fb else "None"});'

    def frame(self, d, np):
        if self.flex:
            return f'frame_flex(&mut {d}, {np}, {self.code:#x}, g & 15);'
        return f'frame_stream(&mut {d}, {np}, {self.code:#x}, {"Some(g)" if self.fb else "None"});'


FLEX = [Text('flex_data', n, f, b << 8 | s, 12, False) for n, f, b, s in spec.FLEX_TEXT]
STREAM = [Text('ump_stream', n, f, s, 13 if s == 0x12 else 14, s == 0x12) for n, f, s in spec.STREAM_TEXT]


def obligations(h, t, q, deep):
    per = t.per
    F = t.field
    lens = [0, 1, per - 1, per, per + 1, 2 * per] if deep else [0, per, per + 1]
    if not q:
        lens = sorted(set(lens) | {2, per // 2, per + 2, 2 * per - 1, 2 * per + 1, 3 * per, 3 * per + 1} | (set(range(0, 3 * per + 2)) if deep else set()))
    # a new message, whatever its storage held
    ids = t.ids()
    for size in (4, 5, 8, 9, 12) if q else range(4, 18):
        for kind, mk in (('buf', f'{t.path}::try_new_with_buffer(Buf(w)).unwrap()'), ('slice', f'{t.path}::try_new_with_buffer(&mut w[..]).unwrap()'), ('vec', f'{t.path}::new_with_buffer(w.to_vec())'), ('array', f'{t.path}::<[u32; {size}]>::new()')):
            h.root(f'{t.tag}_new_{kind}_{size}', f'{t.par()}, mut w: [u32; {size}]', f'let mut m = {mk}; bf_eq(m.data().len(), 4usize, "length of a new message"); {{ let (g, c) = (0u8, 16u8); {t.canon("m.data()", "&[]")} }} {ids} {t.canon("m.data()", "&[]")} bf_eq(m.{F}_bytes().count(), 0usize, "no text");', f'{t.path}: a new message over {kind} of {size} used words')
        for kind, mk in (('tryarray', f'{t.path}::<[u32; {size}]>::try_new().unwrap()'), ('trygrow', f'{t.path}::<Grow<u32, {size}>>::try_new().unwrap()'), ('own', f'{t.path}::<Vec<u32>>::new()')):
            h.root(f'{t.tag}_new_{kind}_{size}', t.par(), f'let mut m = {mk}; {{ let (g, c) = (0u8, 16u8); {t.canon("m.data()", "&[]")} }} {ids} {t.canon("m.data()", "&[]")} bf_eq(m.{F}_bytes().count(), 0usize, "no text");', f'{t.path}: a new message, {kind} of {size} words')
        h.root(f'{t.tag}_new_vecref_{size}', f'{t.par()}, w: [u32; {size}]', f'let mut v = w.to_vec(); {{ let mut m = {t.path}::new_with_buffer(&mut v); {{ let (g, c) = (0u8, 16u8); {t.canon("m.data()", "&[]")} }} {ids} }} let m = {t.path}::try_from(&v[..]).unwrap(); {t.canon("m.data()", "&[]")}', f'{t.path}: a new message in a borrowed vector of {size} used words')
    for size in range(4):
        h.root(f'{t.tag}_newsmall_{size}', f'mut w: [u32; {size}]', f'bf_check({t.path}::<[u32; {size}]>::try_new().is_err(), "no room"); bf_check({t.path}::<Grow<u32, {size}>>::try_new().is_err(), "no room"); bf_check({t.path}::try_new_with_buffer(Buf(w)).is_err(), "no room"); bf_check({t.path}::try_new_with_buffer(&mut w[..]).is_err(), "no room");', f'{t.path}: no new message in {size} words')
    # writing
    for n in lens:
        for o in (sorted({0, 1, per, per + 1, 2 * per + 1}) if deep else (0, per + 1)):
            P = f'g: u8, c: u8, p: [u8; {max(o, 1)}], q: [u8; {max(n, 1)}]'
            h.root(f'{t.tag}_set_{o}_{n}_vec', P, f'let mut m = {t.path}::<Vec<u32>>::new(); {t.ids()} m.set_{F}(st(&p[..{o}])); {t.canon("m.data()", f"&p[..{o}]")} m.set_{F}(st(&q[..{n}])); {t.canon("m.data()", f"&q[..{n}]")}',
                   f'{t.path} over Vec: text of {n} bytes after text of {o} bytes')
            cap = max(t.units(n), t.units(o))
            for extra in ((0, 3, 4) if deep else (0,)) if q else (0, 1, 3, 4, 5, 8):
                h.root(f'{t.tag}_set_{o}_{n}_buf{extra}', P + f', w: [u32; {cap + extra}]', f'let mut m = {t.path}::try_new_with_buffer(Buf(w)).unwrap(); {t.ids()} bf_check(m.try_set_{F}(st(&p[..{o}])).is_ok(), "it fits"); {t.canon("m.data()", f"&p[..{o}]")} bf_check(m.try_set_{F}(st(&q[..{n}])).is_ok(), "it fits"); {t.canon("m.data()", f"&q[..{n}]")}',
                       f'{t.path} over a used buffer of {cap + extra} words: text of {n} bytes after text of {o} bytes')
            h.root(f'{t.tag}_set_{o}_{n}_grow', P + f', w: [u32; {cap}]', f'let mut m = {t.path}::try_new_with_buffer(Grow(w, 4)).unwrap(); {t.ids()} bf_check(m.try_set_{F}(st(&p[..{o}])).is_ok(), "it fits"); bf_check(m.try_set_{F}(st(&q[..{n}])).is_ok(), "it fits"); {t.canon("m.data()", f"&q[..{n}]")}',
                   f'{t.path} over a growing buffer of {cap} words: text of {n} bytes after text of {o} bytes')
            if t.units(n) > t.units(o):
                small = t.units(n) - 1
                h.root(f'{t.tag}_over_{o}_{n}', P + f', w: [u32; {small}]', f'let mut m = {t.path}::try_new_with_buffer(Buf(w)).unwrap(); {t.ids()} m.try_set_{F}(st(&p[..{o}])).unwrap(); bf_check(m.try_set_{F}(st(&q[..{n}])).is_err(), "it cannot fit"); {t.canon("m.data()", f"&p[..{o}]")}',
                       f'{t.path} over a used buffer of {small} words: text of {n} bytes is refused and the message is unchanged')
        # the other properties of a message with text, set afterwards
        if t.flex or t.fb:
            h.root(f'{t.tag}_ids_{n}', f'g: u8, c: u8, q: [u8; {max(n, 1)}]', f'let mut m = {t.path}::<Vec<u32>>::new(); m.set_{F}(st(&q[..{n}])); {t.ids()} {t.canon("m.data()", f"&q[..{n}]")} ' +
                   ('bf_eq(u8::from(m.group()), g & 15, "group"); bf_check(m.optional_channel() == if c < 16 { Some(u4::new(c)) } else { None }, "channel");' if t.flex else 'bf_eq(m.function_block(), g, "function block");'),
                   f'{t.path}: properties of every packet set after text of {n} bytes')
        # reading back
        P = f'g: u8, c: u8, q: [u8; {max(n, 1)}]'
        asc = f'let mut q = q; for i in 0..{n}usize {{ q[i] &= 0x7F; bf_assume(q[i] != 0); }}'
        h.root(f'{t.tag}_get_{n}', P, f'''{asc} let mut m = {t.path}::<Vec<u32>>::new(); {t.ids()} m.set_{F}(st(&q[..{n}]));
    let x = m.{F}(); bf_eq(x.len(), {n}usize, "length of the text"); for i in 0..{n}usize {{ bf_eq(x.as_bytes()[i], q[i], "text byte"); }}
    let y = {t.path}::try_from(m.data()).unwrap(); let x = y.{F}(); bf_eq(x.len(), {n}usize, "length of the text parsed"); for i in 0..{n}usize {{ bf_eq(x.as_bytes()[i], q[i], "text byte parsed"); }}''', f'{t.path}: text of {n} ASCII bytes is read back')
        extra = '' if not deep else 'e'
        for e in ((0, 4) if q else (0, 1, 4, 5)) if deep else (4,):
            u = t.units(n)
            mt = 0xD if t.flex else 0xF
            h.root(f'{t.tag}_bytes_{n}_{e}', f'g: u8, c: u8, q: [u8; {max(n, 1)}], x: [u32; {max(e, 1)}]', f'''{asc} let mut m = {t.path}::<Vec<u32>>::new(); {t.ids()} m.set_{F}(st(&q[..{n}]));
    let mut w = [0u32; {u + e}]; for i in 0..{u}usize {{ w[i] = m.data()[i]; }} for i in 0..{e}usize {{ w[{u} + i] = x[i]; }} {f'bf_assume(x[0] >> 28 != {mt});' if e else ''}
    let m = {t.path}::try_from(&w[..]).unwrap(); bf_eq(m.data().len(), {u}usize, "length");
    let mut it = m.{F}_bytes();
    for i in 0..{n}usize {{ let h = it.size_hint(); bf_check(h.0 <= {n} - i, "lower bound"); bf_check(h.1.map_or(true, |u| u >= {n} - i), "upper bound"); bf_check(it.next() == Some(q[i]), "text byte"); }}
    let h = it.size_hint(); bf_check(h.0 == 0, "lower bound at the end");
    bf_check(it.next().is_none(), "end of the text"); bf_check(it.next().is_none(), "stays at the end"); bf_eq(it.size_hint().0, 0usize, "lower bound after the end");
    bf_eq(m.{F}().len(), {n}usize, "length of the text");''', f'{t.path} followed by {e} words: bytes of a text of {n}')
        if n <= 3 * per:
            h.root(f'{t.tag}_fold_{n}', P, f'''{asc} let mut m = {t.path}::<Vec<u32>>::new(); {t.ids()} m.set_{F}(st(&q[..{n}]));
    let mut k = 0usize; m.{F}_bytes().for_each(|b| {{ bf_check(k < {n}, "ends with the text"); bf_eq(b, q[k], "byte of for_each"); k += 1; }}); bf_eq(k, {n}usize, "bytes of for_each");
    bf_eq(m.{F}_bytes().count(), {n}usize, "count"); bf_check(m.{F}_bytes().last() == if {n} > 0 {{ Some(q[{max(n - 1, 0)}]) }} else {{ None }}, "last");
    let mut k = 0usize; while k <= {n} {{ let mut it = m.{F}_bytes(); if k < {n} {{ bf_check(it.nth(k) == Some(q[k]), "nth"); }} else {{ bf_check(it.nth(k).is_none(), "nth beyond the end"); }} if k + 1 < {n} {{ bf_check(it.next() == Some(q[k + 1]), "byte after nth"); }} else {{ bf_check(it.next().is_none(), "the end after nth"); }} k += {max(1, n // 5)}; }}
    let mut k = 0usize; for b in m.{F}_bytes().step_by(3) {{ bf_check(k < {n}, "ends with the text"); bf_eq(b, q[k], "byte of step_by"); k += 3; }} bf_check(k >= {n} && k < {n} + 3, "bytes of step_by");''', f'{t.path}: for_each, last, count, nth and step_by of the bytes of a text of {n}')
    # text outside ASCII: characters of every encoded length, also across packets
    for pad in ((per - 3, per - 1) if q else range(0, per)) if deep else (per - 2,):
        n = pad + 10
        h.root(f'{t.tag}_utf8_{pad}', f'g: u8, c: u8, x: [u8; 10]', f'''let mut q = [b'a'; {n}];
    let y = [0xC2 | (x[0] & 1), 0x80 | (x[1] & 0x3F), 0xE1 + (x[2] & 1), 0x80 | (x[3] & 0x3F), 0x80 | (x[4] & 0x3F), 0xF1 + (x[5] & 1), 0x80 | (x[6] & 0x3F), 0x80 | (x[7] & 0x3F), 0x80 | (x[8] & 0x3F), x[9] & 0x7F]; bf_assume(y[9] != 0);
    for i in 0..10usize {{ q[{pad} + i] = y[i]; }}
    let mut m = {t.path}::<Vec<u32>>::new(); {t.ids()} m.set_{F}(st(&q)); let z = m.{F}(); bf_eq(z.len(), {n}usize, "length of the text"); for i in 0..{n}usize {{ bf_eq(z.as_bytes()[i], q[i], "text byte"); }}
    let z = {t.path}::try_from(m.data()).unwrap(); bf_eq(z.{F}().len(), {n}usize, "length of the text parsed");''', f'{t.path}: text of any characters of one to four bytes after {pad} letters')
    # bytes of any message, with zeroes anywhere
    if deep:
        for np in (1,):
            e = 4
            mt = 0xD if t.flex else 0xF
            clear = '' if t.flex else ('w[4 * k] &= 0xFFFFFF7F;' if t.fb else 'w[4 * k] &= 0xFFFF7F7F;')
            h.root(f'{t.tag}_any_{np}', f'g: u8, mut w: [u32; {4 * np + e}]', f'''{t.frame('w', np)} for k in 0..{np}usize {{ for j in 1..4usize {{ w[4 * k + j] &= 0x7F7F7F7F; }} {clear} }} bf_assume(w[{4 * np}] >> 28 != {mt});
    let m = {t.path}::try_from(&w[..]).unwrap(); let mut it = m.{F}_bytes(); let mut flat = [0u8; {per * np + 1}]; let mut n = 0usize;
    for k in 0..{np}usize {{ for i in 0..{per}usize {{ let b = oct(&w, 16 * k + {16 - per} + i); if b != 0 {{ flat[n] = b; n += 1; }} }} }}
    for i in 0..{per * np}usize {{ match it.next() {{ Some(b) => {{ bf_check(i < n, "ends with the text"); bf_eq(b, flat[i], "text byte"); }} None => bf_check(i >= n, "covers the text") }} }}
    bf_check(it.next().is_none(), "end of the text");''', f'{t.path}: bytes of any text of {np} packets')


def parsing(h, t, q, deep):
    """A slice parses exactly when it starts with one complete message and its text is valid; ASCII texts here."""
    mt = 0xD if t.flex else 0xF
    for L in range(0, 10 if q else 14):
        if t.flex:
            form, hdr, same = '(w[4 * k] >> 22) & 3', f'w[4 * k] & 0xFFFF == {t.code:#x}', '(w[4 * k] >> 24) & 15 == (w[0] >> 24) & 15'
        else:
            form, hdr, same = '(w[4 * k] >> 26) & 3', f'(w[4 * k] >> 16) & 0x3FF == {t.code:#x}', '(w[4 * k] >> 8) & 0xFF == (w[0] >> 8) & 0xFF' if t.fb else 'true'
        clear = '' if t.flex else ('w[4 * k] &= 0xFFFFFF00;' if t.fb else 'w[4 * k] &= 0xFFFF7F7F;')
        np = L // 4
        h.root(f'{t.tag}_parse_{L}', f'mut w: [u32; {L}]', f'''for k in 0..{np}usize {{ w[4 * k + 1] &= 0x7F7F7F7F; w[4 * k + 2] = 0x61006162; w[4 * k + 3] &= 0x7F; {clear} {'if k > 0 { w[4 * k + 1] &= 0x7F000000; }' if L >= 12 else ''} }}
    let mut run = 0usize; let mut ok = true; let mut open = true;
    for k in 0..{np}usize {{ if open && w[4 * k] >> 28 == {mt} {{ run += 1; }} else {{ open = false; }} }}
    if run == 0 {{ ok = false; }}
    for k in 0..{np}usize {{ if k < run {{ let want: u32 = if run == 1 {{ 0 }} else if k == 0 {{ 1 }} else if k + 1 == run {{ 3 }} else {{ 2 }}; if {form} != want || !({hdr}) || !({same}) {{ ok = false; }} }} }}
    match {t.path}::try_from(&w[..]) {{
        Ok(m) => {{ bf_check(ok, "accepted exactly when well formed"); if ok {{ let d = m.data(); bf_eq(d.len(), 4 * run, "length"); for i in 0..{4 * np}usize {{ if i < 4 * run {{ bf_eq(d[i], w[i], "data"); }} }} }} }}
        Err(_) => bf_check(!ok, "accepted exactly when well formed"),
    }}''', f'{t.path}: any {L} words with ASCII text', cover=True)
    if deep:
        for word in (1, 3):
            h.root(f'{t.tag}_utf8_parse_{word}', f'g: u8, mut w: [u32; 4]', f'''{t.frame('w', 1)} {'' if t.flex else 'w[0] &= 0xFFFFFF00;' if t.fb else 'w[0] &= 0xFFFF0000;'} for j in 1..4usize {{ if j != {word} {{ w[j] = 0; }} }}
    let mut b = [0u8; 4]; let mut n = 0usize; for i in 0..4usize {{ let x = oct(&w, {4 * word} + i); if x != 0 {{ b[n] = x; n += 1; }} }}
    bf_eq({t.path}::try_from(&w[..]).is_ok(), core::str::from_utf8(&b[..n]).is_ok(), "accepted exactly when the text is UTF-8");''', f'{t.path}: any four text bytes in word {word}')


def longer(h, t, q, deep):
    """Texts of hundreds of bytes: letters, with any ASCII characters at some places."""
    per = t.per
    lens = sorted({3 * per + 1, 21 * per, 260} | (set() if q and not deep else {255, 256, 300, 1030} | (set() if q else {4 * per, 5 * per, 6 * per + 1, 43 * per, 2000})))
    for n in lens:
        k = 5
        at = sorted({0, n - 1, n // 2, n // 3, min(n - 2, 255)})
        mk = f'let mut q = [0u8; {n}]; let mut i = 0usize; while i < {n} {{ q[i] = b\'a\' + (i % 23) as u8; i += 1; }} ' + ' '.join(f'q[{a}] = x[{j % k}] & 0x7F; bf_assume(q[{a}] != 0);' for j, a in enumerate(at))
        P = f'g: u8, c: u8, x: [u8; {k}]'
        for o in (0, per + 1) if n < 300 else (7 * per,):
            before = f'm.set_{t.field}(st(&[b\'z\'; {o}]));'
            h.root(f'{t.tag}_long_{o}_{n}', P, f'''{mk} let mut m = {t.path}::<Vec<u32>>::new(); {t.ids()} {before} m.set_{t.field}(st(&q)); {t.canon("m.data()", "&q")}
    let z = m.{t.field}(); bf_eq(z.len(), {n}usize, "length of the text"); let mut i = 0usize; while i < {n} {{ bf_eq(z.as_bytes()[i], q[i], "text byte"); i += 1; }}
    let y = {t.path}::try_from(m.data()).unwrap(); bf_eq(y.data().len(), {t.units(n)}usize, "length of the data"); let mut it = y.{t.field}_bytes(); i = 0; while i < {n} {{ bf_check(it.next() == Some(q[i]), "text byte parsed"); i += 1; }} bf_check(it.next().is_none(), "end of the text");
    {before} {t.canon("m.data()", f"&[b'z'; {o}]")}''', f'{t.path} over Vec: text of {n} bytes after and before one of {o} bytes')
        h.root(f'{t.tag}_long_buf_{n}', P + f', v: u32', f'''{mk} let mut m = {t.path}::try_new_with_buffer(Buf([v; {t.units(n) + 1}])).unwrap(); {t.ids()} bf_check(m.try_set_{t.field}(st(&q)).is_ok(), "it fits"); {t.canon("m.data()", "&q")}''', f'{t.path} over a used buffer: text of {n} bytes')
        h.root(f'{t.tag}_long_over_{n}', P + f', v: u32', f'''{mk} let mut m = {t.path}::try_new_with_buffer(Buf([v; {t.units(n) - 1}])).unwrap(); {t.ids()} bf_check(m.try_set_{t.field}(st(&q)).is_err(), "it cannot fit"); {t.canon("m.data()", "&[]")}''', f'{t.path} over a used buffer: text of {n} bytes is refused')
    if t.name in ('ComposerName', 'EndpointName', 'FunctionBlockName'):    # more packets than fit an octet
        n = 257 * per + 2
        h.root(f'{t.tag}_huge', 'g: u8, c: u8, x: u8', f'''let mut q = [b'k'; {n}]; let mut i = 0usize; while i < {n} {{ q[i] = b'a' + (i % 23) as u8; i += 1; }} q[{n - 3}] = x & 0x7F; bf_assume(q[{n - 3}] != 0);
    let mut m = {t.path}::<Vec<u32>>::new(); {t.ids()} m.set_{t.field}(st(&q)); {t.canon("m.data()", "&q")} let mut it = m.{t.field}_bytes(); i = 0; while i < {n} {{ bf_check(it.next() == Some(q[i]), "text byte"); i += 1; }} bf_check(it.next().is_none(), "end of the text");
    m.set_{t.field}(st(&q[..2])); {t.canon("m.data()", "&q[..2]")}''', f'{t.path} over Vec: text of {n} bytes')
