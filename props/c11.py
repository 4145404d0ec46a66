import tx, zoo
from harness import *
LEVEL = 'proof'
RULE = ('For every message type and enum, and messages of the listed shapes with any contents: a copy holds the same data, equals its original, and neither follows changes of '
        'the other; for every kind of field value and every packet type: values are equal exactly when their codes are, packets exactly when their words are, and copies are '
        'equal; errors convert and compare as what they are, and their text tells the cause.')
FLOOR = 950
RUST = '''
pub struct Sink { b: [u8; 200], n: usize }
impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let t = s.as_bytes();
        let mut i = 0;
        while i < t.len() { self.b[self.n] = t[i]; self.n += 1; i += 1; }
        Ok(())
    }
}
pub fn has(s: &Sink, t: &[u8]) -> bool {
    let mut at = 0;
    while at + t.len() <= s.n {
        let mut i = 0;
        while i < t.len() && s.b[at + i] == t[i] { i += 1; }
        if i == t.len() { return true; }
        at += 1;
    }
    false
}
'''
PACKETS = [('utility', 1, 0, ''), ('system_common', 1, 1, ''), ('channel_voice1', 1, 2, ''), ('sysex7', 2, 3, ' | 0x20000'), ('channel_voice2', 2, 4, ''), ('sysex8', 4, 5, ' | 0x20000'),
           ('flex_data', 4, 0xD, ''), ('ump_stream', 4, 0xF, '')]
ENUMS = [('flex_data::Format', 'Complete Start Continue End'), ('ump_stream::Format', 'Complete Start Continue End'),
         ('flex_data::Bank', 'SetupAndPerformance MetadataText PerformanceText')]


def harness(tier):
    h = Harness('C11')
    q = tier == 'quick'
    h.raw(zoo.RUST)
    h.raw(RUST)
    texts = {t.path: t for t in tx.FLEX + tx.STREAM}
    for z in zoo.shapes(h, not q):
        if z.big or 'functionblockdiscovery' in z.tag:    # the size of that message is a known finding of C03
            continue
        u, n = z.unit, z.n
        P, pre, change = z.params(0), z.pre(0), ''
        if z.fixed:
            fl = [f for f in z.msg.fields if u == 'u32' or f.bytes]
            if fl:
                k = fl[0].kind
                h.use_kind(k)
                P = 'v: u64, ' + P
                pre = f'bf_assume(v < {1 << spec.KINDS[k]["width"]:#x} && okc_{k}(v)); ' + pre
                change = f'{{}}.set_{fl[0].name}(dec_{k}(v));'
        elif z.path in texts:
            change = f'let _ = {{}}.try_set_{texts[z.path].field}("ab");'
        elif z.fam == 'sysex7':
            change = 'let _ = {}.try_set_payload([u7::new(5)].into_iter());'
        else:
            change = 'let _ = {}.try_set_payload([5u8].into_iter());'
        inf = change.replace('let _ = ', '').replace('try_', '')
        same = lambda m: f'{{ let d = {m}.data(); bf_eq(d.len(), {n}usize, "length"); for i in 0..{n}usize {{ bf_eq(d[i], w[i], "the same data"); }} }}'
        for b, B, mk in (('slice', f'&[{u}]', ''), ('arr', f'[{u}; {n}]', '.try_rebuffer_into().unwrap()'), ('vec', f'Vec<{u}>', '.rebuffer_into()')):
            mu, ch = b != 'slice', inf if b == 'vec' else change
            body = f'{pre} let {"mut " if mu else ""}m: {z.path}<{B}> = {z.path}::try_from(&w[..]).unwrap(){mk}; let {"mut " if mu else ""}c = m.clone(); bf_check(c == m && !(c != m), "a copy is equal"); {same("c")} {same("m")}'
            if mu:
                body += f' {ch.format("c")} {same("m")} let {"mut " if change else ""}e = m.clone(); {ch.format("m")} {same("e")}'
            h.root(f'{z.tag}_{b}', P, body, f'{z.path} of {n} units over {B}: copies')
        for E, _ in z.enums():
            h.root(f'{z.tag}_{"top" if E.endswith("Message") else "fam"}', P, f'{pre} let m: {E}<Vec<{u}>> = {E}::try_from(&w[..]).unwrap().rebuffer_into(); let c = m.clone(); bf_check(c == m && !(c != m), "a copy is equal"); {same("c")} {same("m")} let s = {E}::try_from(&w[..]).unwrap(); let c = s.clone(); bf_check(c == s, "a copy is equal"); {same("c")}', f'{E} holding {z.path} of {n} units: copies')
    # messages of several packets are equal exactly when their data is
    for z in zoo.shapes(h, not q):
        if z.fixed or z.big or z.n > (12 if q else 20):
            continue
        n, u = z.n, z.unit
        for extra in (0,):    # the whole buffer is compared; see DESIGN.md
            pre = z.pre(extra)
            two = f'let mut w = [0 as {u}; {n + extra}]; let mut v = w; for i in 0..{n + extra}usize {{ w[i] = a[i][0]; v[i] = a[i][1]; }} let w = {{ {pre} w }}; let v = {{ let mut w = v; {pre} w }};'.replace('{ ' + pre, '{ let mut w = w; ' + pre, 1)
            for t, T in [('', z.path)] + [('_top', z.enums()[-1][0])]:
                h.root(f'{z.tag}_eq_{extra}{t}', f'g: u8, s: u8, a: [[{u}; 2]; {n + extra}]', f"""{two} let x = {T}::try_from(&w[..]).unwrap(); let y = {T}::try_from(&v[..]).unwrap(); bf_eq(x == y, w[..{n}] == v[..{n}], "equal exactly when the data is"); bf_eq(x != y, w[..{n}] != v[..{n}], "different exactly when the data is");
    let x: {T}<Vec<{u}>> = x.rebuffer_into(); let y: {T}<Vec<{u}>> = y.rebuffer_into(); bf_eq(x == y, w[..{n}] == v[..{n}], "copies in vectors are equal exactly when the data is");""", f'{T} holding {z.path} of {n} units followed by {extra}: equality')
    for z in zoo.huge():
        n, u, E = z.n, z.unit, z.enums()[-1][0]
        if q and 'endpointname' in z.tag:
            continue
        last = n - 1
        m = 0xFF if 'sysex' in z.tag else 0x7F
        for t, T in [('', z.path), ('_top', E)]:
            h.root(f'{z.tag}_eq{t}', f'a: u32, b: u32, g: u8, s: u8', f'let mut w = [0x01010101 as {u}; {n}]; {z.pre(0)} let mut w = w; let mut v = w; w[{last}] = (w[{last}] & {0xFFFFFFFF ^ m:#x}) | (a & {m:#x}); v[{last}] = (v[{last}] & {0xFFFFFFFF ^ m:#x}) | (b & {m:#x}); let same = a & {m:#x} == b & {m:#x}; let x = {T}::try_from(&w[..]).unwrap(); let y = {T}::try_from(&v[..]).unwrap(); bf_eq(x == y, same, "equal exactly when the data is"); let x: {T}<Vec<{u}>> = x.rebuffer_into(); let y: {T}<Vec<{u}>> = y.rebuffer_into(); bf_eq(x == y, same, "copies in vectors are equal exactly when the data is"); let c = x.clone(); bf_check(c == x, "a copy is equal"); let d = c.data(); bf_eq(d.len(), {n}usize, "length of a copy"); let mut i = 0usize; while i < {n} {{ bf_eq(d[i], w[i], "the same data"); i += 1; }}', f'{T} holding {z.path} of {n} units: equality and copies')
    for k, d in spec.KINDS.items():
        if '::' not in d['ty']:
            continue
        h.use_kind(k)
        nb = -(-d['width'] // 4)
        h.root(f'value_{k}', f'p: [[u8; 2]; {nb}]', f'let mut a = 0u64; let mut b = 0u64; for i in 0..{nb}usize {{ a = (a << 4) | (p[i][0] & 15) as u64; b = (b << 4) | (p[i][1] & 15) as u64; }} bf_assume(a < {1 << d["width"]:#x} && b < {1 << d["width"]:#x} && okc_{k}(a) && okc_{k}(b)); let (x, y) = (dec_{k}(a), dec_{k}(b)); bf_eq(x == y, a == b, "equal exactly when the codes are"); bf_eq(x != y, a != b, "different exactly when the codes are"); let z = x.clone(); bf_check(z == x, "a copy is equal"); bf_eq(enc_{k}(z), a, "the code of a copy");', f'{d["ty"]}: equality and copies')
    for mod, n, mt, extra in PACKETS:
        ty = f'{mod}::Packet'
        h.root(f'packet_{mod}', f'a: [[u32; 2]; {n}]', f'''let mut w = [0u32; {n}]; let mut v = w; for i in 0..{n}usize {{ w[i] = a[i][0]; v[i] = a[i][1]; }} w[0] = (w[0] & {0x0F0DFFFF if extra else 0x0FFFFFFF:#x}) | {mt << 28:#x}; v[0] = (v[0] & {0x0F0DFFFF if extra else 0x0FFFFFFF:#x}) | {mt << 28:#x};
    {"w[0] = (w[0] & 0xFFF0FFFF) | 0x20000; v[0] = (v[0] & 0xFFF0FFFF) | 0x20000;" if extra else ""}
    let (x, y) = ({ty}::try_from(&w[..]).unwrap(), {ty}::try_from(&v[..]).unwrap()); bf_eq(x == y, w == v, "equal exactly when the words are"); bf_eq(x != y, w != v, "different exactly when the words are"); let z = x.clone(); bf_check(z == x, "a copy is equal"); for i in 0..{n}usize {{ bf_eq(z[i], w[i], "word of a copy"); }}''', f'{ty}: equality and copies')
    for ty, vs in ENUMS:
        vs = vs.split()
        for i, a in enumerate(vs):
            for j, b in enumerate(vs):
                h.root(f'enum_{ty.replace("::", "_").lower()}_{i}_{j}', '', f'let (x, y) = ({ty}::{a}, {ty}::{b}); bf_check((x == y) == {str(i == j).lower()} && (x != y) == {str(i != j).lower()}, "equal exactly when the same"); bf_check(x.clone() == x, "a copy is equal");', f'{ty}::{a} and {ty}::{b}: equality')
    e = 'error::'
    h.root('error_from', '', f'''let d = {e}InvalidData("abc"); bf_check({e}Error::from(d.clone()) == {e}Error::InvalidData({e}InvalidData("abc")), "invalid data"); bf_check({e}Error::from({e}BufferOverflow) == {e}Error::BufferOverflow, "overflow");
    bf_check({e}Error::from(d.clone()) != {e}Error::BufferOverflow, "kinds differ"); bf_check(d == d.clone() && d != {e}InvalidData("abd") && d != {e}InvalidData("ab"), "messages are compared"); bf_check({e}Error::from(d.clone()) != {e}Error::from({e}InvalidData("abd")), "messages are compared");
    bf_check({e}Error::from(d.clone()).clone() == {e}Error::from(d), "a copy is equal"); bf_check({e}BufferOverflow == {e}BufferOverflow::default() && {e}BufferOverflow.clone() == {e}BufferOverflow, "overflows are equal");''', 'error::Error: conversions and equality')
    for nm, ex, want in (('invalid', f'{e}InvalidData("no such tonic")', 'no such tonic'), ('overflow', f'{e}BufferOverflow', 'BufferOverflow')):
        for f in ('{}', '{:?}'):
            h.root(f'error_{nm}_{"display" if f == "{}" else "debug"}', '', f'''let x = {ex}; let mut t = Sink {{ b: [0; 200], n: 0 }}; bf_check(core::fmt::Write::write_fmt(&mut t, format_args!("{f}", x)).is_ok(), "formats"); bf_check(has(&t, b"{want}"), "the text tells the cause");''', f'error::{ex}: text')
    return [h]
