import zoo
from harness import *
LEVEL = 'proof'
RULE = ('For every message type (slices, vectors and arrays), every enum over it, every packet type and the packets of every message, with any contents of the '
        'listed shapes: the Debug text is the type (or variant) name with every unit of the message in order, in full-width hexadecimal, and nothing else.')
FLOOR = 1080
RUST = '''
pub struct Sink<const N: usize> { b: [u8; N], n: usize }
impl<const N: usize> core::fmt::Write for Sink<N> {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let t = s.as_bytes();
        let mut i = 0;
        while i < t.len() { self.b[self.n] = t[i]; self.n += 1; i += 1; }
        Ok(())
    }
}
pub fn sink() -> Sink<480> { Sink { b: [0; 480], n: 0 } }
pub fn long() -> Sink<15000> { Sink { b: [0; 15000], n: 0 } }
pub fn digit(d: u32, sh: u32) -> u8 { let x = ((d >> sh) & 15) as u8; if x < 10 { b'0' + x } else { b'A' - 10 + x } }
pub trait Hex: Copy { const D: u32; fn word(self) -> u32; }
impl Hex for u32 { const D: u32 = 8; fn word(self) -> u32 { self } }
impl Hex for u8 { const D: u32 = 2; fn word(self) -> u32 { self as u32 } }
/// the text is `pre` followed by `[` units `]` and `post`; with `whole` false there may be further units after these
pub fn shows<U: Hex, const N: usize>(s: &Sink<N>, pre: &str, w: &[U], post: &str, whole: bool) {
    let mut at = 0usize;
    let p = pre.as_bytes();
    let mut i = 0;
    while i < p.len() { bf_eq(s.b[at], p[i], "the name"); at += 1; i += 1; }
    bf_eq(s.b[at], b'[', "opening bracket"); at += 1;
    i = 0;
    while i < w.len() {
        if i > 0 { bf_check(s.b[at] == b',' && s.b[at + 1] == b' ', "separator"); at += 2; }
        bf_check(s.b[at] == b'0' && s.b[at + 1] == b'x', "prefix"); at += 2;
        let mut k = 0;
        while k < U::D { bf_eq(s.b[at], digit(w[i].word(), 4 * (U::D - 1 - k)), "digit of a unit"); at += 1; k += 1; }
        i += 1;
    }
    if whole {
        bf_eq(s.b[at], b']', "closing bracket"); at += 1;
        let q = post.as_bytes();
        i = 0;
        while i < q.len() { bf_eq(s.b[at], q[i], "the end"); at += 1; i += 1; }
        bf_eq(s.n, at, "length of the text");
    }
}
'''


def harness(tier):
    h = Harness('C24')
    q = tier == 'quick'
    h.raw(zoo.RUST)
    h.raw(RUST)
    wr = 'let mut t = sink(); bf_check(core::fmt::Write::write_fmt(&mut t, format_args!("{:?}", x)).is_ok(), "formats");'
    for z in zoo.shapes(h, not q):
        if z.big or 'functionblockdiscovery' in z.tag:    # the size of that message is a known finding of C03
            continue
        u, n = z.unit, z.n
        for extra in (0, 2):
            pre = f'{z.pre(extra)} let c = w; let x = {z.path}::try_from(&w[..]).unwrap();'
            d = f'{z.path} of {n} units followed by {extra}'
            fin = lambda a, b, e=extra: f'{wr} shows(&t, "{a}(", &c[..{n}], "{b}", {"false" if e else "true"});'
            h.root(f'{z.tag}_{extra}', z.params(extra), f'{pre} {fin(z.var, ")")}', d)
            if extra:
                continue
            h.root(f'{z.tag}_vec', z.params(), f'{pre} let x: {z.path}<Vec<{u}>> = x.rebuffer_into(); {fin(z.var, ")")}', f'{d} in a vector')
            h.root(f'{z.tag}_arr', z.params(), f'{pre} let x: {z.path}<[{u}; {n}]> = x.array_rebuffer_into(); {fin(z.var, ")")}', f'{d} in an array')
            es = z.enums()
            for i, (e, _) in enumerate(es):
                fam = e.split('::')[-1]
                if i == 0 and len(es) == 2:
                    a, b = f'{z.var}({z.var}(', '))'
                elif len(es) == 2:
                    a, b = f'{es[0][0].split("::")[-1]}({z.var}({z.var}(', ')))'
                else:
                    a, b = f'{z.var}({z.var}(', '))'
                pre = f'{z.pre()} let c = w; let x = {e}::try_from(&w[..]).unwrap();'
                h.root(f'{z.tag}_e{i}', z.params(), f'{pre} {wr} shows(&t, "{a}", &c[..{n}], "{b}", true);', f'{e} holding {d}')
        if u == 'u32':
            k = z.packet
            np = n // k
            sysx = z.fam
            T = z.path if z.fam.startswith('sysex') else f'{z.fam}::{spec.AGG[z.fam][0]}'
            e = T.split('::')[-1]
            if z.fixed and np == 1 and z.var != {'channel_voice1': 'NoteOn', 'channel_voice2': 'NoteOn', 'system_common': 'SongSelect', 'utility': 'NoOp'}.get(z.fam, z.var) and q:
                continue
            for i in range(np):
                pre = f'{z.pre()} let c = w; let m = {z.path}::try_from(&w[..]).unwrap(); let x = m.packets().nth({i}).unwrap();'
                full = {'utility': 1, 'channel_voice1': 1, 'system_common': 1, 'channel_voice2': 2, 'sysex7': 2}.get(z.fam, 4)
                h.root(f'{z.tag}_p{i}', z.params(), f'{pre} {wr} shows(&t, "{e}(Packet(", &c[{k * i}..{k * i + k}], "))", {"true" if k == full else "false"});', f'packet {i} of {z.path}')
    import c21
    h.raw(c21.RUST)
    for ver, size in ((1, 31), (2, 32)):
        d = f'{c21.T} of version {ver}'
        pre = f'header(&mut w, {ver}, {size}); for i in 1..{size - 1}usize {{ w[i] &= 0x7F; }} let c = w; let x = {c21.T}::<{ver}, _>::try_from(&w[..]).unwrap();'
        h.root(f'ci_{ver}', f'mut w: [u8; {size}]', f'{pre} {wr} shows(&t, "DiscoveryQuery(", &c[..], ")", true);', d)
        h.root(f'ci_{ver}_vec', f'mut w: [u8; {size}]', f'{pre} let x: {c21.T}<{ver}, Vec<u8>> = x.rebuffer_into(); {wr} shows(&t, "DiscoveryQuery(", &c[..], ")", true);', f'{d} in a vector')
    # messages of more units than fit an octet
    big = wr.replace('sink()', 'long()')
    for z in zoo.huge():
        if q and 'functionblockname' not in z.tag and 'sysex7' not in z.tag:
            continue
        h.root(f'long_{z.tag}', z.params(), f'{z.pre()} let c = w; let x = {z.path}::try_from(&w[..]).unwrap(); {big} shows(&t, "{z.var}(", &c[..{z.n}], ")", true);', f'{z.path} of {z.n} units')
    h.root('long_sysex7_bytes', 'a: u8, b: u8, c: u8', f'let mut w = [0x11u8; 300]; w[0] = 0xF0; w[1] = a & 0x7F; w[257] = b & 0x7F; w[298] = c & 0x7F; w[299] = 0xF7; let x = sysex7::Sysex7::try_from(&w[..]).unwrap(); {big} shows(&t, "Sysex7(", &w, ")", true);', 'sysex7::Sysex7 of 300 bytes')
    return [h]
