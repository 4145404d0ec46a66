"""Shared pieces for the obligations about system exclusive messages."""
from harness import *

RUST = '''
/// an iterator with a size hint of our choosing
pub struct Hint<I>(I, usize, Option<usize>);
impl<I: Iterator> Iterator for Hint<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { self.0.next() } fn size_hint(&self) -> (usize, Option<usize>) { (self.1, self.2) } }
pub fn mk7(x: u8) -> u7 { u7::new(x & 0x7F) }
pub fn mk8(x: u8) -> u8 { x }
pub fn v7(x: u7) -> u8 { u8::from(x) }
pub fn v8(x: u8) -> u8 { x }
fn oct(d: &[u32], i: usize) -> u8 { (d[i / 4] >> (24 - 8 * (i % 4))) as u8 }
/// the data of a system exclusive 7 message over packets: six payload bytes per packet, zeroes after the end
/// (what follows the payload in a message of a single packet is only constrained if `z`)
fn canon_u(d: &[u32], p: &[u8], g: u8, _s: u8, z: bool) {
    let np = if p.len() == 0 { 1 } else { (p.len() + 5) / 6 };
    bf_eq(d.len(), 2 * np, "length of the data");
    for k in 0..np {
        let n = if p.len() - 6 * k > 6 { 6 } else { p.len() - 6 * k };
        let st = if np == 1 { 0 } else if k == 0 { 1 } else if k + 1 == np { 3 } else { 2 };
        bf_eq(oct(d, 8 * k), 0x30 | g, "type and group");
        bf_eq(oct(d, 8 * k + 1), (st << 4) | n as u8, "status and size");
        for i in 0..6 { if i < n || np > 1 || z { bf_eq(oct(d, 8 * k + 2 + i), if i < n { p[6 * k + i] & 0x7F } else { 0 }, "payload byte"); } }
    }
}
fn canon_8(d: &[u32], p: &[u8], g: u8, s: u8, z: bool) {
    let np = if p.len() == 0 { 1 } else { (p.len() + 12) / 13 };
    bf_eq(d.len(), 4 * np, "length of the data");
    for k in 0..np {
        let n = if p.len() - 13 * k > 13 { 13 } else { p.len() - 13 * k };
        let st = if np == 1 { 0 } else if k == 0 { 1 } else if k + 1 == np { 3 } else { 2 };
        bf_eq(oct(d, 16 * k), 0x50 | g, "type and group");
        bf_eq(oct(d, 16 * k + 1), (st << 4) | (n as u8 + 1), "status and size");
        bf_eq(oct(d, 16 * k + 2), s, "stream id");
        for i in 0..13 { if i < n || np > 1 || z { bf_eq(oct(d, 16 * k + 3 + i), if i < n { p[13 * k + i] } else { 0 }, "payload byte"); } }
    }
}
fn canon_b(d: &[u8], p: &[u8], _g: u8, _s: u8, _z: bool) {
    bf_eq(d.len(), p.len() + 2, "length of the data");
    bf_eq(d[0], 0xF0, "first byte");
    for i in 0..p.len() { bf_eq(d[1 + i], p[i] & 0x7F, "payload byte"); }
    bf_eq(d[1 + p.len()], 0xF7, "last byte");
}
'''


class Rep:
    def __init__(self, tag, path, unit, per, upp, mk, v, mt, bias):
        self.tag, self.path, self.unit, self.per, self.upp, self.mk, self.v, self.mt, self.bias = tag, path, unit, per, upp, mk, v, mt, bias

    def units(self, n):
        """Units of the message holding n payload bytes."""
        return n + 2 if self.tag == 'b' else self.upp * max(1, -(-n // self.per))

    def iter(self, p):
        return f'{p}.iter().map(|x| {self.mk}(*x))'

    def ids(self, m='m'):
        """Statements giving a new message its group (and stream id) from g and s."""
        if self.tag == 'b':
            return ''
        return f'{m}.set_group(u4::new(g & 15));' + (f' {m}.set_stream_id(s);' if self.tag == '8' else '')

    def canon(self, m, p, z=False, ids='g & 15, s'):
        return f'canon_{self.tag}({m}.data(), {p}, {ids}, {str(z).lower()});'


U = Rep('u', 'sysex7::Sysex7', 'u32', 6, 2, 'mk7', 'v7', 3, 0)
B = Rep('b', 'sysex7::Sysex7', 'u8', 1, 1, 'mk7', 'v7', 0, 0)
E = Rep('8', 'sysex8::Sysex8', 'u32', 13, 4, 'mk8', 'v8', 5, 1)
REPS = [U, B, E]


def longer(name, n, var, sym=4):
    """Statements: `name` is n bytes, known except for a few places taken from `var`."""
    at = sorted({0, n - 1, n // 2, min(n - 1, 255)})
    return f'let mut {name} = [0u8; {max(n, 1)}]; let mut i = 0usize; while i < {n} {{ {name}[i] = (i % 113) as u8; i += 1; }} ' + (' '.join(f'{name}[{a}] = {var}[{j % sym}];' for j, a in enumerate(at)) if n else '')


VAST = 65540    # payload bytes, more than fit sixteen bits


def vast(r):
    """Parameters and statements: `w` is a message of VAST payload bytes, zero except the first (x[0]), the last (x[1]) and
    number 65536 (x[2])."""
    P = 'x: [u8; 3], g: u8, s: u8'
    if r.tag == 'b':
        pre = f'let mut w = [0u8; {VAST + 2}]; w[0] = 0xF0; w[{VAST + 1}] = 0xF7; w[1] = x[0] & 0x7F; w[{VAST}] = x[1] & 0x7F; w[65537] = x[2] & 0x7F;'
        return P, pre
    np, m = r.units(VAST) // r.upp, ' & 0x7F' if r.tag == 'u' else ''
    hdr = f'{r.mt << 28:#x} | ((g as u32 & 15) << 24)' + (' | ((s as u32) << 8)' if r.tag == '8' else '')

    def put(i, v):
        o = 4 * r.upp * (i // r.per) + (2 if r.tag == 'u' else 3) + i % r.per
        return f'w[{o // 4}] |= (({v}{m}) as u32) << {24 - 8 * (o % 4)};'
    pre = f'let mut w = [0u32; {r.upp * np}]; let h = {hdr}; let mut i = 0usize; while i < {np} {{ w[{r.upp} * i] = h | {2 << 20 | (r.per + r.bias) << 16:#x}; i += 1; }} '
    pre += f'w[0] = h | {1 << 20 | (r.per + r.bias) << 16:#x}; w[{r.upp * (np - 1)}] = h | {3 << 20 | (VAST - r.per * (np - 1) + r.bias) << 16:#x}; '
    return P, pre + put(0, 'x[0]') + ' ' + put(VAST - 1, 'x[1]') + ' ' + put(65536, 'x[2]')
