"""Builds the obligation crate of one property (Rust source text)."""
import spec

PRELUDE = '''#![allow(dead_code, unused)]
extern crate std;
use std::vec::Vec;
use std::string::String;
use midi2::prelude::*;
use midi2::*;
pub fn bf_assume(_c: bool) {}
pub fn bf_check(_c: bool, _m: &'static str) {}
pub fn bf_eq<T>(_got: T, _want: T, _m: &'static str) {}
pub fn bf_cover(_m: &'static str) {}
/// a caller supplied buffer: fixed capacity storage borrowed from outside
pub struct Buf<U: buffer::Unit, const N: usize>(pub [U; N]);
impl<U: buffer::Unit, const N: usize> buffer::Buffer for Buf<U, N> { type Unit = U; fn buffer(&self) -> &[U] { &self.0 } }
impl<U: buffer::Unit, const N: usize> buffer::BufferMut for Buf<U, N> { fn buffer_mut(&mut self) -> &mut [U] { &mut self.0 } }
impl<U: buffer::Unit, const N: usize> buffer::BufferTryResize for Buf<U, N> {
    fn try_resize(&mut self, n: usize) -> Result<(), error::BufferOverflow> { if n > N { Err(error::BufferOverflow) } else { Ok(()) } } }
impl<U: buffer::Unit, const N: usize> buffer::FromBuffer<[U; N]> for Buf<U, N> { fn from_buffer(v: [U; N]) -> Self { Buf(v) } }
/// a caller supplied buffer which can grow up to a capacity and knows its current length
pub struct Grow<U: buffer::Unit, const N: usize>(pub [U; N], pub usize);
impl<U: buffer::Unit, const N: usize> buffer::Buffer for Grow<U, N> { type Unit = U; fn buffer(&self) -> &[U] { &self.0[..self.1] } }
impl<U: buffer::Unit, const N: usize> buffer::BufferMut for Grow<U, N> { fn buffer_mut(&mut self) -> &mut [U] { &mut self.0[..self.1] } }
impl<U: buffer::Unit, const N: usize> buffer::BufferDefault for Grow<U, N> { fn default() -> Self { Grow([U::zero(); N], 0) } }
impl<U: buffer::Unit, const N: usize> buffer::BufferTryResize for Grow<U, N> {
    fn try_resize(&mut self, n: usize) -> Result<(), error::BufferOverflow> { if n > N { Err(error::BufferOverflow) } else { self.1 = n; Ok(()) } } }
'''


class Harness:
    def __init__(self, prop):
        self.prop, self.text, self.roots = prop, [PRELUDE], {}
        self.kinds = set()

    def use_kind(self, k):
        if k in self.kinds:
            return
        self.kinds.add(k)
        d = spec.KINDS[k]
        self.text.append(
            f"fn norm_{k}(r: u64) -> u64 {{ {d['norm']} }}\nfn okc_{k}(c: u64) -> bool {{ {d['okc']} }}\n"
            f"fn okr_{k}(r: u64) -> bool {{ {d['okr']} }}\nfn enc_{k}(v: {d['ty']}) -> u64 {{ {d['enc']} }}\n"
            f"fn dec_{k}(c: u64) -> {d['ty']} {{ {d['dec']} }}\n")

    def raw(self, text):
        self.text.append(text)

    def root(self, name, params, body, desc, cover=True, panics=False):
        """One obligation: a function over arbitrary parameters.
        With `panics`, some call must panic for every input: the end must be unreachable."""
        if panics:
            cover = False
            body = body.rstrip() + '\n    bf_check(false, "the call must panic");\n'
        n = 'ob_' + name
        assert n not in self.roots, n
        covers = []
        if cover:
            body = body.rstrip() + '\n    bf_cover("end");\n'
        import re
        covers = sorted(set(re.findall(r'bf_cover\("([^"]+)"\)', body)))
        self.roots[n] = dict(desc=desc, covers=covers, panics=panics)
        self.text.append(f'/// {desc}\npub fn {n}({params}) {{\n    {body.strip()}\n}}\n')

    def source(self):
        return '\n'.join(self.text)


def seg_get(arr, segs, ty='u64'):
    """Expression: the value of a field read from `arr` (array expression of u32/u8)."""
    parts, sh = [], 0
    for w, hi, lo in reversed(segs):
        width = hi - lo + 1
        m = (1 << width) - 1
        e = f'((({arr}[{w}] as u64) >> {lo}) & {m:#x})'
        parts.append(f'({e} << {sh})' if sh else e)
        sh += width
    return ' | '.join(reversed(parts)) if parts else '0'


def seg_set(arr, segs, wsegs, val, unit='u32'):
    """Statements: overwrite the field's storage in `arr` with `val` (a u64 variable)."""
    out = []
    for w, hi, lo in wsegs:
        m = ((1 << (hi - lo + 1)) - 1) << lo
        out.append(f'{arr}[{w}] &= !{m:#x}{unit};')
    sh = 0
    for w, hi, lo in reversed(segs):
        width = hi - lo + 1
        m = (1 << width) - 1
        out.append(f'{arr}[{w}] |= ((({val} >> {sh}) & {m:#x}) as {unit}) << {lo};')
        sh += width
    return ' '.join(out)


def hdr_ok(arr, hdr):
    es = []
    for w, hi, lo, v in hdr:
        width = hi - lo + 1
        m = (1 << width) - 1
        unit = ''
        es.append(f'(({arr}[{w}] >> {lo}) & {m:#x}) == {v:#x}')
    return ' && '.join(es) or 'true'


def hdr_set(arr, hdr, unit='u32'):
    out = []
    for w, hi, lo, v in hdr:
        m = ((1 << (hi - lo + 1)) - 1) << lo
        out.append(f'{arr}[{w}] = ({arr}[{w}] & !{m:#x}{unit}) | {v << lo:#x};')
    return ' '.join(out)


def valid_words(h, m, arr='w'):
    """Condition: `arr` holds a well formed message of type m (as the tables define it)."""
    c = [hdr_ok(arr, m.hdr)]
    if m.addr_nonzero:
        c.append(f'(({arr}[0] >> 20) & 3) != 0')
    for fl in m.fields:
        d = spec.KINDS[fl.kind]
        if d['okr'] != 'true':
            h.use_kind(fl.kind)
            c.append(f'okr_{fl.kind}({seg_get(arr, fl.segs)})')
    return ' && '.join(c)


def default_words(m):
    ws = [0] * m.words
    for w, hi, lo, v in m.hdr:
        ws[w] |= v << lo
    if m.addr_nonzero:
        ws[0] |= 1 << 20
    for fl in m.fields:
        v = fl.default
        for w, hi, lo in reversed(fl.segs):
            width = hi - lo + 1
            ws[w] |= (v & ((1 << width) - 1)) << lo
            v >>= width
    return ws


def default_bytes(m):
    bs = [0] * m.nbytes
    for w, hi, lo, v in m.bhdr:
        bs[w] |= v << lo
    return bs
