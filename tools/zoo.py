"""Every well-formed message of every type as one list of shapes, for the obligations that speak about all of them."""
from harness import *
import sx, tx

RUST = sx.RUST.split('/// the data of a system')[0] + tx.RUST.split('fn oct', 1)[1].split('\n', 1)[1]


class Shape:
    """`pre` makes the first n units of the array w (of n + extra units) any message of the type `path` of that shape."""

    def __init__(s, tag, path, fam, var, unit, n, packet, pre, after, minsize, fixed, group, channel, msg=None):
        s.tag, s.path, s.fam, s.var, s.unit, s.n, s.packet, s.minsize, s.fixed, s.group, s.channel, s.msg = tag, path, fam, var, unit, n, packet, minsize, fixed, group, channel, msg
        s._pre, s._after = pre, after

    big = False

    def params(s, extra=0):
        return f'g: u8, s: u8, mut w: [{s.unit}; {s.n + extra}]'

    def pre(s, extra=0):
        return s._pre + (' ' + s._after.format(i=s.n) if extra and s._after else '')

    def enums(s):
        """(enum path, pattern of the variant) of the family enum and of the top level enum."""
        out = []
        fam = s.fam
        if not fam.startswith('sysex'):
            agg = spec.AGG[fam][0]
            p = f'{fam}::{agg}::{s.var}(_)'
            out.append((f'{fam}::{agg}', p))
            out.append(('UmpMessage' if s.unit == 'u32' else 'BytesMessage', f'{"UmpMessage" if s.unit == "u32" else "BytesMessage"}::{agg}({p})'))
        else:
            top = 'UmpMessage' if s.unit == 'u32' else 'BytesMessage'
            out.append((top, f'{top}::{s.var}(_)'))
        return out


def shapes(h, deep=False):
    """h receives the decoders the conditions need."""
    out = []
    for m in spec.actual_sizes(spec.FIXED):
        w4 = 1 if m.name == 'FunctionBlockDiscovery' else m.words
        pre = hdr_set('w', m.hdr) + (' bf_assume((w[0] >> 20) & 3 != 0);' if m.addr_nonzero else '')
        cond = [f'okr_{f.kind}({seg_get("w", f.segs)})' for f in m.fields if spec.KINDS[f.kind]['okr'] != 'true']
        for f in m.fields:
            if spec.KINDS[f.kind]['okr'] != 'true':
                h.use_kind(f.kind)
        if cond:
            pre += f' bf_assume({" && ".join(cond)});'
        names = [f.name for f in m.fields]
        out.append(Shape(m.id, m.path, m.family, m.name, 'u32', w4, w4, pre, '', w4, True, 'group' in names, 'channel' in names, m))
        if m.nbytes:
            pre = ' '.join(f'w[{k}] = (w[{k}] & {0xFF & ~(((1 << (hi - lo + 1)) - 1) << lo):#x}) | {v << lo:#x};' for k, hi, lo, v in m.bhdr)
            out.append(Shape(m.id + '_b', m.path, m.family, m.name, 'u8', m.nbytes, None, pre, '', m.nbytes, True, False, 'channel' in names, m))
    for t in tx.FLEX + tx.STREAM:
        for np in ((1, 2, 3) if not deep else (1, 2, 3, 4, 5)) + ((5 if not deep else 6, 22) if t.name in ('ComposerName', 'EndpointName', 'FunctionBlockName') else ()):
            asc = f'for k in 0..{np}usize {{ for i in 1..4usize {{ w[4 * k + i] = (w[4 * k + i] & 0x7F7F7F7F) | 0x40404040; }} ' + ('' if t.flex else f'w[4 * k] = (w[4 * k] & 0x{"FFFFFF7F" if t.fb else "FFFF7F7F"}) | 0x{"40" if t.fb else "4040"}; ') + '} '
            out.append(Shape(f'{t.tag}_{np}', t.path, t.mod, t.name, 'u32', 4 * np, 4, asc + t.frame('w', np), 'bf_assume(w[{i}] >> 28 != %d);' % (0xD if t.flex else 0xF), 4, False, t.flex, False))
            out[-1].big = np > 5
    import c22
    for r, zs in ((sx.U, [(0,), (6,), (3,), (6, 1), (2, 4), (0, 0), (6, 6, 5), (1, 0, 2)]), (sx.E, [(0,), (13,), (5,), (13, 1), (4, 7), (13, 0, 2)])):
        F = 6 if r is sx.U else 13
        zs = zs + [(F,) * 4 + (2,), (F,) * 43, (1,) + (0,) * 17 + (F,)]
        for z in zs if not deep else zs + ([(a, c) for a in range(7) for c in range(7)] if r is sx.U else [(a, c) for a in (0, 1, 6, 12, 13) for c in (0, 1, 7, 13)]) + [(1, 2, 3, 4), (0, 6, 0, 6, 1)]:
            if f"{r.path}_{z}" in [getattr(o, "key", None) for o in out]:
                continue
            pre = c22.sparse(r, z).split('let mut p')[0]
            o = Shape(f'{"sysex7" if r is sx.U else "sysex8"}_{"_".join(map(str, z)) if len(z) < 9 else f"{len(z)}x{z[0]}_{z[-1]}"}', r.path, r.path.split('::')[0], r.path.split('::')[1], 'u32', r.upp * len(z), r.upp, pre, 'bf_assume(w[{i}] >> 28 != %d);' % r.mt, r.upp, False, True, False)
            o.big = len(z) > 5
            o.key = f"{r.path}_{z}"
            out.append(o)
    for n in (0, 1, 5) if not deep else range(9):
        out.append(Shape(f'sysex7b_{n}', 'sysex7::Sysex7', 'sysex7', 'Sysex7', 'u8', n + 2, None, f'w[0] = 0xF0; for i in 0..{n}usize {{ bf_assume(w[i + 1] != 0xF7); }} w[{n + 1}] = 0xF7;', '', 2, False, False, False))
    out.append(Shape('sysex7b_300', 'sysex7::Sysex7', 'sysex7', 'Sysex7', 'u8', 302, None, 'w[0] = 0xF0; for i in 1..301usize { w[i] &= 0x7F; } w[301] = 0xF7;', '', 2, False, False, False))
    out[-1].big = True
    return out


def huge():
    """Messages of more packets than fit an octet."""
    import c22
    out = []
    for r in (sx.U, sx.E):
        z = (1,) + (0,) * 256 + (2,)
        out.append(Shape(f'{"sysex7" if r is sx.U else "sysex8"}_258', r.path, r.path.split('::')[0], r.path.split('::')[1], 'u32', r.upp * 258, r.upp, c22.sparse(r, z).split('let mut p')[0], 'bf_assume(w[{i}] >> 28 != %d);' % r.mt, r.upp, False, True, False))
    for t in tx.FLEX + tx.STREAM:
        if t.name in ('ComposerName', 'EndpointName', 'FunctionBlockName'):
            asc = 'let mut k = 0usize; while k < 258 { w[4 * k + 1] = 0x41424344; w[4 * k + 2] = 0x61626364; w[4 * k + 3] = 0x31323334; ' + ('' if t.flex else f'w[4 * k] = (w[4 * k] & 0x{"FFFFFF7F" if t.fb else "FFFF7F7F"}) | 0x{"40" if t.fb else "4040"}; ') + 'k += 1; } '
            out.append(Shape(f'{t.tag}_258', t.path, t.mod, t.name, 'u32', 4 * 258, 4, asc + t.frame('w', 258), 'bf_assume(w[{i}] >> 28 != %d);' % (0xD if t.flex else 0xF), 4, False, t.flex, False))
    return out
