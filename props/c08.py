from sx import *
LEVEL = 'proof'
RULE = ('For every message type with both representations, all contents and several source and target buffers: converting to packets yields exactly the '
        'message whose fields are those of the byte message and whose group is zero, converting to bytes yields exactly the status and the fields, the '
        'conversion through the family enum gives the same variant and data, system exclusive payloads are kept in canonical form; a conversion that '
        'cannot fit reports an overflow and one that fits does not.')
FLOOR = 960


def both():
    return [m for m in spec.FIXED if m.nbytes]


def ump_of(m, b='b'):
    """Expression: the packet of the byte message in array b."""
    base = sum(v << lo for _, hi, lo, v in m.hdr)
    parts = [f'{base:#x}u32']
    for f in m.fields:
        if not f.bytes:
            continue
        for (bw, bh, bl), (w, hi, lo) in zip(f.bytes, f.segs):
            assert bh - bl == hi - lo
            parts.append(f'((({b}[{bw}] as u32 >> {bl}) & {(1 << (bh - bl + 1)) - 1:#x}) << {lo})')
    return ' | '.join(parts)


def bytes_of(m, w='w'):
    out = []
    for i in range(m.nbytes):
        parts = [f'{sum(v << lo for k, hi, lo, v in m.bhdr if k == i):#x}u8']
        for f in m.fields:
            for (bw, bh, bl), (u, hi, lo) in zip(f.bytes or [], f.segs):
                if bw == i:
                    parts.append(f'((({w}[{u}] >> {lo}) & {(1 << (bh - bl + 1)) - 1:#x}) as u8) << {bl}')
        out.append(' | '.join(f'({p})' for p in parts))
    return out


def harness(tier):
    h = Harness('C08')
    h.raw(RUST)
    q = tier == 'quick'
    for m in both():
        nb = m.nbytes
        bhdr = ' '.join(f'b[{k}] = (b[{k}] & {0xFF & ~(((1 << (hi - lo + 1)) - 1) << lo):#x}) | {v << lo:#x};' for k, hi, lo, v in m.bhdr)
        whdr = hdr_set('w', m.hdr)
        chku = f'bf_eq(u.data().len(), 1usize, "length of the data"); bf_eq(u.data()[0], {ump_of(m)}, "packet");'
        bs = bytes_of(m)
        chkb = f'bf_eq(u.data().len(), {nb}usize, "length of the data"); ' + ' '.join(f'bf_eq(u.data()[{i}], {e}, "byte {i}");' for i, e in enumerate(bs))
        for extra in (0, 2) if q else (0, 1, 2, 5):
            P = f'mut b: [u8; {nb + extra}]'
            src = f'{bhdr} let m = {m.path}::try_from(&b[..]).unwrap();'
            d = f'{m.path} of bytes ({extra} more follow) as packet'
            for t, T in [('vec', 'Vec<u32>')] + [(f'a{n}', f'[u32; {n}]') for n in ((1, 4) if q else (1, 2, 3, 4, 9))]:
                h.root(f'{m.id}_{extra}_ump_{t}', P, f'{src} let u: {m.path}<{T}> = m.into_ump(); {chku}', f'{d} in {T}')
                if t != 'vec':
                    h.root(f'{m.id}_{extra}_tryump_{t}', P, f'{src} let r: Result<{m.path}<{T}>, error::BufferOverflow> = m.try_into_ump(); match r {{ Ok(u) => {{ {chku} }} Err(_) => bf_check(false, "it fits") }}', f'{d} in {T}, fallible')
            h.root(f'{m.id}_{extra}_tryump_grow', P, f'{src} let r: Result<{m.path}<Grow<u32, 3>>, error::BufferOverflow> = m.try_into_ump(); match r {{ Ok(u) => {{ {chku} }} Err(_) => bf_check(false, "it fits") }}', f'{d} in a growing buffer')
            h.root(f'{m.id}_{extra}_tryump_small', P, f'{src} let r: Result<{m.path}<Grow<u32, 0>>, error::BufferOverflow> = m.try_into_ump(); bf_check(r.is_err(), "it cannot fit");', f'{d}, too small a buffer')
            P = f'mut w: [u32; {1 + extra}]'
            src = f'{whdr} let m = {m.path}::try_from(&w[..]).unwrap();'
            d = f'{m.path} of one packet ({extra} words follow) as bytes'
            for t, T in [('vec', 'Vec<u8>')] + [(f'a{n}', f'[u8; {n}]') for n in ((nb, nb + 1) if q else (nb, nb + 1, nb + 2, nb + 6))]:
                h.root(f'{m.id}_{extra}_bytes_{t}', P, f'{src} let u: {m.path}<{T}> = m.into_bytes(); {chkb}', f'{d} in {T}')
                if t != 'vec':
                    h.root(f'{m.id}_{extra}_trybytes_{t}', P, f'{src} let r: Result<{m.path}<{T}>, error::BufferOverflow> = m.try_into_bytes(); match r {{ Ok(u) => {{ {chkb} }} Err(_) => bf_check(false, "it fits") }}', f'{d} in {T}, fallible')
            h.root(f'{m.id}_{extra}_trybytes_grow', P, f'{src} let r: Result<{m.path}<Grow<u8, 4>>, error::BufferOverflow> = m.try_into_bytes(); match r {{ Ok(u) => {{ {chkb} }} Err(_) => bf_check(false, "it fits") }}', f'{d} in a growing buffer')
            h.root(f'{m.id}_{extra}_trybytes_small', P, f'{src} let r: Result<{m.path}<Grow<u8, {nb - 1}>>, error::BufferOverflow> = m.try_into_bytes(); bf_check(r.is_err(), "it cannot fit");', f'{d}, too small a buffer')
        # from owned messages, and there and back
        fld = [f for f in m.fields if f.bytes]
        h.root(f'{m.id}_owned', f'mut b: [u8; {nb}]', f'''{bhdr} let m: {m.path}<[u8; {nb + 1}]> = {m.path}::try_from(&b[..]).unwrap().array_rebuffer_into();
    let u: {m.path}<[u32; 2]> = m.into_ump(); {chku}
    let v: {m.path}<Vec<u8>> = u.into_bytes(); bf_eq(v.data().len(), {nb}usize, "length of the bytes"); bf_eq(v.data()[0], b[0], "status byte"); for i in 1..{nb}usize {{ bf_eq(v.data()[i], b[i] & 0x7F, "data byte"); }}''', f'{m.path}: an owned message to a packet and back')
        fam, agg = m.family, spec.AGG[m.family][0]
        for a, b_, par, pre, into, T, chk in (('ump', 'u32', f'mut b: [u8; {nb + 1}]', f'{bhdr} let m = {fam}::{agg}::try_from(&b[..]).unwrap();', 'into_ump', 'u32', chku),
                                              ('bytes', 'u8', 'mut w: [u32; 2]', f'{whdr} let m = {fam}::{agg}::try_from(&w[..]).unwrap();', 'into_bytes', 'u8', chkb)):
            n = 1 if a == 'ump' else nb
            h.root(f'{m.id}_enum_{a}_vec', par, f'{pre} let u: {fam}::{agg}<Vec<{T}>> = m.{into}(); bf_check(matches!(u, {fam}::{agg}::{m.name}(_)), "the same variant"); {chk}', f'{fam}::{agg}::{m.name} as {a} in a vector')
            for t, TT, ok in (('arr', f'[{T}; {max(n, 3)}]', True), ('grow', f'Grow<{T}, {n}>', True), ('small', f'Grow<{T}, {n - 1}>', False)):
                then = f'match r {{ Ok(u) => {{ bf_check(matches!(u, {fam}::{agg}::{m.name}(_)), "the same variant"); {chk} }} Err(_) => bf_check(false, "it fits") }}' if ok else 'bf_check(r.is_err(), "it cannot fit");'
                h.root(f'{m.id}_enum_try{a}_{t}', par, f'{pre} let r: Result<{fam}::{agg}<{TT}>, error::BufferOverflow> = m.try_{into}(); {then}', f'{fam}::{agg}::{m.name} as {a} in {TT}, fallible')
    # system exclusive 7
    S = 'sysex7::Sysex7'
    for n in (0, 1, 2, 5, 6, 7, 12, 13, 18, 19) if q else range(0, 32):
        np = max(1, -(-n // 6))
        for extra in (0, 3):
            P = f'g: u8, s: u8, p: [u8; {max(n, 1)}], mut b: [u8; {n + 2 + extra}]'
            src = f'b[0] = 0xF0; for i in 0..{n}usize {{ bf_assume(p[i] != 0xF7); b[i + 1] = p[i]; }} b[{n + 1}] = 0xF7; let m = {S}::try_from(&b[..]).unwrap();'
            want = U.canon('u', f'&p[..{n}]', ids='0, 0')
            h.root(f'sx_{n}_{extra}_ump_vec', P, f'{src} let u: {S}<Vec<u32>> = m.into_ump(); {want}', f'{S} of {n} payload bytes as packets in a vector')
            for cap in (2 * np, 2 * np + 1) if q else (2 * np, 2 * np + 1, 2 * np + 2, 2 * np + 5):
                for t, T in (('arr', f'[u32; {cap}]'), ('grow', f'Grow<u32, {cap}>')):
                    h.root(f'sx_{n}_{extra}_tryump_{t}{cap}', P, f'{src} let r: Result<{S}<{T}>, error::BufferOverflow> = m.try_into_ump(); match r {{ Ok(u) => {{ {want} }} Err(_) => bf_check(false, "it fits") }}', f'{S} of {n} payload bytes as packets in {T}')
            for cap in sorted({2 * np - 1, 2 * np - 2, 2} & set(range(2 * np))):
                for t, T in (('arr', f'[u32; {cap}]'), ('grow', f'Grow<u32, {cap}>')):
                    h.root(f'sx_{n}_{extra}_smallump_{t}{cap}', P, f'{src} let r: Result<{S}<{T}>, error::BufferOverflow> = m.try_into_ump(); bf_check(r.is_err(), "it cannot fit");', f'{S} of {n} payload bytes as packets in {T}: overflow')
    for n in (255, 256, 300, 1550) if q else (127, 128, 255, 256, 257, 300, 1000, 1550):
        np = -(-n // 6)
        src = f'{longer("p", n, "x")} let mut b = [0u8; {n + 4}]; b[0] = 0xF0; i = 0; while i < {n} {{ p[i] &= 0x7F; b[i + 1] = p[i]; i += 1; }} b[{n + 1}] = 0xF7; let m = {S}::try_from(&b[..]).unwrap();'
        P = 'g: u8, s: u8, x: [u8; 4]'
        want = U.canon('u', '&p', ids='0, 0')
        back = B.canon('v', '&p')
        h.root(f'sx_long_{n}_vec', P, f'{src} let u: {S}<Vec<u32>> = m.into_ump(); {want} let v: {S}<Vec<u8>> = u.into_bytes(); {back}', f'{S} of {n} payload bytes as packets in a vector and back')
        h.root(f'sx_long_{n}_arr', P, f'{src} let r: Result<{S}<[u32; {2 * np}]>, error::BufferOverflow> = m.try_into_ump(); match r {{ Ok(u) => {{ {want} let r: Result<{S}<Grow<u8, {n + 2}>>, error::BufferOverflow> = u.try_into_bytes(); match r {{ Ok(v) => {{ {back} }} Err(_) => bf_check(false, "it fits") }} }} Err(_) => bf_check(false, "it fits") }}', f'{S} of {n} payload bytes as packets in an array and back')
        h.root(f'sx_long_{n}_small', P, f'{src} let r: Result<{S}<[u32; {2 * np - 1}]>, error::BufferOverflow> = m.try_into_ump(); bf_check(r.is_err(), "it cannot fit"); let u: {S}<Vec<u32>> = {S}::try_from(&b[..]).unwrap().into_ump(); let r: Result<{S}<[u8; {n + 1}]>, error::BufferOverflow> = u.try_into_bytes(); bf_check(r.is_err(), "it cannot fit");', f'{S} of {n} payload bytes: overflow')
    for z in [(0,), (1,), (6,), (6, 1), (3, 4), (0, 6), (6, 6, 5), (2, 0, 3)] if q else [(a,) for a in range(7)] + [(a, c) for a in range(7) for c in range(7)] + [(a, c, d) for a in (0, 1, 5, 6) for c in (0, 3, 6) for d in (0, 1, 6)] + [(6, 6, 6, 6), (1, 6, 0, 2)]:
        import c22
        np, n = len(z), sum(z)
        pre = c22.sparse(U, z)
        for extra in (0, 3):
            P = f'g: u8, s: u8, mut w: [u32; {2 * np + extra}]'
            src = f'{"bf_assume(w[%d] >> 28 != 3);" % (2 * np) if extra else ""} {pre} let m = {S}::try_from(&w[..]).unwrap();'
            want = B.canon('u', f'&p[..{n}]')
            tag = '_'.join(map(str, z))
            h.root(f'sx_{tag}_{extra}_bytes_vec', P, f'{src} let u: {S}<Vec<u8>> = m.into_bytes(); {want}', f'{S} of packets of {z} bytes as bytes in a vector')
            for cap in (n + 2, n + 3) if q else (n + 2, n + 3, n + 9):
                for t, T in (('arr', f'[u8; {cap}]'), ('grow', f'Grow<u8, {cap}>')):
                    h.root(f'sx_{tag}_{extra}_trybytes_{t}{cap}', P, f'{src} let r: Result<{S}<{T}>, error::BufferOverflow> = m.try_into_bytes(); match r {{ Ok(u) => {{ {want} }} Err(_) => bf_check(false, "it fits") }}', f'{S} of packets of {z} bytes as bytes in {T}')
            for cap in sorted({n + 1, 2, 1} & set(range(n + 2))):
                for t, T in (('arr', f'[u8; {cap}]'), ('grow', f'Grow<u8, {cap}>')):
                    h.root(f'sx_{tag}_{extra}_smallbytes_{t}{cap}', P, f'{src} let r: Result<{S}<{T}>, error::BufferOverflow> = m.try_into_bytes(); bf_check(r.is_err(), "it cannot fit");', f'{S} of packets of {z} bytes as bytes in {T}: overflow')
    # more bytes than sixteen bits count
    P, pu = vast(U)
    _, pb = vast(B)
    h.root('sysex7_vast_ump', P, f'let b = {{ {pb} w }}; let w = {{ {pu.replace("g as u32 & 15", "0u32")} w }}; let u: sysex7::Sysex7<Vec<u32>> = sysex7::Sysex7::try_from(&b[..]).unwrap().into_ump(); let d = u.data(); bf_eq(d.len(), {U.units(VAST)}usize, "length of the data"); let mut i = 0usize; while i < {U.units(VAST)} {{ bf_eq(d[i], w[i], "word"); i += 1; }}', f'sysex7::Sysex7 of {VAST} bytes as packets')
    h.root('sysex7_vast_bytes', P, f'let b = {{ {pb} w }}; let w = {{ {pu} w }}; let u: sysex7::Sysex7<Vec<u8>> = sysex7::Sysex7::try_from(&w[..]).unwrap().into_bytes(); let d = u.data(); bf_eq(d.len(), {VAST + 2}usize, "length of the data"); let mut i = 0usize; while i < {VAST + 2} {{ bf_eq(d[i], b[i], "byte"); i += 1; }}', f'sysex7::Sysex7 of {VAST} payload bytes in packets as bytes')
    return [h]
