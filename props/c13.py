import itertools
from sx import *
LEVEL = 'proof'
RULE = ('For every well-formed system exclusive message of up to the bounded number of packets, with every combination of packet sizes and all contents, '
        'followed by anything: payload() yields the payload bytes in order and then ends, its length, size hint, count and nth agree with that sequence, '
        'payload_size() is its length, and set_byte replaces exactly the byte it names.')
FLOOR = 1350

RD = '''
pub fn min(a: usize, b: usize) -> usize { if a < b { a } else { b } }
'''


def setup(r, np, extra, sizes=None):
    """Statements: `w` becomes a well-formed message of np packets whose sizes are z, and flat[..total] its payload.
    With `sizes` the packets have these sizes instead of any."""
    if r.tag == 'b':
        n = np
        return (f'w: [u8; {n}], mut b: [u8; {n + 2 + extra}]',
                f'b[0] = 0xF0; for i in 0..{n}usize {{ b[i + 1] = w[i]; bf_assume(w[i] != 0xF7); }} b[{n + 1}] = 0xF7; let total = {n}usize; let mut flat = [0u8; {n + 1}]; for i in 0..{n}usize {{ flat[i] = w[i] & 0x7F; }} let w = b;')
    big = 6 if r.tag == 'u' else 13
    st = lambda k: 0 if np == 1 else 1 if k == 0 else 3 if k + 1 == np else 2
    s = []
    for k in range(np):
        o = r.upp * k
        s.append(f'bf_assume(z[{k}] <= {big}); w[{o}] = (w[{o}] & {0xFF if r.tag == "8" else 0xFFFF:#x}) | {r.mt << 28 | st(k) << 20:#x} | ((g as u32 & 15) << 24) | ((z[{k}] as u32 + {r.bias}) << 16)' + (' | ((s as u32) << 8);' if r.tag == '8' else ';'))
    if extra >= 1:
        s.append(f'bf_assume(w[{r.upp * np}] >> 28 != {r.mt});')
    m = '& 0x7F' if r.tag == 'u' else ''
    s.append(f'let total = {" + ".join(f"z[{k}] as usize" for k in range(np))};')
    s.append(f'let mut flat = [0u8; {big * np + 1}]; let mut c = 0usize; for k in 0..{np}usize {{ for j in 0..{big}usize {{ if j < z[k] as usize {{ flat[c] = oct(&w, {4 * r.upp} * k + {8 // 4 if r.tag == "u" else 3} + j) {m}; c += 1; }} }} }}')
    if sizes is not None:
        s.insert(0, f'let z: [u8; {np}] = {list(sizes)};')
    return f'{f"z: [u8; {np}], " if sizes is None else ""}g: u8, s: u8, mut w: [u32; {r.upp * np + extra}]', ' '.join(s)


def shapes(r, q):
    """Sizes of the packets of messages longer than those where every combination is covered."""
    F = 6 if r.tag == 'u' else 13
    out = set()
    lo = {'u': 4, '8': 3}[r.tag] if q else {'u': 5, '8': 4}[r.tag]
    for n in range(lo, 6 if q else 7):
        out |= set(itertools.product((0, F), repeat=n))
    for n in range(lo, 5 if q else 6):
        out |= set(itertools.product((0, 2, F), repeat=n))
    for n in (12, 43) if q else (12, 43, 44, 80, 170):
        out |= {(F,) * n, (F,) * (n - 1) + (1,), (0,) * (n - 1) + (1,), (1,) + (0,) * (n - 2) + (1,), tuple(k % (F + 1) for k in range(n))}
    out |= {(1,) + (0,) * 256 + (2,), (2,) + (1, 0) * 128 + (F,)}   # more packets than fit an octet
    return sorted(out, key=lambda z: (len(z), z))


def folds(h, r, tag, par, pre, total, kind):
    mid = total // 3
    h.root(tag + '_fold', par, f"""{pre}
    let mut k = 0usize; m.payload().for_each(|x| {{ bf_check(k < total, "ends with the payload"); bf_eq({r.v}(x), flat[k], "byte of for_each"); k += 1; }}); bf_eq(k, total, "bytes of for_each");
    match m.payload().last() {{ Some(x) => {{ bf_check(total > 0, "the empty payload has no last byte"); bf_eq({r.v}(x), flat[total - 1], "the last byte"); }} None => bf_eq(total, 0usize, "a last byte") }}
    let mut it = m.payload(); let mut k = 0usize; while k < {mid} {{ it.next(); k += 1; }}
    let mut c = it.clone(); while k < total {{ match c.next() {{ Some(x) => bf_eq({r.v}(x), flat[k], "byte of a copy"), None => bf_check(false, "a copy covers the payload") }} k += 1; }} bf_check(c.next().is_none(), "the end of a copy");
    bf_eq(it.len(), total - {mid}usize, "length after copying"); k = {mid}; it.for_each(|x| {{ bf_check(k < total, "ends with the payload"); bf_eq({r.v}(x), flat[k], "byte of for_each"); k += 1; }}); bf_eq(k, total, "bytes of for_each");
    let mut k = 0usize; for x in m.payload().skip({mid}).step_by(2) {{ bf_check({mid} + k < total, "ends with the payload"); bf_eq({r.v}(x), flat[{mid} + k], "byte of step_by"); k += 2; }} bf_check({mid} + k >= total && {mid} + k < total + 2, "bytes of step_by");""", f'{kind}: for_each, last, skip, step_by and copies of payload()')


def fixed(h, r, sizes):
    """One message with the given packet sizes, any contents."""
    np, total = len(sizes), sum(sizes)
    par, pre = setup(r, np, r.upp + 1, sizes)
    pre += f'\n    let m = {r.path}::try_from(&w[..]).unwrap();'
    short = list(sizes) if np < 9 else f'{list(sizes[:3])}..{sizes[-1]} ({np} packets)'
    tag = f'{r.tag}_sizes_{"_".join(map(str, sizes)) if np < 9 else str(np) + "x" + "_".join(map(str, sizes[:3] + sizes[-1:]))}'
    edges, c = {0, total - 1, total // 2}, 0
    for x in sizes if np < 9 else ():
        edges |= {c - 1, c}
        c += x
    edges = sorted(e for e in edges if 0 <= e < total)
    nths = ''.join(f"""
    {{ let mut it = m.payload(); {'it.nth(%d);' % (a - 1) if a else ''} match it.nth({b - a}) {{ Some(x) => bf_eq({r.v}(x), flat[{b}], "byte after nth"), None => bf_check(false, "covers the whole payload") }}
    bf_eq(it.len(), {total - b - 1}usize, "len after nth"); match it.next() {{ Some(x) => {{ bf_check({b + 1} < total, "ends with the payload"); bf_eq({r.v}(x), flat[{b} + 1], "byte following nth"); }} None => bf_check({b + 1} >= total, "covers the whole payload") }} }}"""
                   for b in edges for a in edges + [b] if a <= b)
    h.root(tag, par, f"""{pre}
    bf_eq(m.payload_size(), total, "payload_size"); bf_eq(m.payload().count(), total, "count");
    let mut it = m.payload();
    let mut k = 0usize; while k < total {{
        bf_eq(it.len(), total - k, "len"); let sh = it.size_hint(); bf_check(sh.0 == total - k && sh.1 == Some(total - k), "size hint");
        match it.next() {{ Some(x) => bf_eq({r.v}(x), flat[k], "payload byte"), None => bf_check(false, "covers the whole payload") }}
        k += 1;
    }}
    bf_check(it.next().is_none(), "the end"); bf_check(it.next().is_none(), "stays at the end"); bf_check(m.payload().nth(total).is_none(), "nth at the end");{nths}""", f'{r.path} with packets of {short} bytes: payload()')
    folds(h, r, tag, par, pre, total, f'{r.path} with packets of {short} bytes')
    if total:
        off, step, big = (2, 8, 6) if r.tag == 'u' else (3, 16, 13)
        sets = []
        for e in edges if np < 9 else edges[-1:]:
            k, c = 0, e
            while c >= sizes[k]:
                c -= sizes[k]
                k += 1
            sets.append(f'{{ let mut v: {r.path}<Vec<u32>> = m.clone().rebuffer_into(); v.set_byte({r.mk}(x), {e}); let d = v.data(); bf_eq(d.len(), {r.upp * np}usize, "length of the data"); for i in 0..{4 * r.upp * np}usize {{ if i == {k * step + off + c} {{ bf_eq(oct(d, i) {"& 0x7F" if r.tag == "u" else ""}, x {"& 0x7F" if r.tag == "u" else ""}, "the byte set"); }} else {{ bf_eq(oct(d, i), oct(&w, i), "another byte"); }} }} }}')
        h.root(tag + '_set', 'x: u8, ' + par, f'{pre} ' + ' '.join(sets), f'{r.path} with packets of {short} bytes: set_byte')


# beyond any payload, and congruent to a small number modulo a power of two
FAR = (256, 65536, 1 << 32, 1 << 62, (1 << 63) + 1)


def harness(tier):
    h = Harness('C13')
    h.raw(RUST + RD)
    q = tier == 'quick'
    for r in REPS:
        for np in {'u': (1, 2, 3), 'b': (0, 1, 2, 3, 5), '8': (1, 2)}[r.tag] if q else {'u': (1, 2, 3, 4), 'b': tuple(range(12)), '8': (1, 2, 3)}[r.tag]:
            big = np * {'u': 6, 'b': 1, '8': 13}[r.tag]
            for extra in (0, 3 if r.tag != '8' else 5):
                par, pre = setup(r, np, extra)
                pre += f'\n    let m = {r.path}::try_from(&w[..]).unwrap();'
                kind = f'{r.path} of {np} {"payload bytes" if r.tag == "b" else "packets with any sizes"} followed by {extra} units'
                h.root(f'{r.tag}_{np}_{extra}_next', par, f'''{pre}
    bf_eq(m.payload_size(), total, "payload_size");
    let mut it = m.payload();
    for k in 0..{big}usize {{
        let left = if k < total {{ total - k }} else {{ 0 }};
        bf_eq(it.len(), left, "len"); let sh = it.size_hint(); bf_eq(sh.0, left, "lower bound of the size hint"); bf_check(sh.1 == Some(left), "upper bound of the size hint");
        match it.next() {{ Some(x) => {{ bf_check(k < total, "ends with the payload"); bf_eq({r.v}(x), flat[k], "payload byte"); }} None => bf_check(k >= total, "covers the whole payload") }}
    }}
    bf_check(it.next().is_none(), "the end"); bf_check(it.next().is_none(), "stays at the end"); bf_eq(it.len(), 0usize, "nothing left");''', kind + ': payload() read with next')
                if r.tag == 'b':
                    folds(h, r, f'b_{np}_{extra}', par, pre, np, kind)
                h.root(f'{r.tag}_{np}_{extra}_count', par, f'{pre} bf_eq(m.payload().count(), total, "count");', kind + ': payload().count()')
                steps = sorted({0, 1, 2, 5, 6, 7, 13, 14, big - 1, big} & set(range(0, big + 1))) if np else [0]
                for a in ([0, 1] if q else [0, 1, 3, 7]):
                    for k in steps:
                        h.root(f'{r.tag}_{np}_{extra}_nth_{a}_{k}', par, f'''{pre}
    let mut it = m.payload(); {'it.next(); ' * a}
    let at = {a}usize + {k};
    match it.nth({k}) {{ Some(x) => {{ bf_check(at < total, "ends with the payload"); if at < total {{ bf_eq({r.v}(x), flat[at], "payload byte"); }} }} None => bf_check(at >= total, "covers the whole payload") }}
    let left = if at + 1 < total {{ total - at - 1 }} else {{ 0 }};
    bf_eq(it.len(), left, "len afterwards");
    match it.next() {{ Some(x) => {{ bf_check(at + 1 < total, "ends with the payload"); if at + 1 < total {{ bf_eq({r.v}(x), flat[at + 1], "following byte"); }} }} None => bf_check(at + 1 >= total, "covers the whole payload") }}''', kind + f': nth({k}) after {a} bytes')
                h.root(f'{r.tag}_{np}_{extra}_nthmax', par, f'''{pre}
    let mut it = m.payload(); it.next();
    bf_check(it.nth(usize::MAX).is_none(), "beyond the end"); bf_eq(it.len(), 0usize, "nothing left"); bf_check(it.next().is_none(), "stays at the end"); bf_check(it.nth(1).is_none(), "stays at the end");''', kind + ': nth(usize::MAX)')
                for far in FAR:
                    h.root(f'{r.tag}_{np}_{extra}_nth{far.bit_length()}', par, f'''{pre}
    let mut it = m.payload(); it.next();
    bf_check(it.nth({far}).is_none(), "beyond the end"); bf_eq(it.len(), 0usize, "nothing left"); bf_check(it.next().is_none(), "stays at the end");''', kind + f': nth({far})')
                steps = sorted({0, 1, 5, 6, 7, 12, 13, 14, big - 1} & set(range(0, big)))
                for k in steps:
                    oct_ = f'{k}usize' if r.tag == 'b' else ''
                    new = {'u': 'x & 0x7F', 'b': 'x & 0x7F', '8': 'x'}[r.tag]
                    if r.tag == 'b':
                        chk = f'for i in 0..{np + 2 + extra}usize {{ let keep = 0x80; if i == {k + 1} {{ bf_eq(v.data().get(i).copied().unwrap_or(0) & 0x7F, x & 0x7F, "the byte set"); }} else if i < {np + 2} {{ bf_eq(v.data()[i], w[i], "another byte"); }} }}'
                    else:
                        big1, step, off = (6, 8, 2) if r.tag == 'u' else (13, 16, 3)
                        top = '& 0x7F' if r.tag == 'u' else ''
                        chk = f"""bf_eq(v.data().len(), {r.upp * np}usize, "length of the data");
    let mut c = 0usize; for k in 0..{np}usize {{
        for i in 0..{off}usize {{ bf_eq(oct(v.data(), {step} * k + i), oct(&w, {step} * k + i), "header"); }}
        for j in 0..{big1}usize {{ let o = {step} * k + {off} + j; if j < z[k] as usize {{
            if c == {k} {{ bf_eq(oct(v.data(), o) {top}, x {top}, "the byte set"); }} else {{ bf_eq(oct(v.data(), o), oct(&w, o), "another byte"); }} c += 1; }} else {{ bf_eq(oct(v.data(), o), oct(&w, o), "padding"); }} }} }}"""
                    h.root(f'{r.tag}_{np}_{extra}_set_{k}', par + ', x: u8', f"""{pre}
    bf_assume({k} < total);
    let mut v: {r.path}<Vec<{r.unit}>> = m.rebuffer_into();
    v.set_byte({r.mk}(x), {k});
    {chk}""", kind + f': set_byte at {k}')
                for k in (0, 1, 6):
                    h.root(f'{r.tag}_{np}_{extra}_setpanic_{k}', par + ', x: u8', f"""{pre}
    let mut v: {r.path}<Vec<{r.unit}>> = m.rebuffer_into();
    v.set_byte({r.mk}(x), total + {k});""", kind + f': set_byte {k} beyond the end panics', panics=True)
    for r in (U, E):
        for z in shapes(r, q):
            fixed(h, r, z)
    # more bytes than sixteen bits count
    for r in REPS:
        P, pre = vast(r)
        pre += f' let m = {r.path}::try_from(&w[..]).unwrap();'
        mask = '' if r.tag == '8' else ' & 0x7F'
        val = lambda i: f'x[{ {0: 0, VAST - 1: 1, 65536: 2}[i]}]{mask}' if i in (0, VAST - 1, 65536) else '0'
        h.root(f'{r.tag}_vast', P, f'''{pre} bf_eq(m.payload_size(), {VAST}usize, "payload_size");
    let mut it = m.payload(); bf_eq(it.len(), {VAST}usize, "len"); match it.next() {{ Some(b) => bf_eq({r.v}(b), {val(0)}, "first byte"), None => bf_check(false, "has a first byte") }}
    bf_check(it.size_hint() == ({VAST - 1}, Some({VAST - 1})), "size hint");
    match it.nth(65535) {{ Some(b) => bf_eq({r.v}(b), {val(65536)}, "byte after nth"), None => bf_check(false, "covers the whole payload") }} bf_eq(it.len(), {VAST - 65537}usize, "len after nth");
    let mut k = 65537usize; while k < {VAST - 1} {{ match it.next() {{ Some(b) => bf_eq({r.v}(b), 0, "byte"), None => bf_check(false, "covers the whole payload") }} k += 1; }}
    match it.next() {{ Some(b) => bf_eq({r.v}(b), {val(VAST - 1)}, "last byte"), None => bf_check(false, "has a last byte") }} bf_check(it.next().is_none(), "the end");''', f'{r.path} of {VAST} payload bytes: sizes, next and nth')
        if not q:
            h.root(f'{r.tag}_vast_count', P, f'{pre} let mut it = m.payload(); let mut k = 0usize; while k < {VAST - 1} {{ bf_check(it.next().is_some(), "covers the whole payload"); k += 1; }} match it.next() {{ Some(b) => bf_eq({r.v}(b), {val(VAST - 1)}, "last byte"), None => bf_check(false, "has a last byte") }} bf_check(it.next().is_none(), "the end");', f'{r.path} of {VAST} payload bytes: read with next')
    return [h]
