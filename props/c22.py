import itertools
from sx import *
LEVEL = 'proof'
RULE = ('For every payload length, range and replacement length up to the bound, all contents and any honest size hint: splicing, inserting and appending '
        'yield exactly the payload a vector splice would, in canonical packets; when the result cannot fit, the call reports an overflow and leaves the '
        'empty message; indices beyond the payload panic.')
FLOOR = 7350


def hint(n, k):
    return {'exact': None, 'unknown': '0, None', 'lower': f'{n // 2}, None', 'upper': f'0, Some({n + 3})', 'wide': f'0, Some({n + 40})'}[k]


def harness(tier):
    h = Harness('C22')
    h.raw(RUST)
    q = tier == 'quick'
    turn = 0
    for r in REPS:
        lens = {'u': (0, 1, 5, 6, 7, 12, 14), 'b': (0, 1, 2, 4), '8': (0, 1, 13, 14, 27)}[r.tag]
        news = {'u': (0, 1, 2, 5, 6, 8, 13), 'b': (0, 1, 2, 3, 6), '8': (0, 1, 12, 13, 15)}[r.tag]
        if not q:
            lens = {'u': tuple(range(20)), 'b': tuple(range(9)), '8': (0, 1, 2, 12, 13, 14, 25, 26, 27, 40)}[r.tag]
            news = {'u': tuple(range(15)), 'b': tuple(range(9)), '8': (0, 1, 2, 11, 12, 13, 14, 15, 26, 28)}[r.tag]
        for L in lens:
            cuts = sorted({0, 1, r.per - 1, r.per, L // 2, L - 1, L} & set(range(L + 1)))
            for b in cuts:
                for e in [x for x in cuts if x >= b]:
                    if q and L > 8 and b not in (0, L // 2, L) and e != L:
                        continue
                    for n in news:
                        R = L - (e - b) + n
                        P = f'p: [u8; {max(L, 1)}], q: [u8; {max(n, 1)}], g: u8, s: u8'
                        want = f'let mut x = [0u8; {max(R, 1)}]; for i in 0..{b}usize {{ x[i] = p[i]; }} for i in 0..{n}usize {{ x[{b} + i] = q[i]; }} for i in {e}..{L}usize {{ x[i + {n} - {e - b}] = p[i]; }}'
                        turn += 1
                        for hk in ('exact', 'unknown', 'lower', 'upper', 'wide'):
                            # every change on quick: all of the unknown hint, a rotating choice of the others
                            if q and hk != 'unknown' and hk != ('exact', 'lower', 'upper', 'wide')[turn % 4]:
                                continue
                            it = r.iter(f'q[..{n}]')
                            if hint(n, hk):
                                it = f'Hint({it}, {hint(n, hk)})'
                            d = f'splice of any {n} bytes ({hk} size hint) over {b}..{e} of {L}'
                            name = f'{r.tag}_{L}_{b}_{e}_{n}_{hk}'
                            if hk in ('exact', 'unknown', 'upper'):
                                h.root(f'{name}_vec', P, f'''let mut m = {r.path}::<Vec<{r.unit}>>::new(); {r.ids()} m.set_payload({r.iter(f'p[..{L}]')});
    m.splice_payload({it}, {b}..{e}); {want} {r.canon('m', f'&x[..{R}]')}''', f'{r.path} over Vec: {d}')
                            cap = max(r.units(L), r.units(R))
                            for extra in (((0, 1, 6)[turn % 3],) if q else (0, 1, 6)):
                                h.root(f'{name}_buf{extra}', P + f', w: [{r.unit}; {cap + extra}]', f'''let mut m = {r.path}::try_new_with_buffer(Buf(w)).unwrap(); {r.ids()} m.try_set_payload({r.iter(f'p[..{L}]')}).unwrap();
    bf_check(m.try_splice_payload({it}, {b}..{e}).is_ok(), "it fits"); {want} {r.canon('m', f'&x[..{R}]')}''', f'{r.path} over a used buffer of {cap + extra} units: {d}')
                            if r.units(R) > r.units(L) and hk in ('exact', 'unknown', 'wide'):
                                small = r.units(R) - 1
                                h.root(f'{name}_small', P + f', w: [{r.unit}; {small}]', f'''let mut m = {r.path}::try_new_with_buffer(Buf(w)).unwrap(); {r.ids()} m.try_set_payload({r.iter(f'p[..{L}]')}).unwrap();
    bf_check(m.try_splice_payload({it}, {b}..{e}).is_err(), "it cannot fit"); {r.canon('m', '&[]')}''', f'{r.path} over a used buffer of {small} units: {d} overflows and empties the message')
    # messages whose packets are not full
    for r in (U, E):
        combos = {'u': [(0, 6), (3, 3), (6, 0), (0, 0), (1, 0, 2), (2, 6, 1), (5, 6, 6), (0, 0, 6)], '8': [(0, 13), (7, 5), (13, 0), (1, 0, 12)]}[r.tag]
        if not q:
            combos = {'u': [(a, c) for a in range(7) for c in range(7)] + [(a, c, d) for a in (0, 1, 5, 6) for c in (0, 1, 5, 6) for d in (0, 1, 5, 6)] + [(2, 0, 6, 1), (0, 0, 0, 6), (6, 6, 0, 3)],
                      '8': [(a, c) for a in (0, 1, 6, 12, 13) for c in (0, 1, 7, 12, 13)] + [(1, 0, 12), (13, 0, 13), (0, 0, 13), (12, 13, 1)]}[r.tag]
        # every combination of a few sizes, with a few changes each
        ends = {'u': (0, 1, 5, 6), '8': (0, 1, 12, 13)}[r.tag]
        few = sorted({z for k in ((2, 3) if q else (2, 3, 4)) for z in itertools.product(ends, repeat=k)} | {tuple(range(ends[-1] + 1)), tuple(range(ends[-1], -1, -1)), (ends[-1],) * 12 + (1,), (0,) * 12 + (1,)})
        for z in dict.fromkeys(combos + few):
            np, L = len(z), sum(z)
            pre = sparse(r, z)
            cuts = sorted({0, L // 2, L} if q else {0, 1, L // 2, L - 1, L} & set(range(L + 1)))
            for b in cuts:
                for e in [x for x in cuts if x >= b]:
                    for n in ((0, 1, 7) if q else (0, 1, 2, 5, 6, 7, 13, 14)):
                        if z not in combos and (b, e, n) not in ((L, L, 1), (0, L, 7), (L // 2, L // 2, 0)):
                            continue
                        R = L - (e - b) + n
                        for hk in ('exact', 'unknown'):
                            it = r.iter(f'q[..{n}]')
                            if hint(n, hk):
                                it = f'Hint({it}, {hint(n, hk)})'
                            name = f'{r.tag}_sparse_{"_".join(map(str, z))}_at_{b}_{e}_{n}_{hk}'
                            P = f'q: [u8; {max(n, 1)}], g: u8, s: u8, mut w: [u32; {r.upp * np}]'
                            d = f'splice of any {n} bytes ({hk} size hint) over {b}..{e} of packets of {z} bytes'
                            h.root(f'{name}_vec', P, f'''{pre} let mut m: {r.path}<Vec<u32>> = {r.path}::try_from(&w[..]).unwrap().rebuffer_into();
    m.splice_payload({it}, {b}..{e}); {spliced(r, L, b, e, n)}''', f'{r.path} over Vec: {d}')
                            cap = max(r.upp * np, r.units(R))
                            h.root(f'{name}_buf', P, f'''{pre} let mut m: {r.path}<[u32; {cap}]> = {r.path}::try_from(&w[..]).unwrap().try_rebuffer_into().unwrap();
    bf_check(m.try_splice_payload({it}, {b}..{e}).is_ok(), "it fits"); {spliced(r, L, b, e, n)}''', f'{r.path} over an array of {cap} words: {d}')
    # the derived operations, range forms and indices out of bounds
    for r in REPS:
        for L in {'u': (0, 1, 6, 7), 'b': (0, 1, 4), '8': (0, 13, 14)}[r.tag] if q else {'u': range(15), 'b': range(8), '8': (0, 1, 12, 13, 14, 26, 27)}[r.tag]:
            for n in ((0, 1, 6) if q else (0, 1, 2, 5, 6, 7, 14)):
                P = f'p: [u8; {max(L, 1)}], q: [u8; {max(n, 1)}], g: u8, s: u8'
                it = r.iter(f'q[..{n}]')
                fill = r.iter(f'p[..{L}]')
                for t in ('', 'try_'):
                    ok = '.unwrap()' if t else ''
                    cap = r.units(L + n)
                    if t:
                        mk, PP = f'let mut m = {r.path}::try_new_with_buffer(Grow(w, {min(cap, r.units(0))})).unwrap(); {r.ids()} m.try_set_payload({fill}).unwrap();', P + f', w: [{r.unit}; {cap}]'
                    else:
                        mk, PP = f'let mut m = {r.path}::<Vec<{r.unit}>>::new(); {r.ids()} m.set_payload({fill});', P

                    def root(name, call, b, e, what):
                        h.root(f'{r.tag}_{t}{name}_{L}_{n}', PP, f'{mk} m.{t}{call}{ok}; {spliced(r, L, b, e, n)}', f'{r.path}: {t}{what}, {L} bytes and {n} more')
                    for b in sorted({0, L // 2, L}):
                        root(f'insert_{b}', f'insert_payload({it}, {b})', b, b, f'insert_payload before {b}')
                    root('append', f'append_payload({it})', L, L, 'append_payload')
                    if n == 1:
                        root('append_byte', f'append_byte({r.mk}(q[0]))', L, L, 'append_byte')
                    root('full', f'splice_payload({it}, ..)', 0, L, 'splice over ..')
                    root('from', f'splice_payload({it}, {L // 2}..)', L // 2, L, f'splice over {L // 2}..')
                    root('to', f'splice_payload({it}, ..{L // 2})', 0, L // 2, f'splice over ..{L // 2}')
                    if L:
                        root('incl', f'splice_payload({it}, {L // 2}..={L - 1})', L // 2, L, f'splice over {L // 2}..={L - 1}')
                        root('excl', f'splice_payload({it}, (core::ops::Bound::Excluded({L - 1}), core::ops::Bound::Unbounded))', L, L, f'splice after an excluded {L - 1}')
                    for b in (L + 1, L + 7):
                        h.root(f'{r.tag}_{t}beyond_{L}_{n}_{b}', PP, f'{mk} let _ = m.{t}insert_payload({it}, {b});', f'{r.path}: {t}insert_payload of {n} bytes at {b} of {L} panics', panics=True)
    # hundreds of bytes
    for r in REPS:
        for L, b, e, n in [(300, 0, 0, 1), (300, 300, 300, 1), (300, 10, 290, 3), (300, 3, 3, 270), (20, 11, 13, 300), (270, 256, 258, 260), (257, 0, 257, 0), (600, 255, 256, 1)] + ([] if r.tag == 'b' else [(257 * r.per, 256 * r.per - 2, 256 * r.per + 1, 5)]) + ([] if q else [(1000, 500, 501, 600), (1000, 1, 999, 0), (700, 256, 512, 256), (5, 5, 5, 1000), (512, 0, 256, 300)]):
            R = L - (e - b) + n
            for hk in ('exact',) if L > 1500 else ('exact', 'unknown') if q else ('exact', 'unknown', 'lower', 'upper', 'wide'):
                it = r.iter(f'q[..{n}]')
                if hint(n, hk):
                    it = f'Hint({it}, {hint(n, hk)})'
                P = 'x: [u8; 4], y: [u8; 4], g: u8, s: u8'
                mk = longer('p', L, 'x') + ' ' + longer('q', n, 'y')
                d = f'splice of {n} bytes ({hk} size hint) over {b}..{e} of {L}'
                h.root(f'{r.tag}_long_{L}_{b}_{e}_{n}_{hk}_vec', P, f'{mk} let mut m = {r.path}::<Vec<{r.unit}>>::new(); {r.ids()} m.set_payload({r.iter("p")}); m.splice_payload({it}, {b}..{e}); {spliced(r, L, b, e, n)}', f'{r.path} over Vec: {d}')
                cap = max(r.units(L), r.units(R))
                h.root(f'{r.tag}_long_{L}_{b}_{e}_{n}_{hk}_buf', P + f', v: {r.unit}', f'{mk} let mut m = {r.path}::try_new_with_buffer(Buf([v; {cap}])).unwrap(); {r.ids()} m.try_set_payload({r.iter("p")}).unwrap(); bf_check(m.try_splice_payload({it}, {b}..{e}).is_ok(), "it fits"); {spliced(r, L, b, e, n)}', f'{r.path} over a used buffer of {cap} units: {d}')
                if r.units(R) > r.units(L):
                    h.root(f'{r.tag}_long_{L}_{b}_{e}_{n}_{hk}_small', P + f', v: {r.unit}', f'{mk} let mut m = {r.path}::try_new_with_buffer(Buf([v; {r.units(R) - 1}])).unwrap(); {r.ids()} m.try_set_payload({r.iter("p")}).unwrap(); bf_check(m.try_splice_payload({it}, {b}..{e}).is_err(), "it cannot fit"); {r.canon("m", "&[]")}', f'{r.path} over a used buffer: {d} overflows and empties the message')
    # sources without an end and enormous size hints
    for r in REPS:
        for L in {'u': (1, 6, 8), 'b': (1, 3), '8': (1, 13, 15)}[r.tag] if q else {'u': range(1, 15), 'b': range(1, 8), '8': (1, 2, 12, 13, 14, 15, 26, 28)}[r.tag]:
            for b in sorted({0, L // 2, L}):
                for e in sorted({b, L}):
                    cap = r.units(L) + r.upp
                    P = f'p: [u8; {L}], q: [u8; 3], x: u8, g: u8, s: u8, w: [{r.unit}; {cap}]'
                    mk = f'''let mut m = {r.path}::try_new_with_buffer(Buf(w)).unwrap(); {r.ids()} m.try_set_payload({r.iter(f'p[..{L}]')}).unwrap();'''
                    for src, what in ((f'core::iter::repeat({r.mk}(x))', 'repeat'), (f'core::iter::repeat({r.mk}(x)).filter(|_| true)', 'filter'), (f'core::iter::repeat({r.mk}(x)).take(usize::MAX - 1)', 'take')):
                        h.root(f'{r.tag}_endless_{L}_{b}_{e}_{what}', P, f'''{mk} bf_check(m.try_splice_payload({src}, {b}..{e}).is_err(), "it cannot fit"); {r.canon('m', '&[]')}''', f'{r.path}: splice of an endless source ({what}) over {b}..{e} of {L} overflows and empties the message')
                    cap = max(r.units(L), r.units(L - e + b + 3))
                    P = f'p: [u8; {L}], q: [u8; 3], g: u8, s: u8, w: [{r.unit}; {cap}]'
                    for hv in ('usize::MAX', 'usize::MAX - 1', f'usize::MAX / {r.per} * {r.per}'):
                        t = {'usize::MAX': 'max', 'usize::MAX - 1': 'less'}.get(hv, 'whole')
                        h.root(f'{r.tag}_huge_{L}_{b}_{e}_{t}', P, f'''{mk} bf_check(m.try_splice_payload(Hint({r.iter('q[..]')}, 0, Some({hv})), {b}..{e}).is_ok(), "it fits"); {spliced(r, L, b, e, 3)}''', f'{r.path}: splice of 3 bytes with upper size hint {hv} over {b}..{e} of {L}')
    # more bytes than sixteen bits count
    for r in REPS:
        P, pre = vast(r)
        R = VAST + 2
        mask = '' if r.tag == '8' else ' & 0x7F'
        n = r.units(R)
        pre += f' let mut e = [0{r.unit}; {n}]; let mut i = 0usize; while i < {r.units(VAST)} {{ e[i] = w[i]; i += 1; }}'
        for k in range(65537, R):
            v = f'q[{k - 65537}]{mask}' if k < 65539 else f'x[1]{mask}' if k == R - 1 else '0'
            if r.tag == 'b':
                pre += f' e[{k + 1}] = {v};'
            else:
                o = 4 * r.upp * (k // r.per) + (2 if r.tag == 'u' else 3) + k % r.per
                sh = 24 - 8 * (o % 4)
                pre += f' e[{o // 4}] = (e[{o // 4}] & {0xFFFFFFFF ^ (0xFF << sh):#x}) | (({v}) as u32) << {sh};'
        if r.tag == 'b':
            pre += f' e[{R + 1}] = 0xF7;'
        else:
            assert n == r.units(VAST)
            pre += f' e[{n - r.upp}] = (e[{n - r.upp}] & 0xFFF0FFFF) | {(R - r.per * (n // r.upp - 1) + r.bias) << 16:#x};'
        h.root(f'{r.tag}_vast', 'q: [u8; 2], ' + P, f'''{pre} let mut m: {r.path}<Vec<{r.unit}>> = {r.path}::try_from(&w[..]).unwrap().rebuffer_into(); m.insert_payload({r.iter('q')}, 65537);
    let d = m.data(); bf_eq(d.len(), {n}usize, "length of the data"); i = 0; while i < {n} {{ bf_eq(d[i], e[i], "unit of the data"); i += 1; }}''', f'{r.path} over Vec: two bytes inserted before number 65537 of {VAST}')
    return [h]


def spliced(r, L, b, e, n):
    """Statements: the payload of m is p[..L] with b..e replaced by q[..n]."""
    R = L - (e - b) + n
    return (f'let mut x = [0u8; {max(R, 1)}]; for i in 0..{b}usize {{ x[i] = p[i]; }} for i in 0..{n}usize {{ x[{b} + i] = q[i]; }} '
            f'for i in {e}..{L}usize {{ x[i + {n} - {e - b}] = p[i]; }} {r.canon("m", f"&x[..{R}]")}')


def sparse(r, z):
    """Statements: w becomes a message whose packets hold z[k] bytes; p is its payload."""
    np, L = len(z), sum(z)
    pre = ''
    for k in range(np):
        st = 0 if np == 1 else 1 if k == 0 else 3 if k + 1 == np else 2
        o = r.upp * k
        pre += f'w[{o}] = (w[{o}] & {0xFF if r.tag == "8" else 0xFFFF:#x}) | {r.mt << 28 | st << 20 | (z[k] + r.bias) << 16:#x} | ((g as u32 & 15) << 24)' + (' | ((s as u32) << 8); ' if r.tag == '8' else '; ')
    if r.tag == "u":
        pre += f"for i in 0..{np}usize {{ w[2 * i] &= 0xFFFF7F7F; w[2 * i + 1] &= 0x7F7F7F7F; }} "
    pre += f'let mut p = [0u8; {max(L, 1)}]; let mut c = 0usize; '
    for k in range(np):
        pre += f'for j in 0..{z[k]}usize {{ p[c] = oct(&w, {4 * r.upp * k + (2 if r.tag == "u" else 3)} + j){" & 0x7F" if r.tag == "u" else ""}; c += 1; }} '
    return pre
