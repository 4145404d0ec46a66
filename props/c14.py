from sx import *
LEVEL = 'proof'
RULE = ('For every payload length up to the bound, all payload bytes, any previous contents and any iterator size hint: setting the payload yields exactly '
        'the canonical packets (headers, statuses, sizes, group, stream id, zero padding) holding those bytes; when the storage is too small the '
        'call reports an overflow and leaves the empty message.')
FLOOR = 1740


def hints(n):
    return [('exact', None), ('unknown', '0, None'), ('lower', f'{n // 2}, None'), ('upper', f'0, Some({n + 3})')]


def harness(tier):
    h = Harness('C14')
    h.raw(RUST)
    top = {'u': 19, 'b': 10, '8': 40} if tier == 'quick' else {'u': 40, 'b': 24, '8': 66}
    for r in REPS:
        lens = [n for n in range(top[r.tag] + 1) if r.tag != '8' or tier != 'quick' or n < 3 or n % 13 in (0, 1, 2, 12)]
        for n in lens:
            P = f'p: [u8; {max(n, 1)}], g: u8, s: u8'
            for hn, hint in hints(n):
                it = r.iter(f'p[..{n}]')
                if hint:
                    it = f'Hint({it}, {hint})'
                # a growable vector, new message
                h.root(f'{r.tag}_vec_{n}_{hn}', P, f'''let mut m = {r.path}::<Vec<{r.unit}>>::new(); {r.ids()}
    m.set_payload({it}); {r.canon('m', f'&p[..{n}]')}''', f'{r.path} over Vec<{r.unit}>: set_payload of any {n} bytes, {hn} size hint')
                # a fixed buffer exactly large enough with anything in it before
                size = r.units(n)
                if hn == 'exact':
                    for k, hv in (('most', 'usize::MAX'), ('thirteens', 'usize::MAX / 13 * 13'), ('sixes', 'usize::MAX / 6 * 6')):
                        for t, hh in (('any', f'0, Some({hv})'), ('unbounded', f'{n}, None')):
                            if t == 'any' or k == 'most':
                                h.root(f'{r.tag}_huge_{n}_{k}_{t}', P + f', w: [{r.unit}; {max(size, r.units(0)) + 1}]', f'''let mut m = {r.path}::try_new_with_buffer(Buf(w)).unwrap(); {r.ids()}
    bf_check(m.try_set_payload(Hint({it}, {hh})).is_ok(), "it fits"); {r.canon('m', f'&p[..{n}]')}''', f'{r.path}: try_set_payload of any {n} bytes with size hint ({hh})')
                ms = max(size, r.units(0))
                if hn in ('exact', 'upper', 'unknown'):
                    for extra in (0, 1, 5):
                        h.root(f'{r.tag}_buf{extra}_{n}_{hn}', P + f', w: [{r.unit}; {ms + extra}]', f'''let mut m = {r.path}::try_new_with_buffer(Buf(w)).unwrap(); {r.ids()}
    bf_check(m.try_set_payload({it}).is_ok(), "it fits"); {r.canon('m', f'&p[..{n}]')}''',
                               f'{r.path}: try_set_payload of any {n} bytes into a used buffer of {ms + extra} units, {hn} size hint')
                if size > r.units(0):
                    small = size - 1
                    h.root(f'{r.tag}_small_{n}_{hn}', P + f', w: [{r.unit}; {small}]', f'''let mut m = {r.path}::try_new_with_buffer(Buf(w)).unwrap(); {r.ids()}
    bf_check(m.try_set_payload({it}).is_err(), "it cannot fit"); {r.canon('m', '&[]')}''',
                           f'{r.path}: try_set_payload of any {n} bytes into {small} units fails and leaves an empty message, {hn} size hint')
        # a new message, whatever its storage held
        u0 = r.units(0)
        for size in sorted({u0, u0 + 1, 2 * u0, 2 * u0 + 1, 4 * u0}):
            for kind, mk in (('buf', f'{r.path}::try_new_with_buffer(Buf(w)).unwrap()'), ('slice', f'{r.path}::try_new_with_buffer(&mut w[..]).unwrap()'), ('vec', f'{r.path}::new_with_buffer(w.to_vec())'), ('array', f'{r.path}::<[{r.unit}; {size}]>::new()'), ('grow', f'{r.path}::try_new_with_buffer(Grow(w, {u0})).unwrap()')):
                h.root(f'{r.tag}_new_{kind}_{size}', f'g: u8, s: u8, mut w: [{r.unit}; {size}]', f'let mut m = {mk}; {r.canon("m", "&[]", True, "0, 0")} {r.ids()} {r.canon("m", "&[]", True)} bf_eq(m.payload_size(), 0usize, "no payload");', f'{r.path}: a new message over {kind} of {size} used units')
            for kind, mk in (('tryarray', f'{r.path}::<[{r.unit}; {size}]>::try_new().unwrap()'), ('trygrow', f'{r.path}::<Grow<{r.unit}, {size}>>::try_new().unwrap()'), ('own', f'{r.path}::<Vec<{r.unit}>>::new()')):
                h.root(f'{r.tag}_new_{kind}_{size}', 'g: u8, s: u8', f'let mut m = {mk}; {r.canon("m", "&[]", True, "0, 0")} {r.ids()} {r.canon("m", "&[]", True)} bf_eq(m.payload_size(), 0usize, "no payload");', f'{r.path}: a new message, {kind} of {size} units')
            h.root(f'{r.tag}_new_vecref_{size}', f'g: u8, s: u8, w: [{r.unit}; {size}]', f'let mut v = w.to_vec(); {{ let mut m = {r.path}::new_with_buffer(&mut v); {r.canon("m", "&[]", True, "0, 0")} {r.ids()} {r.canon("m", "&[]", True)} }} let m = {r.path}::try_from(&v[..]).unwrap(); {r.canon("m", "&[]", True)}', f'{r.path}: a new message in a borrowed vector of {size} used units')
        for size in range(u0):
            h.root(f'{r.tag}_trysmall_{size}', '', f'bf_check({r.path}::<[{r.unit}; {size}]>::try_new().is_err(), "no room"); bf_check({r.path}::<Grow<{r.unit}, {size}>>::try_new().is_err(), "no room");', f'{r.path}: no new message in {size} units')
            h.root(f'{r.tag}_newsmall_{size}', f'mut w: [{r.unit}; {size}]', f'bf_check({r.path}::try_new_with_buffer(Buf(w)).is_err(), "no room"); bf_check({r.path}::try_new_with_buffer(&mut w[..]).is_err(), "no room");', f'{r.path}: no new message in {size} units')
        # hundreds of bytes
        for n in (255, 256, 300) if tier == 'quick' else (127, 128, 255, 256, 257, 300, 600, 1024, 1500):
            P = 'x: [u8; 4], g: u8, s: u8'
            for hn, hint in hints(n) if n != 255 else hints(n)[:2]:
                it = r.iter('p') if not hint else f'Hint({r.iter("p")}, {hint})'
                h.root(f'{r.tag}_long_vec_{n}_{hn}', P, f"""{longer('p', n, 'x')} let mut m = {r.path}::<Vec<{r.unit}>>::new(); {r.ids()}
    m.set_payload({it}); {r.canon('m', '&p')} bf_eq(m.payload_size(), {n}usize, "payload_size"); m.set_payload({r.iter('p[..3]')}); {r.canon('m', '&p[..3]')} m.set_payload({it}); {r.canon('m', '&p')}""", f'{r.path} over Vec: set_payload of {n} bytes, {hn} size hint')
                h.root(f'{r.tag}_long_buf_{n}_{hn}', P + f', v: {r.unit}', f"""{longer('p', n, 'x')} let mut m = {r.path}::try_new_with_buffer(Buf([v; {r.units(n) + 1}])).unwrap(); {r.ids()}
    bf_check(m.try_set_payload({it}).is_ok(), "it fits"); {r.canon('m', '&p')}""", f'{r.path} over a used buffer: try_set_payload of {n} bytes, {hn} size hint')
                h.root(f'{r.tag}_long_over_{n}_{hn}', P + f', v: {r.unit}', f"""{longer('p', n, 'x')} let mut m = {r.path}::try_new_with_buffer(Buf([v; {r.units(n) - 1}])).unwrap(); {r.ids()}
    bf_check(m.try_set_payload({it}).is_err(), "it cannot fit"); {r.canon('m', '&[]')}""", f'{r.path} over a used buffer: try_set_payload of {n} bytes overflows, {hn} size hint')
        # more packets than fit an octet
        if r.tag != 'b':
            n = 257 * r.per + 2
            h.root(f'{r.tag}_huge', 'x: [u8; 4], g: u8, s: u8', f'''{longer('p', n, 'x')} let mut m = {r.path}::<Vec<u32>>::new(); {r.ids()} m.set_payload({r.iter('p')}); {r.canon('m', '&p')} bf_eq(m.payload_size(), {n}usize, "payload_size"); m.set_payload({r.iter('p[..3]')}); {r.canon('m', '&p[..3]')}''', f'{r.path} over Vec: set_payload of {n} bytes')
        # more bytes than sixteen bits count
        val = lambda i: f'if i == 0 {{ x[0] }} else if i == {VAST - 1} {{ x[1] }} else if i == 65536 {{ x[2] }} else {{ 0 }}'
        P, pre = vast(r)
        for t, src in (('exact', f'(0..{VAST}usize).map(|i| {r.mk}({val(0)}))'), ('lower', f'Hint((0..{VAST}usize).map(|i| {r.mk}({val(0)})), 65536, None)'))[:1 if tier == 'quick' else 2]:
            h.root(f'{r.tag}_vast_{t}', P, f'''{pre} let mut m = {r.path}::<Vec<{r.unit}>>::new(); {r.ids()} m.set_payload({src});
    let d = m.data(); bf_eq(d.len(), {r.units(VAST)}usize, "length of the data"); let mut i = 0usize; while i < {r.units(VAST)} {{ bf_eq(d[i], w[i], "unit of the data"); i += 1; }}''', f'{r.path} over Vec: set_payload of {VAST} bytes, {t} size hint')
        # sources without an end
        for units in sorted({r.units(0), r.units(1) + 1, r.units(r.per) + r.upp, r.units(2 * r.per) + 1}):
            for src, what in ((f'core::iter::repeat({r.mk}(x))', 'repeat'), (f'core::iter::repeat({r.mk}(x)).filter(|_| true)', 'filter'), (f'core::iter::repeat({r.mk}(x)).take(usize::MAX)', 'take'), (f'core::iter::repeat({r.mk}(x)).take(usize::MAX - 2)', 'take2')):
                for b, mk in (('buf', 'Buf(w)'), ('slice', '&mut w[..]'), ('grow', f'Grow(w, {r.units(0)})')):
                    h.root(f'{r.tag}_endless_{units}_{what}_{b}', f'x: u8, g: u8, s: u8, mut w: [{r.unit}; {units}]', f'''let mut m = {r.path}::try_new_with_buffer({mk}).unwrap(); {r.ids()}
    bf_check(m.try_set_payload({src}).is_err(), "it cannot fit"); {r.canon('m', '&[]')}''', f'{r.path} over {b} of {units} units: try_set_payload of an endless source ({what}) fails and leaves an empty message')
        # replacing an earlier payload
        pairs = {'u': (0, 1, 5, 6, 7, 12, 13, 18), 'b': (0, 1, 2, 3, 6, 9), '8': (0, 1, 12, 13, 14, 26, 27)}[r.tag]
        for a in pairs:
            for b in pairs:
                P = f'p: [u8; {max(b, 1)}], q: [u8; {max(a, 1)}], g: u8, s: u8'
                first, it = r.iter(f'q[..{a}]'), r.iter(f'p[..{b}]')
                big = max(r.units(a), r.units(b))
                h.root(f'{r.tag}_again_vec_{a}_{b}', P, f"""let mut m = {r.path}::<Vec<{r.unit}>>::new(); {r.ids()} m.set_payload({first});
    m.set_payload({it}); {r.canon('m', f'&p[..{b}]')}""", f'{r.path} over Vec: set_payload of any {b} bytes in place of {a} bytes')
                h.root(f'{r.tag}_again_grow_{a}_{b}', P + f', w: [{r.unit}; {big}]', f"""let mut m = {r.path}::try_new_with_buffer(Grow(w, {r.units(0)})).unwrap(); {r.ids()} m.try_set_payload({first}).unwrap();
    bf_check(m.try_set_payload({it}).is_ok(), "it fits"); {r.canon('m', f'&p[..{b}]')}""", f'{r.path} over a growing used buffer: try_set_payload of any {b} bytes in place of {a} bytes')
                h.root(f'{r.tag}_again_arr_{a}_{b}', P, f"""let mut m = {r.path}::<[{r.unit}; {big}]>::new(); {r.ids()} m.try_set_payload({first}).unwrap();
    bf_check(m.try_set_payload({it}).is_ok(), "it fits"); {r.canon('m', f'&p[..{b}]')}""", f'{r.path} over an array: try_set_payload of any {b} bytes in place of {a} bytes')
                if r.units(b) > r.units(a):
                    h.root(f'{r.tag}_again_full_{a}_{b}', P + f', w: [{r.unit}; {r.units(b) - 1}]', f"""let mut w = w; let mut m = {r.path}::try_new_with_buffer(&mut w[..]).unwrap(); {r.ids()} m.try_set_payload({first}).unwrap();
    bf_check(m.try_set_payload({it}).is_err(), "it cannot fit"); {r.canon('m', '&[]')}""", f'{r.path} over a slice: try_set_payload of any {b} bytes in place of {a} bytes overflows and empties the message')
    return [h]
