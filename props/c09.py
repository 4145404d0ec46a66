import zoo
from harness import *
LEVEL = 'proof'
RULE = ('For every message type, family enum and top level enum, every well-formed message of the listed shapes with any contents and any trailing data, over '
        'slices, arrays, vectors and caller supplied buffers: converting the message to another buffer keeps the variant and exactly its data; the fallible '
        'conversion reports an overflow when the data does not fit and succeeds whenever the source buffer fits.')
FLOOR = 6400
ARRAY = ('channel_voice1', 'channel_voice2', 'system_common', 'utility')


def same(x, n):
    return f'bf_eq({x}.data().len(), {n}usize, "length of the data"); {{ let d = {x}.data(); for i in 0..{n}usize {{ bf_eq(d[i], c[i], "data"); }} }}'


def harness(tier):
    h = Harness('C09')
    q = tier == 'quick'
    h.raw(zoo.RUST)
    for z in zoo.shapes(h, not q):
        u, n, T = z.unit, z.n, z.path
        for extra in ((0, 2) if z.fixed or z.n <= 8 else (2,)) if q else (0, 1, 3, 5):
            pre = f'{z.pre(extra)} let c = w; let m = {T}::try_from(&w[..]).unwrap(); bf_eq(m.data().len(), {n}usize, "length"); '
            d = f'{T} of {n} units followed by {extra}'
            P = z.params(extra)
            tot = n + extra
            ok = lambda r: f'match {r} {{ Ok(x) => {{ {same("x", n)} }} Err(_) => bf_check(false, "it fits") }}'
            no = lambda r: f'bf_check({r}.is_err(), "it cannot fit");'
            h.root(f'{z.tag}_{extra}_vec', P, f'{pre} let x: {T}<Vec<{u}>> = m.rebuffer_into(); {same("x", n)} let y: {T}<Vec<{u}>> = {T}::<Vec<{u}>>::rebuffer_from({T}::try_from(&c[..]).unwrap()); {same("y", n)}', f'{d} into a vector')
            for cap in sorted({n, tot, tot + 1} | (set() if q else {n + 1, tot + 4})):
                h.root(f'{z.tag}_{extra}_arr{cap}', P, f'{pre} let x: {T}<[{u}; {cap}]> = m.array_rebuffer_into(); {same("x", n)} let v: {T}<Vec<{u}>> = x.rebuffer_into(); {same("v", n)}', f'{d} into an array of {cap}, and on into a vector')
                if cap >= tot:
                    h.root(f'{z.tag}_{extra}_try{cap}', P, f'{pre} let r: Result<{T}<[{u}; {cap}]>, error::BufferOverflow> = m.try_rebuffer_into(); {ok("r")}', f'{d} into an array of {cap}, fallible')
                    h.root(f'{z.tag}_{extra}_vectry{cap}', P, f'{pre} let v: {T}<Vec<{u}>> = m.rebuffer_into(); let r: Result<{T}<[{u}; {cap}]>, error::BufferOverflow> = v.try_rebuffer_into(); {ok("r")}', f'{d} in a vector into an array of {cap}, fallible')
                else:
                    h.root(f'{z.tag}_{extra}_try{cap}', P, f'{pre} let r: Result<{T}<[{u}; {cap}]>, error::BufferOverflow> = m.try_rebuffer_into(); if let Ok(x) = r {{ {same("x", n)} }}', f'{d} into an array of {cap}, fallible')
            for cap in sorted({n - 1, 0, n // 2} & set(range(n))):
                h.root(f'{z.tag}_{extra}_small{cap}', P, f'{pre} let r: Result<{T}<[{u}; {cap}]>, error::BufferOverflow> = m.try_rebuffer_into(); {no("r")} let v: {T}<Vec<{u}>> = {T}::try_from(&c[..]).unwrap().rebuffer_into(); let r: Result<{T}<[{u}; {cap}]>, error::BufferOverflow> = v.try_rebuffer_into(); {no("r")}', f'{d} into an array of {cap}: overflow')
            if not z.fixed and n > z.minsize:
                # arrays the type allows but which do not hold this message: never a truncated message
                for cap in sorted({z.minsize, n - 1}):
                    h.root(f'{z.tag}_{extra}_cut{cap}', P, f'{pre} let x: {T}<[{u}; {cap}]> = m.array_rebuffer_into();', f'{d} into an array of {cap}, infallible: refused', panics=True)
            h.root(f'{z.tag}_{extra}_own', P, f'{pre} let x: {T}<[{u}; {tot}]> = m.array_rebuffer_into(); let y: {T}<Buf<{u}, {tot}>> = x.rebuffer_into(); {same("y", n)}', f'{d} into a caller supplied buffer')
            # the same through the enums
            for e, pat in z.enums():
                pre = f'{z.pre(extra)} let c = w; let m = {e}::try_from(&w[..]).unwrap();'
                v = f'bf_check(matches!(x, {pat}), "the same variant");'
                t = f'{z.tag}_{extra}_{"top" if e in ("UmpMessage", "BytesMessage") else "fam"}'
                d = f'{e} holding {T} of {n} units followed by {extra}'
                h.root(f'{t}_vec', P, f'{pre} let x: {e}<Vec<{u}>> = m.rebuffer_into(); {v} {same("x", n)}', f'{d} into a vector')
                h.root(f'{t}_try{tot}', P, f'{pre} let r: Result<{e}<[{u}; {tot}]>, error::BufferOverflow> = m.try_rebuffer_into(); match r {{ Ok(x) => {{ {v} {same("x", n)} }} Err(_) => bf_check(false, "it fits") }}', f'{d} into an array of {tot}, fallible')
                h.root(f'{t}_small', P, f'{pre} let r: Result<{e}<[{u}; {n - 1}]>, error::BufferOverflow> = m.try_rebuffer_into(); {no("r")}', f'{d} into an array of {n - 1}: overflow')
                if e not in ('UmpMessage', 'BytesMessage') and z.fam in ARRAY:
                    big = max(4, n)
                    h.root(f'{t}_arr', P, f'{pre} let x: {e}<[{u}; {big}]> = m.array_rebuffer_into(); {v} {same("x", n)} let y: {e}<Vec<{u}>> = x.rebuffer_into(); {same("y", n)}', f'{d} into an array of {big}, and on into a vector')
    # messages over mutable slices
    for m in spec.actual_sizes(spec.FIXED):
        for u in ('u32', 'u8') if m.nbytes else ('u32',):
            n = m.words if u == 'u32' else m.nbytes
            T = m.path
            for extra in (0, 3):
                if m.name == 'FunctionBlockDiscovery' and not extra:
                    continue    # its size is a known finding of C03
                grp = 'm.set_group(u4::new(g & 15));' if u == 'u32' and any(f.name == 'group' for f in m.fields) else 'm.set_channel(u4::new(g & 15));' if any(f.name == 'channel' for f in m.fields) else ''
                pre = f'let mut m = {T}::try_new_with_buffer(&mut w[..]).unwrap(); {grp} let mut c = [0{u}; {n}]; c.copy_from_slice(m.data());'
                P = f'g: u8, mut w: [{u}; {n + extra}]'
                d = f'{T} of {n} units over a mutable slice of {n + extra}'
                t = f'mut_{m.id}_{u}_{extra}'
                h.root(f'{t}_slice', P, f'{pre} let x: {T}<&[{u}]> = m.rebuffer_into(); {same("x", n)}', f'{d} as a shared slice')
                h.root(f'{t}_vec', P, f'{pre} let x: {T}<Vec<{u}>> = m.rebuffer_into(); {same("x", n)}', f'{d} into a vector')
                h.root(f'{t}_arr', P, f'{pre} let x: {T}<[{u}; {n}]> = m.array_rebuffer_into(); {same("x", n)}', f'{d} into an array')
                h.root(f'{t}_try', P, f'{pre} let r: Result<{T}<[{u}; {n + extra}]>, error::BufferOverflow> = m.try_rebuffer_into(); match r {{ Ok(x) => {{ {same("x", n)} }} Err(_) => bf_check(false, "it fits") }}', f'{d} into an array, fallible')
                h.root(f'{t}_small', P, f'{pre} let r: Result<{T}<[{u}; {n - 1}]>, error::BufferOverflow> = m.try_rebuffer_into(); bf_check(r.is_err(), "it cannot fit");', f'{d} into too small an array')
    # vectors with more room than the message takes
    for m in spec.actual_sizes(spec.FIXED):
        for u in ('u32', 'u8') if m.nbytes else ('u32',):
            n = m.words if u == 'u32' else m.nbytes
            T = m.path
            if m.name == 'FunctionBlockDiscovery':
                continue    # its size is a known finding of C03
            grp = 'm.set_group(u4::new(g & 15));' if u == 'u32' and any(f.name == 'group' for f in m.fields) else 'm.set_channel(u4::new(g & 15));' if any(f.name == 'channel' for f in m.fields) else ''
            for spare in (1, 9):
                pre = f'let mut v: Vec<{u}> = Vec::with_capacity({n + spare}); for i in 0..{n}usize {{ v.push(w[i]); }} let mut m = {T}::new_with_buffer(v); {grp} let mut c = [0{u}; {n}]; c.copy_from_slice(m.data());'
                P = f'g: u8, w: [{u}; {n}]'
                d = f'{T} of {n} units in a vector with room for {n + spare}'
                t = f'room_{m.id}_{u}_{spare}'
                h.root(f'{t}_try', P, f'{pre} let r: Result<{T}<[{u}; {n}]>, error::BufferOverflow> = m.try_rebuffer_into(); match r {{ Ok(x) => {{ {same("x", n)} }} Err(_) => bf_check(false, "it fits") }}', f'{d} into an array which just holds it')
                h.root(f'{t}_small', P, f'{pre} let r: Result<{T}<[{u}; {n - 1}]>, error::BufferOverflow> = m.try_rebuffer_into(); bf_check(r.is_err(), "it cannot fit");', f'{d} into too small an array')
                h.root(f'{t}_arr', P, f'{pre} let x: {T}<[{u}; {n}]> = m.array_rebuffer_into(); {same("x", n)}', f'{d} into an array')
                h.root(f'{t}_own', P, f'{pre} let x: {T}<Buf<{u}, {n}>> = {T}::<[{u}; {n}]>::array_rebuffer_from(m).rebuffer_into(); {same("x", n)}', f'{d} into a caller supplied buffer')
    # system exclusive messages which got shorter in their vector
    for T, u, size in (('sysex7::Sysex7', 'u32', lambda k: 2 * max(1, (k + 5) // 6)), ('sysex7::Sysex7', 'u8', lambda k: k + 2), ('sysex8::Sysex8', 'u32', lambda k: 4 * max(1, (k + 12) // 13))):
        ty = 'u8' if 'sysex8' in T else 'u7'
        val = 'p[i]' if ty == 'u8' else 'u7::new(p[i] & 0x7f)'
        for long, short in ((14, 5), (20, 13), (7, 0), (13, 12)) if q else ((14, 5), (20, 13), (7, 0), (13, 12), (40, 27), (30, 6), (27, 26), (19, 1)):
            n = size(short)
            pre = f'let mut m = {T}::<Vec<{u}>>::new(); m.set_payload((0..{long}usize).map(|i| {val})); m.set_payload((0..{short}usize).map(|i| {val})); let mut c = [0{u}; {n}]; bf_eq(m.data().len(), {n}usize, "size"); c.copy_from_slice(m.data());'
            P = f'p: [u8; {long}]'
            d = f'{T} over {u} with a payload of {short} bytes in a vector which held {long}'
            t = f'shrunk_{T[-6:].lower()}_{u}_{long}_{short}'
            h.root(f'{t}_try', P, f'{pre} let r: Result<{T}<[{u}; {n}]>, error::BufferOverflow> = m.try_rebuffer_into(); match r {{ Ok(x) => {{ {same("x", n)} }} Err(_) => bf_check(false, "it fits") }}', f'{d} into an array which just holds it')
            h.root(f'{t}_small', P, f'{pre} let r: Result<{T}<[{u}; {n - 1}]>, error::BufferOverflow> = m.try_rebuffer_into(); bf_check(r.is_err(), "it cannot fit");', f'{d} into too small an array')
            h.root(f'{t}_arr', P, f'{pre} let x: {T}<[{u}; {n}]> = m.array_rebuffer_into(); {same("x", n)}', f'{d} into an array')
    # messages of more packets than fit an octet
    for z in zoo.huge():
        u, n, T = z.unit, z.n, z.path
        if q and 'endpointname' in z.tag:
            continue
        same_ = lambda x: f'{{ let d = {x}.data(); bf_eq(d.len(), {n}usize, "length of the data"); let mut i = 0usize; while i < {n} {{ bf_eq(d[i], c[i], "data"); i += 1; }} }}'
        pre = f'{z.pre(2)} let c = w; '
        d = f'{T} of {n} units followed by 2'
        E = z.enums()[-1][0]
        h.root(f'huge_{z.tag}', z.params(2), f'{pre} let m = {T}::try_from(&w[..]).unwrap(); let v: {T}<Vec<{u}>> = m.rebuffer_into(); {same_("v")} let x: {T}<[{u}; {n}]> = v.array_rebuffer_into(); {same_("x")} let y: {T}<Buf<{u}, {n}>> = x.rebuffer_into(); {same_("y")}', f'{d}: into a vector, an array and a caller supplied buffer')
        h.root(f'huge_{z.tag}_try', z.params(2), f'{pre} let m = {T}::try_from(&w[..]).unwrap(); let r: Result<{T}<[{u}; {n + 2}]>, error::BufferOverflow> = m.try_rebuffer_into(); match r {{ Ok(x) => {{ {same_("x")} }} Err(_) => bf_check(false, "it fits") }} let r: Result<{T}<[{u}; {n - 1}]>, error::BufferOverflow> = {T}::try_from(&c[..]).unwrap().try_rebuffer_into(); bf_check(r.is_err(), "it cannot fit");', f'{d}: into arrays, fallible')
        h.root(f'huge_{z.tag}_top', z.params(2), f'{pre} let m = {E}::try_from(&w[..]).unwrap(); let v: {E}<Vec<{u}>> = m.rebuffer_into(); {same_("v")} bf_check(matches!(v, {z.enums()[-1][1]}), "the same variant"); let r: Result<{E}<[{u}; {n + 2}]>, error::BufferOverflow> = v.try_rebuffer_into(); match r {{ Ok(x) => {{ {same_("x")} }} Err(_) => bf_check(false, "it fits") }}', f'{E} holding {d}: into a vector and an array')
    return [h]
