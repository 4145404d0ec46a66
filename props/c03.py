from harness import *
LEVEL = 'proof'
RULE = ('For every fixed-size message type and every way of constructing one (arrays of several sizes, a growable vector, a caller buffer with '
        'arbitrary previous contents): the data is exactly the type header with every field at its documented default, and the library parses it back.')
FLOOR = 3050


def arr(ws, u):
    return '[' + ', '.join(f'{x:#x}{u}' for x in ws) + ']'


def harness(tier):
    h = Harness('C03')
    S = 'ump_stream::FunctionBlockDiscovery'
    for m in spec.actual_sizes(spec.FIXED):
        reps = [('w', 'u32', m.words, default_words(m))]
        if m.nbytes:
            reps.append(('b', 'u8', m.nbytes, default_bytes(m)))
        for tag, u, n, d in reps:
            want = arr(d, u)
            chk = (f'let d = m.data(); bf_eq(d.len(), {n}usize, "length"); ' + ' '.join(f'bf_eq(d[{i}], {x:#x}{u}, "unit {i}");' for i, x in enumerate(d)) +
                   f' bf_check({m.path}::try_from(d).is_ok(), "the library accepts its own message");')
            fbd = m.path == S
            for sz in ((4, 5, 8, 300) if fbd else sorted({n, n + 1, n + 4, 300})):
                h.root(f'{m.id}_{tag}_new{sz}', '', f'let m = {m.path}::<[{u}; {sz}]>::new(); {chk}', f'{m.path}::<[{u}; {sz}]>::new()')
                h.root(f'{m.id}_{tag}_trynew{sz}', '', f'match {m.path}::<[{u}; {sz}]>::try_new() {{ Ok(m) => {{ {chk} bf_cover("end"); }} Err(_) => bf_check(false, "fits"), }}',
                       f'{m.path}::<[{u}; {sz}]>::try_new()', cover=False)
            if n > 1:
                h.root(f'{m.id}_{tag}_trynew_small', '', f'bf_check({m.path}::<[{u}; {n - 1}]>::try_new().is_err(), "too small a buffer is refused");',
                       f'{m.path}::<[{u}; {n - 1}]>::try_new() fails')
                h.root(f'{m.id}_{tag}_trybuf_small', f'g: [{u}; {n - 1}]', f'bf_check({m.path}::try_new_with_buffer(Buf(g)).is_err(), "too small a buffer is refused");',
                       f'{m.path}::try_new_with_buffer(too small) fails')
            if fbd:   # see spec.actual_sizes
                continue
            h.root(f'{m.id}_{tag}_vec', '', f'let m = {m.path}::<Vec<{u}>>::new(); {chk}', f'{m.path}::<Vec<{u}>>::new()')
            h.root(f'{m.id}_{tag}_trynew_grow', '', f'match {m.path}::<Grow<{u}, {n + 1}>>::try_new() {{ Ok(m) => {{ {chk} bf_cover("end"); }} Err(_) => bf_check(false, "fits"), }} bf_check({m.path}::<Grow<{u}, {n - 1}>>::try_new().is_err(), "too small a buffer is refused");', f'{m.path}::try_new() in a growing buffer', cover=False)
            more = 3 if tier == 'quick' else 8
            for l in (*range(0, n + more), 40, 300):
                par = f'g: [{u}; {l}]' if l else ''
                mk = 'g.to_vec()' if l else f'Vec::<{u}>::new()'
                h.root(f'{m.id}_{tag}_vecbuf{l}', par, f'let m = {m.path}::new_with_buffer({mk}); {chk}', f'{m.path}::new_with_buffer(vector of any {l} units)')
                h.root(f'{m.id}_{tag}_vecref{l}', par, f'let mut v = {mk}; let m = {m.path}::new_with_buffer(&mut v); {chk}', f'{m.path}::new_with_buffer(mutable reference to a vector of any {l} units)')
                if l:
                    h.root(f'{m.id}_{tag}_grow{l}', f'g: [{u}; {max(l, n + more)}]', f'match {m.path}::try_new_with_buffer(Grow(g, {l})) {{ Ok(m) => {{ {chk} bf_cover("end"); }} Err(_) => bf_check(false, "fits"), }}',
                           f'{m.path}::try_new_with_buffer(growing buffer of {l} units)', cover=False)
            for l in (*range(n, n + more), 40, 300):
                for s, mk in (('buf', 'Buf(g)'), ('slice', '&mut g[..]'), ('array', 'g')):
                    h.root(f'{m.id}_{tag}_try{s}{l}', f'{"mut " if s == "slice" else ""}g: [{u}; {l}]', f'match {m.path}::try_new_with_buffer({mk}) {{ Ok(m) => {{ {chk} bf_cover("end"); }} Err(_) => bf_check(false, "fits"), }}',
                           f'{m.path}::try_new_with_buffer({s} of any {l} units)', cover=False)
    h.root('fbd_size', '', f'let m = {S}::<[u32; 4]>::new(); bf_eq(m.data().len(), 4usize, "length of the data");', f'{S} is a four-word message')
    h.root('fbd_vec', '', f'let m = {S}::<Vec<u32>>::new(); bf_eq(m.data().len(), 4usize, "length of the data");', f'{S} in a vector')
    return [h]
