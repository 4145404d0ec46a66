from harness import *
import zoo
LEVEL = 'proof'
RULE = ('For every buffer type the library provides (slices, mutable slices, arrays, vectors, borrowed vectors) over both units, every listed length and all contents: buffer() and '
        'buffer_mut() are exactly the contents and nothing else; a resize keeps what is common to both sizes and zeroes what is new; a fallible resize fails exactly when there is no '
        'room and changes nothing; a default buffer is zero; conversions keep every unit, zero the rest, and fail exactly when there is no room. A message over a borrowed vector leaves its words in that vector.')
FLOOR = 1080
RUST = '''
use midi2::buffer::*;
pub fn view<B: Buffer>(b: &B) -> &[B::Unit] { b.buffer() }
pub fn view_mut<B: BufferMut>(b: &mut B) -> &mut [B::Unit] { b.buffer_mut() }
pub fn grow<B: BufferResize>(b: &mut B, n: usize) { b.resize(n) }
pub fn try_grow<B: BufferTryResize>(b: &mut B, n: usize) -> Result<(), error::BufferOverflow> { b.try_resize(n) }
pub fn dflt<B: BufferDefault>() -> B { B::default() }
'''


def harness(tier):
    h = Harness('C07')
    q = tier == 'quick'
    h.raw(RUST)
    top = 5 if q else 9
    for u in ('u32', 'u8'):
        lens = range(top + 1)
        holders = {  # name: (statement making `b` of the units of w, type)
            'slice': ('let b = &w[..];', False), 'mutslice': ('let mut b = &mut w[..];', True), 'array': ('let mut b = w;', True),
            'vec': ('let mut b: Vec<%s> = w.to_vec();' % u, True), 'vecref': ('let mut v: Vec<%s> = w.to_vec(); let mut b = &mut v;' % u, True)}
        for n in lens:
            P = f'x: {u}, mut w: [{u}; {n}]'
            for nm, (mk, mut) in holders.items():
                same = f'bf_eq(view(&b).len(), {n}usize, "length"); for i in 0..{n}usize {{ bf_eq(view(&b)[i], c[i], "contents"); }}'
                body = f'let c = w; {mk} {same}'
                if mut:
                    body += f' bf_eq(view_mut(&mut b).len(), {n}usize, "length for writing"); for i in 0..{n}usize {{ bf_eq(view_mut(&mut b)[i], c[i], "contents for writing"); }}'
                    if n:
                        body += f' for k in 0..{n}usize {{ view_mut(&mut b)[k] = x; for i in 0..{n}usize {{ bf_eq(view(&b)[i], if i <= k {{ x }} else {{ c[i] }}, "what was written"); }} }}'
                h.root(f'{u}_{nm}_{n}', P, body, f'{nm} of {n} {u}: contents')
                for t in lens if nm in ('vec', 'vecref') else ():
                    h.root(f'{u}_{nm}_{n}_to{t}', P, f'let c = w; {mk} grow(&mut b, {t}); bf_eq(view(&b).len(), {t}usize, "size asked for"); for i in 0..{t}usize {{ bf_eq(view(&b)[i], if i < {n} {{ c[i] }} else {{ 0 }}, "kept, or zero"); }}', f'{nm} of {n} {u} resized to {t}')
                if nm in ('mutslice', 'array'):
                    for t in (*range(top + 3), '1usize << 40', 'usize::MAX'):
                        fits = isinstance(t, int) and t <= n
                        tag = t if isinstance(t, int) else 'max' if 'MAX' in t else 'huge'
                        body = f'let c = w; {mk} let r = try_grow(&mut b, {t}); bf_check(r.is_ok() == {str(fits).lower()}, "succeeds exactly when there is room");'
                        body += f' bf_check(view(&b).len() >= {t if fits else n}usize && view(&b).len() <= {n}usize, "size"); for i in 0..{t if fits else n}usize {{ bf_eq(view(&b)[i], c[i], "contents kept"); }}'
                        h.root(f'{u}_{nm}_{n}_try{tag}', P, body, f'{nm} of {n} {u}: fallible resize to {t}')
            h.root(f'{u}_default_{n}', P, f'let b: [{u}; {n}] = dflt(); bf_eq(view(&b).len(), {n}usize, "length"); for i in 0..{n}usize {{ bf_eq(b[i], 0, "zero"); }}', f'default array of {n} {u}')
            # conversions
            src = {'slice': '&w[..]', 'mutslice': '&mut w[..]', 'vec': 'w.to_vec()'}
            for nm, e in src.items():
                for t in range(top + 1):
                    body = f'let c = w; let r: Result<[{u}; {t}], error::BufferOverflow> = TryFromBuffer::try_from_buffer({e}); '
                    into = f'let r: Result<[{u}; {t}], error::BufferOverflow> = TryIntoBuffer::try_into_buffer({e.replace("w", "c2")}); '
                    ok = (f'match r {{ Ok(b) => {{ bf_eq(b.len(), {t}usize, "length"); for i in 0..{t}usize {{ bf_eq(b[i], if i < {n} {{ c[i] }} else {{ 0 }}, "contents, then zero"); }} }} Err(_) => bf_check(false, "it fits") }}' if t >= n else 'bf_check(r.is_err(), "it does not fit");')
                    h.root(f'{u}_{nm}_{n}_array{t}', P, f'let mut c2 = w; {body}{ok} {into}{ok} if false {{ c2 = c; }}', f'{nm} of {n} {u} into an array of {t}')
            for nm, e in [('array', 'w'), ('slice', '&w[..]'), ('mutslice', '&mut w[..]')]:
                same = f'bf_eq(b.len(), {n}usize, "length"); for i in 0..{n}usize {{ bf_eq(b[i], c[i], "contents"); }}'
                h.root(f'{u}_{nm}_{n}_into_vec', P, f'let c = w; let mut c2 = w; let b: Vec<{u}> = FromBuffer::from_buffer({e}); {same} let b: Vec<{u}> = IntoBuffer::into_buffer({e.replace("w", "c2")}); {same} if false {{ c2 = c; }}', f'{nm} of {n} {u} into a vector')
            same = f'bf_eq(b.len(), {n}usize, "length"); for i in 0..{n}usize {{ bf_eq(b[i], c[i], "contents"); }}'
            h.root(f'{u}_mutslice_{n}_into_slice', P, f'let c = w; let b: &[{u}] = FromBuffer::from_buffer(&mut w[..]); {same}', f'mutable slice of {n} {u} as a slice')
        h.root(f'{u}_default_vec', 'x: u8', f'let b: Vec<{u}> = dflt(); bf_eq(view(&b).len(), 0usize, "empty");', f'default vector of {u}')
    # long buffers
    for u in ('u32', 'u8'):
        for n, t in ((17, 40), (40, 17), (64, 65), (300, 20), (20, 300), (300, 300), (257, 513)) + ((65540, 65600), (65600, 65540)):
            far = n > 1000
            # everything for lengths in reach, else a few places
            P = f'x: {u}, ' + (f'p: [{u}; 4]' if far else f'w: [{u}; {n}]')
            mk = f'let mut w = [7 as {u}; {n}]; w[0] = p[0]; w[255] = p[1]; w[65536] = p[2]; w[{n - 1}] = p[3];' if far else ''
            eq = lambda b, k, what, rest=False: f'bf_eq({b}.len(), {t if rest else k}usize, "length"); let mut i = 0usize; while i < {t if rest else k} {{ bf_eq({b}[i], if i < {k} {{ c[i] }} else {{ 0 }}, "{what}"); i += 1; }}'
            k = min(n, t)
            d = f'of {n} {u}'
            tag = f'{u}_long_{n}_{t}' if not far else f'{u}_vast_{n}_{t}'
            h.root(f'{tag}_vec', P, f'{mk} let c = w; let mut b: Vec<{u}> = w.to_vec(); {eq("view(&b)", n, "contents")} grow(&mut b, {t}); {eq("view(&b)", k, "kept, or zero", True)} view_mut(&mut b)[{t - 1}] = x; bf_eq(view(&b)[{t - 1}], x, "what was written");', f'vec {d}: resize to {t}')
            h.root(f'{tag}_vecref', P, f'{mk} let c = w; let mut v: Vec<{u}> = w.to_vec(); {{ let mut b = &mut v; {eq("view(&b)", n, "contents")} grow(&mut b, {t}); view_mut(&mut b)[{t - 1}] = 0; view_mut(&mut b)[{t - 1}] = {f"c[{t - 1}]" if t <= n else "0"}; }} {eq("v", k, "kept, or zero", True)}', f'borrowed vector {d}: resize to {t}')
            for nm, m in (('mutslice', '&mut w[..]'), ('array', 'w')):
                h.root(f'{tag}_{nm}', P, f'{mk} let mut w = w; let c = w; let mut b = {m}; {eq("view(&b)", n, "contents")} let r = try_grow(&mut b, {t}); bf_check(r.is_ok() == {str(t <= n).lower()}, "succeeds exactly when there is room"); bf_check(view(&b).len() >= {t if t <= n else n}usize && view(&b).len() <= {n}usize, "size"); i = 0; while i < {t if t <= n else n} {{ bf_eq(view(&b)[i], c[i], "contents kept"); i += 1; }} view_mut(&mut b)[{t if t < n else n - 1}] = x; bf_eq(view(&b)[{t if t < n else n - 1}], x, "what was written");'.replace('let mut b = &mut w[..]; bf_eq', 'let mut b = &mut w[..]; bf_eq'), f'{nm} {d}: fallible resize to {t}')
            for nm, e in (('slice', '&w[..]'), ('mutslice', '&mut w[..]'), ('vec', 'w.to_vec()')):
                ok = f'match r {{ Ok(b) => {{ {eq("b", n, "contents, then zero", True)} }} Err(_) => bf_check(false, "it fits") }}' if t >= n else 'bf_check(r.is_err(), "it cannot fit");'
                h.root(f'{tag}_{nm}_array', P, f'{mk} let mut w = w; let c = w; w[0] = c[0]; let r: Result<[{u}; {t}], error::BufferOverflow> = TryFromBuffer::try_from_buffer({e}); {ok}', f'{nm} {d} into an array of {t}')
            for nm, e in (('array', 'w'), ('slice', '&w[..]'), ('mutslice', '&mut w[..]')):
                h.root(f'{tag}_{nm}_vec', P, f'{mk} let mut w = w; let c = w; w[0] = c[0]; let b: Vec<{u}> = FromBuffer::from_buffer({e}); {eq("b", n, "contents")}', f'{nm} {d} into a vector')
            h.root(f'{tag}_default', '', f'let b: [{u}; {t}] = dflt(); bf_eq(view(&b).len(), {t}usize, "length"); let mut i = 0usize; while i < {t} {{ bf_eq(b[i], 0, "zero"); i += 1; }}', f'default array of {t} {u}')
    # messages over vectors someone else owns
    for m in spec.actual_sizes(spec.FIXED):
        if m.name == 'FunctionBlockDiscovery':
            continue    # its size is a known finding of C03
        for u in ('u32', 'u8') if m.nbytes else ('u32',):
            n = m.words if u == 'u32' else m.nbytes
            T = m.path
            grp = 'm.set_group(u4::new(g & 15));' if u == 'u32' and any(f.name == 'group' for f in m.fields) else 'm.set_channel(u4::new(g & 15));' if any(f.name == 'channel' for f in m.fields) else ''
            for have in (0, n, n + 2):
                body = f'let mut v: Vec<{u}> = w.to_vec(); let mut want = [0{u}; {n}]; {{ let mut m = {T}::new_with_buffer(&mut v); {grp} bf_eq(m.data().len(), {n}usize, "length of the data"); want.copy_from_slice(m.data()); }} bf_check(v.len() >= {n}, "the vector holds the message"); for i in 0..{n}usize {{ bf_eq(v[i], want[i], "the vector holds the message"); }} let m = {T}::try_from(&v[..]).unwrap(); for i in 0..{n}usize {{ bf_eq(m.data()[i], want[i], "parses as what was built"); }} let mut fresh = {T}::<Vec<{u}>>::new(); {grp.replace("m.", "fresh.")} for i in 0..{n}usize {{ bf_eq(fresh.data()[i], want[i], "as in a vector of its own"); }}'
                h.root(f'ref_{m.id}_{u}_{have}', f'g: u8, w: [{u}; {have}]', body, f'{T} over a borrowed vector of {have} {u}')
    return [h]
