from harness import *
LEVEL = 'proof'
RULE = ('For the MIDI-CI discovery query of either version: it parses exactly when the slice starts with one complete system exclusive message with the discovery '
        'header of that version and at least its size; a new message is exactly the header with every field zero, whatever the storage held; each field reads and writes '
        'exactly its own 7-bit bytes; nothing panics.')
FLOOR = 430
T = 'ci::DiscoveryQuery'
# name, first byte, bytes, kind
FIELDS = [('source', 6, 4, 'u28'), ('device_manufacturer', 14, 3, 'bytes'), ('device_family', 17, 2, 'u14'), ('model_number', 19, 2, 'u14'), ('software_version', 21, 4, 'bytes'),
          ('process_inquiry_supported', 25, 0x10, 'bit'), ('property_exchange_supported', 25, 0x08, 'bit'), ('profile_configuration_supported', 25, 0x04, 'bit'),
          ('protocol_negotiation_supported', 25, 0x02, 'bit'), ('max_sysex_size', 26, 4, 'u28'), ('output_path_id', 30, 1, 'u7')]
RUST = '''
use midi2::ci::{Ci, DeviceId};
fn num<const N: usize>(w: &[u8], at: usize) -> u32 { let mut v = 0u32; for i in 0..N { v |= ((w[at + i] & 0x7F) as u32) << (7 * i); } v }
fn put<const N: usize>(w: &mut [u8], at: usize, v: u32) { for i in 0..N { w[at + i] = ((v >> (7 * i)) & 0x7F) as u8; } }
fn header(w: &mut [u8], version: u8, size: usize) { w[0] = 0xF0; w[1] = 0x7E; w[2] = 0x7F; w[3] = 0x0D; w[4] = 0x70; w[5] = version; for i in 10..14 { w[i] = 0x7F; } w[size - 1] = 0xF7; }
fn has_header(w: &[u8], version: u8) -> bool { w[0] == 0xF0 && w[1] == 0x7E && w[2] == 0x7F && w[3] == 0x0D && w[4] == 0x70 && w[5] == version && w[10] & 0x7F == 0x7F && w[11] & 0x7F == 0x7F && w[12] & 0x7F == 0x7F && w[13] & 0x7F == 0x7F }
'''


def get(m, f):
    nm, at, n, k = f
    return {'u28': f'u32::from({m}.{nm}())', 'u14': f'u16::from({m}.{nm}()) as u32', 'u7': f'u8::from({m}.{nm}()) as u32', 'bit': f'{m}.{nm}() as u32',
            'bytes': f'{{ let x = {m}.{nm}(); let mut v = 0u32; for i in 0..{n}usize {{ v |= (u8::from(x[i]) as u32) << (7 * i); }} v }}'}[k]


def want(f):
    nm, at, n, k = f
    return f'((w[{at}] & {n:#x}) != 0) as u32' if k == 'bit' else f'num::<{n}>(&w[..], {at})'


def sett(f):
    nm, at, n, k = f
    bits = {'u28': 28, 'u14': 14, 'u7': 7, 'bit': 1, 'bytes': 7 * n}[k]
    arg = {'u28': 'u28::new(v)', 'u14': 'u14::new(v as u16)', 'u7': 'u7::new(v as u8)', 'bit': 'v != 0',
           'bytes': '[' + ', '.join(f'u7::new(((v >> {7 * i}) & 0x7F) as u8)' for i in range(n if k == 'bytes' else 0)) + ']'}[k]
    put = f'w[{at}] = (w[{at}] & {0xFF ^ n:#x}) | if v != 0 {{ {n:#x} }} else {{ 0 }};' if k == 'bit' else f'put::<{n}>(&mut w[..], {at}, v);'
    return f'let v = v & {(1 << bits) - 1:#x};', f'm.set_{nm}({arg});', put


def harness(tier):
    h = Harness('C21')
    q = tier == 'quick'
    h.raw(RUST)
    # parsing
    for ver, size in ((1, 31), (2, 32)):
        for n in range(0, 36 if q else 44):
            body = f'''let mut end = 0usize;
    for k in 0..{n}usize {{ if end == 0 && k > 0 && w[k] == 0xF7 {{ end = k; }} }}
    let good = {f'end + 1 >= {size} && has_header(&w[..], {ver})' if n >= size else 'false'};
    match {T}::<{ver}, _>::try_from(&w[..{n}]) {{
        Ok(m) => {{ {'bf_cover("accepted"); ' if n >= size else ''}bf_check(good, "a message which is not well formed is refused"); if good {{ let d = m.data(); bf_eq(d.len(), end + 1, "length of the data"); for k in 0..{n}usize {{ if k <= end {{ bf_eq(d[k], w[k], "data"); }} }} }} }}
        Err(_) => {{ bf_cover("refused"); bf_check(!good, "a well formed message is accepted"); }}
    }}'''
            h.root(f'parse_{ver}_{n}', f'w: [u8; {max(n, 1)}]', body, f'{T}::<{ver}, _>::try_from of any {n} bytes', cover=False)
    for ver in (0, 3, 0x7F):
        for n in range(0, 36):
            h.root(f'other_{ver}_{n}', f'w: [u8; {max(n, 1)}]', f'let r = {T}::<{ver}, _>::try_from(&w[..{n}]); bf_check(r.is_err() || {n} > 5 && w[{min(5, max(n - 1, 0))}] == {ver}, "carries the version asked for");', f'{T}::<{ver}, _>::try_from of any {n} bytes: no panic')
    for ver, size in ((1, 31), (2, 32)):
        fields = [f for f in FIELDS if ver == 2 or f[0] != 'output_path_id']
        # reading: any contents of the field bytes, also of bytes above 0x7F other than the end byte
        for extra in (0, 2):
            n = size + extra
            pre = f'let mut w = w; header(&mut w[..], {ver}, {size}); for i in 0..{size - 1}usize {{ bf_assume(w[i] != 0xF7); }} let m = {T}::<{ver}, _>::try_from(&w[..]).unwrap();'
            for f in fields:
                h.root(f'get_{ver}_{extra}_{f[0]}', f'w: [u8; {n}]', f'{pre} bf_eq({get("m", f)}, {want(f)}, "{f[0]}");', f'version {ver}: {f[0]}() of any message followed by {extra} bytes')
                h.root(f'getv_{ver}_{extra}_{f[0]}', f'w: [u8; {n}]', f'{pre} let m: {T}<{ver}, Vec<u8>> = m.rebuffer_into(); bf_eq({get("m", f)}, {want(f)}, "{f[0]}");', f'version {ver}: {f[0]}() of any message followed by {extra} bytes, in a vector')
            h.root(f'ci_{ver}_{extra}', f'w: [u8; {n}]', f'{pre} bf_eq(u32::from(m.destination()), 0xFFFFFFF, "destination"); bf_check(m.device_id() == DeviceId::FunctionBlock, "device id");', f'version {ver}: destination and device id')
            h.root(f'payload_{ver}_{extra}', f'w: [u8; {n}]', f'{pre} bf_eq(m.payload_size(), {size - 2}usize, "payload size"); let mut i = 0; for b in m.payload() {{ bf_eq(u8::from(b), w[1 + i] & 0x7F, "payload"); i += 1; }} bf_eq(i, {size - 2}usize, "payload length");', f'version {ver}: payload')
            for t, tgt in (('arr', f'[u8; {n}]'), ('vec', 'Vec<u8>')):
                how = f'let m: {T}<{ver}, {tgt}> = m.rebuffer_into();' if t == 'vec' else f'let m: {T}<{ver}, {tgt}> = m.try_rebuffer_into().unwrap();'
                h.root(f'rebuf_{ver}_{extra}_{t}', f'w: [u8; {n}]', f'{pre} let c = m.clone(); {how} bf_eq(m.data().len(), {size}usize, "length"); for i in 0..{size}usize {{ bf_eq(m.data()[i], w[i], "data"); }} bf_check(c == {T}::<{ver}, _>::try_from(&w[..]).unwrap(), "clone");', f'version {ver}: rebuffer into {tgt}')
            h.root(f'rebuf_{ver}_{extra}_small', f'w: [u8; {n}]', f'{pre} let r: Result<{T}<{ver}, [u8; {size - 1}]>, _> = m.try_rebuffer_into(); bf_check(r.is_err(), "does not fit");', f'version {ver}: rebuffer into too small an array')
        # writing
        for f in fields:
            lim, call, put = sett(f)
            for t, tgt in (('arr', f'[u8; {size}]'), ('vec', 'Vec<u8>')):
                how = f'let mut m: {T}<{ver}, {tgt}> = m.{"try_" if t != "vec" else ""}rebuffer_into(){".unwrap()" if t != "vec" else ""};'
                h.root(f'set_{ver}_{t}_{f[0]}', f'v: u32, w: [u8; {size}]', f'let mut w = w; header(&mut w[..], {ver}, {size}); for i in 0..{size - 1}usize {{ w[i] = if i == 0 {{ 0xF0 }} else {{ w[i] & 0x7F }}; }} {lim} let m = {T}::<{ver}, _>::try_from(&w[..]).unwrap(); {how} {call} {put} bf_eq(m.data().len(), {size}usize, "length"); for i in 0..{size}usize {{ bf_eq(m.data()[i], w[i], "data after the write"); }} bf_eq({get("m", f)}, v, "read back"); bf_check({T}::<{ver}, _>::try_from(m.data()).is_ok(), "still well formed");', f'version {ver}: set_{f[0]} over {tgt}')
        # constructing
        chk = f'let mut w = [0u8; {size}]; header(&mut w[..], {ver}, {size}); bf_eq(m.data().len(), {size}usize, "length"); for i in 0..{size}usize {{ bf_eq(m.data()[i], w[i], "data of a new message"); }} bf_check({T}::<{ver}, _>::try_from(m.data()).is_ok(), "the library accepts its own message");'
        h.root(f'new_{ver}', '', f'let m = {T}::<{ver}, Vec<u8>>::new(); {chk}', f'version {ver}: new in a vector')
        h.root(f'try_new_{ver}_grow', '', f'let m = {T}::<{ver}, Grow<u8, {size}>>::try_new().unwrap(); {chk}', f'version {ver}: try_new in a growing buffer')
        for n in sorted({0, 1, 2, 5, 6, 30, size - 1} | set(range(size, size + (3 if q else 12)))):
            mk = 'g.to_vec()' if n else 'Vec::<u8>::new()'
            par = f'g: [u8; {n}]' if n else ''
            h.root(f'newbuf_{ver}_vec{n}', par, f'let m = {T}::<{ver}, _>::new_with_buffer({mk}); {chk}', f'version {ver}: new_with_buffer(vector of any {n} bytes)')
            h.root(f'newbuf_{ver}_vecref{n}', par, f'let mut v = {mk}; let m = {T}::<{ver}, _>::new_with_buffer(&mut v); {chk}', f'version {ver}: new_with_buffer(reference to a vector of any {n} bytes)')
            if n:
                h.root(f'trybuf_{ver}_grow{n}', f'g: [u8; 50]', f'let m = {T}::<{ver}, _>::try_new_with_buffer(Grow(g, {n})).unwrap(); {chk}', f'version {ver}: try_new_with_buffer(growing buffer of any {n} bytes)')
            if n:
                h.root(f'try_new_{ver}_arr{n}', '', f'match {T}::<{ver}, [u8; {n}]>::try_new() {{ Ok(m) => {{ bf_check({n} >= {size}, "too small"); if {n} >= {size} {{ {chk} }} }} Err(_) => bf_check({n} < {size}, "fits") }}', f'version {ver}: try_new in an array of {n}')
                for s, mk in (('buf', 'Buf(g)'), ('slice', '&mut g[..]'), ('array', 'g')):
                    h.root(f'trybuf_{ver}_{s}{n}', f'mut g: [u8; {n}]', f'match {T}::<{ver}, _>::try_new_with_buffer({mk}) {{ Ok(m) => {{ bf_check({n} >= {size}, "too small"); if {n} >= {size} {{ {chk} }} }} Err(_) => bf_check({n} < {size}, "fits") }}', f'version {ver}: try_new_with_buffer({s} of any {n} bytes)')
    return [h]
