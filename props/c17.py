import zoo
from harness import *
LEVEL = 'proof'
RULE = ('For every message type and well-formed messages of the listed shapes with any contents: converting the message into its family enum, and either of them into '
        'the top level enum, yields the variant of that type with the same data; group and channel read through the enum are those of the message; setting them on the '
        'message or through the enum changes that field in every packet and nothing else; equality of enums is that of the message held.')
FLOOR = 3850


def harness(tier):
    h = Harness('C17')
    q = tier == 'quick'
    h.raw(zoo.RUST)
    for z in zoo.shapes(h, not q):
        u, n, T = z.unit, z.n, z.path
        same = lambda x: f'bf_eq({x}.data().len(), {n}usize, "length of the data"); {{ let d = {x}.data(); for i in 0..{n}usize {{ bf_eq(d[i], c[i], "data"); }} }}'
        top = 'UmpMessage' if u == 'u32' else 'BytesMessage'
        for extra in (0, 2) if q else (0, 1, 2, 5):
            P = z.params(extra)
            pre = f'{z.pre(extra)} let c = w; let m = {T}::try_from(&w[..]).unwrap();'
            d = f'{T} of {n} units followed by {extra}'
            es = z.enums()
            for b, B in (('slice', f'&[{u}]'), ('arr', f'[{u}; {n + extra}]'), ('vec', f'Vec<{u}>')):
                mk = {'slice': '', 'arr': f'let m: {T}<{B}> = m.array_rebuffer_into();', 'vec': f'let m: {T}<{B}> = m.rebuffer_into();'}[b]
                cp = 'm.clone()'
                for e, pat in es:
                    t = 'top' if e == top else 'fam'
                    h.root(f'{z.tag}_{extra}_{b}_{t}', P, f'{pre} {mk} let k = {cp}; let x: {e}<{B}> = m.into(); bf_check(matches!(x, {pat}), "the variant of the type"); {same("x")} let y: {e}<{B}> = k.into(); bf_check(x == y, "equal"); let z = x.clone(); {same("z")}', f'{d} over {B} into {e}')
                if len(es) == 2:
                    (f, _), (e, pat) = es
                    h.root(f'{z.tag}_{extra}_{b}_via', P, f'{pre} {mk} let x: {f}<{B}> = m.into(); let x: {e}<{B}> = x.into(); bf_check(matches!(x, {pat}), "the variant of the type"); {same("x")}', f'{d} over {B} into {f} and on into {e}')
            if z.fam == 'flex_data':
                # bank and status
                for t, E in (('msg', T), ('fam', es[0][0])):
                    if t == 'msg' and z.var == 'UnknownMetadataText':
                        continue    # this type does not offer them
                    for b, mk in (('slice', ''), ('vec', f'let m: {E}<Vec<u32>> = m.rebuffer_into();'), ('arr', f'let m: {E}<[u32; {n + extra}]> = m.try_rebuffer_into().unwrap();')):
                        h.root(f'{z.tag}_{extra}_{b}_bank_{t}', P, f"""{z.pre(extra)} let c = w; let m = {E}::try_from(&w[..]).unwrap(); {mk} use flex_data::FlexDataMessage;
    bf_eq(m.status(), c[0] as u8, "status"); let k = m.bank(); bf_check(match (c[0] >> 8) as u8 {{ 0 => k == flex_data::Bank::SetupAndPerformance, 1 => k == flex_data::Bank::MetadataText, 2 => k == flex_data::Bank::PerformanceText, _ => false }}, "bank");""", f'{E} holding {d} ({b}): bank and status')
        # group and channel
        a = f'{z.params(0)}, v: u8'
        pre = f'{z.pre(0)} let c = w;'
        fam = z.enums()[0][0]
        famg = z.fam in ('channel_voice1', 'channel_voice2', 'system_common', 'flex_data')
        famc = z.fam in ('channel_voice1', 'channel_voice2')
        if z.group:
            want = f'let mut c = w; for k in 0..{n // z.packet}usize {{ c[{z.packet} * k] = (c[{z.packet} * k] & 0xF0FFFFFF) | ((v as u32 & 15) << 24); }}'
            for t, E, on in [('msg', T, True), ('fam', fam, famg)]:
                if not on:
                    continue
                h.root(f'{z.tag}_group_{t}', a, f'{pre} let m = {E}::try_from(&w[..]).unwrap(); bf_eq(u8::from(m.group()), (w[0] >> 24) as u8 & 15, "group"); let mut m: {E}<[u32; {n}]> = m.try_rebuffer_into().unwrap(); m.set_group(u4::new(v & 15)); {want} {same("m")} bf_eq(u8::from(m.group()), v & 15, "group read back");', f'{E}: group and set_group, {T} of {n} words')
                h.root(f'{z.tag}_group_{t}_vec', a, f'{pre} let mut m: {E}<Vec<u32>> = {E}::try_from(&w[..]).unwrap().rebuffer_into(); m.set_group(u4::new(v & 15)); {want} {same("m")} bf_eq(u8::from(m.group()), v & 15, "group read back");', f'{E} over a vector: set_group, {T} of {n} words')
        if z.channel:
            sh = '16' if u == 'u32' else '0'
            mask = '0xFFF0FFFFu32' if u == 'u32' else '0xF0u8'
            want = f'let mut c = w; c[0] = (c[0] & {mask}) | ((v as {u} & 15) << {sh});'
            for t, E, on in [('msg', T, True), ('fam', fam, famc)]:
                if not on:
                    continue
                h.root(f'{z.tag}_channel_{t}', a, f'{pre} let m = {E}::try_from(&w[..]).unwrap(); bf_eq(u8::from(m.channel()), (w[0] >> {sh}) as u8 & 15, "channel"); let mut m: {E}<[{u}; {n}]> = m.try_rebuffer_into().unwrap(); m.set_channel(u4::new(v & 15)); {want} {same("m")} bf_eq(u8::from(m.channel()), v & 15, "channel read back");', f'{E}: channel and set_channel, {T} of {n} units')
                h.root(f'{z.tag}_channel_{t}_vec', a, f'{pre} let mut m: {E}<Vec<{u}>> = {E}::try_from(&w[..]).unwrap().rebuffer_into(); m.set_channel(u4::new(v & 15)); {want} {same("m")} bf_eq(u8::from(m.channel()), v & 15, "channel read back");', f'{E} over a vector: set_channel, {T} of {n} units')
    for z in zoo.huge():
        if z.group:
            n, np = z.n, z.n // z.packet
            for t, E in [('msg', z.path)] + ([('fam', z.enums()[0][0])] if z.fam == 'flex_data' else []):
                h.root(f'{z.tag}_group_{t}', z.params(0) + ', v: u8', f'''{z.pre(0)} let mut m: {E}<Vec<u32>> = {E}::try_from(&w[..]).unwrap().rebuffer_into(); m.set_group(u4::new(v & 15)); let d = m.data(); bf_eq(d.len(), {n}usize, "length"); let mut k = 0usize;
    while k < {n} {{ bf_eq(d[k], if k % {z.packet} == 0 {{ (w[k] & 0xF0FFFFFF) | ((v as u32 & 15) << 24) }} else {{ w[k] }}, "word"); k += 1; }}''', f'{E} over a vector: set_group, {z.path} of {np} packets')
    # equality: messages over equal buffers are equal, and differ when a unit differs
    for m in spec.actual_sizes(spec.FIXED):
        cond = valid_words(h, m)
        n = m.words
        for e, lift in (('msg', '{}'), ('fam', f'{m.family}::{spec.AGG[m.family][0]}::from({{}})'), ('top', 'UmpMessage::from({})')):
            h.root(f'{m.id}_eq_{e}', f'a: [[u32; 2]; {n}]', f'''let mut w = [0u32; {n}]; let mut v = w; for i in 0..{n}usize {{ w[i] = a[i][0]; v[i] = a[i][1]; }} let ok = |w: &[u32; {n}]| {{ {cond} }}; bf_assume(ok(&w)); bf_assume(ok(&v));
    let a = {lift.format(f"{m.path}::try_from(&w[..]).unwrap()")}; let b = {lift.format(f"{m.path}::try_from(&v[..]).unwrap()")};
    bf_eq(a == b, w == v, "equal exactly when the data is"); bf_eq(a != b, w != v, "different exactly when the data is");''', f'{m.path}: equality ({e})')
    return [h]
