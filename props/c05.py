from harness import *
LEVEL = 'proof'
RULE = ('For every family enum, the top level UMP enum and the byte stream enum, every slice length and all contents: parsing yields the variant '
        'of the type whose header the slice carries, exactly when that type accepts the slice, and the data is that prefix of the slice.')
FLOOR = 160


def by_family():
    d = {}
    for m in spec.FIXED:
        d.setdefault(m.family, []).append(m)
    return d


def dispatch(h, fam, agg, n, wrap=None, bytes_=False):
    """Match arms giving the number of the variant, and the chain of conditions giving the expected number."""
    arms, conds = [], []
    for i, m in enumerate(by_family()[fam], 1):
        pat = f'{fam}::{agg}::{m.name}(m)'
        if wrap:
            pat = f'{wrap}({pat})'
        if bytes_ and not m.nbytes:
            continue
        nn = m.nbytes if bytes_ else m.words
        ok = 'false'
        if n >= nn:
            ok = hdr_ok('w', m.bhdr) if bytes_ else valid_words(h, m)
        dl = 1 if m.name == 'FunctionBlockDiscovery' else nn    # its size is a known finding of C03
        if n >= nn:
            arms.append(f'Ok({pat}) => {{ bf_cover("{m.name}"); bf_eq(m.data().len(), {dl}usize, "length"); for i in 0..{dl}usize {{ bf_eq(m.data()[i], w[i], "data"); }} {i} }}')
        else:
            arms.append(f'Ok({pat}) => {i},')
        conds.append(f'if {ok} {{ {i} }} else ')
    return arms, conds


def body(pre, src, n, arms, conds):
    return f'''{pre}
    let got: u32 = match {src}::try_from(&w[..{n}]) {{
        {chr(10).join('        ' + a for a in arms).strip()}
        Ok(_) => 999,
        Err(_) => {{ bf_cover("rejected"); 0 }}
    }};
    let want: u32 = {''.join(conds)}{{ 0 }};
    bf_eq(got, want, "the variant parsed");'''


def harness(tier):
    h = Harness('C05')
    extra = 1 if tier == 'quick' else 4
    fams = by_family()
    for fam, ms in fams.items():
        agg, ty = spec.AGG[fam]
        top = max(m.words for m in ms) + extra
        for wrap in (None, f'UmpMessage::{agg}'):
            src = 'UmpMessage' if wrap else f'{fam}::{agg}'
            for n in (*range(0, top + 1), 40, 300):
                arms, conds = dispatch(h, fam, agg, n, wrap)
                pre = ''
                if n and fam == 'ump_stream':    # the text messages are treated below
                    if n < 4:    # known finding of C04
                        pre = 'bf_assume((w[0] >> 16) & 0x3FF != 0x10);'
                    pre += 'let s = (w[0] >> 16) & 0x3FF; bf_assume(s != 3 && s != 4 && s != 0x12);'
                if n and fam == 'flex_data':
                    pre += 'let b = (w[0] >> 8) & 0xFF; let s = w[0] & 0xFF; bf_assume(b == 0 || b > 2 || (b == 1 && s > 0xC) || (b == 2 && s > 4));'
                if wrap and n:
                    pre += f' bf_assume(w[0] >> 28 == {ty:#x});'
                h.root(f'{fam}_{"ump_" if wrap else ""}{n}', f'w: [u32; {max(n, 1)}]', body(pre, src, n, arms, conds),
                       f'{src}::try_from of any {n} words{" of type " + hex(ty) if wrap else ""}', cover=False)
        if any(m.nbytes for m in ms):
            for wrap in (None, f'BytesMessage::{agg}'):
                src = 'BytesMessage' if wrap else f'{fam}::{agg}'
                for n in (*range(0, 4 + extra), 40, 300):
                    arms, conds = dispatch(h, fam, agg, n, wrap, True)
                    pre = ''
                    if wrap and n:
                        pre = 'bf_assume(w[0] >= 0xF0 && w[0] != 0xF0);' if fam == 'system_common' else 'bf_assume(w[0] < 0xF0);'
                    h.root(f'{fam}_{"bytes_" if wrap else "b"}{n}', f'w: [u8; {max(n, 1)}]', body(pre, src, n, arms, conds),
                           f'{src}::try_from of any {n} bytes', cover=False)
    # text messages of one packet
    ascii_ = 'for i in 1..4usize { bf_assume(w[i] & 0x80808080 == 0); }'
    for name, _, bank, st in spec.FLEX_TEXT:
        for wrap in (False, True):
            pat = f'flex_data::FlexData::{name}(m)'
            src = 'UmpMessage' if wrap else 'flex_data::FlexData'
            if wrap:
                pat = f'UmpMessage::FlexData({pat})'
            h.root(f'flextext_{name.lower()}{"_ump" if wrap else ""}', 'w: [u32; 4]', f'''bf_assume(w[0] >> 28 == 0xD && (w[0] >> 22) & 3 == 0 && w[0] & 0xFFFF == {bank << 8 | st:#x}); {ascii_}
    match {src}::try_from(&w[..]) {{
        Ok({pat}) => {{ bf_eq(m.data().len(), 4usize, "length"); for i in 0..4 {{ bf_eq(m.data()[i], w[i], "data"); }} bf_cover("end"); }}
        _ => bf_check(false, "parsed as its own type"),
    }}''', f'{src}::try_from of any one-packet {name}', cover=False)
    for name, _, st in spec.STREAM_TEXT:
        for wrap in (False, True):
            pat = f'ump_stream::UmpStream::{name}(m)'
            src = 'UmpMessage' if wrap else 'ump_stream::UmpStream'
            if wrap:
                pat = f'UmpMessage::UmpStream({pat})'
            h.root(f'streamtext_{name.lower()}{"_ump" if wrap else ""}', 'w: [u32; 4]', f'''bf_assume(w[0] >> 28 == 0xF && (w[0] >> 26) & 3 == 0 && (w[0] >> 16) & 0x3FF == {st:#x} && w[0] & 0x8080 == 0); {ascii_}
    match {src}::try_from(&w[..]) {{
        Ok({pat}) => {{ bf_eq(m.data().len(), 4usize, "length"); for i in 0..4 {{ bf_eq(m.data()[i], w[i], "data"); }} bf_cover("end"); }}
        _ => bf_check(false, "parsed as its own type"),
    }}''', f'{src}::try_from of any one-packet {name}', cover=False)
    # system exclusive messages
    for fam, agg, ty, lens in (('sysex7', 'Sysex7', 3, (1, 2, 3, 4, 6)), ('sysex8', 'Sysex8', 5, (1, 3, 4, 5, 8))):
        for n in lens:
            h.root(f'{fam}_ump_{n}', f'w: [u32; {n}]', f'''bf_assume(w[0] >> 28 == {ty});
    let want = {fam}::{agg}::try_from(&w[..]).is_ok();
    match UmpMessage::try_from(&w[..]) {{
        Ok(UmpMessage::{agg}(_)) => bf_check(want, "accepted exactly when the type accepts it"),
        Ok(_) => bf_check(false, "parsed as its own type"),
        Err(_) => bf_check(!want, "accepted exactly when the type accepts it"),
    }}''', f'UmpMessage::try_from of any {n} words of type {ty}')
    for n in (1, 2, 3, 4):
        h.root(f'sysex7_bytes_{n}', f'w: [u8; {n}]', f'''bf_assume(w[0] == 0xF0);
    let want = sysex7::Sysex7::try_from(&w[..]).is_ok();
    match BytesMessage::try_from(&w[..]) {{
        Ok(BytesMessage::Sysex7(_)) => bf_check(want, "accepted exactly when the type accepts it"),
        Ok(_) => bf_check(false, "parsed as its own type"),
        Err(_) => bf_check(!want, "accepted exactly when the type accepts it"),
    }}''', f'BytesMessage::try_from of 0xF0 and any {n - 1} bytes')
    for n in (1, 2, 4, 40, 300):
        h.root(f'unknown_type_{n}', f'w: [u32; {n}]', '''let t = w[0] >> 28; bf_assume((t >= 6 && t <= 0xC) || t == 0xE);
    bf_check(UmpMessage::try_from(&w[..]).is_err(), "unassigned message types are refused");''', f'UmpMessage::try_from of any {n} words of an unassigned type')
    return [h]
