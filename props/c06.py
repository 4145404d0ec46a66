from harness import *
import c21, c23, tx
LEVEL = 'proof'
RULE = ('For every slice of words or bytes up to the listed lengths, with any contents (text bytes: any contents at the listed positions): parsing it as each type, family enum, '
        'top level enum and packet, and every read of whatever is accepted (data, packets, group, channel, every getter, payload, text, comparison), '
        'returns: no path reaches a panic, an overflow, an out of bounds access or an unreachable mark.')
FLOOR = 1000
FAMS = {}
for _m in spec.FIXED:
    FAMS.setdefault(_m.family, []).append(_m)
PK = 'let mut it = m.packets(); let k = it.len(); let mut i = 0; while i < k { let p = it.next().unwrap(); if p.len() > 3 { seen |= 1; } i += 1; } if it.next().is_some() { seen |= 1; } if m.packets().nth(k).is_some() { seen |= 1; } if k > 0 { if let Some(p) = m.packets().nth(k - 1) { if p.len() > 3 { seen |= 1; } } }'
SAME = 'if m == m.clone() { seen |= 1; }'


def reads(m, unit):
    """Statements reading everything of a fixed-size message `m`; the values are used so that nothing is dropped."""
    out = ['if m.data().len() > 3 { seen |= 1; }']
    for f in m.fields:
        if unit == 'u8' and not f.bytes:
            continue
        out.append(f'let x = m.{f.name}(); if x == m.{f.name}() {{ seen |= 1; }}')
    if unit == 'u32':
        out.append(PK)
    out.append(SAME)
    return ' '.join(out)


def payload(kind):
    return f'if m.data().len() > m.payload_size() {{ seen |= 1; }} let mut it = m.payload(); if it.len() == it.size_hint().0 {{ seen |= 1; }} while let Some(x) = it.next() {{ if x == x {{ seen |= 1; }} }} if it.next().is_some() {{ seen |= 1; }} if m.payload().count() == m.payload_size() {{ seen |= 1; }} let k = m.payload_size(); if let Some(x) = m.payload().nth(k) {{ if x == x {{ seen |= 1; }} }} if k > 0 {{ if let Some(x) = m.payload().nth(k - 1) {{ if x == x {{ seen |= 1; }} }} }} if m.payload().nth(usize::MAX).is_some() {{ seen |= 1; }}'


def texts(t):
    s = 'if m.data().len() > 3 { seen |= 1; }' + PK
    if t.flex:
        s += ' if m.group() == m.group() { seen |= 1; } if m.optional_channel() == m.optional_channel() { seen |= 1; }'
    if t.fb:
        s += ' if m.function_block() == m.function_block() { seen |= 1; }'
    return s


def harness(tier):
    h = Harness('C06')
    q = tier == 'quick'
    h.raw('pub const GO: usize = 0;')
    for k in list(spec.KINDS):
        h.use_kind(k)
    keep = 'bf_check(seen == seen, "read");'
    # each fixed-size type on its own
    for m in spec.FIXED:
        for u in ('u32', 'u8') if m.nbytes else ('u32',):
            n = m.words if u == 'u32' else m.nbytes
            for L in range(0, n + (3 if q else 6)):
                h.root(f'{m.id}_{u}_{L}', f'w: [{u}; {L}]', f'let mut seen = 0usize; if let Ok(m) = {m.path}::try_from(&w[..]) {{ {reads(m, u)} }} {keep}', f'{m.path} from any {L} units: parsing and reading', cover=False)
            if m.name != 'FunctionBlockDiscovery':
                h.root(f'{m.id}_{u}_arr', f'w: [{u}; {n + 2}]', f'let mut seen = 0usize; if let Ok(m) = {m.path}::try_from(&w[..]) {{ let m: {m.path}<[{u}; {n}]> = m.array_rebuffer_into(); {reads(m, u)} }} {keep}', f'{m.path} over an array: reading', cover=False)
    # through the enums
    for fam, ms in FAMS.items():
        agg, ty = spec.AGG[fam]
        for u in ('u32', 'u8'):
            if u == 'u8' and not any(m.nbytes for m in ms):
                continue
            top = 'UmpMessage' if u == 'u32' else 'BytesMessage'
            arms = ' '.join(f'{fam}::{agg}::{m.name}(m) => {{ {reads(m, u)} }}' for m in ms if u == 'u32' or m.nbytes)
            lim = max((m.words if u == 'u32' else m.nbytes) for m in ms)
            pre = ''
            if fam == 'ump_stream':
                pre = 'let s = (w[0] >> 16) & 0x3FF; bf_assume(s != 3 && s != 4 && s != 0x12);'
            if fam == 'flex_data':
                pre = 'let b = (w[0] >> 8) & 0xFF; bf_assume(b != 1 && b != 2);'
            outer = 'if m.data().len() > 3 { seen |= 1; }' + (' ' + PK if u == 'u32' else '') + (' if m.group() == m.group() { seen |= 1; }' if u == 'u32' and fam not in ('utility', 'ump_stream') else '') + (' if m.channel() == m.channel() { seen |= 1; }' if fam in ('channel_voice1', 'channel_voice2') else '')
            for L in range(0, lim + (3 if q else 6)):
                p = pre if L else ''
                h.root(f'{fam}_{u}_{L}', f'w: [{u}; {L}]', f'{p} let mut seen = 0usize; if let Ok(m) = {fam}::{agg}::try_from(&w[..]) {{ {outer} {SAME} match m {{ {arms} _ => {{}} }} }} {keep}', f'{fam}::{agg} from any {L} units: parsing and reading', cover=False)
            for L in range(0, lim + (2 if q else 5)):
                if L:
                    cond = f'w[0] >> 28 == {ty:#x}' if u == 'u32' else 'w[0] > 0xF0' if fam == 'system_common' else 'w[0] < 0xF0'
                    p = f'bf_assume({cond}); {pre}'
                else:
                    p = ''
                tp = 'if m.data().len() > 3 { seen |= 1; }' + (' ' + PK if u == 'u32' else '')
                h.root(f'top_{fam}_{u}_{L}', f'w: [{u}; {L}]', f'{p} let mut seen = 0usize; if let Ok(m) = {top}::try_from(&w[..]) {{ {tp} {SAME} match m {{ {top}::{agg}(m) => {{ {outer} match m {{ {arms} _ => {{}} }} }} _ => {{}} }} }} {keep}', f'{top} from any {L} units of {fam}: parsing and reading', cover=False)
    used = [spec.AGG[f][1] for f in FAMS] + [3, 5]
    for L in range(0, 6):
        p = f'bf_assume({" && ".join(f"w[0] >> 28 != {x:#x}" for x in used)});' if L else ''
        h.root(f'unassigned_{L}', f'w: [u32; {L}]', f'{p} let mut seen = 0usize; if let Ok(m) = UmpMessage::try_from(&w[..]) {{ if m.data().len() > 3 {{ seen |= 1; }} }} {keep}', f'UmpMessage from any {L} words of an unassigned type', cover=False)
    # system exclusive
    for T, u, kind, var, tops in (('sysex7::Sysex7', 'u32', 7, 'Sysex7', range(0, 10 if q else 12)), ('sysex8::Sysex8', 'u32', 8, 'Sysex8', range(0, 10 if q else 12)), ('sysex7::Sysex7', 'u8', 7, 'Sysex7', range(0, 12 if q else 24))):
        top = 'UmpMessage' if u == 'u32' else 'BytesMessage'
        extra = ' if m.group() == m.group() { seen |= 1; }' + (PK if u == 'u32' else '') if u == 'u32' else ''
        if kind == 8:
            extra += ' if m.stream_id() == m.stream_id() { seen |= 1; }'
        upp = kind == 7 and 2 or 4
        for L in tops:
          np = L // upp if u == 'u32' else 0
          # with two packets and more: groups, stream ids and sizes come first in the variable order, and the
          # status of the first packet is split, which keeps the diagrams small
          for first in ('complete', 'start', 'other') if np > 1 else (None,):
            a = f'mut w: [{u}; {L}]'
            fix, tag, said = '', f'{L}', f'any {L} units'
            if first:
                a = f'g: [u8; {np}], ' + (f's: [u8; {np}], ' if kind == 8 else '') + f'z: [u8; {np}], ' + a
                fix = {'complete': 'w[0] &= 0xFF0FFFFF; ', 'start': 'w[0] = (w[0] & 0xFF0FFFFF) | 0x100000; ', 'other': 'bf_assume((w[0] >> 20) & 0xF > 1); '}[first]
                for k in range(np):
                    fix += f'w[{upp * k}] = (w[{upp * k}] & 0xF0F0FFFF) | ((g[{k}] & 15) as u32) << 24 | ((z[{k}] & 15) as u32) << 16; '
                    if kind == 8:
                        fix += f'w[{upp * k}] = (w[{upp * k}] & 0xFFFF00FF) | (s[{k}] as u32) << 8; '
                tag, said = f'{L}_{first}', f'any {L} units, the status of the first packet {first}'
            h.root(f'{var.lower()}_{u}_{tag}', a, f'{fix} let mut seen = 0usize; if let Ok(m) = {T}::try_from(&w[..]) {{ {payload(kind)} {extra} {SAME} }} {keep}', f'{T} from {said}: parsing and reading', cover=False)
            cond = (f'bf_assume(w[0] >> 28 == {3 if kind == 7 else 5});' if u == 'u32' else 'bf_assume(w[0] == 0xF0);') if L else ''
            h.root(f'top_{var.lower()}_{u}_{tag}', a, f'{fix} {cond} let mut seen = 0usize; if let Ok(m) = {top}::try_from(&w[..]) {{ if m.data().len() > 3 {{ seen |= 1; }} {PK if u == "u32" else ""} match m {{ {top}::{var}(m) => {{ {payload(kind)} }} _ => {{}} }} }} {keep}', f'{top} from {said} of {var}: parsing and reading', cover=False)
    # texts: any headers, any bytes at a few places of the text
    for t in tx.FLEX + tx.STREAM:
        code = f'w[4 * k] = (w[4 * k] & 0xFFFF0000) | {t.code:#x};' if t.flex else ''
        for L in range(0, 10 if q else 14):
            np = L // 4
            asc = ''.join(f'w[{i}] = {0x41424344 + i:#x}; ' for i in range(L) if i % 4) + ('' if t.flex else ''.join(f'w[{i}] = (w[{i}] & 0xFFFF0000) | 0x4142; ' for i in range(0, L, 4)))
            for free in ([None] if L < 4 else [None, 1, 3, 5, 7][:2 + 2 * (np > 1)]):
                if free is not None and free >= L:
                    continue
                put = '' if free is None else f'w[{free}] = 0x41004100 | (x as u32) << 16 | y as u32;'
                body = f'{asc} {put} let mut seen = 0usize; if let Ok(m) = {t.path}::try_from(&w[..]) {{ {texts(t)} if m.{t.field}().len() > 3 {{ seen |= 1; }} }} {keep}'
                h.root(f'{t.tag}_{L}_{"h" if free is None else free}', f'x: u8, y: u8, mut w: [u32; {L}]', body, f'{t.path} from {L} words with any headers' + ('' if free is None else f' and any bytes in word {free}'), cover=False)
    # packets
    for mod, n, mt, lo, var in c23.FAM:
        rd = 'if p.len() > 3 { seen |= 1; } if p == p.clone() { seen |= 1; }'
        if mod not in ('utility', 'ump_stream'):
            rd += ' if p.group() == p.group() { seen |= 1; }'
        if mod in ('channel_voice1', 'channel_voice2'):
            rd += ' if p.channel() == p.channel() { seen |= 1; }'
        if mod in ('flex_data', 'ump_stream'):
            rd += ' if p.format() == p.format() { seen |= 1; }'
        if mod in ('sysex7', 'sysex8'):
            rd += ' if p.status() == p.status() { seen |= 1; } let mut it = p.payload(); if it.len() > 3 { seen |= 1; } while let Some(x) = it.next() { if x == x { seen |= 1; } } if p.payload().count() > 3 { seen |= 1; } if p.payload().nth(3).is_some() { seen |= 1; } if p.payload().nth(usize::MAX).is_some() { seen |= 1; }'
        for L in range(0, n + 3):
            h.root(f'packet_{mod}_{L}', f'w: [u32; {L}]', f'let mut seen = 0usize; if let Ok(p) = {mod}::Packet::try_from(&w[..]) {{ {rd} }} {keep}', f'{mod}::Packet from any {L} words: parsing and reading', cover=False)
    h.raw("type AnyPacket = <PacketsIterator<'static> as Iterator>::Item;")
    for L in range(0, 7):
        h.root(f'packet_any_{L}', f'w: [u32; {L}]', f'let mut seen = 0usize; if let Ok(p) = AnyPacket::try_from(&w[..]) {{ if p.len() > 3 {{ seen |= 1; }} if p == p.clone() {{ seen |= 1; }} }} {keep}', f'Packet from any {L} words: parsing and reading', cover=False)
    # MIDI-CI
    h.raw(c21.RUST)
    for ver in (1, 2):
        fields = [f for f in c21.FIELDS if ver == 2 or f[0] != 'output_path_id']
        rd = 'if m.data().len() > 3 { seen |= 1; }' + ''.join(f' if m.{f[0]}() == m.{f[0]}() {{ seen |= 1; }}' for f in fields)
        for L in range(0, 36 if q else 44):
            h.root(f'ci_{ver}_{L}', f'w: [u8; {L}]', f'let mut seen = 0usize; if let Ok(m) = {c21.T}::<{ver}, _>::try_from(&w[..]) {{ {rd} }} {keep}', f'DiscoveryQuery of version {ver} from any {L} bytes: parsing and reading', cover=False)
    return [h]
