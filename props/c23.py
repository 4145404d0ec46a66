from harness import *
LEVEL = 'proof'
RULE = ('For every slice length up to two words beyond a packet and all contents: a packet parses exactly when it carries the message type of its family, a valid '
        'status and a valid byte count, and holds exactly its own words; its group, channel, format, status, stream id and payload are those its words encode, '
        'read with any mixture of next and nth; the setters change only their own field; the Packet enum holds the packet of the family whose message type the slice carries.')
FLOOR = 330

# module, words, message type, words below which a slice may not be accepted, enum variant
FAM = [('utility', 1, 0, 1, 'Utility'), ('system_common', 1, 1, 1, 'SystemCommon'), ('channel_voice1', 1, 2, 1, 'ChannelVoice1'), ('sysex7', 2, 3, 2, 'Sysex7'),
       ('channel_voice2', 2, 4, 1, 'ChannelVoice2'), ('sysex8', 4, 5, 4, 'Sysex8'), ('flex_data', 4, 0xD, 2, 'FlexData'), ('ump_stream', 4, 0xF, 1, 'UmpStream')]

RD = '''
/// the packet enum is not exported by name; it is the item of PacketsIterator
type AnyPacket = <PacketsIterator<'static> as Iterator>::Item;
/// the status nibble and size nibble of a system exclusive packet are possible
fn sx7_ok(w: &[u32]) -> bool { ((w[0] >> 20) & 15) <= 3 && ((w[0] >> 16) & 15) <= 6 }
fn unexpected(w: &[u32]) -> bool { ((w[0] >> 20) & 15) == 3 && (w[0] & 0xFF) == 0 && w[1] == 0 && w[2] == 0 && w[3] == 0 }
fn sx8_ok(w: &[u32]) -> bool { let n = (w[0] >> 16) & 15; ((w[0] >> 20) & 15) <= 3 && n != 0 && (n != 15 || unexpected(w)) }
fn oct(d: &[u32], i: usize) -> u8 { (d[i / 4] >> (24 - 8 * (i % 4))) as u8 }
'''


def harness(tier):
    h = Harness('C23')
    h.raw(RD)
    q = tier == 'quick'
    for mod, n, mt, lo, var in FAM:
        T = f'{mod}::Packet'
        ok = {'sysex7': ' && sx7_ok(&w)', 'sysex8': ' && sx8_ok(&w)'}.get(mod, '')
        for L in [*range(0, n + 3 if q else n + 6), 40, 300]:
            a = f'w: [u32; {L}]'
            if L >= n:
                good = f'w[0] >> 28 == {mt}' + ok
                h.root(f'{mod}_parse_{L}', a, f'''match {T}::try_from(&w[..]) {{
        Ok(p) => {{ bf_check({good}, "accepted exactly when well formed"); bf_eq(p.len(), {n}usize, "length"); for i in 0..{n} {{ bf_eq(p[i], w[i], "word of the packet"); }} }}
        Err(_) => bf_check(!({good}), "accepted exactly when well formed") }}''', f'{T}: parsing any slice of {L} words')
                h.root(f'{mod}_enum_{L}', a, f'''bf_assume(w[0] >> 28 == {mt}); match AnyPacket::try_from(&w[..]) {{
        Ok(AnyPacket::{var}(p)) => {{ bf_check({good}, "accepted exactly when well formed"); bf_eq(p.len(), {n}usize, "length"); for i in 0..{n} {{ bf_eq(p[i], w[i], "word of the packet"); }} }}
        Ok(_) => bf_check(false, "wrong family"), Err(_) => bf_check(!({good}), "accepted exactly when well formed") }}
    if let Ok(p) = AnyPacket::try_from(&w[..]) {{ bf_eq(p.len(), {n}usize, "length through the enum"); for i in 0..{n} {{ bf_eq(p[i], w[i], "word through the enum"); }} }}''', f'Packet: {mod} slice of {L} words')
            else:
                if L < lo:
                    body = f'bf_check({T}::try_from(&w[..]).is_err(), "too short");'
                else:
                    body = f'match {T}::try_from(&w[..]) {{ Ok(p) => {{ bf_check(w[0] >> 28 == {mt}, "message type"); bf_eq(p.len(), {n}usize, "length"); for i in 0..{n} {{ bf_eq(p[i], if i < {L} {{ w[i] }} else {{ 0 }}, "word of the packet"); }} }} Err(_) => {{}} }}'
                h.root(f'{mod}_parse_{L}', a, body, f'{T}: parsing a slice of {L} words')
                body = (f'bf_assume(w[0] >> 28 == {mt}); ' if L else '') + body.replace(T, 'AnyPacket')
                h.root(f'{mod}_enum_{L}', a, body, f'Packet: {mod} slice of {L} words')
        a = f'mut w: [u32; {n}], v: u8'
        pre = f'bf_assume(w[0] >> 28 == {mt}{ok}); let mut p = {T}::try_from(&w[..]).unwrap();'
        same = f'for i in 0..{n} {{ bf_eq(p[i], w[i], "words"); }}'
        if mod not in ('utility', 'ump_stream'):
            h.root(f'{mod}_group', a, f'''{pre} bf_eq(u8::from(p.group()), (w[0] >> 24) as u8 & 15, "group");
    p.set_group(u4::new(v & 15)); w[0] = (w[0] & 0xF0FFFFFF) | ((v as u32 & 15) << 24); {same} bf_eq(u8::from(p.group()), v & 15, "group read back");''', f'{T}: group and set_group')
        if mod in ('channel_voice1', 'channel_voice2'):
            h.root(f'{mod}_channel', a, f'''{pre} bf_eq(u8::from(p.channel()), (w[0] >> 16) as u8 & 15, "channel");
    p.set_channel(u4::new(v & 15)); w[0] = (w[0] & 0xFFF0FFFF) | ((v as u32 & 15) << 16); {same} bf_eq(u8::from(p.channel()), v & 15, "channel read back");''', f'{T}: channel and set_channel')
        if mod in ('flex_data', 'ump_stream'):
            sh = 22 if mod == 'flex_data' else 26
            h.root(f'{mod}_format', a, f'{pre} let c = match p.format() {{ {mod}::Format::Complete => 0, {mod}::Format::Start => 1, {mod}::Format::Continue => 2, {mod}::Format::End => 3 }}; bf_eq(c, (w[0] >> {sh}) & 3, "format");', f'{T}: format')
        if mod == 'sysex7':
            h.root('sysex7_status', a, f'{pre} for k in 0..4u32 {{ bf_check((p.status() == sysex7::Packet::try_from(&[0x30000000 | (k << 20), 0][..]).unwrap().status()) == ((w[0] >> 20) & 15 == k), "status"); }}', f'{T}: status')
        if mod == 'sysex8':
            h.root('sysex8_status', a, f'''{pre} let n = (w[0] >> 16) & 15; let st = (w[0] >> 20) & 15;
    let ends = [unexpected(&w) && n == 1, unexpected(&w) && n == 15];
    // the statuses are not nameable outside the crate: compare with those of sample packets
    for k in 0..6usize {{
        let sample = [[0x50010000u32, 0, 0, 0], [0x50110000, 0, 0, 0], [0x50210000, 0, 0, 0], [0x50320001, 0, 0, 0], [0x50310000, 0, 0, 0], [0x503F0000, 0, 0, 0]][k];
        let want = match k {{ 0 => st == 0, 1 => st == 1, 2 => st == 2, 3 => st == 3 && !ends[0] && !ends[1], 4 => ends[0], _ => ends[1] }};
        bf_check((p.status() == {T}::try_from(&sample[..]).unwrap().status()) == want, "status");
    }}''', f'{T}: status')
            h.root('sysex8_stream', a, f'{pre} bf_eq(p.stream_id(), (w[0] >> 8) as u8, "stream id");', f'{T}: stream id')
        if mod in ('sysex7', 'sysex8'):
            big, off, val, tot = (6, 2, 'u8::from(x)', '((w[0] >> 16) & 15) as usize') if mod == 'sysex7' else (13, 3, 'x', '(if (w[0] >> 16) & 15 == 15 { 0 } else { (w[0] >> 16) & 15 - 0 }) as usize')
            if mod == 'sysex8':
                tot = '{ let z = (w[0] >> 16) & 15; if z == 15 { 0usize } else { z as usize - 1 } }'
            m7 = '& 0x7F' if mod == 'sysex7' else ''
            pre2 = pre + f' let total: usize = {tot}; let mut it = p.payload();'
            h.root(f'{mod}_next', a, f'''{pre2}
    for k in 0..{big}usize {{
        let left = if k < total {{ total - k }} else {{ 0 }};
        bf_eq(it.len(), left, "len"); let s = it.size_hint(); bf_eq(s.0, left, "lower bound"); bf_check(s.1 == Some(left), "upper bound");
        match it.next() {{ Some(x) => {{ bf_check(k < total, "ends with the payload"); bf_eq({val}, oct(&w, {off} + k) {m7}, "payload byte"); }} None => bf_check(k >= total, "covers the payload") }}
    }}
    bf_check(it.next().is_none(), "the end"); bf_check(it.next().is_none(), "stays at the end"); bf_eq(it.len(), 0usize, "nothing left");''', f'{T}: payload with next')
            h.root(f'{mod}_count', a, f'{pre2} bf_eq(it.count(), total, "count");', f'{T}: payload().count()')
            for s in range(0, 3 if q else big + 1):
                for k in sorted(set(range(big + 3)) | {40}):
                    for s2 in ((0, 2) if q else (0, 1, 2, 5, big)):
                        h.root(f'{mod}_nth_{s}_{k}_{s2}', a, f'''{pre2} {'it.next(); ' * s}
    let at = {s}usize + {k};
    match it.nth({k}) {{ Some(x) => {{ bf_check(at < total, "ends with the payload"); if at < total {{ bf_eq({val}, oct(&w, {off} + at) {m7}, "payload byte"); }} }} None => bf_check(at >= total, "covers the payload") }}
    let at = {s + k + 1 + s2}usize; let left = if at - {s2} < total {{ total + {s2} - at }} else {{ 0 }}; bf_eq(it.len(), left, "len afterwards");
    match it.nth({s2}) {{ Some(x) => {{ bf_check(at < total, "ends with the payload afterwards"); if at < total {{ bf_eq({val}, oct(&w, {off} + at) {m7}, "payload byte afterwards"); }} }} None => bf_check(at >= total, "covers the payload afterwards") }}''',
                               f'{T}: payload, nth({k}) after {s}, then nth({s2})')
                h.root(f'{mod}_nth_{s}_max', a, f'{pre2} {"it.next(); " * s} bf_check(it.nth(usize::MAX).is_none(), "beyond the end"); bf_check(it.next().is_none(), "stays at the end");', f'{T}: payload, nth(usize::MAX) after {s}')
                for far in (256, 65536, 1 << 32, 1 << 62, (1 << 63) + 1):
                    h.root(f'{mod}_nth_{s}_x{far.bit_length()}', a, f'{pre2} {"it.next(); " * s} bf_check(it.nth({far}).is_none(), "beyond the end"); bf_check(it.next().is_none(), "stays at the end");', f'{T}: payload, nth({far}) after {s}')
    used = ' && '.join(f'w[0] >> 28 != {mt}' for _, _, mt, _, _ in FAM)
    for L in (0, 1, 4, 40, 300):
        a = f'w: [u32; {L}]'
        h.root(f'unassigned_{L}', a, (f'bf_assume({used}); ' if L else '') + 'bf_check(AnyPacket::try_from(&w[..]).is_err(), "unassigned message type");', f'Packet: {L} words of an unassigned message type')
    return [h]
