from harness import *
LEVEL = 'proof'
RULE = ('For every fixed-size message type and every settable field: storing any representable value into any well-formed message leaves every '
        'bit outside the field as it was, stores the value in exactly the bits of the layout table, and reads back equal.')
FLOOR = 900
ALIASES = [('SoundVariation', 70), ('Timbre', 71), ('ReleaseTime', 72), ('AttackTime', 73), ('Brightness', 74), ('DecayTime', 75), ('VebratoRate', 76),
           ('VebratoDepth', 77), ('VebratoDelay', 78), ('Undefined', 79), ('ReverbSendLevel', 91), ('ChorusSendLevel', 93)]


def code_param(fl):
    return f'bf_assume(c < {1 << spec.KINDS[fl.kind]["width"]:#x} && okc_{fl.kind}(c));'


def harness(tier):
    h = Harness('C02')
    for m in spec.actual_sizes(spec.FIXED):
        for fl in m.fields:
            h.use_kind(fl.kind)
            k = fl.kind
            cmp = 'bf_eq(m.data()[{i}], e[{i}], "word {i} after the write");'
            body = f'''
    {code_param(fl)}
    bf_assume({valid_words(h, m)});
    if let Ok(m) = {m.path}::try_from(&w[..]) {{
        let mut m: {m.path}<[u32; {m.words}]> = m.array_rebuffer_into();
        m.set_{fl.name}(dec_{k}(c));
        let mut e = w;
        {seg_set('e', fl.segs, fl.wsegs, 'c')}
        bf_eq(m.data().len(), {m.words}usize, "length after the write");
        {' '.join(cmp.format(i=i) for i in range(m.words))}
        bf_eq(enc_{k}(m.{fl.name}()), c, "value read back");
        bf_cover("written");
    }}'''
            h.root(f'{m.id}_{fl.name}', f'w: [u32; {m.words}], c: u64', body, f'{m.path} set_{fl.name}(v) on any message, any v', cover=False)
            # the same in a message with room to spare, read back through another parse
            n = m.words
            for kind, P, mk in (('arr', f'[u32; {n + 2}]', 'array_rebuffer_into()'), ('vec', 'Vec<u32>', 'rebuffer_into()'), ('far', f'[u32; 300]', 'array_rebuffer_into()'), ('longvec', 'Vec<u32>', 'rebuffer_into()')):
                size = 300 if kind in ('far', 'longvec') else n + 2
                h.root(f'{m.id}_{fl.name}_{kind}', f'w: [u32; {size}], c: u64', f'''
    {code_param(fl)}
    bf_assume({valid_words(h, m)});
    if let Ok(m) = {m.path}::try_from(&w[..]) {{
        let mut m: {m.path}<{P}> = m.{mk};
        m.set_{fl.name}(dec_{k}(c));
        let mut e = w;
        {seg_set('e', fl.segs, fl.wsegs, 'c')}
        match {m.path}::try_from(m.data()) {{
            Ok(m) => {{
                bf_eq(m.data().len(), {n}usize, "length after the write");
                {' '.join(cmp.format(i=i) for i in range(n))}
                bf_eq(enc_{k}(m.{fl.name}()), c, "value read back");
            }}
            Err(_) => bf_check(false, "the message still parses"),
        }}
        bf_cover("written");
    }}''', f'{m.path} set_{fl.name}(v) in a larger {"array" if kind in ("arr", "far") else "vector"}, parsed again', cover=False)
            if fl.bytes:
                h.root(f'{m.id}_{fl.name}_bytes', f'w: [u8; {m.nbytes}], c: u64', f'''
    {code_param(fl)}
    bf_assume({hdr_ok('w', m.bhdr)});
    if let Ok(m) = {m.path}::try_from(&w[..]) {{
        let mut m: {m.path}<[u8; {m.nbytes}]> = m.array_rebuffer_into();
        m.set_{fl.name}(dec_{k}(c));
        let mut e = w;
        {seg_set('e', fl.bytes, fl.bytes, 'c', 'u8')}
        bf_eq(m.data().len(), {m.nbytes}usize, "length after the write");
        {' '.join(f'bf_eq(m.data()[{i}], e[{i}], "byte {i} after the write");' for i in range(m.nbytes))}
        bf_eq(enc_{k}(m.{fl.name}()), c, "value read back");
        bf_cover("written");
    }}''', f'{m.path} set_{fl.name}(v) on any byte message, any v', cover=False)
    # the named forms of the sound controllers and effect depths are the numbered ones
    C = 'channel_voice2::Controller'
    for name, idx in ALIASES:
        h.use_kind('ctrl')
        h.root(f'alias_{name}', 'd: u32, w: [u32; 2]', f'''
    bf_assume(w[0] >> 28 == 4 && (w[0] >> 20) & 15 == 0);
    if let Ok(m) = channel_voice2::RegisteredPerNoteController::try_from(&w[..]) {{
        let mut m: channel_voice2::RegisteredPerNoteController<[u32; 2]> = m.array_rebuffer_into();
        m.set_controller({C}::{name}(d));
        bf_eq(m.data()[0], (w[0] & 0xFFFF_FF00) | {idx}, "the index and nothing else"); bf_eq(m.data()[1], d, "the value");
        bf_eq(enc_ctrl(m.controller()), ({idx}u64 << 32) | d as u64, "value read back");
        bf_cover("written");
    }}''', f'channel_voice2::RegisteredPerNoteController set_controller({name})')
    return [h]
