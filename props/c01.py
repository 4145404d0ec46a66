from harness import *
LEVEL = 'proof'
RULE = ('For every fixed-size message type and every field: on every path of the field getter over a buffer with arbitrary contents that holds '
        'a well-formed message, the value returned is exactly the bits the layout table assigns to the field (bit-by-bit equality of Boolean '
        'functions of the input).')
FLOOR = 150


def harness(tier):
    h = Harness('C01')
    for m in spec.FIXED:
        for fl in m.fields:
            h.use_kind(fl.kind)
            get = f'm.{fl.name}()'
            k = fl.kind
            h.root(f'{m.id}_{fl.name}', f'w: [u32; {m.words}]', f'''
    bf_assume({valid_words(h, m)});
    if let Ok(m) = {m.path}::try_from(&w[..]) {{
        bf_cover("parsed");
        bf_eq(enc_{k}({get}), norm_{k}({seg_get('w', fl.segs)}), "field value read from the words");
    }}''', f'{m.path} {fl.name}() over any well-formed words', cover=False)
            if fl.bytes:
                h.root(f'{m.id}_{fl.name}_bytes', f'w: [u8; {m.nbytes}]', f'''
    bf_assume({hdr_ok('w', m.bhdr)});
    if let Ok(m) = {m.path}::try_from(&w[..]) {{
        bf_cover("parsed");
        bf_eq(enc_{k}({get}), {seg_get('w', fl.bytes)}, "field value read from the bytes");
    }}''', f'{m.path} {fl.name}() over any well-formed bytes', cover=False)
    return [h]
