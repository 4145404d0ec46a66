import zoo
from harness import *
LEVEL = 'proof'
RULE = ('For every message type and every enum over packets, and well-formed messages of the listed shapes with any contents and any trailing data: packets() yields '
        'exactly the packets of data() in order, then ends for good; len, size_hint, count and nth agree with that sequence at every step.')
FLOOR = 4350


def harness(tier):
    h = Harness('C18')
    q = tier == 'quick'
    h.raw(zoo.RUST)
    for z in zoo.shapes(h, not q):
        if z.unit != 'u32' or 'functionblockdiscovery' in z.tag:    # the size of that message is a known finding of C03
            continue
        k, np = z.packet, z.n // z.packet
        for extra in (0, 3) if q else (0, 1, 3, 4, 6):
            P = z.params(extra)
            pk = lambda p, i: f'bf_eq({p}.len(), {k}usize, "length of the packet"); for j in 0..{k}usize {{ bf_eq({p}[j], w[{k} * ({i}) + j], "word of the packet"); }}'
            for t, T in [('', z.path)] + [('_top' if e == 'UmpMessage' else '_fam', e) for e, _ in z.enums()]:
                pre = f'{z.pre(extra)} let m = {T}::try_from(&w[..]).unwrap();'
                d = f'{z.path} of {np} packets followed by {extra} words' + (f' through {T}' if t else '')
                body = f'''{pre} let mut it = m.packets();
    for i in 0..{np}usize {{ bf_eq(it.len(), {np} - i, "len"); bf_check(it.size_hint() == ({np} - i, Some({np} - i)), "size hint"); bf_eq(it.clone().count(), {np} - i, "count"); match it.next() {{ Some(p) => {{ {pk('p', 'i')} }} None => bf_check(false, "covers the data") }} }}
    bf_eq(it.len(), 0usize, "len at the end"); bf_check(it.size_hint() == (0, Some(0)), "size hint at the end"); bf_check(it.next().is_none(), "ends"); bf_check(it.next().is_none(), "stays at the end"); bf_check(it.nth(0).is_none(), "nth after the end");'''
                h.root(f'{z.tag}_{extra}{t}', P, body, f'{d}: next')
                if extra < 4 and (t == '' or not q):
                    body = f'''{pre} let mut k = 0usize; m.packets().for_each(|p| {{ bf_check(k < {np}, "ends with the message"); {pk('p', 'k')} k += 1; }}); bf_eq(k, {np}usize, "packets of for_each");
    match m.packets().last() {{ Some(p) => {{ {pk('p', np - 1)} }} None => bf_check(false, "the last packet") }}
    let mut it = m.packets(); let mut k = 0usize; while k < {np // 2} {{ it.next(); k += 1; }}
    let mut c = it.clone(); while k < {np} {{ match c.next() {{ Some(p) => {{ {pk('p', 'k')} }} None => bf_check(false, "a copy yields the rest") }} k += 1; }} bf_check(c.next().is_none(), "the end of a copy"); bf_eq(it.len(), {np - np // 2}usize, "length after copying");
    k = {np // 2}; for p in it.step_by(2) {{ bf_check(k < {np}, "ends with the message"); {pk('p', 'k')} k += 2; }} bf_check(k >= {np} && k < {np + 2}, "packets of step_by");'''
                    h.root(f'{z.tag}_{extra}{t}_fold', P, body, f'{d}: for_each, last, step_by and copies')
                if t == '' or not q:
                    body = f'{pre} ' + ' '.join(f'{{ let mut it = m.packets();{" it.next();" if far & 1 else ""} bf_check(it.nth({far}).is_none(), "beyond the end"); bf_check(it.next().is_none(), "stays at the end"); bf_eq(it.len(), 0usize, "len"); }}'
                                                for far in (256, 257, 65536, 1 << 32, 1 << 61, 1 << 62, 1 << 63, (1 << 63) + 1, (1 << 64) - 1))
                    h.root(f'{z.tag}_{extra}{t}_nthfar', P, body, f'{d}: nth far beyond the end')
                for a in range(np + 1) if not z.big else (0, np // 2, np - 1, np):
                    for b in (range(0, np + 1 - a) if not z.big else sorted({0, 1, (np - a) // 2, np - a})) if t == '' or not q else (0,):
                        if a >= np:
                            body = f'{pre} let mut it = m.packets(); bf_check(it.nth({a}).is_none(), "beyond the end"); bf_check(it.next().is_none(), "stays at the end"); bf_eq(it.len(), 0usize, "len");'
                        else:
                            c = a + 1 + b
                            then = f'match it.nth({b}) {{ Some(p) => {{ {pk("p", c)} bf_eq(it.len(), {np - c - 1}usize, "len"); }} None => bf_check(false, "within the data") }}' if c < np else f'bf_check(it.nth({b}).is_none(), "beyond the end"); bf_eq(it.len(), 0usize, "len at the end");'
                            body = f'{pre} let mut it = m.packets(); match it.nth({a}) {{ Some(p) => {{ {pk("p", a)} }} None => bf_check(false, "within the data") }} bf_eq(it.len(), {np - a - 1}usize, "len"); {then}'
                        h.root(f'{z.tag}_{extra}{t}_nth{a}_{b}', P, body, f'{d}: nth({a}) then nth({b})')
    for z in zoo.huge():
        k, np = z.packet, z.n // z.packet
        pk = lambda p, i: f'bf_eq({p}.len(), {k}usize, "length of the packet"); for j in 0..{k}usize {{ bf_eq({p}[j], w[{k} * ({i}) + j], "word of the packet"); }}'
        for t, T in [('', z.path)] + [('_top' if e == 'UmpMessage' else '_fam', e) for e, _ in z.enums()]:
            body = f'''{z.pre(3)} let m = {T}::try_from(&w[..]).unwrap(); let mut it = m.packets(); let mut i = 0usize;
    while i < {np} {{ bf_eq(it.len(), {np} - i, "len"); match it.next() {{ Some(p) => {{ {pk('p', 'i')} }} None => bf_check(false, "covers the data") }} i += 1; }} bf_check(it.next().is_none(), "ends");
    bf_eq(m.packets().count(), {np}usize, "count"); match m.packets().nth(256) {{ Some(p) => {{ {pk('p', 256)} }} None => bf_check(false, "covers the data") }}'''
            h.root(f'{z.tag}{t}', z.params(3), body, f'{z.path} of {np} packets followed by 3 words' + (f' through {T}' if t else ''))
    return [h]
