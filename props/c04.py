from harness import *
LEVEL = 'proof'
RULE = ('For every fixed-size message type, every slice length from zero to two units beyond the message and every possible contents: parsing '
        'succeeds exactly when the slice is long enough, the header bits are the type\'s own and every coded field holds a defined code; nothing panics.')
FLOOR = 600


def harness(tier):
    h = Harness('C04')
    extra = 5 if tier == 'quick' else 9
    for m in spec.FIXED:
        top = m.words + extra
        for n in (*range(0, top + 1), 40, 300):
            want = f'({valid_words(h, m)})' if n >= m.words else 'false'
            cov = 'if ok { bf_cover("accepted"); } else { bf_cover("rejected"); }' if n >= m.words else 'bf_cover("rejected");'
            h.root(f'{m.id}_{n}', f'w: [u32; {max(n, 1)}]', f'''let ok = {m.path}::try_from(&w[..{n}]).is_ok(); {cov}
    bf_eq(ok, {want}, "accepted exactly when well formed");''', f'{m.path}::try_from of any {n} words', cover=False)
        if m.nbytes:
            for n in (*range(0, m.nbytes + 3), 40, 300):
                want = f'({hdr_ok("w", m.bhdr)})' if n >= m.nbytes else 'false'
                cov = 'if ok { bf_cover("accepted"); } else { bf_cover("rejected"); }' if n >= m.nbytes else 'bf_cover("rejected");'
                h.root(f'{m.id}_b{n}', f'w: [u8; {max(n, 1)}]', f'''let ok = {m.path}::try_from(&w[..{n}]).is_ok(); {cov}
    bf_eq(ok, {want}, "accepted exactly when well formed");''', f'{m.path}::try_from of any {n} bytes', cover=False)
    return [h]
