from sx import *
LEVEL = 'proof'
RULE = ('For every slice length up to the bound and all contents: a system exclusive message parses exactly when the leading run of packets of its type is one '
        'complete message (start, continue..., end or a single complete packet) with valid sizes and one group (and one stream id), or, for bytes, when it starts '
        'with 0xF0 and has an end byte; data() is exactly that message.')
FLOOR = 168


def harness(tier):
    h = Harness('C12')
    top = {'u': 9, 'b': 9, '8': 14} if tier == 'quick' else {'u': 17, 'b': 24, '8': 22}
    for r in (U, E):
        big = 6 if r.tag == 'u' else 14
        for n in range(top[r.tag] + 1):
            np = n // r.upp
            for run in range(np + 1):
                sid = f' && (w[i] >> 8) & 0xFF == (w[0] >> 8) & 0xFF' if r.tag == '8' else ''
                types = ' '.join(f'w[{r.upp * k}] = (w[{r.upp * k}] & 0x0FFFFFFF) | {r.mt << 28:#x};' for k in range(run))
                # groups and stream ids come first in the variable order, which keeps the diagrams small
                pre = f'g: [u8; {run}], ' + (f's: [u8; {run}], ' if r.tag == '8' else '') if run else ''
                types += ' '.join(f'w[{r.upp * k}] = (w[{r.upp * k}] & 0xF0FFFFFF) | ((g[{k}] & 15) as u32) << 24;' + (f' w[{r.upp * k}] = (w[{r.upp * k}] & 0xFFFF00FF) | (s[{k}] as u32) << 8;' if r.tag == '8' else '') for k in range(run))
                if run < np:
                    types += f' bf_assume(w[{r.upp * run}] >> 28 != {r.mt});'
                body = f"""let mut w = w; {types}
    let mut good = {'true' if run else 'false'};
    for k in 0..{run}usize {{
        let i = {r.upp} * k; let st = (w[i] >> 20) & 15; let sz = (w[i] >> 16) & 15;
        let want = {'0' if run == 1 else f'if k == 0 {{ 1 }} else if k + 1 == {run} {{ 3 }} else {{ 2 }}'};
        good = good && st == want && sz <= {big} && sz >= {r.bias} && (w[i] >> 24) & 15 == (w[0] >> 24) & 15{sid};
    }}
    match {r.path}::try_from(&w[..{n}]) {{
        Ok(m) => {{ {'bf_cover("accepted"); ' if run else ''}bf_check(good, "a message which is not well formed is refused"); if good {{ let d = m.data(); bf_eq(d.len(), {run * r.upp}, "length of the data"); for k in 0..{run * r.upp} {{ bf_eq(d[k], w[k], "data"); }} }} }}
        Err(_) => {{ bf_cover("refused"); bf_check(!good, "a well formed message is accepted"); }}
    }}"""
                h.root(f'{r.tag}_{n}_{run}', f'{pre}w: [u32; {max(n, 1)}]', body, f'{r.path}::try_from of any {n} words beginning with {run} packets of its type', cover=False)
    # longer runs in which one packet is anything and the others are as they should be
    for r in (U, E):
        big = 6 if r.tag == 'u' else 14
        for np in (5, 9, 22, 258) if tier == 'quick' else (4, 5, 6, 9, 22, 45, 100, 258):
            n = r.upp * np
            ks = range(np) if np < 10 else sorted({0, 1, np // 2, np - 2, np - 1}) if np < 200 else (1, 256, 257)
            for k in ks:
                for extra in (0, r.upp + 1):
                    st = lambda j: 1 if j == 0 else 3 if j == np - 1 else 2
                    sid = ' && (x[0] >> 8) & 0xFF == s as u32' if r.tag == '8' else ''
                    fill = '((s as u32) << 8) | 0x25' if r.tag == '8' else '0x1122'
                    body = f"""let mut w = [0u32; {n + extra}]; let mut i = 0usize; while i < {np} {{ let st: u32 = if i == 0 {{ 1 }} else if i == {np - 1} {{ 3 }} else {{ 2 }};
        w[{r.upp} * i] = {r.mt << 28:#x} | ((g as u32 & 15) << 24) | (st << 20) | ((i % {big + 1 - r.bias} + {r.bias}) as u32) << 16 | {fill}; for j in 1..{r.upp}usize {{ w[{r.upp} * i + j] = 0x01020304; }} i += 1; }}
    bf_assume(x[0] >> 28 == {r.mt}); for j in 0..{r.upp}usize {{ w[{r.upp * k} + j] = x[j]; }} {f'w[{n}] = 0x21234567;' if extra else ''}
    let good = (x[0] >> 20) & 15 == {st(k)} && (x[0] >> 16) & 15 <= {big} && (x[0] >> 16) & 15 >= {r.bias} && (x[0] >> 24) & 15 == (g as u32 & 15){sid};
    match {r.path}::try_from(&w[..]) {{
        Ok(m) => {{ bf_cover("accepted"); bf_check(good, "a message which is not well formed is refused"); let d = m.data(); bf_eq(d.len(), {n}usize, "length of the data"); i = 0; while i < {n} {{ bf_eq(d[i], w[i], "data"); i += 1; }} }}
        Err(_) => {{ bf_cover("refused"); bf_check(!good, "a well formed message is accepted"); }}
    }}"""
                    h.root(f'{r.tag}_run{np}_{k}_{extra}', f'g: u8, s: u8, x: [u32; {r.upp}]', body, f'{r.path}::try_from of {np} packets of which number {k} is anything, followed by {extra} words')
    for n in (64, 300):
        for k in (1, n // 2, n - 2):
            h.root(f'b_run{n}_{k}', 'x: u8, y: u8, z: u8', f"""let mut w = [0x11u8; {n}]; w[0] = z; w[{k}] = x; w[{n - 1}] = y;
    let good = z == 0xF0 && (x == 0xF7 || y == 0xF7); let end = if x == 0xF7 {{ {k}usize }} else {{ {n - 1} }};
    match sysex7::Sysex7::try_from(&w[..]) {{
        Ok(m) => {{ bf_cover("accepted"); bf_check(good, "a message which is not well formed is refused"); let d = m.data(); bf_eq(d.len(), end + 1, "length of the data"); bf_eq(d[0], 0xF0, "first byte"); bf_check(d[d.len() - 1] == 0xF7, "last byte"); }}
        Err(_) => {{ bf_cover("refused"); bf_check(!good, "a well formed message is accepted"); }}
    }}""", f'sysex7::Sysex7::try_from of {n} bytes, first, last and number {k} anything')
    # more payload than sixteen bits count
    for r in REPS:
        P, pre = vast(r)
        n = r.units(VAST)
        if r.tag == 'b':
            ok, more = 'y == 0xF7', f'w[{n - 1}] = y;'
        else:
            ok, more = 'y & 0xF == g & 0xF', f'w[{n - r.upp}] = (w[{n - r.upp}] & 0xF0FFFFFF) | ((y as u32 & 15) << 24);'
        h.root(f'{r.tag}_vast', 'y: u8, ' + P, f'''{pre} {more}
    match {r.path}::try_from(&w[..]) {{
        Ok(m) => {{ bf_cover("accepted"); bf_check({ok}, "a message which is not well formed is refused"); bf_eq(m.data().len(), {n}usize, "length of the data"); }}
        Err(_) => {{ bf_cover("refused"); bf_check(!({ok}), "a well formed message is accepted"); }}
    }}''', f'{r.path}::try_from of a message of {VAST} payload bytes, {"the last byte anything" if r.tag == "b" else "the group of the last packet anything"}')
    for n in range(top['b'] + 1):
        h.root(f'b_{n}', f'w: [u8; {max(n, 1)}]', f'''let mut end = 0usize;
    for k in 0..{n}usize {{ if end == 0 && k > 0 && w[k] == 0xF7 {{ end = k; }} }}
    let good = {'w[0] == 0xF0 && end != 0' if n else 'false'};
    match sysex7::Sysex7::try_from(&w[..{n}]) {{
        Ok(m) => {{ {'bf_cover("accepted"); ' if n >= 2 else ''}bf_check(good, "a message which is not well formed is refused"); if good {{ let d = m.data(); bf_eq(d.len(), end + 1, "length of the data"); for k in 0..{n} {{ if k < d.len() {{ bf_eq(d[k], w[k], "data"); }} }} }} }}
        Err(_) => {{ bf_cover("refused"); bf_check(!good, "a well formed message is accepted"); }}
    }}''', f'sysex7::Sysex7::try_from of any {n} bytes', cover=False)
    return [h]
