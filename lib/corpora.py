"""Corpora: for every property the programs it is decided on."""
import itertools
from dgen import F, P, Raw, Top, V, pure, pure1, evx, evx1, reset
import dgen

SIMPLE = ['big', 'little', 'is_big', 'is_little', 'magic', 'magicb', 'args', 'args_tuple', 'count', 'offset', 'offset_after', 'if', 'ifelse',
          'seek_before', 'pad_before', 'align_before', 'pad_size_to', 'pad_after', 'align_after', 'restore', 'try', 'map', 'try_map',
          'try_map_io', 'now', 'assert', 'assert2', 'assert_custom', 'default', 'ignore', 'calc', 'parse_with', 'temp']
MOVES = ['seek_before', 'pad_before', 'align_before', 'pad_size_to', 'pad_after', 'align_after']
EXCL = [{'big', 'little', 'is_big', 'is_little'}, {'magic', 'magicb'}, {'args', 'args_tuple'}, {'if', 'ifelse'}, {'map', 'try_map', 'try_map_io'},
        {'assert', 'assert2', 'assert_custom'}, {'default', 'ignore', 'calc', 'parse_with'}, {'now', 'offset_after'}]


def compatible(ds):
    ds = set(ds)
    return all(len(ds & x) <= 1 for x in EXCL)


def mkfield(name, n, ds, use=None, ev=False):
    """A field with the given directives.  `use`: name of an earlier u32 field some expressions mention."""
    ds = set(ds)
    k = {}

    def ex(ty):
        return (evx1(ty, 'u32', use) if use else evx(ty)) if ev else (pure1(ty, 'u32', use) if use else pure(ty))
    for e in ('big', 'little'):
        if e in ds:
            k['endian'] = e
    for e in ('is_big', 'is_little'):
        if e in ds:
            k['endian'] = (e, ex('bool'))
    if 'magic' in ds:
        k['magic'] = '0x1234u16'
    if 'magicb' in ds:
        k['magic'] = 'b"AB"'
    args = '()'
    leaf = f"L<{n}>"
    if 'args' in ds:
        k['args'] = [ex('u32'), '7u8']
        args = '(u32, u8)'
        leaf = f"LA<(u32, u8), {n}>"
    if 'args_tuple' in ds:
        k['args_tuple'] = ex('(u32, u8)')
        args = '(u32, u8)'
        leaf = f"LA<(u32, u8), {n}>"
    if 'count' in ds:
        k['count'] = ex('usize')
    if 'offset' in ds:
        k['offset'] = ex('u64')
    if 'offset_after' in ds:
        k['offset_after'] = ex('u64')
    raw = leaf
    if 'try' in ds:
        k['try_'] = True
        raw = f"Option<{leaf}>"
    ty = raw
    if 'default' in ds:
        k['default'] = True
    if 'ignore' in ds:
        k['ignore'] = True
    if 'calc' in ds:
        k['calc'] = ex(leaf)
    if 'parse_with' in ds:
        dgen._id[0] += 1
        k['parse_with'] = f"parse::<_, {leaf}, {args}, {dgen._id[0]}>"
    if 'map' in ds:
        ty = 'u8'
        k['map'] = f"|v: {raw}| {pure1('u8', raw, 'v')}"
        k['src'] = raw
        k['aptype'] = leaf
    if 'try_map' in ds:
        ty = 'u8'
        k['try_map'] = f"|v: {raw}| {pure1('Result<u8, L<77>>', raw, 'v')}"
        k['err'] = 'L<77>'
        k['src'] = raw
        k['aptype'] = leaf
    if 'try_map_io' in ds:
        ty = 'u8'
        k['try_map'] = f"|v: {raw}| {pure1('Result<u8, io::Error>', raw, 'v')}"
        k['err'] = 'io::Error'
        k['src'] = raw
        k['aptype'] = leaf
    if 'if' in ds:
        k['cond'] = ex('bool')
    if 'ifelse' in ds:
        k['cond'] = ex('bool')
        k['alt'] = ex(ty)
    if 'seek_before' in ds:
        k['seek_before'] = f"SeekFrom::Start({ex('u64')})"
    for m in ('pad_before', 'align_before', 'pad_size_to', 'pad_after', 'align_after'):
        if m in ds:
            k[m] = ex('i64')
    if 'restore' in ds:
        k['restore'] = True
    if 'now' in ds:
        k['now'] = 'deref_now'
    if 'assert' in ds:
        k['asserts'] = [(ex('bool'),)]
    if 'assert2' in ds:
        k['asserts'] = [(ex('bool'), '"first {}"', ex('u32')), (ex('bool'), '"second"')]
    if 'assert_custom' in ds:
        k['asserts'] = [(ex('bool'), ex('L<78>'))]
    if 'temp' in ds:
        k['temp'] = True
    k.setdefault('aptype', leaf)
    return F(name, ty, **k)


LEAD = [F('a', 'L<1>')]


def program(name, ctx, ds, use=False, ev=False):
    """The field `b` with directives `ds` in context `ctx`."""
    temp = 'temp' in ds
    der = 'attr' if temp or ctx == 'attr' else 'BinRead'
    u = {'tuple': 'self_0', 'vtuple': 'self_0'}.get(ctx, 'a') if use else None
    bn = {'tuple': 'self_1', 'vtuple': 'self_1'}.get(ctx, 'b')
    b = mkfield(bn, 2, ds, u, ev)
    at = 'u32' if use else 'L<1>'
    note = f"field directives {'+'.join(ds) or '(none)'} in {ctx}" + (', expressions use an earlier field' if use else '')
    k = dict(derive=der, note=note)
    three = lambda: [F('a', at), b, F('c', 'L<3>')]
    tthree = lambda: [F('self_0', at), b, F('self_2', 'L<3>')]
    if ctx in ('struct', 'attr'):
        return P(name, 'struct', None, three(), **k)
    if ctx == 'split':
        return P(name, 'struct', None, three(), split=True, **k)
    if ctx == 'tuple':
        return P(name, 'struct', None, tthree(), tuple_=True, **k)
    if ctx == 'only':
        return P(name, 'struct', None, [b], **k)
    if ctx == 'last':
        return P(name, 'struct', None, [F('a', at), F('c', 'L<3>'), b], **k)
    if ctx == 'twice':
        b2 = mkfield('d', 4, ds, u, ev)
        return P(name, 'struct', None, [F('a', at), b, F('c', 'L<3>'), b2], **k)
    if ctx == 'top':
        return P(name, 'struct', Top(endian='big', magic='0x55u8', imports=[('i0', 'u32'), ('i1', 'L<9>')], pre=[(pure('bool'), '"pre"')],
                                     asserts=[(pure('bool'), '"post"')]), three(), **k)
    if ctx == 'toplittle':
        return P(name, 'struct', Top(endian='little', import_tuple=('it', '(u32, u8)')), three(), **k)
    if ctx == 'generic':
        return P(name, 'struct', None, three() + [F('g', 'G')], generics='<G: BinRead<Args = ()>>', inst='<L<8>>', gbind='type G = L<8>;', **k)
    if ctx == 'vnamed':
        return P(name, 'enum', None, variants=[V('X', [F('p', 'L<5>')]), V('Y', three()), V('Z', [F('q', 'L<6>')])], **k)
    if ctx == 'vtuple':
        return P(name, 'enum', None, variants=[V('X', [F('self_0', 'L<5>')], tuple_=True), V('Y', tthree(), tuple_=True), V('Z')], **k)
    if ctx == 'vtop':
        return P(name, 'enum', Top(endian='little', magic='0x55u8', imports=[('i0', 'u32')], mode='return_unexpected_error'),
                 variants=[V('X', [F('p', 'L<5>')], magic="b'x'"), V('Y', three(), endian='big', pre=[(pure('bool'),)], asserts=[(pure('bool'), '"v"')])], **k)
    raise ValueError(ctx)


CTXS = ['struct', 'attr', 'split', 'tuple', 'only', 'last', 'twice', 'top', 'toplittle', 'generic', 'vnamed', 'vtuple', 'vtop']


def field_struct(name, ds):
    return program(name, 'struct', ds)


def combos(own, k=2, pool=SIMPLE, must=1):
    """all compatible sets of <= k directives with at least `must` of `own`"""
    out = []
    seen = set()
    for r in range(1, k + 1):
        for c in itertools.combinations(pool, r):
            if len(set(c) & set(own)) < must or not compatible(c):
                continue
            f = frozenset(c)
            if f not in seen:
                seen.add(f)
                out.append(c)
    return out


def pairwise(prefix, own, k=2, pool=SIMPLE):
    return [field_struct(f"{prefix}__{'__'.join(c)}", c) for c in combos(own, k, pool)]


def dname(prefix, ctx, c, suffix=''):
    return f"{prefix}__{ctx}{suffix}__{'__'.join(c) or 'none'}"


def field_corpus(own, tier, rng, triples=True, ctxs=CTXS, pool=SIMPLE, cap=2600):
    """Every pair (quick) and triple of compatible field directives which
    contains a directive of `own`, and every such directive alone in every context."""
    ps = []
    for c in combos(own, 2, pool):
        ps.append(('struct', c, False))
    for ctx in ctxs:
        if ctx == 'struct':
            continue
        for c in combos(own, 1, pool):
            ps.append((ctx, c, False))
    for ctx in ('struct', 'tuple', 'vnamed'):
        for c in combos(own, 1, pool):
            ps.append((ctx, c, True))
    for c in combos(own, 2, pool):
        if len(c) == 2:
            ps.append((('vnamed', 'tuple', 'top', 'last', 'twice', 'vtop')[rng.randrange(6)], c, rng.random() < .3))
    if triples:
        t = [c for c in combos(own, 3, pool) if len(c) == 3]
        if tier == 'quick' and len(t) > cap:
            t = rng.sample(t, cap)
        ps += [('struct', c, False) for c in t]
        if tier == 'thorough':
            q = [c for c in combos(own, 3, pool) if len(c) == 3]
            ps += [(ctx, c, rng.random() < .5) for c in rng.sample(q, min(len(q), 1500)) for ctx in ('vnamed', 'top', 'tuple')]
            q = [c for c in (tuple(sorted(set(rng.sample(pool, 4)) | {rng.choice(sorted(own))})) for _ in range(6000)) if compatible(c)]
            ps += [(rng.choice(ctxs), c, rng.random() < .5) for c in q[:2500]]
    out = []
    seen = set()
    for ctx, c, use in ps:
        n = dname('f', ctx, c, 'u' if use else '')
        if n in seen:
            continue
        seen.add(n)
        p = program(n, ctx, c, use)
        rest = tuple(x for x in c if x not in own)
        p.base = (ctx, rest, use)
        out.append(p)
    return out


def resolve_base(b):
    if isinstance(b, tuple):
        ctx, c, use = b
        return program(dname('b', ctx, c, 'u' if use else ''), ctx, c, use)
    return b


# ------------------------------------------------------------------ random
MAGICS = ['0x12u8', '0x1234u16', '0x12345678u32', '0x1122334455667788u64', '0x11u128', '-3i8', '-2i16', '-7i32', '5i64', '-9i128', '1.5f32', '2.5f64',
          'b"A"', 'b"MAGIC"', "b'x'", "'c'", 'b"\\0\\xff"']


def rnd_dirs(rng, own, pool, lo=0, hi=3, bias=.6):
    for _ in range(50):
        n = rng.randint(lo, hi)
        ds = set(rng.sample(pool, min(n, len(pool))))
        if own and rng.random() < bias:
            ds.add(rng.choice(own))
        if compatible(ds):
            return sorted(ds)
    return []


def rnd_fields(rng, own, pool, base, nmax=4, tuple_=False, prefix='f', temp_ok=True):
    n = rng.randint(1, nmax)
    fs = []
    for i in range(n):
        nm = f"self_{i}" if tuple_ else f"{prefix}{i}"
        if i == 0 and rng.random() < .4:
            fs.append(F(nm, 'u32'))
            continue
        ds = rnd_dirs(rng, own, pool)
        if not temp_ok:
            ds = [d for d in ds if d != 'temp']
        use = fs[0].name if fs and fs[0].ty == 'u32' and rng.random() < .5 else None
        fs.append(mkfield(nm, base + i, ds, use))
    return fs


def rnd_top(rng, what=('endian', 'magic', 'imports', 'pre', 'asserts')):
    k = {}
    if 'endian' in what and rng.random() < .5:
        k['endian'] = rng.choice(['big', 'little'])
    if 'magic' in what and rng.random() < .4:
        k['magic'] = rng.choice(MAGICS)
    if 'imports' in what and rng.random() < .35:
        if rng.random() < .5:
            k['imports'] = [('i0', 'u32'), ('i1', 'L<9>'), ('i2', 'u32')][:rng.randint(1, 3)]
        else:
            k['import_tuple'] = ('it', '(u32, u8)')
    if 'pre' in what and rng.random() < .3:
        k['pre'] = [(pure('bool'), '"pre {}"', pure('u32')), (pure('bool'),)][:rng.randint(1, 2)]
    if 'asserts' in what and rng.random() < .35:
        k['asserts'] = [(pure('bool'), '"as"'), (pure('bool'), pure('L<79>')), (pure('bool'),)][:rng.randint(1, 3)]
    return k


def is_attr(fs):
    return any(f.temp for f in fs)


def rnd_struct(rng, name, own, pool=SIMPLE, nmax=4):
    tuple_ = rng.random() < .25
    fs = rnd_fields(rng, own, pool, 10, nmax, tuple_, 'f')
    return P(name, 'struct', Top(**rnd_top(rng)), fs, tuple_=tuple_, split=rng.random() < .2,
             derive='attr' if is_attr(fs) or rng.random() < .15 else 'BinRead', note='random struct')


def rnd_enum(rng, name, own, pool=SIMPLE, vown=('endian', 'magic', 'pre', 'asserts'), nmax=2):
    top = rnd_top(rng)
    m = rng.choice([None, None, 'return_all_errors', 'return_unexpected_error'])
    if m:
        top['mode'] = m
    vs = []
    allf = []
    nv = rng.choice([1, 2, 2, 3, 3, 4])
    if nv > 2:
        nmax = 1
    for i in range(nv):
        kind = rng.choice(['named', 'named', 'tuple', 'unit', 'empty'])
        vt = rnd_top(rng, vown)
        if kind == 'unit' and nv > 1 and 'asserts' not in top:
            vs.append(V(f"V{i}", **{k: v for k, v in vt.items() if k in ('magic', 'pre')}))
            continue
        fs = rnd_fields(rng, own, pool, 10 + 10 * i, nmax, kind == 'tuple', f"f{i}_", temp_ok=True)
        allf += fs
        vs.append(V(f"V{i}", fs, tuple_=kind == 'tuple', **vt))
    if not any(v.tuple_ is not None for v in vs):
        fs = rnd_fields(rng, own, pool, 90, 2, False, 'g')
        allf += fs
        vs.append(V('W', fs))
    return P(name, 'enum', Top(**top), variants=vs, derive='attr' if is_attr(allf) else 'BinRead', note='random enum')


def rnd_unitenum(rng, name):
    t = rnd_top(rng, ('endian', 'imports'))
    if rng.random() < .5:
        t['repr'] = rng.choice(['u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'u128', 'i128'])
        if rng.random() < .4:
            t['magic'] = rng.choice(MAGICS)
        vals = rng.sample(range(0, 100), rng.randint(1, 5))
        vs = [V(f"V{i}", disc=(d if rng.random() < .7 else None), **({'pre': [(pure('bool'),)]} if rng.random() < .3 else {})) for i, d in enumerate(sorted(vals))]
        # implicit discriminants continue from the previous one
    else:
        ty = rng.choice(['u8', 'u16', 'u32', 'i16', 'u64'])
        vals = rng.sample(range(-20 if ty[0] == 'i' else 0, 100), rng.randint(1, 5))
        vs = [V(f"V{i}", magic=f"{d}{ty}", **({'pre': [(pure('bool'),)]} if rng.random() < .3 else {})) for i, d in enumerate(vals)]
    return P(name, 'unitenum', Top(**t), variants=vs, note='random unit-like enum')


def rnd_mapped(rng, name):
    t = rnd_top(rng)
    args = '()'
    src = 'L<40>'
    if 'imports' in t:
        src = 'LA<(%s), 40>' % ''.join(ty + ', ' for _, ty in t['imports'])
    elif 'import_tuple' in t:
        src = 'LA<(u32, u8), 40>'
    kind = rng.choice(['struct', 'tuple', 'enum', 'unit'])
    if rng.random() < .5:
        t['map'] = f"|v: {src}| {pure1('T', src, 'v')}"
    else:
        e = rng.choice(['L<77>', 'io::Error'])
        t['try_map'] = f"|v: {src}| {pure1(f'Result<T, {e}>', src, 'v')}"
        t['err'] = e
    t['src'] = src
    if kind == 'enum':
        return P(name, 'enum', Top(**t), variants=[V('A', [F('x', 'u8')]), V('B')], note='mapped enum')
    if kind == 'unit':
        return P(name, 'unit', Top(**t), note='mapped unit struct')
    fs = [F('self_0' if kind == 'tuple' else 'x', 'u8'), F('self_1' if kind == 'tuple' else 'y', 'L<3>')]
    return P(name, 'struct', Top(**t), fs, tuple_=kind == 'tuple', note='mapped struct')


def rnd_unit(rng, name):
    return P(name, 'unit', Top(**rnd_top(rng)), note='random unit struct')


def random_corpus(rng, own, n, kinds=('struct', 'struct', 'enum', 'mapped', 'unitenum', 'unit')):
    out = []
    for i in range(n):
        k = kinds[i % len(kinds)]
        nm = f"r{i}_{k}"
        out.append({'struct': lambda: rnd_struct(rng, nm, own), 'enum': lambda: rnd_enum(rng, nm, own), 'mapped': lambda: rnd_mapped(rng, nm),
                    'unitenum': lambda: rnd_unitenum(rng, nm), 'unit': lambda: rnd_unit(rng, nm)}[k]())
    return out
