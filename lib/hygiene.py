"""Names (C29): the same type next to items, fields, imports and parameters of
every name the derive could have introduced or relied upon."""
import os
import re

import build
import corpora
import dgen
from dgen import F, P, Raw, Top, V, evx, pure, pure1
from witness import W

# what authors call things, and what a parser might call its own variables
FIXED = ['reader', 'writer', 'options', 'opts', 'ro', 'args', 'arguments', 'value', 'val', 'error', 'err', 'e', 'pos', 'position', 'size', 'len', 'pad', 'padding', 'align', 'alignment', 'endian',
         'endianness', 'big', 'little', 'magic', 'count', 'offset', 'temp', 'tmp', 'res', 'result', 'ret', 'read', 'seek', 'start', 'end', 'saved_position', 'index', 'i', 'n', 'x', 'v', 'it', 'f', 'r',
         'buf', 'data', 'field', 'fields', 'variant', 'input', 'output', 'state', 'map', 'cond', 'condition', 'message', 'basket', 'errors', 'item', 'inner', 'outer', 'read_options', 'after_parse',
         'stream_pos', 'magic_val', 'R', 'E', 'A', 'Args', 'Error', 'Endian', 'Read', 'Seek', 'ReadOptions', 'BinResult', 'Result', 'Option', 'Vec', 'Box', 'String', 'Reader', 'Fn', 'FnOnce', 'Iterator',
         'Default', 'From', 'Into', 'Try', 'format', 'vec', 'stringify', 'concat', 'matches', 'assert', 'panic', 'core', 'std', 'alloc', 'io', 'kw', 'private', 'default', 'self_0', 'self_1', 'drop', 'StreamPosition']
KEYWORDS = set('as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while '
               'async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen union raw'.split())
# the language prelude's variants and the crate itself are what every macro relies on; the rest is this harness
EXCEPT = {'Ok', 'Err', 'Some', 'None', 'binread', 'vrt', 'L', 'LA', 'T', 'BinRead', 'SeekFrom', 'derive_binread', 'pure0', 'pure1', 'parse', 'tell', 'go', 'u', 'Rdr', 'opaque', 'macro_rules', 'rust_2018',
          'rust_2021', 'prelude_import', 'prelude', 'corpus'}
PRIM = set('u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64 bool char str'.split())


def rich(*a, **k):
    """always the same opaque expressions"""
    s = dgen._id[0]
    dgen.reset()
    try:
        return rich_(*a, **k)
    finally:
        dgen._id[0] = s


def rich_(kind, e, arg='u32', gen=None, fname=lambda i: f"f{i}", tname='u32', vname=lambda i: f"V{i}", first=None, top=None):
    """types in which every kind of expression mentions `e` (an expression of type u32)"""
    p1 = lambda ty: pure1(ty, arg, e)
    lt = gen or tname
    k = top or {}

    def fs(base=0):
        g = lambda i: fname(base + i)
        out = [F(g(0), 'u32', endian=('is_big', p1('bool')))] if first is None else [first]
        out += [F(g(1), 'L<1>', count=p1('usize'), offset=p1('u64'), pad_before=p1('i64'), pad_after=p1('i64'), offset_after=p1('u64'), asserts=[(p1('bool'), '"m {}"', e)]),
                F(g(2), 'LA<(u32, u8), 2>', args=[p1('u32'), '7u8'], magic='b"AB"', seek_before=f"SeekFrom::Start({p1('u64')})", align_before=p1('i64'), restore=True),
                F(g(3), 'u8', try_map=f"|__v: L<3>| pure1::<Result<u8, L<77>>, _, 903>((__v, {e}))", src='L<3>', err='L<77>', aptype='L<3>', align_after=p1('i64'), pad_size_to=p1('i64')),
                F(g(4), 'Option<LA<(u32, u8), 4>>', args_tuple=p1('(u32, u8)'), try_=True, now='deref_now', cond=p1('bool'), alt=p1('Option<LA<(u32, u8), 4>>')),
                F(g(5), lt if lt != 'u32' else 'L<5>', endian='little', asserts=[(p1('bool'), p1('L<78>'))])]
        return out
    if kind == 'struct':
        return dict(kind='struct', top=Top(endian='big', magic='0x55u8', pre=[(p1('bool'), '"pre {}"', e)] if first is None else [], asserts=[(p1('bool'),)], **k), fields=fs())
    if kind == 'calc':
        f = fs()[:1] + [F(fname(1), 'u32', calc=p1('u32')), F(fname(2), 'u32', parse_with='parse::<_, u32, (u8,), 907>', args=['3u8'], pad_size_to=p1('i64'), map=None),
                        F(fname(3), 'u16', map=f"|__v: L<3>| pure1::<u16, _, 904>((__v, {e}))", src='L<3>', aptype='L<3>'), F(fname(4), 'u32', default=True, magic='7u16'), F(fname(5), 'u32', temp=True, ignore=True)]
        return dict(kind='struct', top=Top(**k), fields=f, derive='attr')
    if kind == 'enum':
        f = fs(10)
        f2 = fs(20)
        vs = [V(vname(0), f[:4], tuple_=False, magic='1u16', endian='little', asserts=[(p1('bool'), '"v"')]), V(vname(1)), V(vname(2), f2[:1] + f2[4:], tuple_=False, pre=[(p1('bool'),)] if first is None else [])]
        return dict(kind='enum', top=Top(magic='0x55u8', **k), variants=vs)
    if kind == 'enum2':
        f = fs(10)
        return dict(kind='enum', top=Top(mode='return_unexpected_error', **k), variants=[V(vname(0), [F('self_0', 'L<1>', count=p1('usize')), F('self_1', lt if lt != 'u32' else 'L<5>')], tuple_=True), V(vname(1), magic="b'x'")])
    if kind == 'repr':
        return dict(kind='unitenum', top=Top(repr='u16', endian='big', **k), variants=[V(vname(i), pre=[(p1('bool'),)] if i else None, disc=3 * i) for i in range(3)])
    if kind == 'magics':
        return dict(kind='unitenum', top=Top(**k), variants=[V(vname(i), pre=[(p1('bool'),)] if i else None, magic=f"{i}u32") for i in range(3)])
    if kind == 'unit':
        return dict(kind='unit', top=Top(magic='b"ABC"', pre=[(p1('bool'), '"u"')], asserts=[(p1('bool'), p1('L<79>'))], **k))
    if kind == 'tmap':
        return dict(kind='struct', top=Top(try_map=f"|__v: L<40>| pure1::<Result<T, L<77>>, _, 905>((__v, {e}))", src='L<40>', err='L<77>', asserts=[(p1('bool'),)], **k), fields=[F('x', 'u8')])
    raise ValueError(kind)


KINDS = ['struct', 'calc', 'enum', 'enum2', 'repr', 'magics', 'unit', 'tmap']


class H:
    """A type in a module of its own, next to `items`; its reference outside."""

    def __init__(self, name, spec, items='', note='', gbind='', rspec=None, ren=None, **kw):
        self.name, self.items, self.note, self.tags = name, items, note, ()
        spec = dict(spec)
        rspec = dict(rspec) if rspec else spec
        mk = lambda s, **k: P(name, s['kind'], s.get('top'), s.get('fields', ()), variants=s.get('variants', ()), derive=s.get('derive', 'BinRead'), note=note, **k)
        self.p = mk(spec, **kw)
        rk = {k: v for k, v in kw.items() if k not in ('pre',)}
        self.q = mk(rspec, gbind=gbind, **{k: v for k, v in rk.items() if k != 'gbind'})
        for p in (self.p, self.q):
            for f in p.fields:
                f.vis = 'pub'
        self.ren = ren
        self.base = None
        self.inline = ''

    def type_src(self):
        s = self.items + self.p.type_src()
        if self.ren:
            s = re.sub(r'\bpub (struct|enum) T\b', r'pub \1 ' + self.ren, s)
        return s

    def source(self):
        use = f"pub use u::{self.ren} as T;\n" if self.ren else 'pub use u::T;\n'
        return "pub mod u {\nuse binread::BinRead;\nuse vrt::{L, LA, pure0, pure1, parse};\nuse binread::io::SeekFrom;\nuse binread::derive_binread;\n" + self.type_src() + "}\n" + use + self.q.root() + self.q.ref()


def pool(cfgs=('std', 'dbg')):
    """identifiers of what the current derive generates, and FIXED"""
    dgen.reset()
    ps = [P('x' + k, **{**rich(k, '3u32'), 'top': rich(k, '3u32')['top']}) for k in KINDS]
    import random
    rng = random.Random(5)
    ps += corpora.random_corpus(rng, [], 60) + [corpora.program(f"s_{d}", 'struct', (d,)) for d in corpora.SIMPLE] + [corpora.program(f"v_{d}", 'vtuple', (d,)) for d in corpora.SIMPLE]
    found = set()
    for c in cfgs:
        build.build_deps(c)
        t = dgen.HEADER + ''.join(f"pub mod m_{p.name} {{\n{dgen.PRELUDE}{p.pre}{p.type_src()}}}\n" for p in ps)
        wd = os.path.join(build.WORK, f"names-{os.getpid()}")
        os.makedirs(wd, exist_ok=True)
        src = os.path.join(wd, 'corpus.rs')
        with open(src, 'w') as f:
            f.write(t)
        r = build.sh(['rustc', '+nightly'] + build.driver_args(c, src) + ['-Zunpretty=expanded'], cwd=wd)
        import shutil
        shutil.rmtree(wd, ignore_errors=True)
        if r.returncode != 0:
            # something does not build: the names it did generate are still known
            pass
        strip = lambda s: re.sub(r"b?'(\\.|[^'\\\n])'", '', re.sub(r'"(\\.|[^"\\])*"', '', s))
        found |= set(re.findall(r"(?<![\w'])[A-Za-z_]\w*", strip(r.stdout))) - set(re.findall(r'[A-Za-z_]\w*', strip(t)))
    names = [n for n in sorted(found) + FIXED if not n.startswith('__binread') and n not in KEYWORDS and n not in EXCEPT and n not in PRIM and n != '_' and not n.startswith('__')]
    return list(dict.fromkeys(names)), sorted(found)


def value_items(n):
    """(tag, items, expression of type u32 mentioning n, the same for the reference)"""
    return [('const', f"pub const {n}: u32 = 11;\n", n, f"use u::{n};\n"),
            ('fn', f"pub fn {n}(__x: u32) -> u32 {{ pure1::<u32, u32, 906>(__x) }}\npub trait {n} {{}}\n", f"{n}(5)", f"fn {n}(__x: u32) -> u32 {{ pure1::<u32, u32, 906>(__x) }}\n"),
            ('static', f"pub static {n}: u32 = 12;\npub mod {n} {{}}\n", '3u32', ''),
            ('unit', f"pub struct {n};\n", '3u32', ''),
            ('tuple', f"pub struct {n}(pub u32, pub u8);\n", f"{n}(6, 7).0", f"fn {n}(__a: u32, __b: u8) -> (u32, u8) {{ (__a, __b) }}\n")]


def type_items(n):
    return [('macro', f"#[allow(unused_macros)] macro_rules! {n} {{ ($($t:tt)*) => {{ compile_error!(\"user macro\") }} }}\npub enum {n} {{ A, B }}\n"),
            ('alias', f"pub type {n}<X> = (X, u8);\n")]


def is_type(n):
    return n[:1].isupper()


def is_self(n):
    return n.startswith('self_')   # the names tuple fields have


def items_corpus(names, kinds, tier):
    out = []
    names = [n for n in names if n not in ('Option', 'Result')]   # used by the types themselves
    for j, n in enumerate(names):
        for i, (tag, items, e, bind) in enumerate(value_items(n)):
            ks = (kinds if tier != 'quick' else kinds[j % 2::2]) if tag == 'const' else [kinds[(i + j) % len(kinds)], kinds[(i + j + 3) % len(kinds)]]
            for k in ks:
                if is_self(n) and k == 'enum2':
                    continue
                out.append(H(f"i_{tag}_{n}_{k}", rich(k, e), items, f"{tag} named {n} next to the type, used in every directive", gbind=bind))
        for i, (tag, items) in enumerate(type_items(n)):
            k = kinds[(i + j) % len(kinds)]
            if n in ('Option', 'Result'):
                continue
            out.append(H(f"i_{tag}_{n}_{k}", rich(k, '3u32'), items, f"{tag} named {n} next to the type"))
    return out


RAW = ['r#type', 'r#match', 'r#fn', 'r#loop']


def ok(n):
    return re.sub(r'\W', '_', n)


def fields_corpus(names):
    """a field of that name, used by every later directive; fields with every directive of that name"""
    out = []
    for j, n in enumerate(names + RAW):
        for k in ('struct', 'calc', 'enum'):
            out.append(H(f"f_use_{ok(n)}_{k}", rich(k, n, first=F(n, 'u32')), '', f"first field named {n}, used by the directives of the others"))
        for i in range(1, 6):
            def nm(x, i=i, n=n):
                return n if x % 10 == i else f"f{x}"
            k = ('struct', 'calc', 'enum')[(i + j) % 3]
            out.append(H(f"f_own{i}_{ok(n)}_{k}", rich(k, '3u32', fname=nm), '', f"field {i} named {n}"))
    # several such fields at once
    low = [n for n in names if not is_type(n)]
    for j in range(0, len(low) - 6, 3):
        g = low[j:j + 6]
        out.append(H(f"f_many{j}", rich('struct', g[0], fname=lambda x: g[x], first=F(g[0], 'u32')), '', 'fields named ' + ', '.join(g)))
        out.append(H(f"f_manyc{j}", rich('calc', g[0], fname=lambda x: g[x], first=F(g[0], 'u32')), '', 'fields named ' + ', '.join(g)))
    return out


def imports_corpus(names, kinds):
    out = []
    for j, n in enumerate(names):
        ks = [kinds[j % len(kinds)], kinds[(j + 3) % len(kinds)]]
        for k in ks:
            if k == 'tmap':
                continue
            t = dict(imports=[(n, 'u32'), ('__o1', 'u8')] if j % 2 else [('o1', 'u8'), (n, 'u32')]) if j % 3 else dict(import_tuple=(n, 'u32'))
            if j % 3 and j % 2:
                t = dict(imports=[(n, 'u32'), ('o1', 'u8')])
            out.append(H(f"a_{n}_{k}", rich(k, n, top=t), '', f"import named {n}, used in every directive"))
    return out


def types_corpus(names, kinds):
    """field types, type parameters, constant parameters, variants and the type itself of that name"""
    out = []
    tn = [n for n in names if is_type(n) and n not in ('Option', 'Result')] + [n for n in names if not is_type(n)][::5]
    K = [k for k in kinds if k in ('struct', 'enum', 'enum2')]
    for j, n in enumerate(tn):
        k = K[j % len(K)]
        out.append(H(f"t_field_{n}_{k}", rich(k, '3u32', tname=n), f"pub type {n} = L<5>;\n", f"field of a type named {n}", rspec=rich(k, '3u32', tname='L<5>')))
        k = K[(j + 1) % len(K)]
        out.append(H(f"t_struct_{n}_{k}", rich(k, '3u32', tname='L<6>'), f"pub struct {n} {{ pub a: u8 }}\nimpl {n} {{ pub fn new() -> u8 {{ 3 }} }}\n", f"struct named {n} next to the type"))
        k = K[(j + 2) % len(K)]
        out.append(H(f"t_param_{n}_{k}", rich(k, '3u32', gen=n), '', f"type parameter named {n}", rspec=rich(k, '3u32', gen='L<5>'), generics=f"<{n}: BinRead<Args = ()>>", inst='<L<5>>'))
        out.append(H(f"t_where_{n}_{k}", rich(K[j % len(K)], '3u32', gen=n), '', f"type parameter named {n} with a where clause", rspec=rich(K[j % len(K)], '3u32', gen='L<5>'), generics=f"<{n}>", where=f"where {n}: BinRead<Args = ()> + Copy + 'static", inst='<L<5>>'))
        kk = ('enum', 'enum2', 'repr', 'magics')
        for i in (0, 1, 2):
            k = kk[(i + j) % 4]
            out.append(H(f"t_variant{i}_{n}_{k}", rich(k, '3u32', vname=lambda x, i=i, n=n: n if x == i else f"V{x}"), '', f"variant named {n}"))
        k = kinds[j % len(kinds)]
        if k != 'tmap':
            out.append(H(f"t_self_{n}_{k}", rich(k, '3u32'), '', f"the type itself named {n}", ren=n))
    for j, n in enumerate([n for n in names if n.isupper()]):
        out.append(H(f"t_const_{n}", dict(kind='struct', fields=[F('a', 'u32'), F('b', f"Arr<{{{n}}}>", count=f"{n}"), F('c', 'L<1>', asserts=[(f"{n} > 2",)])]), ARR, f"constant parameter named {n}",
                     rspec=dict(kind='struct', fields=[F('a', 'u32'), F('b', 'u::Arr<4>', count='4usize'), F('c', 'L<1>', asserts=[(f"{n} > 2",)])]), generics=f"<const {n}: usize>", inst='<4>', gbind=f"const {n}: usize = 4;\n"))
    return out


ARR = 'pub type Arr<const Q: usize> = L<Q>;\n'


def named(p):
    m = re.match(r'[a-z]_[a-z]+\d*_(.*?)(_(%s))?$' % '|'.join(KINDS), p.name)
    return m.group(1) if m else ''


def everything(tier):
    """quick: every use of the names the derive generates, one use in ten of the others"""
    names, found = pool()
    out = items_corpus(names, KINDS, tier) + fields_corpus(names) + imports_corpus(names, KINDS) + types_corpus(names, KINDS)
    if tier == 'quick':
        core = set(found) | set(ok(r) for r in RAW)
        rest = [p for p in out if named(p) not in core]
        out = [p for p in out if named(p) in core] + rest[::10]
    return out


def bare_text(ws, no_std=True):
    """a crate which has nothing but core, binread and the items"""
    out = dgen.HEADER + '#![no_std]\n'
    spans = []
    line = out.count('\n') + 1
    for w in ws:
        head = f"pub mod m_{w.name} {{\nuse binread::{{BinRead, derive_binread, io::SeekFrom}};\nuse vrt::*;\n"
        s = head + w.src.rstrip('\n') + "\n}\n"
        spans.append((line, line + s.count('\n') - 1, w, line + head.count('\n')))
        out += s
        line += s.count('\n')
    return out, spans


class Bare(W):
    text = staticmethod(bare_text)


def bare(progs):
    return [Bare(p.name, p.pre + p.type_src(), None, p.note) for p in progs if not re.search(r'\b(Vec|String|Box|io::Error)\b', p.type_src())]
