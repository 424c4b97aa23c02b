"""What the attribute macro leaves of an item (C22): items written with parser
attributes and temp fields next to the definition they must turn into."""
import itertools
import re

import build


class D:
    """source: `pub mod a { item } pub mod b { the definition it must leave }`"""

    def __init__(self, name, given, want, note):
        self.name, self.given, self.want, self.note = name, given, want, note
        self.base = None

    def source(self):
        use = 'use binread::{BinRead, derive_binread, io::SeekFrom}; use vrt::*; use super::D;\n'
        return (f"#[derive(Clone, Copy, PartialEq, Debug, Default, BinRead)] pub struct D;\npub mod a {{ {use}{self.given} }}\n"
                f"pub mod b {{ {use}{self.want} }}\n")

    def type_src(self):
        return self.given


def scrub(l, name):
    l = re.sub(r'(/[^\s()",]*)?corpus\.rs:\d+:\d+: \d+:\d+( \(#\d+\))?', '@', l)
    l = re.sub(r'ModId\(DefId\([^~]*~ corpus\[\w+\](::)?([^)]*)\)\)', r'\2', l)
    l = re.sub(r'kind: (Raw\([^)]*\)|Sugared\(\w+\)), ', '', l)
    l = re.sub(r'DefId\([^~]*~ ', '(', l)
    l = re.sub(r'(field_shuffle_seed: |AttrId\(|#)\d+', '', l)
    return re.sub(r'\bm_%s::[ab]\b' % re.escape(name), 'M', l)


def judge(cfg, ps, wd):
    g, failed = build.analyse(cfg, ps, 'adts\t\t\t\n', wd)
    ad = g.get('__adts', {})
    out = []
    for p in ps:
        m = [m for q, m in failed if q.name == p.name]
        r = {'mism': [], 'und': [], 'st': {'definitions': 1}, 'fns': []}
        if m:
            r['mism'].append({'what': 'does not build', 'at': p.name, 'detail': m[0], 'path': m[:4]})
        else:
            a, b = (sorted(scrub(x, p.name) for x in ad.get(f"m_{p.name}::{q}::T", ['missing']) if x != 'impl binread::BinRead') for q in 'ab')
            r['st']['parts_compared'] = len(b)
            if b == ['missing']:
                r['und'].append(('no definition', p.name))
            elif a != b:
                left, right = [x for x in a if x not in b], [x for x in b if x not in a]
                r['mism'].append({'what': 'definition', 'at': p.name, 'detail': 'emitted ' + '; '.join(left or a)[:300] + ' -- wanted ' + '; '.join(right or b)[:300], 'path': left + ['--'] + right})
            if 'impl binread::BinRead' not in ad.get(f"m_{p.name}::a::T", []):
                r['mism'].append({'what': 'no parser', 'at': p.name, 'detail': 'the item has no BinRead implementation', 'path': []})
        out.append((p.name, r))
    return out


KEEP = ['/** doc */', '#[doc = "more"]', '#[deprecated]', '#[deprecated(note = "br")]', '#[cfg(all())]', '#[doc(hidden)]', '#[cfg_attr(all(), doc = "c")]']
KEEP_FIELD = KEEP
KEEP_VARIANT = KEEP
KEEP_ITEM = ['/** doc */', '#[doc = "more"]', '#[deprecated]', '#[derive(Debug)]', '#[derive(Clone, PartialEq)]', '#[must_use]', '#[must_use = "binread"]', '#[allow(dead_code)]', '#[doc(hidden)]']
TYPES = ['u8', 'u16', '[u8; 4]', 'Option<u8>', '(u8, i8)', 'D', 'L<1>', 'Box<u16>']
FBR = ['', '#[br(big)]', '#[br(little, pad_before = 1)]', '#[binread(magic = b"x")]', '#[br(magic = 7u16)] #[br(align_after = 4)]', '#[br()]', '#[br(if(true))]', '#[binread(restore_position)]',
       '#[br(assert(true))] #[br(assert(true, "m"))]', '#[br(seek_before = SeekFrom::Current(0), pad_size_to = 8)]']


def attrs(rng, keep, br, n=None):
    """attributes in some order -> (given, wanted)"""
    ks = rng.sample(keep, rng.choice([0, 0, 1, 2]) if n is None else min(n, len(keep)))
    if sum('deprecated' in k for k in ks) > 1 or sum('must_use' in k for k in ks) > 1:
        ks = ks[:1]
    seq = [(k, True) for k in ks]
    bs = [(b, False) for b in br if b]
    # keep the order among themselves
    m = []
    while seq or bs:
        src = seq if not bs or (seq and rng.random() < .5) else bs
        m.append(src.pop(0))
    return ' '.join(a for a, _ in m), ' '.join(a for a, k in m if k)


def fields(rng, temps, tuple_, vis=True, base='f'):
    given, want = [], []
    for i, t in enumerate(temps):
        br = [rng.choice(FBR)]
        if t:
            br = rng.choice([['#[br(temp)]'] + br, br + ['#[br(temp)]'], ['#[binread(temp)]'] + br, ['#[br(temp, try)]']])
        ty = rng.choice(TYPES)
        if '#[br(temp, try)]' in br:
            ty = 'Option<u8>'
        v = rng.choice(['', 'pub ', 'pub(crate) ', 'pub(super) ', 'pub(in crate) ']) if vis else ''
        a, b = attrs(rng, KEEP_FIELD, br)
        d = ('' if tuple_ else f"{base}{i}: ") + ty
        given.append(f"{a} {v}{d}")
        if not t:
            want.append(f"{b} {v}{d}")
    return ', '.join(given), ', '.join(want)


def body(rng, temps, tuple_, vis=True):
    a, b = fields(rng, temps, tuple_, vis)
    return (f"({a})", f"({b})") if tuple_ else (f"{{ {a} }}", f"{{ {b} }}")


def wrap(rng, head_given, head_want, keyword, bodies, gen='', where=''):
    m = rng.choice(['#[derive_binread]', '#[binread::derive_binread]', '#[derive_binread()]'])
    return m + ' ' + head_given + keyword.format(gen, where, *[bodies[0]]), head_want + keyword.format(gen, where, *[bodies[1]])


def item(rng, name, kind, temps, nothers=2, at=0, gen=None):
    tops = ['', '#[br(big)]', '#[br(little)] #[br(magic = 1u8)]', '#[binread(magic = b"ab", assert(true))]', '#[br(import(a: u8))]', '#[br(pre_assert(true, "x"))]']
    hg, hw = attrs(rng, KEEP_ITEM, [rng.choice(tops) if kind != 'unitenum' else '#[br(repr = u8)]'] + (['#[repr(C)]'] if False else []))
    vis = rng.choice(['', 'pub ', 'pub(crate) '])
    gen, where = gen or ('', '')
    if kind in ('struct', 'tuple'):
        a, b = body(rng, temps, kind == 'tuple')
        if gen:
            a, b = (x[:-1] + ('' if x[:-1].strip() in '({' else ', ') + ('' if kind == 'tuple' else 'g: ') + 'G' + x[-1] for x in (a, b))
        kw = vis + ('struct T{0}{2}{1};' if kind == 'tuple' else 'struct T{0}{1}{2}')
        return D(name, *wrap(rng, hg + ' ', hw + ' ', kw, (a, b), gen, where), f"{kind}, temp fields {temps}")
    if kind == 'unit':
        return D(name, *wrap(rng, hg + ' ', hw + ' ', vis + 'struct T{0}{1}{2};', ('', '')), 'unit struct')
    gs, ws = [], []
    n = 1 + nothers
    for i in range(n):
        if kind == 'unitenum':
            a, b = attrs(rng, KEEP_VARIANT, [rng.choice(['', '#[br(pre_assert(true))]'])])
            d = rng.choice(['', f" = {10 * i + 3}"])
            gs.append(f"{a} V{i}{d}")
            ws.append(f"{b} V{i}{d}")
            continue
        k = rng.choice(['struct', 'tuple', 'unit']) if i != at else ('tuple' if kind == 'vtuple' else 'struct')
        br = rng.choice(['', '#[br(magic = %du8)]' % i, '#[br(pre_assert(true))]', '#[binread(magic = b"v")]'])
        if k == 'unit':
            a, b = attrs(rng, KEEP_VARIANT, [br])
            gs.append(f"{a} V{i}")
            ws.append(f"{b} V{i}")
            continue
        ts = temps if i == at else [rng.random() < .4 for _ in range(rng.randint(0, 3))]
        x, y = body(rng, ts, k == 'tuple', False)
        a, b = attrs(rng, KEEP_VARIANT, [br])
        gs.append(f"{a} V{i}{x}")
        ws.append(f"{b} V{i}{y}")
    if gen:
        gs.append('G(G)')
        ws.append('G(G)')
    return D(name, *wrap(rng, hg + ' ', hw + ' ', vis + 'enum T{0}{1} {2}', ('{ ' + ', '.join(gs) + ' }', '{ ' + ', '.join(ws) + ' }'), gen, where), f"{kind} at variant {at}, temp fields {temps}")


GENS = [None, ('<G: BinRead<Args = ()>>', ''), ('<G>', ' where G: BinRead<Args = ()> + Copy'), ('<G: BinRead<Args = ()>, const N: usize>', '')]


def definitions(rng, rand):
    out = []
    for kind in ('struct', 'tuple', 'vnamed', 'vtuple'):
        for n in range(0, 5):
            for t in itertools.product([False, True], repeat=n):
                at = rng.choice([0, 1, 2])
                s = ''.join('t' if x else 'k' for x in t) or 'none'
                out.append(item(rng, f"d_{kind}_{s}", kind, list(t), 2, at, rng.choice(GENS[:3])))
    # helper attributes of other derives
    out.append(D('d_default', '#[derive_binread] #[derive(Default, Debug)] #[br(repr = u8)] pub enum T { A, #[default] B = 4, #[br(pre_assert(true))] C }', '#[derive(Default, Debug)] pub enum T { A, #[default] B = 4, C }', 'helper attribute of another derive'))
    for r in ('C', 'transparent', 'align(8)', 'C, packed'):
        n = re.sub(r'\W+', '_', r)
        out.append(D('d_repr_' + n, f"#[derive_binread] #[repr({r})] pub struct T(#[br(temp)] u8, pub u32);", f"#[repr({r})] pub struct T(pub u32);", 'repr kept'))
    for r in ('u8', 'u16', 'i32', 'C'):
        out.append(D('d_erepr_' + r, f"#[derive_binread] #[repr({r})] #[br(repr = u8)] pub enum T {{ A = 3, B }}", f"#[repr({r})] pub enum T {{ A = 3, B }}", 'repr of the enum kept'))
    for i in range(rand):
        kind = rng.choice(['struct', 'tuple', 'vnamed', 'vtuple', 'unit', 'unitenum'])
        t = [rng.random() < .4 for _ in range(rng.randint(0, 6))]
        out.append(item(rng, f"d_r{i}", kind, t, rng.randint(0, 3) if kind in ('vnamed', 'vtuple') else rng.randint(0, 4), 0, rng.choice(GENS) if kind not in ('unit', 'unitenum') else None))
    return out
