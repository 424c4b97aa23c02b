"""What each property is decided on: corpora, judges, projections."""
import random

import corpora
import dgen
import lts
from core import Job
from corpora import SIMPLE, MOVES, field_corpus, random_corpus
from dgen import F, P, Raw, Top, V, evx, pure, pure1

DERIVE_TECH = 'abstract interpretation of MIR to event graphs; lockstep comparison with reference parsers'
DERIVE_NOTE = ('Fixpoint abstract interpretation (widening at loop heads) of the monomorphised MIR of generated parsers and every library function they '
               'reach, over an opaque reader and opaque field types: holds for every input, reader behaviour, caller option and argument value of each '
               'analysed program. Programs are a systematic corpus (all compatible pairs, and triples up to a cap, of field directives containing the '
               "property's own ones; every own directive in every context; seeded random structs, enums, mapped types), so the claim over all programs is "
               'by corpus. Trusted: the engine\'s MIR semantics, models of std calls, the reference parsers in lib/dgen.py, rustc. Undecided programs are '
               'counted in the evidence, never reported as violations.')

REG = {}


class Prop:
    def __init__(self, pid, build, technique, note, floor=0.9):
        self.after = None  # results -> further (job, place, result)
        self.pid, self.build, self.technique, self.note, self.floor = pid, build, technique, note, floor


def prop(pid, technique=DERIVE_TECH, note=DERIVE_NOTE, floor=0.9):
    def f(fn):
        REG[pid] = Prop(pid, fn, technique, note, floor)
        return fn
    return f


def rnd(pid, seed):
    return random.Random(f"{pid}/{seed}")


def derive_prop(pid, own, aspects, extra=None, rand=240, kinds=('struct', 'struct', 'enum'), triples=True, fields=True, more=None):
    def b(tier, seed):
        dgen.reset()
        rng = rnd(pid, seed)
        ps = field_corpus(own, tier, rng, triples) if fields else []
        ps += random_corpus(rng, own, rand if tier == 'quick' else rand * 8, kinds)
        if extra:
            ps += extra(tier, rng)
        asp = ('compare', tuple(sorted(aspects)))
        return [Job(ps, asp)] + (more(ps, asp) if more else [])
    prop(pid)(b)



# ------------------------------------------------------------------ special corpora
def endian_matrix():
    """every byte order on top x variant x field, with and without multi-byte magic, for every kind of type"""
    out = []
    ends = [None, 'big', 'little']
    cond = lambda k: (k, pure('bool'))
    fe = [None, 'big', 'little', 'is_big', 'is_little']
    mk = lambda e: None if e is None else e if e in ('big', 'little') else cond(e)
    for t in ends:
        for m in (None, '0x1234u16', '0x12345678u32', '2.5f64'):
            for f in fe:
                for tup in (False, True):
                    nm = ['self_0', 'self_1', 'self_2'] if tup else ['a', 'b', 'c']
                    n = f"em_s_{t}_{m and m[-3:]}_{f}_{int(tup)}"
                    fs = [F(nm[0], 'L<1>'), F(nm[1], 'LA<(u32,), 2>', args=[pure('u32')], endian=mk(f), magic=None if tup else '0x33u32'), F(nm[2], 'L<3>')]
                    out.append(P(n, 'struct', Top(endian=t, magic=m), fs, tuple_=tup, note='byte order matrix'))
            out.append(P(f"em_u_{t}_{m and m[-3:]}", 'unit', Top(endian=t, magic=m or "'c'"), note='byte order matrix'))
            for how in ('map', 'try_map'):
                k = {'map': f"|v: L<4>| {pure1('T', 'L<4>', 'v')}"} if how == 'map' else {'try_map': f"|v: L<4>| {pure1('Result<T, L<77>>', 'L<4>', 'v')}", 'err': 'L<77>'}
                for kind in ('struct', 'unit', 'enum'):
                    tp = Top(endian=t, magic=m, src='L<4>', **k)
                    n = f"em_m_{t}_{m and m[-3:]}_{how}_{kind}"
                    out.append(P(n, kind, tp, [F('x', 'u8')] if kind == 'struct' else [], variants=[V('A', [F('x', 'u8')]), V('B')] if kind == 'enum' else (), note='byte order of mapped types'))
        for v in ends:
            for f in fe:
                for m, vm in ((None, None), ('0x1234u16', None), (None, '0x4321u32'), ('0x1234u16', '7i64')):
                    n = f"em_e_{t}_{v}_{f}_{int(bool(m))}{int(bool(vm))}"
                    vs = [V('X', [F('x', 'L<1>'), F('y', 'L<2>', endian=mk(f)), F('z', 'L<3>')], endian=v, magic=vm), V('Y', [F('self_0', 'L<4>')], tuple_=True), V('Z', magic='9u16')]
                    out.append(P(n, 'enum', Top(endian=t, magic=m), variants=vs, note='byte order matrix'))
        for rp in ('u8', 'u16', 'i32', 'u64', 'i128'):
            for m in (None, '0x1234u16'):
                out.append(P(f"em_ur_{t}_{rp}_{int(bool(m))}", 'unitenum', Top(endian=t, repr=rp, magic=m), variants=[V('A', disc=2), V('B'), V('C', disc=7)], note='unit-like enum, repr'))
        for ty in ('u16', 'u32', 'i64'):
            out.append(P(f"em_um_{t}_{ty}", 'unitenum', Top(endian=t), variants=[V('A', magic='2' + ty), V('B', magic='3' + ty)], note='unit-like enum, magic'))
    for f in fe[1:]:
        for how in ('map', 'try_map', 'parse_with', 'try', 'now', 'if', 'count', 'restore'):
            p = corpora.program(f"em_f_{f}_{how}", 'toplittle', (f, how))
            out.append(p)
    return out


MAG = corpora.MAGICS


def magic_matrix():
    out = []
    for mi, m in enumerate(MAG):
        for e in (None, 'big', 'little'):
            out.append(P(f"mg_s{mi}_{e}", 'struct', Top(magic=m, endian=e), [F('a', 'L<1>')], note=f"magic {m}"))
            out.append(P(f"mg_u{mi}_{e}", 'unit', Top(magic=m, endian=e), note=f"magic {m}"))
            out.append(P(f"mg_f{mi}_{e}", 'struct', Top(), [F('a', 'L<1>'), F('b', 'L<2>', magic=m, endian=e, pad_before='3', align_before='8', asserts=[(pure('bool'),)]), F('c', 'L<3>')], note=f"field magic {m}"))
            out.append(P(f"mg_e{mi}_{e}", 'enum', Top(magic=m, endian=e), variants=[V('A', [F('a', 'L<1>')]), V('B', [F('self_0', 'L<2>')], tuple_=True), V('C')], note=f"enum magic {m}"))
            out.append(P(f"mg_v{mi}_{e}", 'enum', Top(endian=e), variants=[V('A', [F('a', 'L<1>')], magic=m), V('B', magic=m), V('C', [F('c', 'L<3>')], magic='0x77u16')], note=f"variant magic {m}"))
            out.append(P(f"mg_w{mi}_{e}", 'enum', Top(magic='0x11u8'), variants=[V('A', [F('a', 'L<1>')], magic=m, endian=e), V('B', [F('b', 'L<2>')])], note=f"variant magic {m} instead of the enum's"))
            k = {'map': f"|v: L<4>| {pure1('T', 'L<4>', 'v')}"}
            out.append(P(f"mg_m{mi}_{e}", 'struct', Top(magic=m, endian=e, src='L<4>', **k), [F('x', 'u8')], note=f"mapped type with magic {m}"))
            out.append(P(f"mg_r{mi}_{e}", 'unitenum', Top(magic=m, endian=e, repr='u16'), variants=[V('A', disc=1), V('B')], note=f"unit-like enum with magic {m}"))
        for d in ('default', 'ignore', 'calc', 'parse_with', 'map', 'try_map', 'try', 'if', 'ifelse', 'restore', 'now', 'seek_before', 'pad_size_to', 'offset', 'count', 'args'):
            p = corpora.program(f"mg_d{mi}_{d}", 'struct', (d,))
            p.fields[1].magic = m
            p.note = f"field magic {m} with {d}"
            out.append(p)
    # unit-like enums whose variants' magic is the whole value
    for mi, (a, b, c) in enumerate([('1u8', '2u8', '255u8'), ('1u16', '258u16', '3u16'), ('1u32', '2u32', '9u32'), ('1u64', '7u64', '3u64'), ('1i8', '2i8', '3i8'), ('1i16', '4i16', '2i16'),
                                    ('1i32', '4i32', '2i32'), ('-1i8', '0i8', '1i8'), ('0i16', '-2i16', '7i16'), ('5i32', '-9i32', '0i32'), ('-1i64', '1i64', '0i64'), ('0u8', '1u8', '2u8'), ('0u32', '7u32', '1u32'), ('1i64', '4i64', '2i64'), ('1u128', '4u128', '2u128'), ('b"AB"', 'b"CD"', 'b"EF"'), ("b'a'", "b'b'", "b'c'"), ("'a'", "'b'", "'c'")]):
        for e in (None, 'big', 'little'):
            out.append(P(f"mg_q{mi}_{e}", 'unitenum', Top(endian=e), variants=[V('A', magic=a), V('B', magic=b, pre=[(pure('bool'),)]), V('C', magic=c)], note='unit-like enum by magic'))
    return out


def assert_matrix():
    """every assertion form in every place, conditions and messages as events (laziness, order) and as pure terms"""
    out = []
    forms = {
        'bare': lambda b: [(b('bool'),)],
        'msg': lambda b: [(b('bool'), '"a message"')],
        'fmt': lambda b: [(b('bool'), '"fmt {} {}"', b('u32'), b('u32'))],
        'custom': lambda b: [(b('bool'), b('L<78>'))],
        'two': lambda b: [(b('bool'), '"one"'), (b('bool'), '"two"')],
        'three': lambda b: [(b('bool'),), (b('bool'), b('L<78>')), (b('bool'), '"x {}"', b('u32'))],
        'expr': lambda b: [(f"{b('u32')} > 3 && {b('bool')}", '"cmp"')],
    }
    for fn, form in forms.items():
        for bn, b in (('p', pure), ('e', evx)):
            s = f"{fn}_{bn}"
            A = lambda: form(b)
            x = lambda: [F('a', 'L<1>'), F('b', 'L<2>')]
            out += [
                P(f"as_s_{s}", 'struct', Top(asserts=A()), x(), note='struct assert'),
                P(f"as_t_{s}", 'struct', Top(asserts=A()), [F('self_0', 'L<1>'), F('self_1', 'L<2>')], tuple_=True, note='tuple struct assert'),
                P(f"as_p_{s}", 'struct', Top(pre=A(), magic='1u8'), x(), note='struct pre_assert'),
                P(f"as_sp_{s}", 'struct', Top(pre=A(), asserts=A(), imports=[('i', 'u32')]), x(), note='struct pre_assert and assert'),
                P(f"as_u_{s}", 'unit', Top(asserts=A(), pre=A(), magic='1u8'), note='unit struct'),
                P(f"as_f_{s}", 'struct', Top(), [F('a', 'L<1>', asserts=A()), F('b', 'L<2>', asserts=A())], note='field asserts'),
                P(f"as_fr_{s}", 'struct', Top(), [F('a', 'L<1>', asserts=A(), restore=True, seek_before='SeekFrom::Start(4)'), F('b', 'L<2>')], note='field assert with restore_position'),
                P(f"as_fi_{s}", 'struct', Top(), [F('a', 'L<1>', asserts=A(), cond=b('bool')), F('b', 'L<2>')], note='field assert on a conditional field'),
                P(f"as_fc_{s}", 'struct', Top(), [F('a', 'L<1>', asserts=A(), calc=b('L<1>')), F('b', 'L<2>', default=True, asserts=A()), F('c', 'L<3>')], note='assert on fields which read nothing'),
                P(f"as_e_{s}", 'enum', Top(asserts=A()), variants=[V('X', x()), V('Y', [F('self_0', 'L<3>')], tuple_=True)], note='enum assert'),
                P(f"as_ep_{s}", 'enum', Top(pre=A()), variants=[V('X', x()), V('Y')], note='enum pre_assert'),
                P(f"as_v_{s}", 'enum', Top(), variants=[V('X', x(), asserts=A()), V('Y', [F('self_0', 'L<3>')], tuple_=True, asserts=A())], note='variant assert'),
                P(f"as_vp_{s}", 'enum', Top(magic='1u8'), variants=[V('X', x(), pre=A()), V('Y', pre=A(), magic='3u8'), V('Z', [F('self_0', 'L<3>')], tuple_=True, pre=A())], note='variant pre_assert'),
                P(f"as_ev_{s}", 'enum', Top(asserts=A(), pre=A()), variants=[V('X', x(), pre=A(), asserts=A())], note='enum and variant asserts together'),
                P(f"as_q_{s}", 'unitenum', Top(repr='u8'), variants=[V('A', pre=[(c[0],) for c in A()]), V('B'), V('C', pre=[(c[0],) for c in A()])], note='unit-like enum pre_assert (repr)'),
                P(f"as_qm_{s}", 'unitenum', Top(), variants=[V('A', magic='1u16', pre=[(c[0],) for c in A()]), V('B', magic='2u16')], note='unit-like enum pre_assert (magic)'),
                P(f"as_m_{s}", 'struct', Top(pre=A(), asserts=A(), src='L<4>', map=f"|v: L<4>| {pure1('T', 'L<4>', 'v')}"), [F('x', 'u8')], note='mapped type'),
                P(f"as_mt_{s}", 'enum', Top(pre=A(), asserts=A(), src='L<4>', err='L<77>', try_map=f"|v: L<4>| {pure1('Result<T, L<77>>', 'L<4>', 'v')}"), variants=[V('A', [F('x', 'u8')]), V('B')], note='mapped enum'),
            ]
    # conditions which look at fields and imports
    k = lambda a: f"pure1::<bool, u32, 901>({a})"
    out.append(P('as_use_f', 'struct', Top(imports=[('i', 'u32')], asserts=[(k('a'), '"{}"', 'i'), (k('i'), '"{} {}"', 'a', 'c')], pre=[(k('i'), 'pure1::<L<78>, u32, 902>(i)')]),
                 [F('a', 'u32', asserts=[(k('a'), '"a = {}"', 'a')]), F('b', 'L<2>'), F('c', 'u32', asserts=[(k('a') + ' || ' + k('c'), '"c {}"', 'c')])], note='asserts over fields and imports'))
    out.append(P('as_use_t', 'struct', Top(import_tuple=('i', '(u32, u8)'), asserts=[(k('self_0'), '"{}"', 'i.0')]),
                 [F('self_0', 'u32', asserts=[(k('self_0'),)]), F('self_1', 'u32', asserts=[(k('self_0.wrapping_add(self_1)'), '"{}"', 'self_0')])], tuple_=True, note='asserts over tuple fields'))
    out.append(P('as_temp', 'struct', Top(asserts=[(k('t'), '"{}"', 't')]), [F('t', 'u32', temp=True, asserts=[(k('t'),)]), F('b', 'L<2>')], derive='attr', note='asserts over temp fields'))
    # KF-1: assertions of an enum are not checked for its unit variants
    out.append(P('kf1_enum_assert_unit', 'enum', Top(asserts=[(pure('bool'), '"every variant"')]), variants=[V('U', magic='1u8'), V('X', [F('a', 'L<1>')])], note='enum assert with a unit variant'))
    return out


def args_matrix():
    out = []
    u = lambda e, t='u32': pure1(t, 'u32', e)
    for n in range(0, 4):
        for tr in ('', ','):
            tys = ['u32', 'u8', 'u16'][:n]
            ex = [pure(t) for t in tys]
            t = '(' + ''.join(x + ', ' for x in tys) + ')'
            leaf = f"LA<{t}, 2>" if n else 'L<2>'
            f = lambda nm='b': F(nm, leaf, args=list(ex))
            if tr == '':
                out.append(P(f"ar_n{n}", 'struct', Top(), [F('a', 'L<1>'), f(), F('c', 'L<3>')], note=f"{n} arguments"))
                out.append(P(f"ar_v{n}", 'enum', Top(), variants=[V('X', [F('a', 'L<1>'), f()]), V('Y', [F('self_0', 'L<3>'), f('self_1')], tuple_=True)], note=f"{n} arguments in variants"))
                out.append(P(f"ar_t{n}", 'struct', Top(), [F('a', 'L<1>'), F('b', leaf, args_tuple='(' + ''.join(x + ', ' for x in ex) + ')'), F('c', 'L<3>')], note=f"tuple of {n} arguments"))
                for how in ('map', 'try', 'now', 'if', 'parse_with', 'restore', 'offset_after', 'count', 'offset', 'big'):
                    p = corpora.program(f"ar_{how}{n}", 'struct', ('args', how))
                    out.append(p)
    # imports feed every directive; several imports keep their positions
    imps = [('i0', 'u32'), ('i1', 'u32'), ('i2', 'u32'), ('i3', 'u32')]
    for n in range(1, 5):
        im = imps[:n]
        last = im[-1][0]
        first = im[0][0]
        pa = lambda *xs: [x for x in xs]
        fields = lambda: [
            F('a', 'LA<(u32, u32), 1>', args=[last, first]), F('b', 'L<2>', count=f"{last} as usize", offset=f"{first} as u64", offset_after=f"{last} as u64"),
            F('c', 'L<3>', cond=f"{first} > 2", asserts=[(u(last, 'bool'), '"{}"', first)]), F('d', 'u32', calc=f"{last} ^ 5"), F('e', 'L<4>', endian=('is_big', u(first, 'bool')))]
        out.append(P(f"im_s{n}", 'struct', Top(imports=im), fields(), note=f"{n} imports"))
        out.append(P(f"im_sa{n}", 'struct', Top(imports=im, pre=[(u(last, 'bool'),)], asserts=[(u(first, 'bool'), '"{}"', last)]), fields(), note=f"{n} imports in assertions"))
        out.append(P(f"im_e{n}", 'enum', Top(imports=im), variants=[V('X', fields(), pre=[(u(last, 'bool'),)]), V('Y', fields(), asserts=[(u(first, 'bool'),)]), V('Z', magic='3u8', pre=[(u(first, 'bool'),)])], note=f"{n} imports in enum"))
        out.append(P(f"im_u{n}", 'unit', Top(imports=im, magic='1u8', pre=[(u(last, 'bool'),)], asserts=[(u(first, 'bool'),)]), note=f"{n} imports in unit struct"))
        out.append(P(f"im_q{n}", 'unitenum', Top(imports=im, repr='u8'), variants=[V('A', pre=[(u(last, 'bool'),)]), V('B')], note=f"{n} imports in unit-like enum"))
        out.append(P(f"im_qm{n}", 'unitenum', Top(imports=im), variants=[V('A', magic='1u8', pre=[(u(last, 'bool'),)]), V('B', magic='2u8')], note=f"{n} imports in unit-like enum"))
        src = 'LA<(%s), 4>' % ''.join(t + ', ' for _, t in im)
        out.append(P(f"im_m{n}", 'struct', Top(imports=im, src=src, map=f"|v: {src}| pure2::<T, {src}, u32, 77>(v, {last})"), [F('x', 'u8')], note=f"{n} imports in mapped type"))
    ft = lambda: [F('a', 'LA<(u32, u8), 1>', args_tuple='it'), F('b', 'L<2>', count='it.0 as usize'), F('c', 'LA<(u32, u8), 3>', args=['it.0', 'it.1'])]
    out.append(P('im_ts', 'struct', Top(import_tuple=('it', '(u32, u8)')), ft(), note='import_tuple'))
    out.append(P('im_te', 'enum', Top(import_tuple=('it', '(u32, u8)')), variants=[V('X', ft()), V('Y', ft(), pre=[('pure1::<bool, u32, 5>(it.0)',)])], note='import_tuple'))
    out.append(P('im_tm', 'enum', Top(import_tuple=('it', '(u32, u8)'), src='LA<(u32, u8), 4>', err='L<77>', try_map="|v: LA<(u32, u8), 4>| pure2::<Result<T, L<77>>, LA<(u32, u8), 4>, (u32, u8), 77>(v, it)"),
                 variants=[V('X', [F('x', 'u8')])], note='import_tuple of a mapped enum'))
    # several fields, each with its own options: nothing leaks
    own = [('count',), ('offset',), ('offset_after',), ('args',), ('args_tuple',), ('big',), ('is_little',), ('count', 'offset'), ('offset', 'offset_after'), ('args', 'count', 'offset', 'offset_after'), ()]
    for i, a in enumerate(own):
        for j, b in enumerate(own):
            fs = [corpora.mkfield('a', 1, a), corpora.mkfield('b', 2, b), F('c', 'L<3>'), corpora.mkfield('d', 4, a)]
            out.append(P(f"lk_{i}_{j}", 'struct', Top(), fs, note=f"options of neighbouring fields {a} {b}"))
    return out


def enum_matrix(modes=(None, 'return_all_errors', 'return_unexpected_error')):
    """data enums with 1..4 variants of every kind"""
    out = []
    kinds = {
        'u': lambda n, i: V(n),
        'm': lambda n, i: V(n, magic=f"{i + 3}u16"),
        's': lambda n, i: V(n, [F('a', f"L<{10 * i + 1}>"), F('b', f"L<{10 * i + 2}>")]),
        't': lambda n, i: V(n, [F('self_0', f"L<{10 * i + 1}>")], tuple_=True),
        'g': lambda n, i: V(n, [F('a', f"L<{10 * i + 1}>", magic='7u8', asserts=[(pure('bool'), '"as"')])], magic=f"{i + 3}u8"),
        'p': lambda n, i: V(n, [F('self_0', f"L<{10 * i + 1}>")], tuple_=True, pre=[(pure('bool'),)], asserts=[(pure('bool'), pure('L<78>'))]),
        'e': lambda n, i: V(n, [], tuple_=False),
    }
    import itertools
    for mode in modes:
        for n in (1, 2, 3, 4):
            combos = list(itertools.product('umstgpe', repeat=n))
            if n == 3:
                combos = combos[::5]
            if n == 4:
                combos = combos[::97]
            for c in combos:
                if all(x in 'um' for x in c):
                    continue
                vs = [kinds[k](f"V{i}", i) for i, k in enumerate(c)]
                nm = f"en_{(mode or 'none')[-6:]}_{''.join(c)}"
                out.append(P(nm, 'enum', Top(mode=mode), variants=vs, note='data enum, variants ' + ''.join(c)))
        for top in ({'magic': '0x55u16'}, {'endian': 'big', 'magic': '0x55u16', 'pre': [(pure('bool'), '"p"')]}, {'imports': [('i', 'u32')]}, {'asserts': [(pure('bool'), '"q"')]}):
            for c in ('st', 'gs', 'pt', 'spg', 'ttt'):
                vs = [kinds[k](f"V{i}", i) for i, k in enumerate(c)]
                out.append(P(f"en_{(mode or 'none')[-6:]}_{c}_{'_'.join(top)}", 'enum', Top(mode=mode, **{k: list(v) if isinstance(v, list) else v for k, v in top.items()}), variants=vs, note='data enum with top-level directives'))
    return out


def unitenum_matrix():
    out = []
    for rp in ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'u128', 'i128'):
        for e in (None, 'big', 'little'):
            out.append(P(f"ue_{rp}_{e}", 'unitenum', Top(repr=rp, endian=e), variants=[V('A'), V('B', disc=5), V('C'), V('D', disc=100), V('E', disc=101, pre=[(pure('bool'),), (pure('bool'),)])], note='repr ' + rp))
            if rp[0] == 'i':
                out.append(P(f"ue_n_{rp}_{e}", 'unitenum', Top(repr=rp, endian=e), variants=[V('A', disc=-3), V('B'), V('C', disc=7)], note='negative discriminants'))
    for n in (1, 2, 3, 6, 12):
        out.append(P(f"ue_many{n}", 'unitenum', Top(repr='u8'), variants=[V(f"V{i}", disc=(i * 7) % 251) for i in range(n)], note=f"{n} variants"))
        out.append(P(f"ue_mmany{n}", 'unitenum', Top(), variants=[V(f"V{i}", magic=f"{(i * 7) % 251}u8") for i in range(n)], note=f"{n} variants"))
    out.append(P('ue_dup', 'unitenum', Top(repr='u8'), variants=[V('A', disc=1, pre=[(pure('bool'),)]), V('B', disc=2)], note='pre_assert falls through'))
    out.append(P('ue_mdup', 'unitenum', Top(), variants=[V('A', magic='1u8', pre=[(pure('bool'),)]), V('B', magic='1u8', pre=[(pure('bool'),)]), V('C', magic='1u8')], note='same magic, different pre_assert'))
    for n in (2, 3):
        for m, m2 in (('1u8', '2u8'), ('b"ab"', 'b"cd"'), ("'x'", "'y'"), ('7i64', '8i64')):
            t = f"{n}_{'u8' if m[0] == '1' else 'bytes' if m[0] == 'b' else 'char' if m[0] == chr(39) else 'i64'}"
            out.append(P('ue_mpre' + t, 'unitenum', Top(), variants=[V('A', magic=m, pre=[(pure('bool'),)] * n), V('B', magic=m2, pre=[(pure('bool'),)]), V('C', magic=m)], note=f"magic variants, {n} pre_asserts on one"))
        out.append(P(f"ue_rpre{n}", 'unitenum', Top(repr='i16'), variants=[V('A', disc=1, pre=[(pure('bool'),)] * n), V('B', disc=2, pre=[(pure('bool'),)])], note=f"repr variants, {n} pre_asserts on one"))
    out.append(P('ue_skip', 'unitenum', Top(), variants=[V('A', magic='1u8'), V('N'), V('C', magic='3u8')], note='a variant without magic'))
    out.append(P('ue_imp', 'unitenum', Top(repr='u16', magic='b"UE"', imports=[('i', 'u32')], endian='big'), variants=[V('A', disc=1, pre=[('pure1::<bool, u32, 3>(i)',)]), V('B', disc=2)], note='all top-level directives'))
    out.append(P('ue_mag', 'unitenum', Top(magic='b"UE"', endian='little'), variants=[V('A', magic='1u16'), V('B', magic='2u16')], note='top-level and variant magic'))
    return out


def skip_matrix():
    out = []
    forms = {'if': ('cond',), 'ifelse': ('cond', 'alt')}
    for fn in forms:
        for bn, b in (('p', pure), ('e', evx)):
            for d in [()] + [(x,) for x in SIMPLE if x not in ('if', 'ifelse')]:
                p = corpora.program(f"sk_{fn}_{bn}_{'_'.join(d) or 'none'}", 'struct', d)
                f = p.fields[1]
                f.cond = b('bool')
                if fn == 'ifelse':
                    f.alt = b(f.ty)
                p.note = f"{fn} with {d}"
                out.append(p)
    for d in ('default', 'ignore', 'calc'):
        for ctx in corpora.CTXS:
            out.append(corpora.program(f"sk_{d}_{ctx}_ev", ctx, (d,), ev=(d == 'calc')))
    out.append(P('sk_opt', 'struct', Top(), [F('a', 'u32'), F('b', 'Option<L<2>>', cond='a > 3', aptype=None), F('c', 'L<3>')], note='optional field'))
    out.append(P('sk_all', 'struct', Top(), [F('a', 'L<1>', default=True), F('b', 'L<2>', calc=evx('L<2>')), F('c', 'L<3>', ignore=True), F('d', 'L<4>')], note='only the last field reads'))
    return out


def move_matrix():
    out = []
    import itertools
    # every subset of the six movement directives, around plain and conditional fields
    for r in range(1, 7):
        for c in itertools.combinations(MOVES, r):
            out.append(corpora.program(f"mv_{'_'.join(c)}", 'struct', c))
            if r >= 3:
                out.append(corpora.program(f"mvi_{'_'.join(c)}", 'struct', c + ('if',)))
                out.append(corpora.program(f"mvr_{'_'.join(c)}", 'last', c + ('restore',)))
            if r in (2, 6):
                out.append(corpora.program(f"mvm_{'_'.join(c)}", 'struct', c + ('map',)))
                out.append(corpora.program(f"mvt_{'_'.join(c)}", 'vnamed', c + ('try',)))
                out.append(corpora.program(f"mvc_{'_'.join(c)}", 'tuple', c + ('calc',)))
                out.append(corpora.program(f"mvn_{'_'.join(c)}", 'struct', c + ('now',)))
                out.append(corpora.program(f"mvg_{'_'.join(c)}", 'struct', c + ('magic',)))
    # amounts of every integer type, literal and from a field
    for m in MOVES[1:]:
        for ty in ('u8', 'u16', 'u32', 'i32', 'i64', 'usize'):
            if m in ('pad_before', 'pad_after') and ty != 'i64':
                continue
            p = P(f"mvx_{m}_{ty}", 'struct', Top(), [F('a', 'L<1>'), F('b', 'L<2>', **{m: pure(ty)}), F('c', 'L<3>')], note=f"{m} by an amount of type {ty}")
            out.append(p)
        for lit in ('1', '4', '0x10', '3u8', '0x1000'):
            if m in ('pad_before', 'pad_after') and lit == '3u8':
                continue
            out.append(P(f"mvl_{m}_{lit}", 'struct', Top(), [F('a', 'L<1>'), F('b', 'L<2>', **{m: lit}), F('c', 'L<3>')], note=f"{m} = {lit}"))
    for sk in ('SeekFrom::Current(%s)', 'SeekFrom::End(%s)', 'SeekFrom::Start(%s as u64)'):
        out.append(P(f"mvs_{sk[10:13]}", 'struct', Top(), [F('a', 'L<1>'), F('b', 'L<2>', seek_before=sk % pure('i64')), F('c', 'L<3>')], note='seek_before = ' + sk))
        out.append(P(f"mvsr_{sk[10:13]}", 'struct', Top(), [F('a', 'L<1>'), F('b', 'L<2>', seek_before=sk % pure('i64'), pad_before='2', restore=True), F('c', 'L<3>')], note='seek_before = ' + sk))
    return out


def map_matrix():
    out = []
    # functions given as paths and closures with effects, applied once
    for bn in ('p', 'e'):
        e = pure1 if bn == 'p' else corpora.evx1
        for d in [()] + [(x,) for x in SIMPLE if x not in ('map', 'try_map', 'try_map_io')]:
            for kind in ('map', 'try_map', 'io'):
                nm = f"mp_{bn}_{kind}_{'_'.join(d) or 'none'}"
                p = corpora.program(nm, 'struct', d + ({'map': 'map', 'try_map': 'try_map', 'io': 'try_map_io'}[kind],))
                f = p.fields[1]
                raw = f.src
                if bn == 'e':
                    if kind == 'map':
                        f.map = f"|v: {raw}| {e('u8', raw, 'v')}"
                    else:
                        er = 'L<77>' if kind == 'try_map' else 'io::Error'
                        f.try_map = f"|v: {raw}| {e(f'Result<u8, {er}>', raw, 'v')}"
                out.append(p)
    fn = "pub fn mapf(v: L<2>) -> u8 { pure1::<u8, L<2>, 5>(v) }\npub fn tmapf(v: L<2>) -> Result<u8, L<77>> { pure1::<Result<u8, L<77>>, L<2>, 6>(v) }\n"
    for tup in (False, True):
        n = ['self_0', 'self_1'] if tup else ['a', 'b']
        out.append(P(f"mp_path{int(tup)}", 'struct', Top(), [F(n[0], 'L<1>'), F(n[1], 'u8', map='mapf', src='L<2>')], tuple_=tup, pre=fn, note='map by path'))
        out.append(P(f"mp_tpath{int(tup)}", 'struct', Top(), [F(n[0], 'L<1>'), F(n[1], 'u8', try_map='tmapf', src='L<2>', err='L<77>')], tuple_=tup, pre=fn, note='try_map by path'))
    out.append(P('mp_capture', 'struct', Top(), [F('a', 'u32'), F('b', 'u8', map='|v: L<2>| pure2::<u8, L<2>, u32, 9>(v, a)', src='L<2>'), F('c', 'u8', try_map='|v: L<3>| pure2::<Result<u8, L<77>>, L<3>, u32, 9>(v, a)', src='L<3>', err='L<77>')],
                 note='map capturing an earlier field'))
    fnt = "pub fn mapt(v: L<4>) -> T { pure1::<T, L<4>, 5>(v) }\npub fn tmapt(v: L<4>) -> Result<T, L<77>> { pure1::<Result<T, L<77>>, L<4>, 6>(v) }\npub fn iomapt(v: L<4>) -> Result<T, io::Error> { pure1::<Result<T, io::Error>, L<4>, 7>(v) }\n"
    for kind in ('struct', 'unit', 'enum', 'tuple', 'unitenum'):
        for how in ('map', 'try', 'io'):
            for top in ({}, {'endian': 'big'}, {'magic': '0x1234u16', 'endian': 'little'}, {'pre': [(pure('bool'), '"p"')], 'asserts': [(pure('bool'), '"a"')]}):
                if kind == 'unitenum' and ('pre' in top):
                    continue
                k = {'map': {'map': 'mapt'}, 'try': {'try_map': 'tmapt', 'err': 'L<77>'}, 'io': {'try_map': 'iomapt', 'err': 'io::Error'}}[how]
                t = Top(src='L<4>', **k, **top)
                nm = f"mp_top_{kind}_{how}_{'_'.join(top) or 'none'}"
                if kind == 'enum':
                    out.append(P(nm, 'enum', t, variants=[V('A', [F('x', 'u8')]), V('B')], pre=fnt, note='mapped enum'))
                elif kind == 'unitenum':
                    t.repr = 'u8'
                    out.append(P(nm, 'unitenum', t, variants=[V('A'), V('B')], pre=fnt, note='mapped unit-like enum'))
                elif kind == 'unit':
                    out.append(P(nm, 'unit', t, pre=fnt, note='mapped unit struct'))
                else:
                    out.append(P(nm, 'struct', t, [F('self_0' if kind == 'tuple' else 'x', 'u8')], tuple_=kind == 'tuple', pre=fnt, note='mapped struct'))
    return out


derive_prop('C02', ['restore', 'now', 'offset_after', 'try'], {'pos', 'okpos'}, kinds=('struct', 'enum', 'struct', 'unit', 'mapped', 'unitenum'),
            extra=lambda t, r: move_matrix())
derive_prop('C03', ['try'], {'pos', 'okval', 'okpos', 'errval', 'errpos'},
            more=lambda ps, asp: [Job([p for p in ps if p.name.startswith('f_')], asp, modes='*\tio_fail\t\t\n', label='seeks that fail')])
derive_prop('C04', ['big', 'little', 'is_big', 'is_little'], {'endian'}, lambda t, r: endian_matrix(), kinds=('struct', 'enum', 'mapped', 'unitenum', 'struct', 'enum', 'unit'), rand=280)
derive_prop('C07', ['magic', 'magicb'], {'endian', 'pos', 'errval', 'epos', 'okval'}, lambda t, r: magic_matrix(), kinds=('struct', 'enum', 'mapped', 'unitenum', 'unit'))
derive_prop('C08', ['assert', 'assert2', 'assert_custom'], {'errval', 'okval'}, lambda t, r: assert_matrix(), kinds=('struct', 'enum', 'mapped', 'unitenum', 'unit'))
derive_prop('C09', ['args', 'args_tuple', 'count', 'offset', 'offset_after'], {'args', 'count', 'offset', 'ap'}, lambda t, r: args_matrix(), kinds=('struct', 'enum', 'mapped', 'unitenum', 'unit'))
derive_prop('C10', [], {'pos', 'okval'}, lambda t, r: enum_matrix(), kinds=('enum',), rand=400, fields=False)
derive_prop('C11', [], {'errval', 'epos', 'errpos'}, lambda t, r: enum_matrix(), kinds=('enum',), rand=400, fields=False)
derive_prop('C12', [], {'endian', 'pos', 'okval', 'errval', 'epos', 'okpos'}, lambda t, r: unitenum_matrix(), kinds=('unitenum',), rand=300, fields=False)
derive_prop('C13', ['if', 'ifelse', 'default', 'ignore', 'calc'], {'pos', 'okval', 'okpos'}, lambda t, r: skip_matrix())
derive_prop('C14', MOVES, {'pos', 'okpos'}, lambda t, r: move_matrix())
derive_prop('C15', ['map', 'try_map', 'try_map_io'], {'okval', 'errval', 'endian', 'pos', 'okpos'}, lambda t, r: map_matrix(), kinds=('struct', 'mapped', 'enum', 'mapped'))
derive_prop('C30', ['magic', 'magicb', 'assert', 'assert_custom', 'try_map', 'assert2'], {'epos', 'errval', 'okval'},
            lambda t, r: magic_matrix() + [p for p in assert_matrix()[::2] if not p.name.startswith('kf')] + enum_matrix((None, 'return_unexpected_error'))[::3] + unitenum_matrix() + map_matrix()[::2], kinds=('struct', 'enum', 'mapped', 'unitenum', 'unit'), triples=False)

# ------------------------------------------------------------------ the library
import libref

LIB_TECH = 'abstract interpretation of MIR to event graphs; lockstep comparison with reference implementations'
LIB_NOTE = ('Fixpoint abstract interpretation of the monomorphised MIR of the library functions themselves (std calls inlined or modelled), over an opaque '
            'reader and opaque element types with each shape of argument: holds for every input, count, reader behaviour, option and argument value, loops '
            'included. Generic code is decided at opaque element types, so by parametricity for others. Array lengths and tuple sizes are enumerated. Trusted: '
            'the engine\'s MIR semantics, models of std calls, the reference bodies in lib/libref.py, rustc.')


def pick(ps, *pre, no=()):
    return [p for p in ps if p.name.startswith(pre) and not (no and p.name.startswith(tuple(no)))]


def arrs(tier, cfg):
    z = (0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32) if tier == 'quick' else tuple(range(33))
    t = (1, 2, 3, 4, 5, 8, 12, 16, 31, 32) if tier == 'quick' else tuple(range(1, 33))
    if cfg == 'cg':
        z += (33, 100)
    return libref.containers(z, t, loops=cfg == 'cg')


VAL = ('okval', 'errval', 'okpos', 'errpos', 'pos')


def lib_prop(pid, families, aspects, cfgs=('std', 'nostd', 'cg'), modes='*\t\t\t\n', more=None):
    """families: tier, cfg -> programs"""
    def b(tier, seed):
        js = []
        for c in cfgs:
            ps = families(tier, c)
            if c == 'cg':
                ps = [p for p in ps if p.name.startswith('arr')]
            js.append(Job(ps, ('compare', tuple(sorted(aspects))), cfg=c, modes=modes, label=c))
        if more:
            js += more(tier, seed)
        return js
    prop(pid, LIB_TECH, LIB_NOTE)(b)


lib_prop('C05', lambda t, c: [p for p in libref.nums() if not p.name.startswith('numap')], VAL + ('epos',))
lib_prop('C06', lambda t, c: pick(arrs(t, c) + libref.fileptrs() + libref.helpers() + libref.strings() + libref.punctuated(), 'vec', 'box', 'opt', 'pos', 'arr', 'tup', 'fp', 'h_', 'pu', 'st_w', 'st_nz16', no=('h_magic', 'h_bytes')),
         ('endian', 'offset', 'args', 'apfull'), more=lambda t, s: [Job(pick(arrs(t, 'std'), 'vec', 'box', 'opt', 'pos', 'arr', 'tup'), ('compare', ('args', 'count', 'endian', 'offset')), label='count')])
lib_prop('C17', lambda t, c: pick(arrs(t, c) + libref.helpers(), 'vec_', 'arr', 'tup', 'h_count', 'h_bytes', no=('arrap', 'tupap')), VAL)
lib_prop('C18', lambda t, c: pick(libref.helpers(), 'h_until', 'h_eof'), VAL, cfgs=('std', 'nostd'))
lib_prop('C19', lambda t, c: libref.punctuated(), VAL, cfgs=('std', 'nostd'))
lib_prop('C20', lambda t, c: libref.strings(), VAL + ('endian',), cfgs=('std', 'nostd'))
lib_prop('C21', lambda t, c: libref.fileptrs(), VAL + ('endian', 'offset', 'args', 'ap', 'apfull', 'roots'), cfgs=('std', 'nostd'),
         more=lambda t, s: [Job(libref.intoseek(), ('compare', ('okval',)), modes='*\tcasts\t\t\n', label='pointer arithmetic')])
lib_prop('C33', lambda t, c: libref.wrappers(c), VAL + ('roots',), cfgs=('std', 'nostd'))
lib_prop('C26', lambda t, c: libref.entries(), VAL + ('endian', 'offset', 'count', 'args', 'ap', 'apfull'), cfgs=('std', 'nostd'))


def c16(tier, seed):
    dgen.reset()
    rng = rnd('C16', seed)
    ps = field_corpus(['now', 'offset_after', 'try', 'map', 'parse_with', 'args', 'calc', 'default', 'if', 'restore', 'count', 'offset', 'big'], tier, rng, False)
    ps += random_corpus(rng, [], 240 if tier == 'quick' else 2400, ('struct', 'struct', 'enum', 'mapped', 'unit', 'unitenum'))
    asp = ('compare', ('ap', 'apfull', 'okval'))
    lasp = ('compare', ('ap', 'apfull', 'roots'))
    js = [Job(ps, asp, label='derived parsers')]
    for c in ('std', 'nostd'):
        js.append(Job(arrs(tier, c) + libref.fileptrs() + libref.helpers() + libref.strings() + libref.punctuated() + libref.entries() + libref.nums(), lasp, cfg=c, label='library ' + c))
    js.append(Job([p for p in arrs(tier, 'cg') if p.name.startswith('arr')], lasp, cfg='cg', label='library cg'))
    return js


prop('C16', DERIVE_TECH, DERIVE_NOTE + ' ' + LIB_NOTE)(c16)


# ------------------------------------------------------------------ typestate rules
RULE_TECH = 'abstract interpretation of MIR to event graphs; typestate automaton over every path'
RULE_NOTE = ('Fixpoint abstract interpretation (widening at loop heads) of the monomorphised MIR of generated parsers and every library function they reach, '
             'every read, seek and nested call allowed to fail; a typestate automaton is run over every feasible path of the resulting graph. Programs are a '
             'systematic corpus plus seeded random types of every kind, so the claim over all programs is by corpus; library functions are analysed themselves at '
             'opaque element types. Trusted: the engine\'s MIR semantics, models of std calls, rustc. Undecided programs are counted in the evidence, never '
             'reported as violations.')
IO_FAIL = '*\tio_fail\t\t\n'
KINDS = ('struct', 'struct', 'enum', 'mapped', 'unit', 'unitenum')


def every_kind(pid, own, tier, seed, rand, triples=False):
    dgen.reset()
    rng = rnd(pid, seed)
    ps = field_corpus(own, tier, rng, triples) if own else []
    ps += random_corpus(rng, [], rand if tier == 'quick' else rand * 8, KINDS)
    ps += map_matrix() + unitenum_matrix() + assert_matrix() + enum_matrix()
    return ps


def c01(tier, seed):
    ps = every_kind('C01', ['seek_before', 'restore', 'try', 'pad_size_to', 'try_map', 'assert', 'now'], tier, seed, 240)
    return [Job(ps, ('rule', 'rewinds'), modes=IO_FAIL, label='derived parsers')] + \
        [Job(libref.nums(), ('rule', 'rewinds'), cfg=c, modes=IO_FAIL, label='numbers ' + c) for c in ('std', 'nostd')]


def c24(tier, seed):
    ps = every_kind('C24', ['restore', 'try', 'pad_size_to', 'align_before', 'pad_after', 'now', 'if', 'map'], tier, seed, 240)
    js = [Job(ps, ('rule', 'propagates'), modes=IO_FAIL, label='derived parsers')]
    for c in ('std', 'nostd'):
        lib = arrs(tier, c) + libref.fileptrs() + libref.helpers() + libref.strings() + libref.punctuated() + libref.entries() + libref.nums()
        js.append(Job([p for p in lib if not p.name.startswith('h_eof')], ('rule', 'propagates'), cfg=c, modes=IO_FAIL, label='library ' + c))
    js.append(Job([p for p in arrs(tier, 'cg') if p.name.startswith('arr')], ('rule', 'propagates'), cfg='cg', modes=IO_FAIL, label='library cg'))
    return js


prop('C01', RULE_TECH, RULE_NOTE)(c01)
prop('C24', RULE_TECH, RULE_NOTE)(c24)


def library(tier, cfg):
    return arrs(tier, cfg) + libref.fileptrs() + libref.helpers() + libref.strings() + libref.punctuated() + libref.entries() + libref.nums()


UNREAD = ('fp_into', 'fp_deref', 'fp_derefm')   # documented: a pointer which was never followed


def panic_jobs(ps, cfg, label, flags='io_fail,checks,alloc'):
    m = f"*\t{flags}\t\tbinary_template\n"
    js = [Job([p for p in ps if p.name not in UNREAD], ('rule', 'panics'), cfg=cfg, modes=m, label=label)]
    u = [p for p in ps if p.name in UNREAD]
    return js + ([Job(u, ('rule', 'panics', True), cfg=cfg, modes=m, label=label + ', pointers not followed')] if u else [])


def c27(tier, seed):
    ps = every_kind('C27', ['seek_before', 'pad_size_to', 'align_before', 'pad_before', 'count', 'restore', 'magic'], tier, seed, 160)
    js = panic_jobs(ps, 'std', 'derived parsers')
    rng = rnd('C27d', seed)
    js += panic_jobs(random_corpus(rng, [], 160 if tier == 'quick' else 1280, KINDS), 'dbg', 'derived parsers with debug_template')
    js += panic_jobs(libref.intoseek(), 'std', 'pointer arithmetic', 'checks,casts')
    for c in ('std', 'nostd', 'dbg'):
        api = [p for p in libref.api() if not (c == 'nostd' and p.name.endswith('_to_string'))]
        js += panic_jobs(library(tier, c), c, 'library ' + c) + panic_jobs(api, c, 'values ' + c)
    js += panic_jobs(libref.nostd_io(), 'nostd', 'no_std io', 'checks,casts,bufs')
    return js + panic_jobs([p for p in arrs(tier, 'cg') if p.name.startswith('arr')], 'cg', 'library cg')


def c28(tier, seed):
    import lts
    asp = ('compare', tuple(sorted(lts.ALL | {'apfull'})))
    m = '*\t\t\tbinary_template\n'
    ps = every_kind('C28', ['restore', 'map', 'parse_with', 'if', 'count', 'magic', 'pad_size_to', 'now', 'try'], tier, seed, 240)
    ps = [p for p in ps if not p.name.startswith('kf')]
    return [Job(ps, asp, cfg='dbg', cfg2='std', modes=m, label='derived parsers with and without the feature'),
            Job(library(tier, 'dbg'), asp, cfg='dbg', cfg2='std', modes=m, label='library with and without the feature'),
            Job(libref.template(), ('rule', 'panics', False, True), cfg='dbg', modes='*\tchecks,locks\t\t\n', label='template output'),
            Job(ps[::3], ('rule', 'panics'), cfg='dbg', modes='*\tio_fail,checks\t\tbinary_template\n', label='panics with the feature')]


def c31(tier, seed):
    ps = every_kind('C31', ['count', 'parse_with', 'args', 'map'], tier, seed, 120)
    m = '*\talloc\t\tbinary_template\n'
    js = [Job(ps, ('rule', 'allocations'), modes=m, label='derived parsers')]
    for c in ('std', 'nostd', 'dbg'):
        js.append(Job(library(tier, c), ('rule', 'allocations'), cfg=c, modes=m, label='library ' + c))
    return js + [Job([p for p in arrs(tier, 'cg') if p.name.startswith('arr')], ('rule', 'allocations'), cfg='cg', modes=m, label='library cg')]


prop('C27', RULE_TECH, RULE_NOTE)(c27)
prop('C28', 'abstract interpretation of MIR to event graphs; lockstep comparison of the two configurations; panic and lock rules on the template code',
     RULE_NOTE.replace('a typestate automaton is run over every feasible path of the resulting graph', 'the graphs of the same program with and without the feature are compared in lockstep'))(c28)
prop('C31', RULE_TECH, RULE_NOTE)(c31)


def c25(tier, seed):
    return [Job(libref.nostd_io(), ('compare', tuple(sorted(lts.ALL | {'apfull', 'roots'}))), cfg='nostd', modes='*\tcasts,bufs\t\t\n', label='no_std io')]


prop('C25', LIB_TECH, LIB_NOTE)(c25)


# ------------------------------------------------------------------ what builds
import accept

WIT_TECH = 'compile witnesses (items which must or must not build, decided by rustc and the current derive macro); lockstep comparison of event graphs'
WIT_NOTE = ('An enumeration of items (every directive at every place, every pair, repetition, argument form, layout) is given to rustc with the current derive '
            'macro; items which must not build need an error at every marked mistake, items which must build need none. What accepted directives do is compared '
            'with reference parsers by abstract interpretation of MIR. The claim over all items is by enumeration. Trusted: rustc, the engine, the reference parsers.')


def c23(tier, seed):
    dgen.reset()
    rng = rnd('C23', seed)
    k = 1 if tier == 'quick' else 8
    asp = ('compare', tuple(sorted(lts.ALL)))
    js = [Job(getattr(accept, f)(), ('compile',), label=f) for f in ('supported_tops', 'supported_fields', 'unsupported', 'conflicts', 'forms', 'whole')]
    js.append(Job(accept.several(rng, 400 * k), ('compile',), label='several mistakes in one item'))
    js.append(Job(accept.written(rng, 280 * k), asp, label='directives written differently'))
    js.append(Job(field_corpus(corpora.SIMPLE, 'quick' if tier == 'quick' else tier, rng, tier != 'quick'), asp, label='every pair of field directives'))
    js.append(Job(random_corpus(rng, corpora.SIMPLE, 160 * k, KINDS), asp, label='random items'))
    return js


prop('C23', WIT_TECH, WIT_NOTE)(c23)


def temp_matrix():
    """every set of temp fields among up to four, later directives using every earlier field"""
    import itertools
    out = []
    for kind in ('struct', 'tuple', 'vnamed', 'vtuple'):
        for n in (1, 2, 3, 4):
            for t in itertools.product([False, True], repeat=n):
                tup = kind in ('tuple', 'vtuple')
                fs = []
                for i, x in enumerate(t):
                    use = fs[0].name if fs else None
                    last = fs[-1].name if fs else None
                    nm = f"self_{i}" if tup else f"f{i}"
                    k = {}
                    if i == 1:
                        k = dict(count=pure1('usize', 'u32', use), cond=pure1('bool', 'u32', last))
                    elif i == 2:
                        k = dict(asserts=[(pure1('bool', 'u32', use), '"{}"', last)], pad_before=pure1('i64', 'u32', last))
                    elif i == 3:
                        k = dict(args=[pure1('u32', 'u32', last)])
                    ty = 'u32' if i != 3 else 'LA<(u32,), 9>'
                    fs.append(F(nm, ty, temp=x, **k))
                s = ''.join('t' if x else 'k' for x in t)
                name = f"tm_{kind}_{s}"
                note = f"temp fields {s} in {kind}"
                lf = fs[-1].name if n < 4 else fs[2].name
                if kind in ('struct', 'tuple'):
                    out.append(P(name, 'struct', Top(asserts=[(pure1('bool', 'u32', lf), '"top {}"', fs[0].name)]), fs, tuple_=tup, derive='attr', note=note))
                else:
                    at = sum(t) % 3
                    vs = [V('X', [F('p', 'L<5>')]), V('Y'), V('Z', [F('self_0', 'L<6>', temp=True), F('self_1', 'L<7>')], tuple_=True)]
                    vs.insert(at, V('W', fs, tuple_=tup, asserts=[(pure1('bool', 'u32', lf), '"v {}"', fs[0].name)]))
                    out.append(P(name, 'enum', None, variants=vs, derive='attr', note=note))
    return out


def c22(tier, seed):
    import defs
    dgen.reset()
    rng = rnd('C22', seed)
    k = 1 if tier == 'quick' else 8
    asp = ('compare', tuple(sorted(lts.ALL)))
    js = [Job(defs.definitions(rng, 400 * k), ('definitions',), cfg=c, label='definitions ' + c) for c in ('std', 'nostd')[:1]]
    ps = field_corpus(['temp'], tier, rng, tier != 'quick') + temp_matrix()
    import random
    ps += random_corpus(rng, ['temp'], 160 * k, ('struct', 'struct', 'enum'))
    for p in ps:
        p.split = rng.choice([False, True, 'paren', 'rev', 'revsplit', 'binread', 'mixed']) if not p.split else p.split
        if p.kind in ('struct', 'enum') and not p.top.map and not p.top.try_map:
            p.attrm = True
    js.append(Job(ps, asp, label='values and reads'))
    js.append(Job([w for w in accept.whole() if w.name.startswith('temp_')], ('compile',), label='temp without the attribute macro'))
    return js


prop('C22', 'comparison of compiler definitions of emitted and wanted items; lockstep comparison of event graphs; compile witnesses', WIT_NOTE.replace('every directive at every place, every pair, repetition, argument form, layout', 'every set of temp fields among up to four in every kind of item, random items'))(c22)


def c29(tier, seed):
    import hygiene
    dgen.reset()
    rng = rnd('C29', seed)
    k = 1 if tier == 'quick' else 8
    asp = ('compare', tuple(sorted(lts.ALL)))
    hs = hygiene.everything(tier)
    js = [Job(hs, asp, must_compile=True, label='names')]
    js.append(Job(hs[::12 if tier == 'quick' else 1], asp, cfg='dbg', modes='*\t\t\tbinread::binary_template\n', must_compile=True, label='names with debug_template'))
    singles = [corpora.program(f"s_{c}_{d}", c, (d,)) for d in corpora.SIMPLE for c in ('struct', 'vtuple', 'top', 'generic')]
    rand = random_corpus(rng, [], 120 * k, KINDS)
    js.append(Job(hygiene.bare(singles + rand), ('compile',), cfg='nostd', label='crates with nothing but core'))
    ps = singles + rand
    if tier == 'quick':
        ps = ps[::2]
    js.append(Job(ps, asp, cfg='nostd', must_compile=True, label='no_std crates'))
    for e in ('2021', '2024'):
        js.append(Job(ps[::3], asp, cfg='std+' + e, must_compile=True, label='edition ' + e))
    return js


prop('C29', 'compile witnesses for every name the derive generates; lockstep comparison of event graphs with references written where no such name is in scope', WIT_NOTE.replace(
    'An enumeration of items (every directive at every place, every pair, repetition, argument form, layout)', 'The identifiers of expanded sample derives are extracted from the current source; items which put every such name into every namespace and position (constants, statics, functions, '
    'structs, modules, macros, fields, imports, parameters, variants, the type itself), in std and no_std crates and every edition,'))(c29)


def c32(tier, seed):
    ps = every_kind('C32', ['count', 'parse_with', 'args', 'map', 'try_map', 'magic', 'restore'], tier, seed, 160)
    m = '*\tcasts\t\tbinary_template\nunsafe\t\t\t\n'
    js = [Job(ps, ('rule', 'unsafe_ops'), modes=m, label='derived parsers')]
    for c in ('std', 'nostd', 'dbg'):
        lib = library(tier, c)
        if c == 'nostd':
            lib = lib + libref.nostd_io()
        js.append(Job(lib, ('rule', 'unsafe_ops'), cfg=c, modes=m, label='library ' + c))
        js.append(Job([p for p in libref.api() if not (c == 'nostd' and p.name.endswith('_to_string'))], ('rule', 'unsafe_ops'), cfg=c, modes=m, label='values ' + c))
    return js + [Job([p for p in arrs(tier, 'cg') if p.name.startswith('arr')], ('rule', 'unsafe_ops'), cfg='cg', modes=m, label='library cg')]


def c32_after(res):
    import safety
    lab = {c: Job([], ('inventory',), cfg=c, label='unsafe operations written in the source, ' + c) for c in ('std', 'nostd', 'dbg', 'cg')}
    return [(lab[c], p, r) for c, p, r in safety.inventory(('std', 'nostd', 'dbg', 'cg'), res)]


prop('C32', 'inventory of unsafe operations in the typed HIR; path facts at each of them by abstract interpretation of MIR',
     RULE_NOTE.replace('a typestate automaton is run over every feasible path of the resulting graph', 'the precondition of every unsafe operation reached is looked up among the facts of the path')
     + ' Unsafe operations which no analysed program reaches are violations.')(c32)
REG['C32'].after = c32_after
