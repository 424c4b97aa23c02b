"""Which directives are accepted where (C23): places x directives, pairs,
repetitions, argument forms and items with several mistakes."""
import itertools

import corpora
from dgen import F, P, Raw, Top, V, pure, pure1
from witness import W, from_program

# keyword -> (text, repeatable)
FIELD = {
    'big': 'big', 'little': 'little', 'is_big': 'is_big = true', 'is_little': 'is_little = true', 'magic': 'magic = 1u8', 'map': 'map = |x: u8| x',
    'try_map': 'try_map = |x: u8| Ok::<u8, u16>(x)', 'args': 'args()', 'args_tuple': 'args_tuple = ()', 'calc': 'calc = 1', 'default': 'default', 'ignore': 'ignore',
    'parse_with': 'parse_with = vrt::parse::<_, u8, (), 1>', 'count': 'count = 1', 'offset': 'offset = 1', 'offset_after': 'offset_after = 1', 'if': 'if(true)', 'deref_now': 'deref_now',
    'postprocess_now': 'postprocess_now', 'restore_position': 'restore_position', 'try': 'try', 'temp': 'temp', 'assert': 'assert(true)', 'pad_before': 'pad_before = 1',
    'pad_after': 'pad_after = 1', 'align_before': 'align_before = 1', 'align_after': 'align_after = 1', 'seek_before': 'seek_before = SeekFrom::Start(0)', 'pad_size_to': 'pad_size_to = 1',
}
TOPS = {
    'big': 'big', 'little': 'little', 'magic': 'magic = 1u8', 'map': 'map = |_x: u8| -> T { loop {} }', 'try_map': 'try_map = |_x: u8| -> Result<T, u8> { loop {} }', 'import': 'import(x: u8)',
    'import_tuple': 'import_tuple(x: (u8,))', 'assert': 'assert(true)', 'pre_assert': 'pre_assert(true)', 'repr': 'repr = u8', 'return_all_errors': 'return_all_errors',
    'return_unexpected_error': 'return_unexpected_error',
}
ALL = dict(FIELD)
ALL.update(TOPS)
STRUCT = ('big', 'little', 'magic', 'map', 'try_map', 'import', 'import_tuple', 'assert', 'pre_assert')
SUPPORT = {
    'struct': STRUCT, 'tuple': STRUCT, 'unit': STRUCT,
    'enum': STRUCT + ('return_all_errors', 'return_unexpected_error'),
    'unitenum': ('big', 'little', 'magic', 'map', 'try_map', 'import', 'import_tuple', 'repr'),
    'datavariant': ('big', 'little', 'magic', 'assert', 'pre_assert'), 'tuplevariant': ('big', 'little', 'magic', 'assert', 'pre_assert'),
    'unitvariant': ('magic', 'pre_assert'), 'unitvariant2': ('magic', 'pre_assert'),
    'field': tuple(FIELD), 'tuplefield': tuple(FIELD), 'variantfield': tuple(FIELD), 'variantfield2': tuple(FIELD),
}
ONCE = {k for k in ALL if k not in ('assert', 'pre_assert')}
FEXCL = [{'big', 'little', 'is_big', 'is_little'}, {'map', 'try_map'}, {'args', 'args_tuple'}, {'calc', 'default', 'ignore', 'parse_with'}, {'deref_now', 'postprocess_now'},
         {'deref_now', 'offset_after'}, {'postprocess_now', 'offset_after'}]
TEXCL = [{'big', 'little'}, {'map', 'try_map'}, {'import', 'import_tuple'}, {'return_all_errors', 'return_unexpected_error'}]
FIELDISH = ('field', 'tuplefield', 'variantfield', 'variantfield2')


def excl(place, a, b):
    return any({a, b} <= s for s in (FEXCL if place in FIELDISH else TEXCL))


def item(place, attrs, derive='#[derive(BinRead)]'):
    """source with `attrs` (attribute texts) at the place, on lines marked HERE"""
    at = ' '.join(attrs) + ' /*HERE*/'
    d = derive + '\n'
    if place == 'struct':
        return f"{d}{at}\npub struct T {{\n a: u8,\n}}"
    if place == 'tuple':
        return f"{d}{at}\npub struct T(u8);"
    if place == 'unit':
        return f"{d}{at}\npub struct T;"
    if place == 'enum':
        return f"{d}{at}\npub enum T {{\n A {{ a: u8 }},\n}}"
    if place == 'unitenum':
        r = any('repr' in a for a in attrs)
        return f"{d}{at}\npub enum T {{\n {'' if r else '#[br(magic = 9u8)] '}A,\n}}"
    if place == 'datavariant':
        return f"{d}pub enum T {{\n X(u16),\n {at} A {{ a: u8 }},\n}}"
    if place == 'tuplevariant':
        return f"{d}pub enum T {{\n {at} A(u8),\n X,\n}}"
    if place == 'unitvariant':
        return f"{d}pub enum T {{\n X(u16),\n {at} A,\n}}"
    if place == 'unitvariant2':
        m = any('magic' in a for a in attrs)
        return f"{d}{'' if m else '#[br(repr = u8)]'}\npub enum T {{\n X,\n {at} A,\n}}"
    if place == 'field':
        return f"{d}pub struct T {{\n z: u8,\n {at} a: u8,\n}}"
    if place == 'tuplefield':
        return f"{d}pub struct T(\n u8,\n {at} u8,\n);"
    if place == 'variantfield':
        return f"{d}pub enum T {{\n X,\n A {{ z: u8,\n {at} a: u8 }},\n}}"
    if place == 'variantfield2':
        return f"{d}pub enum T {{\n A(u8,\n {at} u8),\n X {{ a: u8 }}\n}}"
    raise ValueError(place)


def layouts(a, b):
    return [[f"#[br({a}, {b})]"], [f"#[br({a})]", f"#[br({b})]"], [f"#[br({a})]", f"#[binread({b})]"], [f"#[br({a})]", "#[allow(dead_code)]", f"#[br({b})]"], [f"#[binread({a}, {b},)]"]]


def supported_tops():
    """every supported directive, every compatible pair and order, at every item and variant place"""
    out = []
    for place, sup in SUPPORT.items():
        if place in FIELDISH:
            continue
        for a in sup:
            for i, at in enumerate(([f"#[br({ALL[a]})]"], [f"#[binread({ALL[a]},)]"], ["#[br()]", f"#[br({ALL[a]})]", "#[br()]"])):
                out.append(W(f"ok_{place}_{a}_{i}", item(place, at), None, f"{a} on {place}"))
        for a, b in itertools.permutations(sup, 2):
            if excl(place, a, b):
                continue
            x, y = (ALL[q].replace('_x: u8', '_x: LA<(u8,), 1>') if {a, b} & {'import', 'import_tuple'} else ALL[q] for q in (a, b))
            for i, at in enumerate(layouts(x, y)):
                out.append(W(f"ok_{place}_{a}_{b}_{i}", item(place, at), None, f"{a} and {b} on {place}"))
        for a in sup:
            if a not in ONCE:
                out.append(W(f"ok_{place}_{a}_twice", item(place, [f"#[br({ALL[a]}, {ALL[a]})]", f"#[br({ALL[a]})]"]), None, f"{a} repeated on {place}"))
    return out


def supported_fields():
    out = []
    for r in (1, 2):
        for c in itertools.combinations(corpora.SIMPLE, r):
            if not corpora.compatible(c):
                continue
            for ctx in ('struct', 'tuple', 'vnamed', 'vtuple') if r == 1 else ('struct', 'vtuple'):
                out.append(from_program(corpora.program(f"okf_{ctx}_{'__'.join(c)}", ctx, c)))
    for i, f in enumerate(['calc(1)', 'count(1)', 'count = 1', 'offset(1)', 'is_big(true)', 'is_little(false)', 'magic(1u8)', 'map(|x: u8| x)', 'pad_before(1)', 'pad_after(1)', 'align_before(1)', 'align_after(4)',
                           'pad_size_to(4)', 'seek_before(SeekFrom::Start(0))', 'args_tuple(())', 'parse_with(vrt::parse::<_, u8, (), 1>)', 'offset_after(2)', 'try_map(|x: u8| Ok::<u8, u16>(x))', 'if(true,)', 'if(true, 3)', 'if(true, 3,)',
                           'assert(true,)', 'assert(true, "m")', 'assert(true, "m {}", 1)', 'assert(true, "m {}", 1,)', 'assert(true, 5u8)', 'args()', 'assert(true), assert(true)', 'postprocess_now', 'big,']):
        for place in FIELDISH:
            out.append(W(f"okform_{place}_{i}", item(place, [f"#[br({f})]"]), None, f"{f} on {place}"))
    return out


def unsupported():
    out = []
    for place, sup in SUPPORT.items():
        for k in sorted(ALL):
            if k in sup:
                continue
            if place in ('datavariant', 'tuplevariant') and k in ('map', 'try_map', 'import', 'import_tuple'):
                out.append(W(f"kf2_{place}_{k}", item(place, [f"#[br({ALL[k]})]"]), ['HERE'], f"{k} on {place} is not supported"))
                continue
            out.append(W(f"no_{place}_{k}", item(place, [f"#[br({ALL[k]})]"]), ['HERE'], f"{k} on {place} is not supported"))
            s = [x for x in sup if x not in ('map', 'try_map', 'temp')]
            out.append(W(f"no_{place}_{k}_2", item(place, [f"#[br({ALL[s[0]]})]", f"#[br({ALL[k]})]"]), ['HERE'], f"{k} on {place} is not supported, beside {s[0]}"))
            out.append(W(f"no_{place}_{k}_3", item(place, [f"#[br({ALL[s[0]]}, {ALL[k]})]"]), ['HERE'], f"{k} on {place} is not supported, beside {s[0]}"))
        for i, u in enumerate(['bogus', 'bogus = 1', 'bogus(1)', 'Big', 'bigg', 'maps = f', 'assert_eq(1)', 'r#big', '"big"', 'big = true', 'little()', '1', 'binread::big']):
            out.append(W(f"no_{place}_unknown{i}", item(place, [f"#[br({u})]"]), ['HERE'], f"unknown directive {u} on {place}"))
            s = 'magic = 1u8'
            out.append(W(f"no_{place}_unknown{i}_2", item(place, [f"#[br({s}, {u})]"]), ['HERE'], f"unknown directive {u} on {place}"))
        for i, u in enumerate(['#[br]', '#[binread]', '#[br = "big"]', '#[br(magic = 1u8 magic = 2u8)]', '#[br(magic = 1u8;)]', '#[br(,)]', '#[br[magic = 1u8] ]'][:6]):
            out.append(W(f"no_{place}_shape{i}", item(place, [u]), [''], f"attribute {u} on {place}"))
    return out


def conflicts():
    out = []
    for place, sup in SUPPORT.items():
        for a in sup:
            if a in ONCE:
                for i, at in enumerate(layouts(ALL[a], ALL[a])):
                    out.append(W(f"no_{place}_{a}_twice{i}", item(place, at), ['HERE'], f"{a} repeated on {place}"))
        for a, b in itertools.permutations(sup, 2):
            if excl(place, a, b):
                for i, at in enumerate(layouts(ALL[a], ALL[b])):
                    out.append(W(f"no_{place}_{a}_{b}_{i}", item(place, at), ['HERE'], f"{a} and {b} on {place}"))
        # the conflict is still seen with other directives in between
        s = [x for x in sup if x in ('magic', 'assert', 'pre_assert', 'restore_position', 'pad_before')]
        for a, b in itertools.permutations(sup, 2):
            if excl(place, a, b):
                for x in s:
                    if x not in (a, b):
                        out.append(W(f"no_{place}_{a}_{x}_{b}", item(place, [f"#[br({ALL[a]}, {ALL[x]}, {ALL[b]})]"]), ['HERE'], f"{a} and {b} on {place}, {x} in between"))
        # nor does any third directive hide it
        if place in ('field', 'variantfield2', 'struct', 'enum'):
            for a, b in itertools.combinations(sup, 2):
                if excl(place, a, b):
                    for x in sup:
                        if x not in (a, b):
                            at = [f"#[br({ALL[x]})]", f"#[br({ALL[a]}, {ALL[b]})]"] if place in ('field', 'struct') else [f"#[br({ALL[b]}, {ALL[a]}, {ALL[x]})]"]
                            out.append(W(f"no_{place}_{a}_{b}_with_{x}", item(place, at), ['HERE'], f"{a} and {b} on {place}, beside {x}"))
    return out


def forms():
    """missing, superfluous or ill-typed arguments of directives"""
    out = []
    valued = [k for k, t in FIELD.items() if '=' in t]
    bare = [k for k, t in FIELD.items() if t == k]
    no = []
    for k in valued:
        no += [k, f"{k} =", f"{k}()", f"{k}(1, 2)", f"{k} 1", f"{k} = 1 2", f"{k}: 1"]
    for k in bare:
        no += [f"{k} = 1", f"{k}()", f"{k}(1)", f"{k} {k}"]
    no += ['if', 'if()', 'if(true, 1, 2)', 'if(true, 1, 2, 3)', 'if = true', 'if true', 'assert', 'assert()', 'assert = true', 'assert(true, 5u8, 6)', 'assert(true, String::new(), "x")', 'args', 'args = 1', 'args(,)',
           'magic = "str"', 'magic = true', 'magic = x', 'magic = 1u8 + 1', 'magic = (1u8)', 'magic(1u8, 2u8)']
    for i, t in enumerate(no):
        for place in FIELDISH[:2] if i % 2 else FIELDISH[2:]:
            out.append(W(f"form_{place}_{i}", item(place, [f"#[br({t})]"]), ['HERE'], f"{t} on {place}"))
    top = ['big = 1', 'big()', 'little(1)', 'magic', 'magic =', 'magic()', 'magic = "s"', 'magic = false', 'magic = X', 'map', 'map =', 'map()', 'map(a, b)', 'try_map', 'try_map = ', 'import', 'import = x', 'import(x)', 'import(1: u8)',
           'import(x: u8 y: u8)', 'import_tuple', 'import_tuple()', 'import_tuple(x)', 'import_tuple = x', 'import_tuple(x: (u8,), y: u8)', 'assert', 'assert()', 'assert = true', 'assert(true, 1, 2)', 'pre_assert', 'pre_assert()', 'pre_assert = true',
           'pre_assert(true, 1, 2)']
    for i, t in enumerate(top):
        for place in ('struct', 'unit', 'enum') if i % 2 else ('tuple', 'enum'):
            out.append(W(f"form_{place}_{i}", item(place, [f"#[br({t})]"]), ['HERE'], f"{t} on {place}"))
    for i, t in enumerate(['repr', 'repr =', 'repr()', 'repr = 1', 'repr(u8, u16)', 'magic', 'map', 'import', 'big = 2']):
        out.append(W(f"form_unitenum_{i}", item('unitenum', [f"#[br({t})]"]), ['HERE'], f"{t} on unitenum"))
    for i, t in enumerate(['return_all_errors = 1', 'return_all_errors()', 'return_unexpected_error(true)']):
        out.append(W(f"form_enum_r{i}", item('enum', [f"#[br({t})]"]), ['HERE'], f"{t} on enum"))
    for i, t in enumerate(['magic', 'magic = "s"', 'magic = true', 'pre_assert', 'pre_assert()', 'pre_assert(true, 1, 2)', 'magic()']):
        for place in ('unitvariant', 'unitvariant2', 'datavariant', 'tuplevariant'):
            out.append(W(f"form_{place}_{i}", item(place, [f"#[br({t})]"]), ['HERE'], f"{t} on {place}"))
    return out


KINDS = ['1u8', '1u16', '1u32', '1u64', '1u128', '1i8', '1i16', '1i32', '1i64', '1i128', 'b"A"', 'b"AB"', 'b"ABC"', "b'x'", "'x'"]
SECOND = ['2u8', '2u16', '2u32', '2u64', '2u128', '2i8', '2i16', '2i32', '2i64', '2i128', 'b"B"', 'b"CD"', 'b"DEF"', "b'y'", "'y'"]


def kind_of(m):
    if m.startswith('b"'):
        return len(m)
    return 'u8' if m.startswith("b'") else 'char' if m.startswith("'") else m[1:]


def whole():
    """rules about the whole item"""
    out = []
    d = '#[derive(BinRead)] /*D*/\n'
    bad = {
        'union': 'pub union T { a: u8, b: u8 }', 'empty': 'pub enum T {}', 'empty_br': '#[br(repr = u8)] pub enum T {}', 'nokind': 'pub enum T { A, B }', 'nokind1': 'pub enum T { A }', 'nokind_disc': 'pub enum T { A = 1, B = 2 }',
        'nokind_repr': '#[repr(u8)] pub enum T { A = 1, B = 2 }', 'nokind_end': '#[br(big)] pub enum T { A, B }', 'nokind_magic': '#[br(magic = 1u8)] pub enum T { A, B }',
        'both': '#[br(repr = u8)] pub enum T { #[br(magic = 1u8)] A, B }', 'both2': '#[br(repr = u8)] pub enum T { A, #[br(magic = 1u8)] B }', 'both3': '#[br(repr = u8)] pub enum T { #[br(magic = 1u8)] A, #[br(magic = 2u8)] B }',
        'both4': '#[br(repr = u16)] pub enum T { A, B, #[br(pre_assert(true))] #[br(magic = 2u8)] C }',
    }
    for n, s in bad.items():
        out.append(W(f"whole_{n}", d + s, [''], 'not supported: ' + s))
    for i, a in enumerate(KINDS):
        for j, b in enumerate(SECOND):
            same = kind_of(a) == kind_of(b)
            src = d + f"pub enum T {{ #[br(magic = {a})] A, #[br(magic = {b})] B }}"
            out.append(W(f"kinds_{i}_{j}", src, None if same else [''], f"magic {a} and {b}"))
            if (i + j) % 4 == 0:
                src = d + f"pub enum T {{ #[br(magic = {a})] A, N, #[br(pre_assert(true))] M, #[br(magic = {b})] B }}"
                out.append(W(f"kinds3_{i}_{j}", src, None if same else [''], f"magic {a} and {b} with variants in between"))
            if (i + j) % 4 == 1 and not same:
                c = SECOND[i]
                src = d + f"pub enum T {{ #[br(magic = {a})] A, #[br(magic = {c})] C, #[br(magic = {b})] B }}"
                out.append(W(f"kinds4_{i}_{j}", src, [''], f"magic {a}, {c} and {b}"))
    # data enums may mix
    out.append(W('kinds_data', d + 'pub enum T { #[br(magic = 1u8)] A, #[br(magic = 1u16)] B, #[br(magic = b"ABC")] C(u8) }', None, 'different magic types in a data enum'))
    # temp needs the attribute macro
    for i, s in enumerate(['pub struct T { #[br(temp)] a: u8, b: u8 }', 'pub struct T(#[br(temp)] u8, u8);', 'pub enum T { A { #[br(temp)] a: u8, b: u8 }, B }']):
        out.append(W(f"temp_bad{i}", d + s, [''], 'temp with #[derive(BinRead)]'))
        out.append(W(f"temp_ok{i}", '#[derive_binread]\n' + s, None, 'temp with #[derive_binread]'))
    return out


MISTAKES = ['bogus', 'big, little', 'count = 1, count = 2', 'magic = "s"', 'if()', 'calc = 1, default', 'map = f, try_map = g', 'deref_now, offset_after = 1', 'args(), args_tuple = ()', 'repr = u8', 'pre_assert(true)', 'assert()', 'restore_position, restore_position',
            'try, try', 'pad_before', 'import(x: u8)', 'deref_now, postprocess_now', 'is_big = true, big', 'parse_with = f, ignore', 'temp, temp']
TMISTAKES = ['bogus', 'big, little', 'magic = 1u8, magic = 1u8', 'magic = "s"', 'import(x)', 'map = f, try_map = g', 'import(x: u8), import_tuple(y: (u8,))', 'count = 1', 'assert()', 'calc = 1', 'try']
UMISTAKES = ['bogus', 'magic = 1u8, magic = 1u8', 'magic = "s"', 'big', 'assert(true)', 'pre_assert()', 'calc = 1']


def several(rng, n):
    """items with several mistakes: each of the lines has its own error"""
    out = []
    for i in range(n):
        k = [0]

        def mk():
            k[0] += 1
            return f"/*M{k[0]}.*/"

        def fields(tup, nm):
            s = ''
            for j in range(rng.randint(1, 4)):
                if rng.random() < .5:
                    s += f" #[br({rng.choice(MISTAKES)})] {'' if tup else nm + str(j) + ': '}u8, {mk()}\n"
                else:
                    s += f" {rng.choice(['', '#[br(big)] ', '#[br(pad_before = 1)] '])}{'' if tup else nm + str(j) + ': '}u8,\n"
            return s

        def top(ms):
            s = ''
            for j in range(rng.choice([0, 1, 1, 2])):
                s += f"#[br({rng.choice(ms)})] {mk()}\n"
            return s
        kind = rng.choice(['struct', 'tuple', 'unit', 'enum', 'enum', 'unitenum'])
        src = rng.choice(['#[derive(BinRead)]\n', '#[derive_binread]\n']) + top(TMISTAKES)
        if kind == 'struct':
            src += 'pub struct T {\n' + fields(False, 'f') + '}'
        elif kind == 'tuple':
            src += 'pub struct T(\n' + fields(True, 'f') + ');'
        elif kind == 'unit':
            src += 'pub struct T;'
        elif kind == 'unitenum':
            src += 'pub enum T {\n #[br(magic = 1u8)] Z,\n'
            for j in range(rng.randint(1, 4)):
                bad = rng.random() < .5
                src += (f" #[br({rng.choice(UMISTAKES)})] V{j}, {mk()}\n" if bad else f" V{j},\n")
            src += '}'
        else:
            src += 'pub enum T {\n'
            for j in range(rng.randint(1, 4)):
                q = rng.choice(['n', 'n', 't', 'u'])
                if q == 'u' and j:
                    src += (f" #[br({rng.choice(UMISTAKES)})] V{j}, {mk()}\n" if rng.random() < .5 else f" V{j},\n")
                else:
                    src += top(TMISTAKES[:6] + TMISTAKES[7:]).replace('\n', '\n ') + (f"V{j} {{\n{fields(False, 'f')} }},\n" if q == 'n' else f"V{j}(\n{fields(True, 'f')} ),\n")
            src += '}'
        if k[0]:
            out.append(W(f"several_{i}", src, [f"/*M{x + 1}.*/" for x in range(k[0])], f"{k[0]} mistakes in one item"))
    return out


def written(rng, n):
    """the same directives, written differently"""
    import dgen
    out = []
    for i in range(n):
        lay = dgen.LAYOUTS[i % len(dgen.LAYOUTS)]
        kind = ('struct', 'enum', 'struct', 'unitenum', 'mapped', 'enum', 'unit')[i % 7]
        nm = f"w{i}_{lay}_{kind}"
        pool = corpora.SIMPLE
        p = {'struct': lambda: corpora.rnd_struct(rng, nm, pool), 'enum': lambda: corpora.rnd_enum(rng, nm, pool), 'mapped': lambda: corpora.rnd_mapped(rng, nm),
             'unitenum': lambda: corpora.rnd_unitenum(rng, nm), 'unit': lambda: corpora.rnd_unit(rng, nm)}[kind]()
        p.split = lay
        p.note = f"{kind}, attributes written as {lay}"
        out.append(p)
    for lay in dgen.LAYOUTS:
        for d in corpora.SIMPLE:
            p = corpora.program(f"wd_{lay}_{d}", 'struct', (d, 'pad_before' if d != 'pad_before' else 'restore'))
            p.split = lay
            out.append(p)
    return out
