"""Derive-input specifications, their `#[derive(BinRead)]` source and an
independent reference parser written out statement by statement from the
documented meaning of every directive."""


def render(a, layout, sep):
    """directive texts as attributes; `layout` varies how they are written, never what they mean"""
    if not a:
        return ''
    if layout in (False, None):
        return f"#[br({', '.join(a)})]{sep}"
    if layout is True:
        return ''.join(f"#[br({x})]{sep}" for x in a)
    late = [x for x in a if x.startswith(('assert(', 'pre_assert('))]
    back = [x for x in reversed(a) if x not in late]
    if layout == 'paren':
        return '#[br(' + ', '.join(paren(x) for x in a) + f",)]{sep}"
    if layout == 'rev':
        return f"#[br({', '.join(back + late)},)]{sep}"
    if layout == 'revsplit':
        return ''.join(f"#[br({x})]{sep}" for x in late + back)
    if layout == 'binread':
        return ''.join(f"#[{'br' if i % 2 else 'binread'}({x},)]{sep}" for i, x in enumerate(late + back))
    if layout == 'mixed':
        h = (len(back) + 1) // 2
        return f"#[br()]{sep}#[br({', '.join(back[:h])})]{sep}#[allow(unused)]{sep}#[binread({', '.join(back[h:] + late)})]{sep}"
    raise ValueError(layout)


LAYOUTS = [True, 'paren', 'rev', 'revsplit', 'binread', 'mixed']


def paren(x):
    import re
    m = re.match(r'(\w+) = (.*)$', x, re.S)
    return f"{m.group(1)}({m.group(2)})" if m else x


class F:
    """A field.  Directive values are Rust expressions."""
    KEYS = ('endian', 'magic', 'args', 'args_tuple', 'count', 'offset', 'offset_after', 'cond', 'alt', 'seek_before',
            'pad_before', 'align_before', 'pad_size_to', 'pad_after', 'align_after', 'restore', 'try_', 'map', 'try_map',
            'src', 'err', 'now', 'asserts', 'default', 'ignore', 'calc', 'parse_with', 'temp', 'vis', 'attrs', 'raw_first',
            'aptype', 'asrt_after')

    def __init__(self, name, ty, **k):
        self.name = name
        self.ty = ty
        for x in self.KEYS:
            setattr(self, x, k.pop(x, None))
        assert not k, k

    def attr_list(self):
        a = []
        e = self.endian
        if e in ('big', 'little'):
            a.append(e)
        elif e:
            a.append(f"{e[0]} = {e[1]}")
        if self.magic:
            a.append(f"magic = {self.magic}")
        if self.args is not None:
            a.append("args(" + ", ".join(self.args) + ")")
        if self.args_tuple:
            a.append(f"args_tuple = {self.args_tuple}")
        for x in ('count', 'offset', 'offset_after'):
            v = getattr(self, x)
            if v:
                a.append(f"{x} = {v}")
        if self.cond:
            a.append(f"if({self.cond}" + (f", {self.alt}" if self.alt else "") + ")")
        for x in ('seek_before', 'pad_before', 'align_before', 'pad_size_to', 'pad_after', 'align_after', 'map', 'try_map', 'calc', 'parse_with'):
            v = getattr(self, x)
            if v:
                a.append(f"{x} = {v}")
        if self.restore:
            a.append('restore_position')
        if self.try_:
            a.append('try')
        if self.now:
            a.append('deref_now' if self.now is True else self.now)
        if self.default:
            a.append('default')
        if self.ignore:
            a.append('ignore')
        if self.temp:
            a.append('temp')
        for c in self.asserts or []:
            a.append("assert(" + ", ".join(c) + ")")
        return a

    def decl(self, named, split=False):
        a = self.attr_list()
        s = ''.join(f"{x} " for x in self.attrs or [])
        s += render(a, split, ' ')
        v = (self.vis + ' ') if self.vis else ''
        return s + v + (f"{self.name}: {self.ty}" if named else self.ty)


MAGIC_TY = {'b"': lambda m: f"[u8; {eval(m).__len__()}]"}


def magic_type(m):
    if m.startswith('b"'):
        return f"[u8; {len(eval(m))}]", '*' + m
    if m.startswith("b'"):
        return 'u8', m
    if m.startswith("'"):
        return 'char', m
    for t in ('u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128', 'f32', 'f64'):
        if m.endswith(t):
            return t, m
    raise ValueError(m)


def ref_magic(m, opt):
    t, v = magic_type(m)
    return (f"{{ let __p = tell(__r)?; let __m = <{t} as BinRead>::read_options(__r, &{opt}, ())?; "
            f"if !(__m == {v}) {{ return Err(Error::BadMagic {{ pos: __p, found: Box::new(__m) }}); }} }}\n")


def ref_endian(e):
    if e is None:
        return ''
    if e == 'big':
        return '__o.endian = Endian::Big; '
    if e == 'little':
        return '__o.endian = Endian::Little; '
    a, b = ('Big', 'Little') if e[0] == 'is_big' else ('Little', 'Big')
    return f"__o.endian = if {e[1]} {{ Endian::{a} }} else {{ Endian::{b} }}; "


def cond_text(c):
    """what `stringify` of the condition's tokens gives, up to white space"""
    return '"' + c.replace('\\', '\\\\').replace('"', '\\"') + '"'


def ref_assert(c, pos='__pos'):
    cond = c[0]
    if len(c) == 1:
        return f"if !({cond}) {{ return Err(Error::AssertFail {{ pos: {pos}, message: String::from({cond_text(cond)}) }}); }}\n"
    if c[1].startswith('"'):
        return f"if !({cond}) {{ return Err(Error::AssertFail {{ pos: {pos}, message: format!({', '.join(c[1:])}) }}); }}\n"
    return f"if !({cond}) {{ return Err(Error::Custom {{ pos: {pos}, err: Box::new({c[1]}) }}); }}\n"


def map_fail(err, pos):
    if err == 'io::Error':
        return 'Error::Io(__e)'
    return f"Error::Custom {{ pos: {pos}, err: Box::new(__e) }}"


def reads(f):
    return not (f.default or f.ignore or f.calc)


def ref_field(f):
    n = f.name
    o = ''
    u = n.replace('r#', 'raw_')
    opt = f"__opt_{u}"
    args = f"__args_{u}"
    generated = not reads(f)
    if not generated or f.magic:
        a = '()'
        if f.args is not None:
            a = '(' + ''.join(x + ', ' for x in f.args) + ')'
        elif f.args_tuple:
            a = f.args_tuple
        o += f"let {args} = {a};\n"
        o += f"let {opt} = {{ let mut __o = __opt; {ref_endian(f.endian)}"
        if f.offset:
            o += f"__o.offset = {f.offset}; "
        if f.count:
            o += f"__o.count = Some(({f.count}) as usize); "
        o += "__o };\n"
    if f.magic:
        o += ref_magic(f.magic, opt)
    src = f.src or f.ty
    inner = f.aptype or src
    if f.try_ and not f.map and not f.try_map:
        inner = f.aptype or f.ty[len('Option<'):-1]
    # the value
    if f.default or f.ignore:
        v = "Default::default()"
        if f.try_:
            v = f"Some({v})"
    elif f.calc:
        v = f.calc
        if f.try_:
            v = f"Some({v})"
    else:
        if f.parse_with:
            call = f"({f.parse_with})(__r, &{opt}, {args})"
        else:
            call = f"<{inner} as BinRead>::read_options(__r, &{opt}, {args})"
        if f.try_:
            v = f"{{ let __p = tell(__r)?; match {call} {{ Ok(__v) => Some(__v), Err(_) => {{ go(__r, __p)?; None }} }} }}"
        else:
            v = f"match {call} {{ Ok(__v) => __v, Err(__e) => return Err(__e) }}"
    if f.map:
        v = f"{{ let __x = {v}; ({f.map})(__x) }}"
    if f.try_map:
        v = f"{{ let __p0 = tell(__r)?; let __x = {v}; match ({f.try_map})(__x) {{ Ok(__v) => __v, Err(__e) => return Err({map_fail(f.err, '__p0')}) }} }}"
    has_ap = not generated and not f.parse_with and not f.map and not f.try_map
    if has_ap and f.now:
        v = f"{{ let mut __t = {v}; {ref_ap(f, '__t', opt, args, inner)} __t }}"
    # movement
    pre = post = ''
    if f.seek_before:
        pre += f"__r.seek({f.seek_before})?; "
    if f.pad_before:
        pre += f"__r.seek(SeekFrom::Current({f.pad_before}))?; "
    al = lambda e: f"{{ let __a = ({e}) as i64; let __c = tell(__r)? as i64; __r.seek(SeekFrom::Current((__a - (__c % __a)) % __a))?; }} "
    if f.align_before:
        pre += al(f.align_before)
    if f.pad_size_to:
        pre += "let __s0 = tell(__r)?; "
        post += f"{{ let __w = ({f.pad_size_to}) as i64; let __l = (tell(__r)? - __s0) as i64; if __l < __w {{ __r.seek(SeekFrom::Current(__w - __l))?; }} }} "
    if f.pad_after:
        post += f"__r.seek(SeekFrom::Current({f.pad_after}))?; "
    if f.align_after:
        post += al(f.align_after)
    v = f"{{ {pre}let __w = {v}; {post}__w }}"
    if f.cond:
        v = f"if {f.cond} {v} else {{ {f.alt or 'Default::default()'} }}"
    if f.restore:
        o += f"let __save_{u} = tell(__r)?;\n"
    o += f"let mut {n}: {f.ty} = {v};\n"
    for c in f.asserts or []:
        o += ref_assert(c)
    if f.restore:
        o += f"go(__r, __save_{u})?;\n"
    deferred = ''
    if has_ap and not f.now:
        deferred = ref_ap(f, n, opt, args, inner)
    return o, deferred


def ref_ap(f, var, opt, args, inner):
    o = f"__o.offset = {f.offset_after}; " if f.offset_after else ''
    o = f"{{ let mut __o = {opt}; {o}"
    if f.try_:
        o += f"if let Some(__v) = &mut {var} {{ <{inner} as BinRead>::after_parse(__v, __r, &__o, {args})?; }}"
    else:
        o += f"<{inner} as BinRead>::after_parse(&mut {var}, __r, &__o, {args})?;"
    return o + " }\n"


class Top:
    def __init__(self, **k):
        for x in ('endian', 'magic', 'imports', 'import_tuple', 'pre', 'asserts', 'map', 'try_map', 'src', 'err', 'repr', 'mode', 'attrs', 'src_args'):
            setattr(self, x, k.pop(x, None))
        assert not k, k

    def attr_list(self):
        a = []
        if self.endian:
            a.append(self.endian)
        if self.magic:
            a.append(f"magic = {self.magic}")
        if self.imports is not None:
            a.append("import(" + ", ".join(f"{n}: {t}" for n, t in self.imports) + ")")
        if self.import_tuple:
            a.append("import_tuple(%s: %s)" % self.import_tuple)
        if self.repr:
            a.append(f"repr = {self.repr}")
        if self.map:
            a.append(f"map = {self.map}")
        if self.try_map:
            a.append(f"try_map = {self.try_map}")
        if self.mode:
            a.append(self.mode)
        for c in self.pre or []:
            a.append("pre_assert(" + ", ".join(c) + ")")
        for c in self.asserts or []:
            a.append("assert(" + ", ".join(c) + ")")
        return a

    def attr(self, split=False):
        a = self.attr_list()
        s = ''.join(f"{x}\n" for x in self.attrs or [])
        return s + render(a, split, '\n')

    def args_ty(self):
        if self.imports:
            return '(' + ''.join(t + ', ' for _, t in self.imports) + ')'
        if self.import_tuple:
            return self.import_tuple[1]
        return '()'

    def bind(self):
        if self.imports:
            return 'let (' + ''.join(f"mut {n}, " for n, _ in self.imports) + ') = __args;\n'
        if self.import_tuple:
            return f"let mut {self.import_tuple[0]} = __args;\n"
        return ''


def ref_prelude(t, endian=None, magic=None, pre=()):
    """options, magic and pre_asserts of an item"""
    o = f"let __opt = {{ let mut __o = *__ro; {ref_endian(endian or t.endian)}__o }};\n"
    m = magic or t.magic
    if m:
        o += ref_magic(m, '__opt')
    for c in list(t.pre or []) + list(pre):
        o += ref_assert(c)
    return o


def ctor(path, fields, tuple_):
    keep = [f.name for f in fields if not f.temp]
    if not fields and tuple_ is None:
        return path
    if tuple_:
        return f"{path}({', '.join(keep)})"
    return f"{path} {{ {', '.join(keep)} }}"


def ref_fields(fields):
    o = ''
    d = ''
    for f in fields:
        a, b = ref_field(f)
        o += a
        d += b
    return o + ("{ let __back = tell(__r)?;\n" + d + "go(__r, __back)?; }\n" if d else '')


class P:
    """A program: one type and its reference."""

    def __init__(self, name, kind, top=None, fields=(), variants=(), tuple_=False, tags=(), generics='', inst='', where='',
                 split=False, pre='', derive='BinRead', note='', gbind=''):
        self.name, self.kind, self.top = name, kind, top or Top()
        self.fields, self.variants, self.tuple_ = list(fields), list(variants), tuple_
        self.tags = tags
        self.generics, self.inst, self.where = generics, inst, where
        self.split = split
        self.pre = pre
        self.attrm = derive == 'attr'
        self.note = note
        self.gbind = gbind
        self.base = None

    def tyname(self):
        return 'T' + self.inst

    def type_src(self):
        d = '#[derive_binread]\n' if self.attrm else '#[derive(BinRead)]\n'
        d += self.top.attr(self.split)
        g = self.generics
        w = f" {self.where}" if self.where else ''
        if self.kind == 'struct':
            if self.tuple_:
                return d + f"pub struct T{g}({', '.join(f.decl(False, self.split) for f in self.fields)}){w};\n"
            return d + f"pub struct T{g}{w} {{ {', '.join(f.decl(True, self.split) for f in self.fields)} }}\n"
        if self.kind == 'unit':
            return d + f"pub struct T{g};\n"
        vs = []
        for v in self.variants:
            vs.append(v.decl(self.split))
        return d + f"pub enum T{g}{w} {{ {', '.join(vs)} }}\n"

    def root(self):
        t = self.tyname()
        return (f"pub fn root__{self.name}(r: &mut Rdr, ro: &ReadOptions, a: {self.top.args_ty()}) -> BinResult<{t}> "
                f"{{ <{t} as BinRead>::read_options(r, ro, a) }}\n")

    def ref(self):
        t = self.tyname()
        return (f"pub fn ref__{self.name}(__r: &mut Rdr, __ro: &ReadOptions, __args: {self.top.args_ty()}) -> BinResult<{t}> {{\n{self.gbind}"
                f"let __pos = tell(__r)?;\n"
                f"let __res = (|| -> BinResult<{t}> {{\n{self.body()}}})();\n"
                f"match __res {{ Ok(__v) => Ok(__v), Err(__e) => {{ go(__r, __pos)?; Err(__e) }} }}\n}}\n")

    def body(self):
        t = self.top
        o = t.bind()
        if t.map or t.try_map:
            o += ref_prelude(t)
            src = t.src
            o += f"let __x = <{src} as BinRead>::read_options(__r, &__opt, __args)?;\n"
            if t.map:
                o += f"let __y = ({t.map})(__x);\n"
            else:
                o += f"let __y = match ({t.try_map})(__x) {{ Ok(__v) => __v, Err(__e) => return Err({map_fail(t.err, '__pos')}) }};\n"
            for c in t.asserts or []:
                o += ref_assert(c)
            return o + "Ok(__y)\n"
        T = 'T::' + self.inst if self.inst else 'T'
        T = 'T'
        if self.kind in ('struct', 'unit'):
            o += ref_prelude(t)
            o += ref_fields(self.fields)
            for c in t.asserts or []:
                o += ref_assert(c)
            return o + f"Ok({ctor(T, self.fields, None if self.kind == 'unit' else self.tuple_)})\n"
        if self.kind == 'unitenum':
            o += ref_prelude(t)
            if t.repr:
                o += f"let __x = <{t.repr} as BinRead>::read_options(__r, &__opt, ())?;\n"
                for v in self.variants:
                    g = ''.join(f" && ({c[0]})" for c in v.top.pre or [])
                    o += f"if __x == (T::{v.name} as {t.repr}){g} {{ return Ok(T::{v.name}); }}\n"
            else:
                mt, _ = magic_type(next(v.top.magic for v in self.variants if v.top.magic))
                o += f"let __x = <{mt} as BinRead>::read_options(__r, &__opt, ())?;\n"
                for v in self.variants:
                    if v.top.magic:
                        g = ''.join(f" && ({c[0]})" for c in v.top.pre or [])
                        o += f"if __x == {magic_type(v.top.magic)[1]}{g} {{ return Ok(T::{v.name}); }}\n"
            return o + "Err(Error::NoVariantMatch { pos: __pos })\n"
        allerr = t.mode != 'return_unexpected_error'
        if allerr:
            o += "let mut __errs: Vec<(&'static str, Error)> = Vec::new();\n"
        tn = self.tyname()
        for v in self.variants:
            o += f"match (|| -> BinResult<{tn}> {{\n"
            o += ref_prelude(t, v.top.endian, v.top.magic, v.top.pre or [])
            o += ref_fields(v.fields)
            asr = list(v.top.asserts or []) + list(t.asserts or [])
            for c in asr:
                o += ref_assert(c)
            o += f"Ok({ctor('T::' + v.name, v.fields, v.tuple_)})\n"
            o += "})() { Ok(__v) => return Ok(__v), Err(__e) => { " + (f'__errs.push(("{v.name}", __e)); ' if allerr else '') + "go(__r, __pos)?; } }\n"
        if allerr:
            return o + "Err(Error::EnumErrors { pos: __pos, variant_errors: __errs })\n"
        return o + "Err(Error::NoVariantMatch { pos: __pos })\n"

    def source(self):
        return self.pre + self.type_src() + self.root() + self.ref()


class V:
    """An enum variant; tuple_ None = unit."""

    def __init__(self, name, fields=(), tuple_=None, disc=None, **top):
        self.name, self.fields, self.tuple_, self.disc = name, list(fields), tuple_, disc
        if self.fields and tuple_ is None:
            self.tuple_ = False
        self.top = Top(**top)

    def decl(self, split=False):
        a = self.top.attr(split).replace('\n', ' ')
        if self.tuple_ is None:
            return a + self.name + (f" = {self.disc}" if self.disc is not None else '')
        if self.tuple_:
            return a + f"{self.name}({', '.join(f.decl(False, split) for f in self.fields)})"
        return a + f"{self.name} {{ {', '.join(f.decl(True, split) for f in self.fields)} }}"


HEADER = '''#![allow(dead_code, unused, non_snake_case, non_camel_case_types, clippy::all)]
#![feature(try_trait_v2)]
'''
PRELUDE = '''use binread::{BinRead, BinResult, ReadOptions, Endian, Error, derive_binread};
use binread::io::{self, Read, Seek, SeekFrom};
use vrt::*;
fn tell(r: &mut Rdr) -> BinResult<u64> { Ok(r.seek(SeekFrom::Current(0))?) }
fn go(r: &mut Rdr, p: u64) -> BinResult<()> { r.seek(SeekFrom::Start(p))?; Ok(()) }
'''


class Raw:
    """Hand-written program: items source defining root__NAME and (optionally) ref__NAME."""

    def __init__(self, name, src, note='', tags=(), inline=''):
        self.name, self.src, self.note, self.tags = name, src, note, tags
        self.inline = inline  # types (|-separated) whose parsers are followed everywhere, not leaves

    def source(self):
        return self.src


def corpus_source(progs, no_std=False):
    """returns (source text, list of (first line, last line, program))"""
    out = HEADER
    if no_std:
        out += '#![no_std]\nextern crate alloc;\n'
    spans = []
    line = out.count('\n') + 1
    for p in progs:
        s = f"pub mod m_{p.name} {{\n" + ('use alloc::{boxed::Box, string::String, vec::Vec, format};\n' if no_std else '') + PRELUDE + p.source() + "}\n"
        spans.append((line, line + s.count('\n') - 1, p))
        out += s
        line += s.count('\n')
    return out, spans


_id = [0]


def reset():
    _id[0] = 0


def pure(ty):
    _id[0] += 1
    return f"pure0::<{ty}, {_id[0]}>()"


def pure1(ty, aty, a):
    _id[0] += 1
    return f"pure1::<{ty}, {aty}, {_id[0]}>({a})"


def evx(ty):
    _id[0] += 1
    return f"ev0::<{ty}, {_id[0]}>()"


def evx1(ty, aty, a):
    _id[0] += 1
    return f"ev1::<{ty}, {aty}, {_id[0]}>({a})"
