"""Library implementations against references written from their documentation.

Every program is a pair of functions: root__X calls the library, ref__X spells
out with plain reads, seeks and pushes what the documentation promises."""
from dgen import Raw

NUMS = ['u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128', 'f32', 'f64']
SIG = 'r: &mut Rdr, ro: &ReadOptions, a: {a}'


def pair(name, ret, root, ref, a='()', note='', pre='', sig=None, extra='', inline=''):
    s = sig or SIG.format(a=a)
    g = ''
    return Raw(name, f"{pre}pub fn root__{name}({s}) -> {ret} {{ {root} }}\n{extra}pub fn ref__{name}({s}) -> {ret} {{\n{ref}\n}}\n", note, inline=inline)


def R(t):
    return f"BinResult<{t}>"


def nums():
    out = []
    for t in NUMS:
        out.append(pair(f"num_{t}", R(t), f"<{t} as BinRead>::read_options(r, ro, a)", f"""
    let start = tell(r)?;
    let mut b = [0u8; {int(t[1:]) // 8}];
    if let Err(e) = r.read_exact(&mut b) {{ go(r, start)?; return Err(Error::Io(e)); }}
    let big = match ro.endian {{ Endian::Big => true, Endian::Little => false, Endian::Native => cfg!(target_endian = "big") }};
    if big {{ Ok({t}::from_be_bytes(b)) }} else {{ Ok({t}::from_le_bytes(b)) }}""", note=f"reading {t}"))
        out.append(pair(f"numap_{t}", R('()'), f"v.after_parse(r, ro, a)", "Ok(())", note=f"post-processing {t}", sig=f"v: &mut {t}, r: &mut Rdr, ro: &ReadOptions, a: ()"))
    out.append(pair('num_char', R('char'), "<char as BinRead>::read_options(r, ro, a)", """
    let start = tell(r)?;
    let mut b = [0u8; 1];
    if let Err(e) = r.read_exact(&mut b) { go(r, start)?; return Err(Error::Io(e)); }
    Ok(b[0] as char)""", note='reading char', inline='u8'))
    out.append(pair('num_unit', R('()'), "<() as BinRead>::read_options(r, ro, a)", "Ok(())", note='reading ()'))
    out.append(pair('num_ph', R('core::marker::PhantomData<u32>'), "<core::marker::PhantomData<u32> as BinRead>::read_options(r, ro, a)", "Ok(core::marker::PhantomData)", note='reading PhantomData'))
    return out


ELEMS = [('l', 'L<1>', '()'), ('a', 'LA<(u32, u8), 1>', '(u32, u8)'), ('b', 'LA<(L<9>,), 1>', '(L<9>,)')]
READ = "<{t} as BinRead>::read_options(r, {o}, {a})"


def rd(t, o='ro', a='a'):
    return READ.format(t=t, o=o, a=a)


def ap(t, v, o='ro', a='a'):
    return f"<{t} as BinRead>::after_parse({v}, r, {o}, {a})?;"


def apsig(t, a):
    return f"v: &mut {t}, r: &mut Rdr, ro: &ReadOptions, a: {a}"


def containers(sizes=(0, 1, 2, 3, 4, 7, 16, 31, 32), tuples=(1, 2, 3, 4, 8, 16, 31, 32), loops=False):
    """loops: arrays are read by a loop (const generics) instead of unrolled"""
    out = []
    for n, t, a in ELEMS:
        v = f"Vec<{t}>"
        out.append(pair(f"vec_{n}", R(v), rd(v), f"""
    let n = match ro.count {{ Some(n) => n, None => panic!("Missing count for Vec") }};
    let mut o = *ro; o.count = None;
    let mut v = Vec::new();
    let mut i = 0;
    while i < n {{ v.push({rd(t, '&o')}?); i += 1; }}
    Ok(v)""", a, note='reading Vec'))
        out.append(pair(f"vecap_{n}", R('()'), "v.after_parse(r, ro, a)", f"for x in v.iter_mut() {{ {ap(t, 'x')} }} Ok(())", sig=apsig(v, a), note='post-processing Vec'))
        for k, w in (('box', f"Box<{t}>"), ('opt', f"Option<{t}>")):
            mk = 'Box::new' if k == 'box' else 'Some'
            out.append(pair(f"{k}_{n}", R(w), rd(w), f"let v = {rd(t)}?; Ok({mk}(v))", a, note=f"reading {k}"))
        out.append(pair(f"boxap_{n}", R('()'), "v.after_parse(r, ro, a)", f"{ap(t, '&mut **v')} Ok(())", sig=apsig(f"Box<{t}>", a), note='post-processing Box'))
        out.append(pair(f"optap_{n}", R('()'), "v.after_parse(r, ro, a)", f"if let Some(x) = v {{ {ap(t, 'x')} }} Ok(())", sig=apsig(f"Option<{t}>", a), note='post-processing Option'))
        p = f"binread::PosValue<{t}>"
        out.append(pair(f"pos_{n}", R(p), rd(p), f"let p = tell(r)?; let v = {rd(t)}?; Ok(binread::PosValue {{ val: v, pos: p }})", a, note='reading PosValue'))
        out.append(pair(f"posap_{n}", R('()'), "v.after_parse(r, ro, a)", f"{ap(t, '&mut v.val')} Ok(())", sig=apsig(p, a), note='post-processing PosValue'))
        for k in sizes:
            if n == 'b' and k not in (0, 3):
                continue
            w = f"[{t}; {k}]"
            if loops and k > 4:
                ref = f"let mut v: Vec<{t}> = Vec::new(); let mut i = 0; while i < {k} {{ v.push({rd(t)}?); i += 1; }} Ok(vrt::models::vec_to_array::<{t}, {k}>(v))"
            else:
                ref = ''.join(f"let x{i} = {rd(t)}?;\n" for i in range(k)) + f"Ok([{', '.join(f'x{i}' for i in range(k))}])"
            out.append(pair(f"arr{k}_{n}", R(w), rd(w), ref, a, note=f"reading [T; {k}]"))
            out.append(pair(f"arrap{k}_{n}", R('()'), "v.after_parse(r, ro, a)", (''.join(ap(t, f"&mut v[{i}]") + '\n' for i in range(k)) if k <= 32 else f"for x in v.iter_mut() {{ {ap(t, 'x')} }}") + 'Ok(())', sig=apsig(w, a), note=f"post-processing [T; {k}]"))
    for k in tuples:
        w = '(' + ''.join(f"L<{i + 1}>, " for i in range(k)) + ')'
        ref = ''.join(f"let x{i} = {rd(f'L<{i + 1}>', 'ro', '()')}?;\n" for i in range(k)) + 'Ok((' + ''.join(f"x{i}, " for i in range(k)) + '))'
        out.append(pair(f"tup{k}", R(w), rd(w), ref, note=f"reading a tuple of {k}"))
        out.append(pair(f"tupap{k}", R('()'), "v.after_parse(r, ro, a)", ''.join(ap(f"L<{i + 1}>", f"&mut v.{i}", 'ro', '()') + '\n' for i in range(k)) + 'Ok(())', sig=apsig(w, '()'), note=f"post-processing a tuple of {k}"))
    return out


def key(t):
    return t.replace('(L<9>,)', '(L<9>,)')


CONC = {'u8': 'u64', 'u16': 'u64', 'u32': 'u64', 'u64': 'u64', 'u128': 'u64', 'i8': 'i64', 'i16': 'i64', 'i32': 'i64', 'i64': 'i64', 'i128': 'i64'}


def clamp(c, n):
    """the pointer as a relative seek; one no seek can express lies beyond any data"""
    return f"fn clamp_{c}_{n}(p: {c}) -> i64 {{ match <i64 as core::convert::TryFrom<{c}>>::try_from(p) {{ Ok(v) => v, Err(_) => i64::MAX }} }}\n"


def intoseek():
    out = []
    for c in CONC:
        out.append(pair(f"isf_{c}", 'SeekFrom', 'binread::file_ptr::IntoSeekFrom::into_seek_from(p)', f"SeekFrom::Current(clamp_{c}_s(p))", sig=f"p: {c}", extra=clamp(c, 's'), note=f"{c} as a file pointer"))
    return out


def fileptrs():
    out = []
    for n, t, a in ELEMS:
        p = f"binread::FilePtr<Ptr, {t}>"
        jump = "go(r, ro.offset)?; r.seek(binread::file_ptr::IntoSeekFrom::into_seek_from({p}))?;"
        out.append(pair(f"fp_{n}", R(p), rd(p), f"let p = {rd('Ptr', 'ro', '()')}?; Ok(binread::FilePtr {{ ptr: p, value: None }})", a, note='reading FilePtr'))
        body = f"""let back = tell(r)?;
    {jump.format(p='v.ptr')}
    let mut x = {rd(t)}?;
    {ap(t, '&mut x')}
    v.value = Some(x);
    go(r, back)?; Ok(())"""
        out.append(pair(f"fpap_{n}", R('()'), "v.after_parse(r, ro, a)", body, sig=apsig(p, a), note='following FilePtr'))
        out.append(pair(f"fpparse_{n}", R(t), f"binread::FilePtr::<Ptr, {t}>::parse(r, ro, a)", f"""let p = {rd('Ptr', 'ro', '()')}?;
    let back = tell(r)?;
    {jump.format(p='p')}
    let mut x = {rd(t)}?;
    {ap(t, '&mut x')}
    go(r, back)?; Ok(x)""", a, note='FilePtr::parse', inline=f"binread::FilePtr<Ptr, {key(t)}>"))
        for c in CONC:
            if n == 'b':
                continue
            p = f"binread::FilePtr<{c}, {t}>"
            out.append(pair(f"fp{c}_{n}", R(p), rd(p), f"let p = {rd(c, 'ro', '()')}?; Ok(binread::FilePtr {{ ptr: p, value: None }})", a, note=f"reading FilePtr<{c}>"))
            out.append(pair(f"fp{c}ap_{n}", R('()'), "v.after_parse(r, ro, a)", f"""let back = tell(r)?;
    let target = add(ro.offset, clamp_{c}_{n}(v.ptr));
    go(r, target)?;
    let mut x = {rd(t)}?;
    {ap(t, '&mut x')}
    v.value = Some(x);
    go(r, back)?; Ok(())""", sig=apsig(p, a), note=f"following FilePtr<{c}>", extra="fn add(a: u64, b: i64) -> u64 { (a as i64 + b) as u64 }\n" + clamp(c, n)))
            out.append(pair(f"fp{c}parse_{n}", R(t), f"binread::FilePtr::<{c}, {t}>::parse(r, ro, a)", f"""let p = {rd(c, 'ro', '()')}?;
    let back = tell(r)?;
    go(r, (ro.offset as i64 + clamp_{c}_{n}(p)) as u64)?;
    let mut x = {rd(t)}?;
    {ap(t, '&mut x')}
    go(r, back)?; Ok(x)""", a, note=f"FilePtr<{c}>::parse", extra=clamp(c, n), inline=f"binread::FilePtr<{c}, {key(t)}>"))
    for al, c in (('FilePtr8', 'u8'), ('FilePtr16', 'u16'), ('FilePtr32', 'u32'), ('FilePtr64', 'u64'), ('FilePtr128', 'u128')):
        out.append(pair(f"fpal_{c}", R(f"binread::{al}<L<1>>"), rd(f"binread::{al}<L<1>>"), f"let p = {rd(c, 'ro', '()')}?; Ok(binread::FilePtr {{ ptr: p, value: None }})", note=f"reading {al}"))
    p = "binread::FilePtr<Ptr, L<1>>"
    out.append(pair('fp_into', 'L<1>', "v.into_inner()", 'v.value.unwrap()', sig=f"v: {p}", note='into_inner'))
    out.append(pair('fp_deref', "&'static L<1>", "&**v", "match &v.value { Some(x) => x, None => panic!() }", sig=f"v: &'static {p}", note='deref'))
    out.append(pair('fp_derefm', "()", "**v = x;", "match &mut v.value { Some(y) => { *y = x; } None => panic!() }", sig=f"v: &mut {p}, x: L<1>", note='deref_mut'))
    return out


def helpers():
    out = []
    for n, t, a in ELEMS:
        for bn, bag in (('v', f"Vec<{t}>"), ('g', f"Bag<{t}>")):
            fin = 'Ok(v)' if bn == 'v' else 'Ok(v.into_iter().collect())'
            one = f"{{ let mut x = {rd(t)}?; {ap(t, '&mut x')} x }}"
            out.append(pair(f"h_count_{n}{bn}", R(bag), f"binread::helpers::count::<Rdr, {t}, {a}, {bag}>(n)(r, ro, a)", f"""
    let mut v = Vec::new();
    let mut i = 0;
    while i < n {{ let x = {one}; v.push(x); i += 1; }}
    {fin}""", sig=SIG.format(a=a) + ', n: usize', note='count'))
            cond = f"|x: &{t}| ev1::<bool, &{t}, 5>(x)"
            out.append(pair(f"h_until_{n}{bn}", R(bag), f"binread::helpers::until::<Rdr, {t}, _, {a}, {bag}>({cond})(r, ro, a)", f"""
    let mut v = Vec::new();
    loop {{ let x = {one}; let last = ev1::<bool, &{t}, 5>(&x); v.push(x); if last {{ break; }} }}
    {fin}""", a, note='until'))
            out.append(pair(f"h_untilx_{n}{bn}", R(bag), f"binread::helpers::until_exclusive::<Rdr, {t}, _, {a}, {bag}>({cond})(r, ro, a)", f"""
    let mut v = Vec::new();
    loop {{ let x = {one}; if ev1::<bool, &{t}, 5>(&x) {{ break; }} v.push(x); }}
    {fin}""", a, note='until_exclusive'))
            out.append(pair(f"h_eof_{n}{bn}", R(bag), f"binread::helpers::until_eof::<Rdr, {t}, {a}, {bag}>(r, ro, a)", f"""
    let mut v = Vec::new();
    loop {{
        let e = match {rd(t)} {{ Ok(mut x) => match <{t} as BinRead>::after_parse(&mut x, r, ro, a) {{ Ok(()) => {{ v.push(x); continue; }} Err(e) => e }}, Err(e) => e }};
        match e {{ Error::Io(ref i) if i.kind() == io::ErrorKind::UnexpectedEof => break, e => return Err(e) }}
    }}
    {fin}""", a, note='until_eof'))
        out.append(pair(f"h_then_{n}", R(t), f"binread::error::read_options_then_after_parse::<_, {t}, Rdr>(r, ro, a)", f"let mut x = {rd(t)}?; {ap(t, '&mut x')} Ok(x)", a, note='read_options_then_after_parse'))
    out.append(pair('h_bytes', R('Vec<u8>'), "binread::helpers::read_bytes(r, ro, a)", """
    let n = match ro.count { Some(n) => n, None => panic!() };
    let mut v = Vec::new();
    while v.len() < n { let s = v.len(); let k = if n - s < 0x1000 { n - s } else { 0x1000 }; v.resize(s + k, 0u8); r.read_exact(&mut v[s..])?; }
    Ok(v)""", note='read_bytes'))
    for t in ('L<1>', 'u16', 'u32', '[u8; 4]', 'char'):
        nm = ''.join(c for c in t if c.isalnum())
        out.append(pair(f"h_magic_{nm}", R('()'), "binread::error::magic(r, m, ro)", f"""let p = tell(r)?; let v = {rd(t, 'ro', '()')}?;
    if v == m {{ Ok(()) }} else {{ Err(Error::BadMagic {{ pos: p, found: Box::new(v) }}) }}""", sig=f"r: &mut Rdr, ro: &ReadOptions, m: {t}", note='error::magic'))
    return out


def punctuated():
    out = []
    for n, t, a in ELEMS:
        p = f"binread::punctuated::Punctuated<{t}, L<2>>"
        item = f"{{ let mut x = {rd(t)}?; {ap(t, '&mut x')} items.push(x); }}"
        sep = f"{{ let mut x = {rd('L<2>', 'ro', '()')}?; {ap('L<2>', '&mut x', 'ro', '()')} seps.push(x); }}"
        out.append(pair(f"pu_{n}", R(f"(Vec<{t}>, Vec<L<2>>)"), f"let p = <{p}>::separated(r, ro, a)?; let b = unsafe {{ core::ptr::read(&*p) }}; Ok((b, p.seperators))".replace('unsafe { core::ptr::read(&*p) }', 'p.clone()'), f"""
    let n = match ro.count {{ Some(n) => n, None => panic!() }};
    let (mut items, mut seps) = (Vec::new(), Vec::new());
    let mut i = 0;
    while i < n {{ {item} i += 1; if i != n {{ {sep} }} }}
    Ok((items, seps))""", a, note='Punctuated::separated'))
        out.append(pair(f"put_{n}", R(f"(Vec<{t}>, Vec<L<2>>)"), f"let p = <{p}>::separated_trailing(r, ro, a)?; let b = p.clone(); Ok((b, p.seperators))", f"""
    let n = match ro.count {{ Some(n) => n, None => panic!() }};
    let (mut items, mut seps) = (Vec::new(), Vec::new());
    let mut i = 0;
    while i < n {{ {item} {sep} i += 1; }}
    Ok((items, seps))""", a, note='Punctuated::separated_trailing'))
    return out


def strings():
    out = []
    byte = """
    let mut v: Vec<u8> = Vec::new();
    let mut it = io::Read::bytes(&mut *r);
    while let Some(b) = it.next() { let b = match b { Ok(b) => b, Err(e) => return Err(Error::Io(e)) }; if b == 0 { break; } v.push(b); }
    """
    wide = f"""
    let mut v: Vec<u16> = Vec::new();
    loop {{ let u = {rd('u16', 'ro', '()')}?; if u == 0 {{ break; }} v.push(u); }}
    """
    nz = lambda t: f"v.into_iter().map(|x| core::num::NonZero{t}::new(x).unwrap()).collect()"
    out.append(pair('st_null', R('binread::NullString'), rd('binread::NullString'), byte + 'Ok(binread::NullString(v))', note='NullString', inline='Vec<NonZero<u8>>'))
    out.append(pair('st_wide', R('binread::NullWideString'), rd('binread::NullWideString'), wide + 'Ok(binread::NullWideString(v))', note='NullWideString', inline='Vec<NonZero<u16>>'))
    out.append(pair('st_nz8', R('Vec<u8>'), rd('Vec<core::num::NonZeroU8>') + '.map(|v| v.into_iter().map(|x| x.get()).collect())', byte + 'Ok(v)', note='Vec<NonZeroU8>'))
    out.append(pair('st_nz16', R('Vec<u16>'), rd('Vec<core::num::NonZeroU16>') + '.map(|v| v.into_iter().map(|x| x.get()).collect())', wide + 'Ok(v)', note='Vec<NonZeroU16>'))
    for w in ('NullString', 'NullWideString'):
        out.append(pair('stap_' + w, R('()'), "v.after_parse(r, ro, a)", 'Ok(())', sig=apsig('binread::' + w, '()'), note=f"post-processing {w}"))
    out.append(pair('st_into8', 'Vec<u8>', 'v.into()', 'v.0', sig='v: binread::NullString', note='NullString into Vec<u8>'))
    out.append(pair('st_into16', 'Vec<u16>', 'v.into()', 'v.0', sig='v: binread::NullWideString', note='NullWideString into Vec<u16>'))
    out.append(pair('st_deref8', "&'static Vec<u8>", '&**v', '&v.0', sig="v: &'static binread::NullString", note='NullString deref'))
    return out


def entries():
    out = []
    opts = lambda e: f"let o = ReadOptions::default(); let mut o = o; o.endian = {e}; o.count = None; o.offset = 0; let ro = &o;"
    for n, t, a in ELEMS:
        sg = f"r: &mut Rdr, a: {a}"
        both = f"let mut v = {rd(t)}?; {ap(t, '&mut v')} Ok(v)"
        out.append(pair(f"en_read_args_{n}", R(t), f"<{t} as BinRead>::read_args(r, a)", opts('Endian::Native') + rd(t), sig=sg, note='read_args'))
        for m, e in (('be', 'Endian::Big'), ('le', 'Endian::Little'), ('ne', 'Endian::Native')):
            out.append(pair(f"en_{m}_args_{n}", R(t), f"r.read_{m}_args::<{t}>(a)", opts(e) + both, sig=sg, note=f"read_{m}_args", pre='use binread::BinReaderExt;\n'))
            if n == 'l':
                out.append(pair(f"en_{m}_{n}", R(t), f"r.read_{m}::<{t}>()", opts(e) + 'let a = (); ' + both, sig='r: &mut Rdr', note=f"read_{m}", pre='use binread::BinReaderExt;\n'))
        out.append(pair(f"en_type_args_{n}", R(t), f"r.read_type_args::<{t}>(e, a)", opts('e') + both, sig=sg + ', e: Endian', note='read_type_args', pre='use binread::BinReaderExt;\n'))
        if n == 'l':
            out.append(pair(f"en_type_{n}", R(t), f"r.read_type::<{t}>(e)", opts('e') + 'let a = (); ' + both, sig='r: &mut Rdr, e: Endian', note='read_type', pre='use binread::BinReaderExt;\n'))
            out.append(pair(f"en_read_{n}", R(t), f"<{t} as BinRead>::read(r)", opts('Endian::Native') + 'let a = (); ' + rd(t), sig='r: &mut Rdr', note='read'))
    for t, v in (('()', 'Some(())'),):
        out.append(pair('en_default_l', 'Option<()>', '<L<1> as BinRead>::args_default()', 'Some(())', sig='', note='args_default'))
    for k, a in enumerate(['(u32,)', '(u32, u8)', '((),)', '((), ())', 'u32', '[u8; 0]', 'core::marker::PhantomData<u8>', 'core::convert::Infallible', '&\'static ()', 'bool']):
        out.append(pair(f"en_default_{k}", f"Option<{a}>", f"<LA<{a}, 1> as BinRead>::args_default()", 'None', sig='', note=f"args_default of {a}"))
    return out


def api():
    """what a user does with values after reading them (root only: judged by rules)"""
    out = []

    def one(name, sig, ret, body, note, pre=''):
        out.append(Raw(name, f"{pre}pub fn root__{name}({sig}) -> {ret} {{ {body} }}\n", note))
    for s, u in (('NullString', 'u8'), ('NullWideString', 'u16')):
        n = s.lower()
        q = 'binread::' + s
        one(f"api_{n}_into_string", f"s: {q}", 'String', 's.into_string()', f"{s}::into_string")
        one(f"api_{n}_to_string", f"s: &{q}", 'String', 's.to_string()', f"{s}::to_string")
        one(f"api_{n}_lossless", f"s: {q}", 'bool', 's.into_string_lossless().is_ok()', f"{s}::into_string_lossless")
        one(f"api_{n}_debug", f"s: &{q}, f: &mut core::fmt::Formatter<'_>", 'core::fmt::Result', 'core::fmt::Debug::fmt(s, f)', f"Debug of {s}")
        one(f"api_{n}_deref", f"s: &{q}", f"&Vec<{u}>", 'core::ops::Deref::deref(s)', f"Deref of {s}")
        one(f"api_{n}_into", f"s: {q}", f"Vec<{u}>", 'Vec::from(s)', f"Vec from {s}")
    one('api_err_debug', "e: &Error, f: &mut core::fmt::Formatter<'_>", 'core::fmt::Result', 'core::fmt::Debug::fmt(e, f)', 'Debug of Error')
    one('api_err_display', "e: &Error, f: &mut core::fmt::Formatter<'_>", 'core::fmt::Result', 'core::fmt::Display::fmt(e, f)', 'Display of Error')
    one('api_err_custom', "e: &Error", 'Option<&u32>', 'e.custom_err::<u32>()', 'Error::custom_err')
    one('api_pv_deref', "v: &binread::PosValue<L<1>>", '&L<1>', 'core::ops::Deref::deref(v)', 'Deref of PosValue')
    one('api_pu_deref', "v: &binread::punctuated::Punctuated<L<1>, L<2>>", '&Vec<L<1>>', 'core::ops::Deref::deref(v)', 'Deref of Punctuated')
    return out


def template():
    """the template writers (debug_template)"""
    out = []
    for n, sig, call in (('named', "e: Endian, pos: u64, t: &str, n: &str", 'write_named(e, pos, t, n)'), ('start', 'n: &str', 'write_start_struct(n)'),
                         ('end', "n: Option<&str>", 'write_end_struct(n)'), ('comment', 'n: &str', 'write_comment(n)'), ('write', 'e: Endian, pos: u64, t: &str', 'write(e, pos, t)'),
                         ('vec', 'e: Endian, pos: u64, t: &str, c: usize', 'write_vec(e, pos, t, c)'), ('vecn', 'e: Endian, pos: u64, t: &str, c: usize, n: &str', 'write_vec_named(e, pos, t, c, n)'),
                         ('unset', '', 'unset_output()'), ('var', '', 'get_next_var_name();'), ('color', '', 'get_next_color();'),
                         ('set', 'w: Box<dyn std::io::Write + Send>', 'set_output(w)'), ('setfile', 'p: &str', 'set_output_file(p);')):
        out.append(Raw('tm_' + n, f"pub fn root__tm_{n}({sig}) {{ binread::binary_template::{call} }}\n", 'template ' + n))
    return out


Q = """pub struct Q(pub u32);
impl core::fmt::Debug for Q { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { ev1::<core::fmt::Result, (&Q, &mut core::fmt::Formatter<'_>), 1>((self, f)) } }
impl PartialEq<Q> for Q { fn eq(&self, o: &Q) -> bool { ev1::<bool, (&Q, &Q), 2>((self, o)) } }
impl PartialEq<u8> for Q { fn eq(&self, o: &u8) -> bool { ev1::<bool, (&Q, &u8), 3>((self, o)) } }
impl Clone for Q { fn clone(&self) -> Q { ev1::<Q, &Q, 4>(self) } }
impl BinRead for Q { type Args = (); fn read_options<R: io::Read + io::Seek>(_: &mut R, _: &ReadOptions, _: ()) -> BinResult<Q> { loop {} } }
"""


def wrappers(cfg):
    """what comes out of the wrapper types, conversions and errors against what went in"""
    out = []

    ts = 'use alloc::string::ToString;\n' if cfg == 'nostd' else ''

    def one(name, sig, ret, root, ref, note):
        out.append(pair('wr_' + name, ret, root, ref, sig=sig, note=note, pre=ts + Q))
    pv, fp = 'binread::PosValue<Q>', 'binread::FilePtr<u32, Q>'
    fm, fr = "f: &mut core::fmt::Formatter<'_>", 'core::fmt::Result'
    one('pv_deref', f"v: &'static {pv}", "&'static Q", 'core::ops::Deref::deref(v)', '&v.val', 'PosValue deref')
    one('pv_mut', f"v: &mut {pv}, x: Q", '()', '**v = x;', 'v.val = x;', 'PosValue deref_mut')
    one('pv_clone', f"v: &{pv}", pv, 'v.clone()', 'let val = v.val.clone(); binread::PosValue { val, pos: v.pos }', 'PosValue clone')
    one('pv_eq', f"v: &{pv}, o: Q", 'bool', '*v == o', 'v.val == o', 'PosValue ==')
    one('pv_ne', f"v: &{pv}, o: Q", 'bool', '*v != o', '!(v.val == o)', 'PosValue !=')
    one('pv_eq8', f"v: &{pv}, o: u8", 'bool', '*v == o', 'v.val == o', 'PosValue == another type')
    one('pv_debug', f"v: &{pv}, {fm}", fr, 'core::fmt::Debug::fmt(v, f)', 'core::fmt::Debug::fmt(&v.val, f)', 'Debug of PosValue')
    one('fp_eq', f"v: &{fp}, o: &{fp}", 'bool', '*v == *o', 'match (&v.value, &o.value) { (Some(a), Some(b)) => *a == *b, _ => panic!() }', 'FilePtr ==')
    one('fp_debug', f"v: &{fp}, {fm}", fr, 'match v.value { Some(_) => core::fmt::Debug::fmt(v, f), None => Ok(()) }', 'match &v.value { Some(a) => core::fmt::Debug::fmt(a, f), None => Ok(()) }', 'Debug of FilePtr')
    one('fp_into', f"v: {fp}", 'Q', 'v.into_inner()', 'match v.value { Some(a) => a, None => panic!() }', 'FilePtr into_inner')
    one('fp_ref', f"v: &'static {fp}", "&'static Q", 'core::ops::Deref::deref(v)', 'match &v.value { Some(a) => a, None => panic!() }', 'FilePtr deref')
    one('fp_mut', f"v: &mut {fp}, x: Q", '()', '**v = x;', 'match &mut v.value { Some(a) => { *a = x; } None => panic!() }', 'FilePtr deref_mut')
    for s, u, z in (('NullString', 'u8', 'U8'), ('NullWideString', 'u16', 'U16')):
        q = 'binread::' + s
        n = s.lower()
        one(n + '_ref', f"v: &'static {q}", f"&'static Vec<{u}>", 'core::ops::Deref::deref(v)', '&v.0', s + ' deref')
        one(n + '_into', f"v: {q}", f"Vec<{u}>", 'v.into()', 'v.0', f"{s} into Vec<{u}>")
        one(n + '_clone', f"v: &{q}", f"Vec<{u}>", 'v.clone().0', 'v.0.clone()', s + ' clone')
        one(n + '_eq', f"v: &{q}, o: &{q}", 'bool', '*v == *o', 'v.0 == o.0', s + ' ==')
        one(n + '_default', '', f"Vec<{u}>", f"<{q} as Default>::default().0", 'Vec::new()', s + ' default')
        conv = f"String::from_utf{u[1:]}_lossy(&v.0)" + ('.into_owned()' if u == 'u8' else '')
        own = 'v.0' if u == 'u8' else '&v.0'
        one(n + '_string', f"v: {q}", 'String', 'v.into_string()', conv, s + '::into_string')
        one(n + '_text', f"v: &{q}", 'String', 'ToString::to_string(v)', conv, s + '::to_string')
        one(n + '_exact', f"v: {q}", 'Option<String>', 'v.into_string_lossless().ok()', f"String::from_utf{u[1:]}({own}).ok()", s + '::into_string_lossless')
    one('err_io', 'e: io::Error', 'Error', 'Error::from(e)', 'Error::Io(e)', 'Error from io::Error')
    for n, val, ref in (('same', 'Custom { pos: p, err: Box::new(q) }', 'Some(q)'), ('other', 'Custom { pos: p, err: Box::new(3u64) }', '{ let _ = q; None }'),
                        ('io', 'Io(io::Error::new(io::ErrorKind::Other, "x"))', '{ let _ = q; None }'),
                        ('assert', 'AssertFail { pos: p, message: String::new() }', '{ let _ = q; None }'), ('none', 'NoVariantMatch { pos: p }', '{ let _ = q; None }'),
                        ('magic', 'BadMagic { pos: p, found: Box::new(q) }', 'None'), ('enum', 'EnumErrors { pos: p, variant_errors: Vec::new() }', '{ let _ = q; None }')):
        one('custom_' + n, 'p: u64, q: u32', 'Option<u32>', f"let e = Error::{val}; let _ = q; e.custom_err::<u32>().copied()", ref, f"custom_err ({n})")
    one('opt_default', '', '(Endian, Option<usize>, u64)', 'let o = ReadOptions::default(); (o.endian, o.count, o.offset)', '(Endian::Native, None, 0)', 'ReadOptions default')
    one('opt_clone', 'o: &ReadOptions', '(Endian, Option<usize>, u64)', 'let o = o.clone(); (o.endian, o.count, o.offset)', '(o.endian, o.count, o.offset)', 'ReadOptions clone')
    one('endian_default', '', 'Endian', 'Endian::default()', 'Endian::Native', 'Endian default')
    one('endian_string', 'e: Endian', 'String', 'String::from(&e)', 'String::from(match e { Endian::Big => "Big", Endian::Little => "Little", Endian::Native => "Native" })', 'Endian name')
    one('endian_short', '', '(Endian, Endian, Endian)', '(binread::endian::BE, binread::endian::LE, binread::endian::NE)', '(Endian::Big, Endian::Little, Endian::Native)', 'Endian short names')
    pu = "binread::punctuated::Punctuated<L<1>, L<2>>"
    one('pu_mut', f"r: &mut Rdr, ro: &ReadOptions, x: Vec<L<1>>", f"BinResult<Vec<L<1>>>", f"let mut p = <{pu}>::separated(r, ro, ())?; *p = x; Ok(p.clone())", f"let _ = <{pu}>::separated(r, ro, ())?; Ok(x.clone())", 'Punctuated deref_mut')
    return out


W = """pub struct W<'a>(pub &'a mut Rdr);
impl<'a> io::Read for W<'a> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { io::Read::read(&mut *self.0, b) } }
impl<'a> io::Seek for W<'a> { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { io::Seek::seek(&mut *self.0, p) } }
"""


def nostd_io():
    """the no_std I/O layer against what std::io documents"""
    out = []
    K = 'io::ErrorKind'
    cur = "&mut io::Cursor<&'static [u8]>"
    for n, pat in (('any', 'p'), ('start', 'SeekFrom::Start(x)'), ('current', 'SeekFrom::Current(x)'), ('end', 'SeekFrom::End(x)')):
        sig = f"c: {cur}, " + ('p: SeekFrom' if n == 'any' else 'x: u64' if n == 'start' else 'x: i64')
        out.append(pair(f"io_seek_{n}", f"Result<u64, {K}>", f"io::Seek::seek(c, {pat}).map_err(|e| e.kind())", f"""
    let p = {pat};
    fn moved(base: u64, x: i64) -> Option<u64> {{
        if x >= 0 {{ if base > u64::MAX - x as u64 {{ None }} else {{ Some(base + x as u64) }} }}
        else {{ let d = x.wrapping_neg() as u64; if d > base {{ None }} else {{ Some(base - d) }} }}
    }}
    let t = match p {{
        SeekFrom::Start(x) => Some(x),
        SeekFrom::Current(x) => moved(c.position(), x),
        SeekFrom::End(x) => moved(c.get_ref().len() as u64, x),
    }};
    match t {{ Some(t) => {{ c.set_position(t); Ok(t) }} None => Err({K}::InvalidInput) }}""", sig=sig, note='Cursor::seek'))
    out.append(pair('io_read', f"Result<usize, {K}>", "io::Read::read(c, b).map_err(|e| e.kind())", """
    let d: &'static [u8] = *c.get_ref();
    let pos = c.position();
    if pos > d.len() as u64 { return Ok(0); }
    let rest = d.len() - pos as usize;
    let n = if rest < b.len() { rest } else { b.len() };
    b[..n].copy_from_slice(&d[pos as usize..pos as usize + n]);
    c.set_position(pos + n as u64);
    Ok(n)""", sig=f"c: {cur}, b: &mut [u8]", note='Cursor::read'))
    out.append(pair('io_pos', 'u64', 'c.set_position(p); c.position()', 'let _ = io::Seek::seek(c, SeekFrom::Start(p)); p', sig=f"c: {cur}, p: u64", note='Cursor::position'))
    out.append(pair('io_new', "(u64, &'static [u8])", 'let c = io::Cursor::new(d); (c.position(), c.into_inner())', '(0, d)', sig="d: &'static [u8]", note='Cursor::new'))
    out.append(pair('io_ref', "&'static [u8]", 'io::Cursor::new(d).get_ref()', 'd', sig="d: &'static [u8]", note='Cursor::get_ref'))
    out.append(pair('io_mut', "&'static [u8]", 'let mut c = io::Cursor::new(d); *c.get_mut() = e; c.into_inner()', 'e', sig="d: &'static [u8], e: &'static [u8]", note='Cursor::get_mut'))
    intr = f"e.kind() == {K}::Interrupted"
    for n, sig, ty in (('slice', 'r: &mut Rdr, b: &mut [u8]', ''), ('4', 'r: &mut Rdr, b: &mut [u8; 4]', '')):
        out.append(pair(f"io_exact_{n}", 'Result<(), io::Error>', 'io::Read::read_exact(&mut W(r), &mut b[..])', f"""
    let mut at = 0usize;
    while at != b.len() {{
        match io::Read::read(r, &mut b[at..]) {{
            Ok(0) => return Err(io::Error::new({K}::UnexpectedEof, ())),
            Ok(n) => at += n,
            Err(e) => if !({intr}) {{ return Err(e); }}
        }}
    }}
    Ok(())""", sig=sig, note='read_exact', pre=W))
    out.append(pair('io_bytes', 'Option<io::Result<u8>>', 'io::Read::bytes(W(r)).next()', f"""
    let mut b = [0u8; 1];
    loop {{
        match io::Read::read(r, &mut b) {{
            Ok(0) => return None,
            Ok(_) => return Some(Ok(b[0])),
            Err(e) => if !({intr}) {{ return Some(Err(e)); }}
        }}
    }}""", sig='r: &mut Rdr', note='Bytes::next', pre=W))
    out.append(pair('io_bytes2', 'Option<io::Result<u8>>', 'let mut i = io::Read::bytes(W(r)); let _ = i.next(); i.next()', f"""
    fn one(r: &mut Rdr) -> Option<io::Result<u8>> {{
        let mut b = [0u8; 1];
        loop {{
            match io::Read::read(r, &mut b) {{
                Ok(0) => return None,
                Ok(_) => return Some(Ok(b[0])),
                Err(e) => if !({intr}) {{ return Some(Err(e)); }}
            }}
        }}
    }}
    let _ = one(r); one(r)""", sig='r: &mut Rdr', note='Bytes::next twice', pre=W))
    out.append(pair('io_fwd_read', 'io::Result<usize>', "<&mut Rdr as io::Read>::read(&mut r, b)", 'io::Read::read(r, b)', sig='mut r: &mut Rdr, b: &mut [u8]', note='reading through &mut'))
    out.append(pair('io_fwd_exact', 'io::Result<()>', "<&mut Rdr as io::Read>::read_exact(&mut r, b)", 'io::Read::read_exact(r, b)', sig='mut r: &mut Rdr, b: &mut [u8]', note='read_exact through &mut'))
    out.append(pair('io_fwd_ref', 'io::Result<()>', "io::Read::read_exact(io::Read::by_ref(r), b)", 'io::Read::read_exact(r, b)', sig='r: &mut Rdr, b: &mut [u8]', note='by_ref'))
    out.append(pair('io_fwd_seek', 'io::Result<u64>', "<&mut Rdr as io::Seek>::seek(&mut r, p)", 'io::Seek::seek(r, p)', sig='mut r: &mut Rdr, p: SeekFrom', note='seek through &mut'))
    out.append(pair('io_fwd_pos', 'io::Result<u64>', "<&mut Rdr as io::Seek>::stream_position(&mut r)", 'io::Seek::stream_position(r)', sig='mut r: &mut Rdr', note='stream_position through &mut'))
    out.append(pair('io_tell', 'io::Result<u64>', "io::Seek::stream_position(&mut W(r))", 'io::Seek::stream_position(r)', sig='r: &mut Rdr', note='stream_position', pre=W))
    out.append(pair('io_tell2', 'io::Result<u64>', "binread::io::StreamPosition::stream_pos(r)", 'io::Seek::stream_position(r)', sig='r: &mut Rdr', note='stream_pos', pre=W))
    out.append(pair('io_kind', K, f"io::Error::new(k, ()).kind()", 'k', sig=f"k: {K}", note='Error::kind'))
    return out
