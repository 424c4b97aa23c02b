//! Abstract values: canonical, structurally compared terms.
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub type V = Rc<N>;
pub type Key = Rc<str>;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Cell {
    Local(u32, u32),
    Root(u32),
    Sym(V),
    Const(V),
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Pe {
    /// variant selector for the following field
    D(u32),
    /// field i of n, name of the aggregate (for expansion of symbolic values)
    F(u32, u32, Rc<str>),
    Idx(V),
    /// sub-slice from..to (exclusive end)
    Sub(V, V),
    BoxIn,
    BoxRaw,
    /// one value seen as a slice of one
    One,
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Place {
    pub cell: Cell,
    pub path: Vec<Pe>,
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Seg {
    E(V),
    /// pattern over Res(key,0) for every event of `key` from absolute index start to the one of age `end`
    Run(V, Key, i128, u32),
    /// value repeated n times
    Rep(V, V),
    /// stream bytes between two reader positions
    Bytes(V, V),
    /// all of an opaque list
    All(V),
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum N {
    Int(i128),
    Lin(Vec<(V, i128)>, i128),
    Str(Rc<str>),
    Const(Rc<str>),
    Sym(Rc<str>),
    Res(Key, u32),
    Err(Key, u32),
    Pos(Key, u32),
    PosErr(Key, u32),
    Cnt(Key),
    Gen(Key, i128, u32),
    Op(Rc<str>, Vec<V>),
    Fld(V, u32, u32),
    Disc(V, Rc<[i128]>),
    Agg(Rc<str>, u32, Vec<V>),
    Ref(Place),
    List(Vec<Seg>),
    Box(V),
    /// slice iterator: place of the slice, next index, end index (None = len), by-value list?
    Iter(Place, V, V),
    /// owned list iterator: remaining list
    IntoIter(V),
    FnV(u32),
    Uninit,
}

pub fn int(i: i128) -> V {
    Rc::new(N::Int(i))
}
pub fn boolean(b: bool) -> V {
    int(b as i128)
}
pub fn sym(s: &str) -> V {
    Rc::new(N::Sym(s.into()))
}
pub fn op(s: &str, a: Vec<V>) -> V {
    Rc::new(N::Op(s.into(), a))
}
pub fn konst(s: &str) -> V {
    Rc::new(N::Const(s.into()))
}
pub fn agg(s: &str, v: u32, f: Vec<V>) -> V {
    Rc::new(N::Agg(s.into(), v, f))
}
pub fn unit() -> V {
    agg("()", 0, vec![])
}
pub fn uninit() -> V {
    Rc::new(N::Uninit)
}
pub fn some(v: V) -> V {
    agg("Option", 1, vec![v])
}
pub fn none() -> V {
    agg("Option", 0, vec![])
}
pub fn ok(v: V) -> V {
    agg("Result", 0, vec![v])
}
pub fn err(v: V) -> V {
    agg("Result", 1, vec![v])
}

pub fn lin_parts(v: &V) -> (BTreeMap<V, i128>, i128) {
    match &**v {
        N::Int(i) => (BTreeMap::new(), *i),
        N::Lin(a, c) => (a.iter().cloned().collect(), *c),
        _ => {
            let mut m = BTreeMap::new();
            m.insert(v.clone(), 1);
            (m, 0)
        }
    }
}
pub fn lin_make(m: BTreeMap<V, i128>, c: i128) -> V {
    let v: Vec<(V, i128)> = m.into_iter().filter(|(_, k)| *k != 0).collect();
    if v.is_empty() {
        int(c)
    } else if v.len() == 1 && v[0].1 == 1 && c == 0 {
        v[0].0.clone()
    } else {
        Rc::new(N::Lin(v, c))
    }
}
pub fn lin_comb(a: &V, ka: i128, b: &V, kb: i128) -> V {
    let (ma, ca) = lin_parts(a);
    let (mb, cb) = lin_parts(b);
    let mut m: BTreeMap<V, i128> = BTreeMap::new();
    for (k, c) in ma {
        *m.entry(k).or_insert(0) += c.wrapping_mul(ka);
    }
    for (k, c) in mb {
        *m.entry(k).or_insert(0) += c.wrapping_mul(kb);
    }
    lin_make(m, ca.wrapping_mul(ka).wrapping_add(cb.wrapping_mul(kb)))
}
pub fn add(a: &V, b: &V) -> V {
    lin_comb(a, 1, b, 1)
}
pub fn sub(a: &V, b: &V) -> V {
    lin_comb(a, 1, b, -1)
}
pub fn addc(a: &V, c: i128) -> V {
    lin_comb(a, 1, &int(c), 1)
}
pub fn as_int(v: &V) -> Option<i128> {
    if let N::Int(i) = &**v {
        Some(*i)
    } else {
        None
    }
}
pub fn not(v: &V) -> V {
    match &**v {
        N::Int(i) => boolean(*i == 0),
        N::Op(o, a) if &**o == "not" => a[0].clone(),
        _ => op("not", vec![v.clone()]),
    }
}
fn leading_positive(v: &V) -> bool {
    match &**v {
        N::Lin(a, _) => a[0].1 > 0,
        _ => true,
    }
}
/// v < 0, canonical orientation
pub fn lt0(v: &V) -> V {
    if let N::Int(i) = &**v {
        return boolean(*i < 0);
    }
    if leading_positive(v) {
        op("lt0", vec![v.clone()])
    } else {
        // v < 0  <=>  !( -v-1 < 0 )
        not(&op("lt0", vec![lin_comb(v, -1, &int(-1), 1)]))
    }
}
pub fn eq0(v: &V) -> V {
    if let N::Int(i) = &**v {
        return boolean(*i == 0);
    }
    if leading_positive(v) {
        op("eq0", vec![v.clone()])
    } else {
        op("eq0", vec![lin_comb(v, -1, &int(0), 1)])
    }
}

/// Rebuild a value, applying `f` to every node bottom-up-ish: `f` may replace a node entirely.
pub fn map(v: &V, f: &mut dyn FnMut(&N) -> Option<V>) -> V {
    if let Some(r) = f(v) {
        return r;
    }
    fn mv(xs: &[V], f: &mut dyn FnMut(&N) -> Option<V>) -> Option<Vec<V>> {
        let mut ch = false;
        let r: Vec<V> = xs
            .iter()
            .map(|x| {
                let y = map(x, f);
                if !Rc::ptr_eq(&y, x) {
                    ch = true;
                }
                y
            })
            .collect();
        if ch {
            Some(r)
        } else {
            None
        }
    }
    match &**v {
        N::Lin(a, c) => {
            let mut ch = false;
            let mut acc = int(*c);
            let mut news = Vec::new();
            for (x, k) in a {
                let y = map(x, f);
                if !Rc::ptr_eq(&y, x) {
                    ch = true;
                }
                news.push((y, *k));
            }
            if !ch {
                return v.clone();
            }
            for (y, k) in news {
                acc = lin_comb(&acc, 1, &y, k);
            }
            acc
        }
        N::Op(o, a) => match mv(a, f) {
            Some(a) => {
                if &**o == "lt0" {
                    lt0(&a[0])
                } else if &**o == "eq0" {
                    eq0(&a[0])
                } else if &**o == "not" {
                    not(&a[0])
                } else {
                    Rc::new(N::Op(o.clone(), a))
                }
            }
            None => v.clone(),
        },
        N::Agg(n, i, a) => match mv(a, f) {
            Some(a) => Rc::new(N::Agg(n.clone(), *i, a)),
            None => v.clone(),
        },
        N::Fld(x, a, b) => {
            let y = map(x, f);
            if Rc::ptr_eq(&y, x) {
                v.clone()
            } else {
                Rc::new(N::Fld(y, *a, *b))
            }
        }
        N::Disc(x, a) => {
            let y = map(x, f);
            if Rc::ptr_eq(&y, x) {
                v.clone()
            } else {
                Rc::new(N::Disc(y, a.clone()))
            }
        }
        N::Box(x) => {
            let y = map(x, f);
            if Rc::ptr_eq(&y, x) {
                v.clone()
            } else {
                Rc::new(N::Box(y))
            }
        }
        N::IntoIter(x) => {
            let y = map(x, f);
            if Rc::ptr_eq(&y, x) {
                v.clone()
            } else {
                Rc::new(N::IntoIter(y))
            }
        }
        N::Ref(p) => {
            let q = map_place(p, f);
            if q == *p {
                v.clone()
            } else {
                Rc::new(N::Ref(q))
            }
        }
        N::Iter(p, a, b) => Rc::new(N::Iter(map_place(p, f), map(a, f), map(b, f))),
        N::List(segs) => Rc::new(N::List(
            segs.iter()
                .map(|s| match s {
                    Seg::E(x) => Seg::E(map(x, f)),
                    Seg::Run(x, k, s, e) => Seg::Run(x.clone(), k.clone(), *s, *e),
                    Seg::Rep(x, n) => Seg::Rep(map(x, f), map(n, f)),
                    Seg::Bytes(x, n) => Seg::Bytes(map(x, f), map(n, f)),
                    Seg::All(x) => Seg::All(map(x, f)),
                })
                .collect(),
        )),
        _ => v.clone(),
    }
}
pub fn map_place(p: &Place, f: &mut dyn FnMut(&N) -> Option<V>) -> Place {
    Place {
        cell: match &p.cell {
            Cell::Sym(v) => Cell::Sym(map(v, f)),
            Cell::Const(v) => Cell::Const(map(v, f)),
            c => c.clone(),
        },
        path: p
            .path
            .iter()
            .map(|e| match e {
                Pe::Idx(v) => Pe::Idx(map(v, f)),
                Pe::Sub(a, b) => Pe::Sub(map(a, f), map(b, f)),
                e => e.clone(),
            })
            .collect(),
    }
}

/// one more event of `key` has happened: everything named relative to the last one ages
pub fn age(v: &V, key: &Key) -> V {
    fn go(n: &N, key: &Key) -> Option<V> {
        match n {
            N::Res(k, a) if k == key => Some(Rc::new(N::Res(k.clone(), a + 1))),
            N::Err(k, a) if k == key => Some(Rc::new(N::Err(k.clone(), a + 1))),
            N::Pos(k, a) if k == key => Some(Rc::new(N::Pos(k.clone(), a + 1))),
            N::PosErr(k, a) if k == key => Some(Rc::new(N::PosErr(k.clone(), a + 1))),
            N::Gen(k, s, a) if k == key => Some(Rc::new(N::Gen(k.clone(), *s, a + 1))),
            N::Cnt(k) if k == key => Some(addc(&Rc::new(N::Cnt(k.clone())), -1)),
            N::List(segs) if segs.iter().any(|s| matches!(s, Seg::Run(..))) => {
                Some(Rc::new(N::List(
                    segs.iter()
                        .map(|s| match s {
                            Seg::E(x) => Seg::E(age(x, key)),
                            Seg::Run(x, k, s, e) => {
                                if k == key {
                                    Seg::Run(x.clone(), k.clone(), *s, e + 1)
                                } else {
                                    Seg::Run(age(x, key), k.clone(), *s, *e)
                                }
                            }
                            Seg::Rep(x, n) => Seg::Rep(age(x, key), age(n, key)),
                            Seg::Bytes(x, n) => Seg::Bytes(age(x, key), age(n, key)),
                            Seg::All(x) => Seg::All(age(x, key)),
                        })
                        .collect(),
                )))
            }
            _ => None,
        }
    }
    let k = key.clone();
    map(v, &mut |n| go(n, &k))
}

pub fn visit(v: &V, f: &mut dyn FnMut(&N)) {
    f(v);
    match &**v {
        N::Lin(a, _) => a.iter().for_each(|(x, _)| visit(x, f)),
        N::Op(_, a) | N::Agg(_, _, a) => a.iter().for_each(|x| visit(x, f)),
        N::Fld(x, _, _) | N::Disc(x, _) | N::Box(x) | N::IntoIter(x) => visit(x, f),
        N::Ref(p) => visit_place(p, f),
        N::Iter(p, a, b) => {
            visit_place(p, f);
            visit(a, f);
            visit(b, f);
        }
        N::List(s) => s.iter().for_each(|s| match s {
            Seg::E(x) | Seg::All(x) => visit(x, f),
            Seg::Run(x, ..) => visit(x, f),
            Seg::Rep(x, n) | Seg::Bytes(x, n) => {
                visit(x, f);
                visit(n, f)
            }
        }),
        _ => {}
    }
}
pub fn visit_place(p: &Place, f: &mut dyn FnMut(&N)) {
    match &p.cell {
        Cell::Sym(v) | Cell::Const(v) => visit(v, f),
        _ => {}
    }
    for e in &p.path {
        match e {
            Pe::Idx(v) => visit(v, f),
            Pe::Sub(a, b) => {
                visit(a, f);
                visit(b, f)
            }
            _ => {}
        }
    }
}
pub fn event_atoms(v: &V, out: &mut BTreeSet<(Key, u32)>) {
    visit(v, &mut |n| match n {
        N::Res(k, a) | N::Err(k, a) | N::Pos(k, a) | N::PosErr(k, a) => {
            out.insert((k.clone(), *a));
        }
        _ => {}
    });
}

/// append to a list, folding runs of consecutive event results
pub fn list_push(segs: &mut Vec<Seg>, v: V, counts: &BTreeMap<Key, Option<i128>>) {
    // generic element of another run: becomes a run over the same range
    let mut gens: BTreeSet<(Key, i128, u32)> = BTreeSet::new();
    let mut res: BTreeSet<(Key, u32)> = BTreeSet::new();
    visit(&v, &mut |n| match n {
        N::Gen(k, s, e) => {
            gens.insert((k.clone(), *s, *e));
        }
        N::Res(k, a) => {
            res.insert((k.clone(), *a));
        }
        _ => {}
    });
    if gens.len() == 1 && res.is_empty() {
        let (k, s, e) = gens.into_iter().next().unwrap();
        let k2 = k.clone();
        let pat = map(&v, &mut |n| match n {
            N::Gen(..) => Some(Rc::new(N::Res(k2.clone(), 0))),
            _ => None,
        });
        segs.push(Seg::Run(pat, k, s, e));
        return;
    }
    if res.len() == 1 && gens.is_empty() {
        let (k, a) = res.into_iter().next().unwrap();
        let k2 = k.clone();
        let pat = map(&v, &mut |n| match n {
            N::Res(..) => Some(Rc::new(N::Res(k2.clone(), 0))),
            _ => None,
        });
        if let Some(Seg::Run(p, pk, _, e)) = segs.last_mut() {
            if *pk == k && *p == pat && *e == a + 1 {
                *e = a;
                return;
            }
        }
        if let Some(Some(c)) = counts.get(&k) {
            let idx = *c - 1 - a as i128;
            segs.push(Seg::Run(pat, k, idx, a));
            return;
        }
    }
    // stream bytes
    if let N::Op(o, a) = &*v {
        if &**o == "gen_byte" {
            if let Some(Seg::Bytes(_, e)) = segs.last_mut() {
                if *e == a[0] {
                    *e = a[1].clone();
                    return;
                }
            }
            segs.push(Seg::Bytes(a[0].clone(), a[1].clone()));
            return;
        }
        if &**o == "byte_at" {
            let end = addc(&a[0], 1);
            if let Some(Seg::Bytes(_, e)) = segs.last_mut() {
                if *e == a[0] {
                    *e = end;
                    return;
                }
            }
            segs.push(Seg::Bytes(a[0].clone(), end));
            return;
        }
    }
    segs.push(Seg::E(v));
}
pub fn seg_len(s: &Seg, counts: &BTreeMap<Key, Option<i128>>) -> V {
    match s {
        Seg::E(_) => int(1),
        Seg::Run(_, k, st, e) => match counts.get(k) {
            Some(Some(c)) => int(c - *e as i128 - st),
            _ => addc(&Rc::new(N::Cnt(k.clone())), -(*e as i128) - st),
        },
        Seg::Rep(_, n) => n.clone(),
        Seg::Bytes(a, b) => sub(b, a),
        Seg::All(v) => match &**v {
            N::Op(o, a) if &**o == "fixed" => a[1].clone(),
            _ => op("len", vec![v.clone()]),
        },
    }
}
pub fn list_len(segs: &[Seg], counts: &BTreeMap<Key, Option<i128>>) -> V {
    let mut t = int(0);
    for s in segs {
        t = add(&t, &seg_len(s, counts));
    }
    t
}

pub fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn json(v: &V) -> String {
    fn l(xs: &[V]) -> String {
        xs.iter().map(|x| format!(",{}", json(x))).collect()
    }
    match &**v {
        N::Int(i) => format!("{}", i),
        N::Lin(a, c) => format!(
            "[\"lin\",{}{}]",
            c,
            a.iter().map(|(x, k)| format!(",[{},{}]", k, json(x))).collect::<String>()
        ),
        N::Str(s) => format!("[\"str\",{}]", jstr(s)),
        N::Const(s) => format!("[\"const\",{}]", jstr(s)),
        N::Sym(s) => format!("[\"sym\",{}]", jstr(s)),
        N::Res(k, a) => format!("[\"res\",{},{}]", jstr(k), a),
        N::Err(k, a) => format!("[\"err\",{},{}]", jstr(k), a),
        N::Pos(k, a) => format!("[\"pos\",{},{}]", jstr(k), a),
        N::PosErr(k, a) => format!("[\"poserr\",{},{}]", jstr(k), a),
        N::Cnt(k) => format!("[\"cnt\",{}]", jstr(k)),
        N::Gen(k, s, e) => format!("[\"gen\",{},{},{}]", jstr(k), s, e),
        N::Op(o, a) => format!("[\"op\",{}{}]", jstr(o), l(a)),
        N::Fld(x, a, b) => format!("[\"fld\",{},{},{}]", a, b, json(x)),
        N::Disc(x, _) => format!("[\"disc\",{}]", json(x)),
        N::Agg(n, i, a) => format!("[\"agg\",{},{}{}]", jstr(n), i, l(a)),
        N::Ref(p) => format!("[\"place\",{}]", jstr(&format!("{:?}", p))),
        N::List(s) => format!(
            "[\"list\"{}]",
            s.iter()
                .map(|s| match s {
                    Seg::E(x) => format!(",[\"e\",{}]", json(x)),
                    Seg::Run(x, k, s, e) => format!(",[\"run\",{},{},{},{}]", json(x), jstr(k), s, e),
                    Seg::Rep(x, n) => format!(",[\"rep\",{},{}]", json(x), json(n)),
                    Seg::Bytes(x, n) => format!(",[\"bytes\",{},{}]", json(x), json(n)),
                    Seg::All(x) => format!(",[\"all\",{}]", json(x)),
                })
                .collect::<String>()
        ),
        N::Box(x) => format!("[\"box\",{}]", json(x)),
        N::Iter(_, a, b) => format!("[\"iter\",{},{}]", json(a), json(b)),
        N::IntoIter(x) => format!("[\"intoiter\",{}]", json(x)),
        N::FnV(i) => format!("[\"fn\",{}]", i),
        N::Uninit => "[\"uninit\"]".into(),
    }
}
