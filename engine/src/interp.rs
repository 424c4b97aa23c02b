//! Interprocedural, path-sensitive abstract interpretation of monomorphised MIR.
#[path = "call.rs"]
mod call;
use crate::val::*;
use crate::val::Place;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug, Default)]
pub struct Mode {
    /// seeks and position queries may fail
    pub io_fail: bool,
    /// arithmetic overflow / bounds checks become panic edges
    pub checks: bool,
    /// Mutex::lock and the drop of its guard become nodes
    pub locks: bool,
    /// buffers handed to the reader belong to it: reads name the region they fill
    pub bufs: bool,
    /// keep value-changing casts explicit
    pub casts: bool,
    /// record allocation events
    pub alloc: bool,
    pub inline: Vec<String>,
    pub inline_all: bool,
    /// callee paths treated as invisible (return unit / opaque)
    pub invisible: Vec<String>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Frame {
    pub inst: u32,
    pub bb: u32,
    pub st: u32,
    pub locals: Vec<V>,
    pub dest: Place,
    pub ret: Option<u32>,
}
#[derive(Clone, Debug)]
pub struct State {
    pub frames: Vec<Frame>,
    pub roots: Vec<V>,
    pub symst: BTreeMap<V, V>,
    pub pos: V,
    pub counts: BTreeMap<Key, Option<i128>>,
    pub facts: BTreeMap<V, V>,
    pub nbranch: u32,
    pub steps: u32,
}
impl PartialEq for State {
    fn eq(&self, o: &State) -> bool {
        self.frames == o.frames
            && self.roots == o.roots
            && self.symst == o.symst
            && self.pos == o.pos
            && self.counts == o.counts
            && self.facts == o.facts
    }
}
impl Eq for State {}
impl std::hash::Hash for State {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.frames.hash(h);
        self.roots.hash(h);
        self.pos.hash(h);
        self.facts.hash(h);
    }
}

pub struct Node {
    pub kind: String,
    /// json fields
    pub fields: Vec<(String, String)>,
    pub succ: Vec<(String, usize)>,
}

struct BodyInfo {
    loop_heads: BTreeSet<u32>,
    /// per block: locals to kill at entry (dead and never borrowed)
    kill: Vec<Vec<u32>>,
}

pub struct Interp<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub insts: Vec<Instance<'tcx>>,
    inst_ix: HashMap<Instance<'tcx>, u32>,
    bodies: HashMap<u32, Rc<Body<'tcx>>>,
    info: HashMap<u32, Rc<BodyInfo>>,
    pub mode: Mode,
    pub root_inlines: bool,
    pub nodes: Vec<Node>,
    heads: HashMap<Vec<(u32, u32)>, Vec<(State, usize)>>,
    memo: HashMap<(State, V), usize>,
    pub opaque: BTreeSet<String>,
    pub inlined: BTreeSet<String>,
    pub unsafe_ops: BTreeSet<String>,
    pub bails: Vec<String>,
    models: HashMap<String, DefId>,
    const_cache: HashMap<(u32, String), V>,
    work: Vec<(State, usize, usize)>, // state, node, succ index
    total_steps: u64,
    started: std::time::Instant,
}

enum Stop {
    /// node created, with its successor states (outcome label, state)
    Node(usize, Vec<(String, State)>),
    /// links to existing node
    Link(usize),
    Dead,
}

enum Flow {
    Next,
    Stop(Stop),
}

type R<T> = Result<T, String>;

impl<'tcx> Interp<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        let mut models = HashMap::new();
        for &cnum in tcx.crates(()) {
            if tcx.crate_name(cnum).as_str() == "vrt" {
                collect_fns(tcx, cnum.as_def_id(), "", &mut models);
            }
        }
        Interp {
            tcx,
            insts: vec![],
            inst_ix: HashMap::new(),
            bodies: HashMap::new(),
            info: HashMap::new(),
            mode: Mode::default(),
            root_inlines: true,
            nodes: vec![],
            heads: HashMap::new(),
            memo: HashMap::new(),
            opaque: BTreeSet::new(),
            inlined: BTreeSet::new(),
            unsafe_ops: BTreeSet::new(),
            bails: vec![],
            models,
            const_cache: HashMap::new(),
            work: vec![],
            total_steps: 0,
            started: std::time::Instant::now(),
        }
    }
    fn env(&self) -> TypingEnv<'tcx> {
        TypingEnv::fully_monomorphized()
    }
    fn inst_id(&mut self, i: Instance<'tcx>) -> u32 {
        if let Some(x) = self.inst_ix.get(&i) {
            return *x;
        }
        let id = self.insts.len() as u32;
        self.insts.push(i);
        self.inst_ix.insert(i, id);
        id
    }
    pub fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    pub fn tystr(&self, t: Ty<'tcx>) -> String {
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string());
        s.replace("vrt::", "").replace("alloc::vec::Vec", "Vec").replace("std::vec::Vec", "Vec")
            .replace("std::num::", "").replace("core::num::", "")
            .replace("alloc::boxed::Box", "Box").replace("std::boxed::Box", "Box")
            .replace("core::option::Option", "Option").replace("std::option::Option", "Option")
    }
    fn body(&mut self, id: u32) -> R<Rc<Body<'tcx>>> {
        if let Some(b) = self.bodies.get(&id) {
            return Ok(b.clone());
        }
        let inst = self.insts[id as usize];
        let tcx = self.tcx;
        let body = tcx.instance_mir(inst.def);
        let body = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env(),
            ty::EarlyBinder::bind(tcx, body.clone()),
        );
        let b = Rc::new(body);
        self.bodies.insert(id, b.clone());
        let info = analyse_body(tcx, &b);
        self.info.insert(id, Rc::new(info));
        Ok(b)
    }

    // ---------------------------------------------------------------- roots
    pub fn run_root(&mut self, def: DefId, mode: Mode) -> usize {
        self.mode = mode;
        self.nodes.clear();
        self.heads.clear();
        self.memo.clear();
        self.bails.clear();
        self.work.clear();
        self.total_steps = 0;
        self.started = std::time::Instant::now();
        let args = ty::GenericArgs::identity_for_item(self.tcx, def);
        let args = self.tcx.erase_and_anonymize_regions(args);
        let inst = Instance::new_raw(def, args);
        let id = self.inst_id(inst);
        let start = self.new_node("start");
        self.nodes[start].succ.push(("".into(), usize::MAX));
        let b = match self.body(id) {
            Ok(b) => b,
            Err(e) => {
                self.bails.push(e);
                return start;
            }
        };
        let mut st = State {
            frames: vec![],
            roots: vec![],
            symst: BTreeMap::new(),
            pos: sym("pos0"),
            counts: BTreeMap::new(),
            facts: BTreeMap::new(),
            nbranch: 0,
            steps: 0,
        };
        let mut locals = vec![uninit(); b.local_decls.len()];
        for i in 0..b.arg_count {
            let ty = b.local_decls[Local::from_usize(i + 1)].ty;
            let name = format!("arg{}", i);
            locals[i + 1] = self.root_value(&mut st, ty, &name);
        }
        st.frames.push(Frame {
            inst: id,
            bb: 0,
            st: 0,
            locals,
            dest: Place { cell: Cell::Root(u32::MAX), path: vec![] },
            ret: None,
        });
        self.work.push((st, start, 0));
        self.drain();
        start
    }
    fn root_value(&mut self, st: &mut State, ty: Ty<'tcx>, name: &str) -> V {
        match ty.kind() {
            ty::Ref(_, inner, _) => {
                let v = self.root_value(st, *inner, name);
                let i = st.roots.len() as u32;
                st.roots.push(v);
                Rc::new(N::Ref(Place { cell: Cell::Root(i), path: vec![] }))
            }
            ty::Adt(def, args) if def.is_struct() && self.path(def.did()).ends_with("ReadOptions") => {
                let fs: Vec<V> = def
                    .non_enum_variant()
                    .fields
                    .iter()
                    .map(|f| sym(&format!("{}.{}", name, f.name)))
                    .collect();
                let _ = args;
                agg("ReadOptions", 0, fs)
            }
            ty::Adt(def, args) if def.is_struct() && def.did().krate.as_usize() != 0 && {
                let p = self.path(def.did());
                p.ends_with("Cursor")
            } =>
            {
                let tcx = self.tcx;
                let env = self.env();
                let fs: Vec<V> = def
                    .non_enum_variant()
                    .fields
                    .iter()
                    .map(|f| {
                        let _ = (tcx, env, args);
                        sym(&format!("{}.{}", name, f.name))
                    })
                    .collect();
                agg("Cursor", 0, fs)
            }
            ty::Tuple(ts) if ts.is_empty() => unit(),
            ty::Array(_, n) => match n.try_to_target_usize(self.tcx) {
                Some(n) if n <= 64 => agg("array", 0, (0..n).map(|i| op("idx", vec![sym(name), int(i as i128)])).collect()),
                Some(n) => op("fixed", vec![sym(name), int(n as i128)]),
                None => sym(name),
            },
            _ => sym(name),
        }
    }
    fn new_node(&mut self, kind: &str) -> usize {
        self.nodes.push(Node { kind: kind.into(), fields: vec![], succ: vec![] });
        self.nodes.len() - 1
    }
    fn drain(&mut self) {
        while let Some((st, n, k)) = self.work.pop() {
            if self.nodes.len() > 24000 {
                let b = self.new_node("bail");
                self.nodes[b].fields.push(("why".into(), jstr("node limit")));
                self.bails.push("node limit".into());
                self.nodes[n].succ[k].1 = b;
                continue;
            }
            let fr: Vec<String> = st.frames.iter().map(|f| self.path(self.insts[f.inst as usize].def_id())).collect();
            let r = self.run(st);
            match r {
                Ok(Stop::Node(id, outs)) => {
                    self.nodes[n].succ[k].1 = id;
                    for (lab, s) in outs {
                        self.nodes[id].succ.push((lab, usize::MAX));
                        let kk = self.nodes[id].succ.len() - 1;
                        self.work.push((s, id, kk));
                    }
                }
                Ok(Stop::Link(id)) => self.nodes[n].succ[k].1 = id,
                Ok(Stop::Dead) => {
                    let b = self.new_node("dead");
                    self.nodes[n].succ[k].1 = b;
                }
                Err(e) => {
                    let b = self.new_node("bail");
                    let e = format!("{} [from {}]", e, fr.last().cloned().unwrap_or_default());
                    self.nodes[b].fields.push(("why".into(), jstr(&e)));
                    self.bails.push(e);
                    self.nodes[n].succ[k].1 = b;
                }
            }
        }
    }

    // ------------------------------------------------------------ main loop
    fn run(&mut self, mut st: State) -> R<Stop> {
        loop {
            st.steps += 1;
            if st.steps > 60_000 {
                return Err("step limit".into());
            }
            self.total_steps += 1;
            if self.total_steps % 16 == 0 && self.started.elapsed().as_secs() > 60 {
                return Err("time limit".into());
            }
            let fi = st.frames.len() - 1;
            let (inst, bb, mut sti) = {
                let f = &st.frames[fi];
                (f.inst, f.bb, f.st)
            };
            let body = self.body(inst)?;
            if sti == u32::MAX {
                // resuming just after a loop head
                sti = 0;
                st.frames[fi].st = 0;
            } else if sti == 0 {
                let info = self.info[&inst].clone();
                for l in &info.kill[bb as usize] {
                    st.frames[fi].locals[*l as usize] = uninit();
                }
                if info.loop_heads.contains(&bb) {
                    if let Some(s) = self.loop_head(&mut st)? {
                        return Ok(s);
                    }
                }
            }
            let data = &body.basic_blocks[BasicBlock::from_u32(bb)];
            if (sti as usize) < data.statements.len() {
                let s = &data.statements[sti as usize];
                self.statement(&mut st, &body, s)
                    .map_err(|e| format!("{} at {:?}", e, s))?;
                st.frames[fi].st += 1;
                continue;
            }
            let term = data.terminator().clone();
            match self.terminator(&mut st, &body, &term)? {
                Flow::Next => {}
                Flow::Stop(s) => return Ok(s),
            }
        }
    }
    fn goto(&self, st: &mut State, bb: BasicBlock) {
        let f = st.frames.last_mut().unwrap();
        f.bb = bb.as_u32();
        f.st = 0;
    }

    // ----------------------------------------------------------- loop heads
    fn loop_head(&mut self, st: &mut State) -> R<Option<Stop>> {
        gc_facts(st);
        let key: Vec<(u32, u32)> = st.frames.iter().map(|f| (f.inst, f.bb)).collect();
        let mut widened: Option<State> = None;
        let mut link = None;
        if let Some(list) = self.heads.get(&key) {
            for (s, id) in list.iter().rev() {
                if subsumes(s, st) {
                    link = Some(*id);
                    break;
                }
            }
            if link.is_none() {
                for (s, _) in list.iter().rev() {
                    if st.nbranch > s.nbranch || list.len() > 6 {
                        if let Some(g) = generalise(s, st) {
                            widened = Some(g);
                            break;
                        }
                    }
                }
            }
            if list.len() > 160 {
                return Err("loop does not converge".into());
            }
        }
        if let Some(id) = link {
            return Ok(Some(Stop::Link(id)));
        }
        if let Some(g) = widened {
            if let Some(list) = self.heads.get(&key) {
                for (s, id) in list.iter().rev() {
                    if subsumes(s, &g) {
                        return Ok(Some(Stop::Link(*id)));
                    }
                }
            }
            *st = g;
        }
        let n = self.new_node("head");
        self.heads.entry(key).or_default().push((st.clone(), n));
        // continue from the head node: emit it as a node with a single successor,
        // resuming just after the head test
        let mut s2 = st.clone();
        s2.steps = 0;
        // mark by executing the first statement/terminator now: we return the node and
        // let the worklist continue with a flag in `st` field (u32::MAX means skip head)
        s2.frames.last_mut().unwrap().st = u32::MAX;
        Ok(Some(Stop::Node(n, vec![("".into(), s2)])))
    }

    // ----------------------------------------------------------- statements
    fn statement(&mut self, st: &mut State, body: &Body<'tcx>, s: &Statement<'tcx>) -> R<()> {
        match &s.kind {
            StatementKind::Assign(b) => {
                let (pl, rv) = &**b;
                let v = self.rvalue(st, body, rv, pl.ty(&body.local_decls, self.tcx).ty)?;
                let p = self.place(st, body, *pl)?;
                self.store(st, &p, v)
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let p = self.place(st, body, **place)?;
                let t = place.ty(&body.local_decls, self.tcx).ty;
                let v = self.load(st, &p)?;
                let fields = match &*v {
                    N::Agg(_, i, f) if *i == variant_index.as_u32() => f.clone(),
                    _ => vec![],
                };
                let v = agg(&self.adt_name(t), variant_index.as_u32(), fields);
                self.store(st, &p, v)
            }
            StatementKind::StorageLive(l) | StatementKind::StorageDead(l) => {
                st.frames.last_mut().unwrap().locals[l.as_usize()] = uninit();
                Ok(())
            }
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(_) => Ok(()),
                NonDivergingIntrinsic::CopyNonOverlapping(_) => Err("copy_nonoverlapping".into()),
            },
            _ => Ok(()),
        }
    }
    fn adt_name(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(d, _) => {
                let p = self.path(d.did());
                match &*p {
                    "std::option::Option" | "core::option::Option" => "Option".into(),
                    "std::result::Result" | "core::result::Result" => "Result".into(),
                    _ => p.rsplit("::").next().unwrap().to_string(),
                }
            }
            ty::Tuple(ts) if ts.is_empty() => "()".into(),
            ty::Tuple(_) => "tuple".into(),
            ty::Array(..) => "array".into(),
            ty::Closure(..) => "closure".into(),
            _ => "agg".into(),
        }
    }
    fn n_fields(&self, t: Ty<'tcx>, variant: Option<u32>) -> u32 {
        match t.kind() {
            ty::Adt(d, _) => {
                if d.is_enum() {
                    let v = variant.unwrap_or(0);
                    d.variant(rustc_abi::VariantIdx::from_u32(v)).fields.len() as u32
                } else {
                    d.non_enum_variant().fields.len() as u32
                }
            }
            ty::Tuple(ts) => ts.len() as u32,
            ty::Closure(_, a) => a.as_closure().upvar_tys().len() as u32,
            _ => 0,
        }
    }

    // ---------------------------------------------------------------- places
    fn place(&mut self, st: &State, body: &Body<'tcx>, p: rustc_middle::mir::Place<'tcx>) -> R<Place> {
        let depth = st.frames.len() as u32 - 1;
        let mut cur = Place { cell: Cell::Local(depth, p.local.as_u32()), path: vec![] };
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => {
                    if pt.ty.is_box() {
                        cur.path.push(Pe::BoxIn);
                    } else {
                        let v = self.load(st, &cur)?;
                        cur = self.deref(&v)?;
                    }
                }
                ProjectionElem::Field(f, _) => {
                    if pt.ty.is_box() || matches!(cur.path.last(), Some(Pe::BoxRaw)) {
                        if !matches!(cur.path.last(), Some(Pe::BoxRaw)) {
                            cur.path.push(Pe::BoxRaw);
                        }
                    } else {
                        let n = self.n_fields(pt.ty, pt.variant_index.map(|v| v.as_u32()));
                        let name = self.adt_name(pt.ty);
                        cur.path.push(Pe::F(f.as_u32(), n, name.as_str().into()));
                    }
                }
                ProjectionElem::Downcast(_, v) => cur.path.push(Pe::D(v.as_u32())),
                ProjectionElem::Index(l) => {
                    let v = st.frames.last().unwrap().locals[l.as_usize()].clone();
                    cur.path.push(Pe::Idx(v));
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    if from_end {
                        let v = self.load(st, &cur)?;
                        let l = self.len_of(st, &v);
                        cur.path.push(Pe::Idx(addc(&l, -(offset as i128))));
                    } else {
                        cur.path.push(Pe::Idx(int(offset as i128)));
                    }
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let hi = if from_end {
                        let v = self.load(st, &cur)?;
                        let l = self.len_of(st, &v);
                        addc(&l, -(to as i128))
                    } else {
                        int(to as i128)
                    };
                    cur.path.push(Pe::Sub(int(from as i128), hi));
                }
                ProjectionElem::OpaqueCast(_) | ProjectionElem::UnwrapUnsafeBinder(_) => {}
                ProjectionElem::PhantomDeref => return Err("phantom deref".into()),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        Ok(normalise_place(cur))
    }
    fn deref(&self, v: &V) -> R<Place> {
        match &**v {
            N::Ref(p) => Ok(p.clone()),
            N::Uninit => Err("deref of uninitialised value".into()),
            N::Op(o, a) if &**o == "cref" => Ok(Place { cell: Cell::Const(a[0].clone()), path: vec![] }),
            N::Lin(..) => Err("deref of a computed address".into()),
            N::Op(o, _) if &**o == "offset" => Err("deref of a computed address".into()),
            _ => Ok(Place { cell: Cell::Sym(v.clone()), path: vec![] }),
        }
    }
    pub fn mkref(&self, p: Place) -> V {
        if p.path.is_empty() {
            match &p.cell {
                Cell::Sym(v) => return v.clone(),
                Cell::Const(v) => return op("cref", vec![v.clone()]),
                _ => {}
            }
        }
        Rc::new(N::Ref(p))
    }
    pub fn load(&self, st: &State, p: &Place) -> R<V> {
        let mut v = match &p.cell {
            Cell::Local(d, l) => st
                .frames
                .get(*d as usize)
                .and_then(|f| f.locals.get(*l as usize))
                .cloned()
                .ok_or("dangling local")?,
            Cell::Root(i) => st.roots.get(*i as usize).cloned().ok_or("root")?,
            Cell::Sym(s) => match st.symst.get(s) {
                Some(v) => v.clone(),
                None => op("*", vec![s.clone()]),
            },
            Cell::Const(v) => v.clone(),
        };
        let mut variant = 0;
        for (i, e) in p.path.iter().enumerate() {
            match e {
                Pe::D(d) => {
                    variant = *d;
                    continue;
                }
                Pe::BoxRaw => {
                    if let N::Ref(q) = &*v {
                        let mut q = q.clone();
                        q.path.push(Pe::BoxIn);
                        return Ok(Rc::new(N::Ref(q)));
                    }
                    let q = Place {
                        cell: p.cell.clone(),
                        path: p.path[..i].iter().cloned().chain(std::iter::once(Pe::BoxIn)).collect(),
                    };
                    return Ok(Rc::new(N::Ref(q)));
                }
                _ => v = self.step(st, &v, e, variant)?,
            }
            variant = 0;
        }
        Ok(v)
    }
    fn step(&self, st: &State, v: &V, e: &Pe, variant: u32) -> R<V> {
        Ok(match e {
            Pe::F(i, n, _) => match &**v {
                N::Agg(_, _, fs) => match fs.get(*i as usize) {
                    Some(x) => x.clone(),
                    None => uninit(),
                },
                N::Uninit => uninit(),
                // transparent one-field wrappers over scalars
                _ if *n == 1 && matches!(&**v, N::Int(_)) => v.clone(),
                _ => Rc::new(N::Fld(v.clone(), variant, *i)),
            },
            Pe::Idx(ix) => match (&**v, as_int(ix)) {
                (N::Agg(_, _, fs), Some(i)) => fs.get(i as usize).cloned().unwrap_or_else(uninit),
                (N::List(segs), _) => {
                    let mut off = int(0);
                    for s in segs {
                        let l = seg_len(s, &st.counts);
                        let d = sub(ix, &off);
                        if let (Some(d), Some(l)) = (as_int(&d), as_int(&l)) {
                            if d >= 0 && d < l {
                                match s {
                                    Seg::E(x) => return Ok(x.clone()),
                                    Seg::Rep(x, _) => return Ok(x.clone()),
                                    Seg::Bytes(a, _) => return Ok(op("byte_at", vec![addc(a, d)])),
                                    Seg::Run(p, k, s0, _) => {
                                        if let Some(Some(c)) = st.counts.get(k) {
                                            let agev = (*c - 1 - (s0 + d)) as u32;
                                            let k2 = k.clone();
                                            return Ok(map(p, &mut |n| match n {
                                                N::Res(kk, 0) if *kk == k2 => Some(Rc::new(N::Res(k2.clone(), agev))),
                                                _ => None,
                                            }));
                                        }
                                    }
                                    Seg::All(_) => {}
                                }
                            }
                        }
                        off = add(&off, &l);
                    }
                    op("idx", vec![v.clone(), ix.clone()])
                }
                (N::Op(o, a), _) if &**o == "stream" => op("byte_at", vec![add(&a[0], ix)]),
                _ => op("idx", vec![v.clone(), ix.clone()]),
            },
            Pe::BoxIn => match &**v {
                N::Box(x) => x.clone(),
                N::Uninit => uninit(),
                _ => op("unbox", vec![v.clone()]),
            },
            Pe::Sub(a, b) => match (&**v, as_int(a), as_int(b)) {
                (N::Agg(n, k, fs), Some(a), Some(b)) if a >= 0 && b <= fs.len() as i128 && a <= b => {
                    Rc::new(N::Agg(n.clone(), *k, fs[a as usize..b as usize].to_vec()))
                }
                (N::Str(s), Some(a), Some(b)) if a >= 0 && b as usize <= s.len() && a <= b => {
                    Rc::new(N::Str(s[a as usize..b as usize].into()))
                }
                _ => op("slice", vec![v.clone(), a.clone(), b.clone()]),
            },
            Pe::One => agg("array", 0, vec![v.clone()]),
            Pe::D(_) | Pe::BoxRaw => unreachable!(),
        })
    }
    /// is `p` within an element of a collection whose contents are not tracked one by one?
    pub fn in_opaque_element(&self, st: &State, p: &Place) -> bool {
        for (k, e) in p.path.iter().enumerate() {
            if let Pe::Idx(ix) = e {
                let Ok(c) = self.load(st, &Place { cell: p.cell.clone(), path: p.path[..k].to_vec() }) else { return false };
                match (&*c, as_int(ix)) {
                    (N::Agg(..), Some(_)) => {}
                    (N::List(segs), _) => {
                        let mut off = int(0);
                        let mut known = false;
                        for s in segs {
                            if let (Some(0), Seg::E(_)) = (as_int(&sub(ix, &off)), s) {
                                known = true;
                            }
                            off = add(&off, &seg_len(s, &st.counts));
                        }
                        if !known {
                            return true;
                        }
                    }
                    _ => return true,
                }
            }
        }
        false
    }
    pub fn store(&self, st: &mut State, p: &Place, v: V) -> R<()> {
        let old = match &p.cell {
            Cell::Root(u32::MAX) => return Ok(()),
            Cell::Local(d, l) => st.frames.get(*d as usize).ok_or("dangling store")?.locals[*l as usize].clone(),
            Cell::Root(i) => st.roots[*i as usize].clone(),
            Cell::Sym(s) => st.symst.get(s).cloned().unwrap_or_else(|| op("*", vec![s.clone()])),
            Cell::Const(_) => return Err("write to constant".into()),
        };
        let new = self.put(st, &old, &p.path, 0, v)?;
        match &p.cell {
            Cell::Local(d, l) => st.frames[*d as usize].locals[*l as usize] = new,
            Cell::Root(i) => st.roots[*i as usize] = new,
            Cell::Sym(s) => {
                st.symst.insert(s.clone(), new);
            }
            Cell::Const(_) => {}
        }
        Ok(())
    }
    fn put(&self, st: &State, old: &V, path: &[Pe], variant: u32, v: V) -> R<V> {
        let Some(e) = path.first() else { return Ok(v) };
        let rest = &path[1..];
        Ok(match e {
            Pe::D(d) => return self.put(st, old, rest, *d, v),
            Pe::F(i, n, name) => {
                let (nm, var, mut fs) = match &**old {
                    N::Agg(nm, var, fs) if *var == variant || rest.is_empty() || true => (nm.clone(), *var, fs.clone()),
                    N::Uninit => (name.clone(), variant, vec![uninit(); *n as usize]),
                    _ => (
                        name.clone(),
                        variant,
                        (0..*n).map(|k| Rc::new(N::Fld(old.clone(), variant, k)) as V).collect(),
                    ),
                };
                while fs.len() <= *i as usize {
                    fs.push(uninit());
                }
                fs[*i as usize] = self.put(st, &fs[*i as usize].clone(), rest, 0, v)?;
                Rc::new(N::Agg(nm, var, fs))
            }
            Pe::Idx(ix) => match (&**old, as_int(ix)) {
                (N::Agg(nm, var, fs), Some(i)) if (i as usize) < fs.len() && i >= 0 => {
                    let mut fs = fs.clone();
                    fs[i as usize] = self.put(st, &fs[i as usize].clone(), rest, 0, v)?;
                    Rc::new(N::Agg(nm.clone(), *var, fs))
                }
                _ => {
                    if let N::List(segs) = &**old {
                        // an element which was pushed one by one
                        let mut off = int(0);
                        for (k, s) in segs.iter().enumerate() {
                            let l = seg_len(s, &st.counts);
                            if let (Some(0), Seg::E(x)) = (as_int(&sub(ix, &off)), s) {
                                let mut segs = segs.clone();
                                segs[k] = Seg::E(self.put(st, x, rest, 0, v)?);
                                return Ok(Rc::new(N::List(segs)));
                            }
                            off = add(&off, &l);
                        }
                    }
                    let o = self.step(st, old, e, 0)?;
                    let nv = self.put(st, &o, rest, 0, v)?;
                    let mut chain = 0;
                    let mut x = old;
                    while let N::Op(o, a) = &**x {
                        if &**o != "upd" {
                            break;
                        }
                        chain += 1;
                        x = &a[0];
                    }
                    if chain > 40 {
                        return Err("unbounded updates of one collection".into());
                    }
                    op("upd", vec![old.clone(), ix.clone(), nv])
                }
            },
            Pe::BoxIn => {
                let o = self.step(st, old, e, 0)?;
                Rc::new(N::Box(self.put(st, &o, rest, 0, v)?))
            }
            Pe::Sub(a, b) => {
                if let (N::Agg(nm, var, fs), Some(a), Some(b)) = (&**old, as_int(a), as_int(b)) {
                    if a >= 0 && a <= b && (b as usize) <= fs.len() {
                        let part: V = Rc::new(N::Agg(nm.clone(), *var, fs[a as usize..b as usize].to_vec()));
                        let nv = self.put(st, &part, rest, 0, v)?;
                        if let N::Agg(_, _, nf) = &*nv {
                            if nf.len() == (b - a) as usize {
                                let mut fs = fs.clone();
                                for (k, x) in nf.iter().enumerate() {
                                    fs[a as usize + k] = x.clone();
                                }
                                return Ok(Rc::new(N::Agg(nm.clone(), *var, fs)));
                            }
                        }
                        let mut fs = fs.clone();
                        for k in a..b {
                            fs[k as usize] = self.step(st, &nv, &Pe::Idx(int(k - a)), 0)?;
                        }
                        return Ok(Rc::new(N::Agg(nm.clone(), *var, fs)));
                    }
                }
                // stream data appended to a partially filled list
                if let N::List(segs) = &**old {
                    if rest.is_empty() {
                        if let Some(r) = self.list_splice(st, segs, a, b, &v) {
                            return Ok(r);
                        }
                    }
                }
                let o = self.step(st, old, e, 0)?;
                let nv = self.put(st, &o, rest, 0, v)?;
                op("updslice", vec![old.clone(), a.clone(), b.clone(), nv])
            }
            Pe::One => {
                let o = self.step(st, old, e, 0)?;
                let nv = self.put(st, &o, rest, 0, v)?;
                self.step(st, &nv, &Pe::Idx(int(0)), 0)?
            }
            Pe::BoxRaw => return Err("store through raw box".into()),
        })
    }
    /// replace elements a..b of a list by stream bytes, where a..b covers whole segments
    fn list_splice(&self, st: &State, segs: &[Seg], a: &V, b: &V, v: &V) -> Option<V> {
        let news = match &**v {
            N::Op(o, x) if &**o == "stream" => Seg::Bytes(x[0].clone(), x[1].clone()),
            N::List(x) if x.len() == 1 => x[0].clone(),
            _ => return None,
        };
        let mut off = int(0);
        let mut out: Vec<Seg> = vec![];
        let mut done = false;
        for s in segs {
            let l = seg_len(s, &st.counts);
            let end = add(&off, &l);
            if off == *a && end == *b && !done {
                match (out.last_mut(), &news) {
                    (Some(Seg::Bytes(_, e)), Seg::Bytes(f, t)) if *e == *f => *e = t.clone(),
                    _ => out.push(news.clone()),
                }
                done = true;
            } else {
                out.push(s.clone());
            }
            off = end;
        }
        if done {
            Some(Rc::new(N::List(out)))
        } else {
            None
        }
    }
    pub fn len_of(&self, st: &State, v: &V) -> V {
        match &**v {
            N::Agg(n, _, fs) if &**n == "array" => int(fs.len() as i128),
            N::List(segs) => list_len(segs, &st.counts),
            N::Str(s) => int(s.len() as i128),
            N::Op(o, a) if &**o == "slice" => sub(&a[2], &a[1]),
            N::Op(o, a) if &**o == "stream" => sub(&a[1], &a[0]),
            N::Op(o, a) if &**o == "repeat" => a[1].clone(),
            N::Op(o, a) if &**o == "upd" || &**o == "updslice" => self.len_of(st, &a[0]),
            N::Op(o, a) if &**o == "arr" || &**o == "fixed" => a[1].clone(),
            N::Box(b) => self.len_of(st, b),
            _ => op("len", vec![v.clone()]),
        }
    }
    /// replace references by the values they point to
    pub fn freeze(&self, st: &State, v: &V) -> V {
        let me = self;
        fn go<'t>(me: &Interp<'t>, st: &State, v: &V, d: u32) -> V {
            if d > 12 {
                return konst("deep");
            }
            map(v, &mut |n| match n {
                N::Ref(p) => match me.load(st, p) {
                    Ok(x) => Some(op("&", vec![go(me, st, &x, d + 1)])),
                    Err(_) => Some(konst("dangling")),
                },
                N::Op(o, a) if &**o == "cref" => Some(op("&", vec![go(me, st, &a[0], d + 1)])),
                N::FnV(i) => Some(konst(&format!("fn {}", me.inst_name(*i)))),
                N::Iter(p, a, b) => match me.load(st, p) {
                    Ok(x) => Some(op("iter", vec![go(me, st, &x, d + 1), a.clone(), b.clone()])),
                    Err(_) => None,
                },
                _ => None,
            })
        }
        go(me, st, v, 0)
    }
    fn inst_name(&self, i: u32) -> String {
        let inst = self.insts[i as usize];
        rustc_middle::ty::print::with_no_trimmed_paths!(inst.to_string())
    }

    /// a value never written: the only value of a type without size, if it is plain enough
    pub fn zst(&self, t: Ty<'tcx>) -> V {
        match t.kind() {
            ty::Tuple(ts) if ts.is_empty() => unit(),
            ty::Array(_, n) if n.try_to_target_usize(self.tcx) == Some(0) => agg("array", 0, vec![]),
            _ => uninit(),
        }
    }

    // -------------------------------------------------------------- operands
    pub fn operand(&mut self, st: &mut State, body: &Body<'tcx>, o: &Operand<'tcx>) -> R<V> {
        match o {
            Operand::Copy(p) => {
                let ty = p.ty(body, self.tcx).ty;
                let p = self.place(st, body, *p)?;
                if ty.is_box() {
                    // only the compiler's own dereference of a box copies one: the copy
                    // stands for the same content
                    return Ok(self.mkref(p));
                }
                let v = self.load(st, &p)?;
                Ok(if matches!(&*v, N::Uninit) { self.zst(ty) } else { v })
            }
            Operand::Move(p) => {
                let whole = p.projection.is_empty();
                let l = p.local;
                let ty = p.ty(body, self.tcx).ty;
                let pl = self.place(st, body, *p)?;
                let mut v = self.load(st, &pl)?;
                if matches!(&*v, N::Uninit) {
                    v = self.zst(ty);
                }
                if whole {
                    st.frames.last_mut().unwrap().locals[l.as_usize()] = uninit();
                }
                Ok(v)
            }
            Operand::Constant(c) => self.constant(st, c),
            Operand::RuntimeChecks(_) => Ok(boolean(false)),
        }
    }
    fn constant(&mut self, st: &State, c: &ConstOperand<'tcx>) -> R<V> {
        let t = c.const_.ty();
        if let ty::FnDef(..) = t.kind() {
            return Ok(unit());
        }
        let _ = st;
        let k = (0u32, format!("{:?}:{:?}", c.const_, t));
        if let Some(v) = self.const_cache.get(&k) {
            return Ok(v.clone());
        }
        let cv = c
            .const_
            .eval(self.tcx, self.env(), c.span)
            .map_err(|_| "const eval failed".to_string())?;
        let v = self.constval(cv, t, 0);
        self.const_cache.insert(k, v.clone());
        Ok(v)
    }
    fn constval(&mut self, cv: ConstValue, t: Ty<'tcx>, depth: u32) -> V {
        let tcx = self.tcx;
        if depth > 10 {
            return konst("deep-const");
        }
        let mut cv = cv;
        if let (ConstValue::Indirect { alloc_id, offset }, ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_)) = (cv, t.kind()) {
            // a scalar in memory (a reference to a constant)
            if let (GlobalAlloc::Memory(a), Some(n)) = (tcx.global_alloc(alloc_id), self.scalar_bytes(t)) {
                let range = rustc_middle::mir::interpret::AllocRange { start: offset, size: rustc_abi::Size::from_bytes(n) };
                if let Ok(s) = a.inner().read_scalar(&tcx, range, false) {
                    cv = ConstValue::Scalar(s);
                }
            }
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(s) = cv.try_to_scalar_int() {
                    let size = s.size();
                    return int(if t.is_signed() { s.to_int(size) } else { s.to_uint(size) as i128 });
                }
            }
            ty::Float(_) => {
                if let Some(s) = cv.try_to_scalar_int() {
                    return op("float", vec![int(s.to_uint(s.size()) as i128), konst(&t.to_string())]);
                }
            }
            ty::FnDef(..) => return unit(),
            ty::FnPtr(..) => {
                if let ConstValue::Scalar(Scalar::Ptr(p, _)) = cv {
                    if let GlobalAlloc::Function { instance } = tcx.global_alloc(p.provenance.alloc_id()) {
                        let id = self.inst_id(instance);
                        return Rc::new(N::FnV(id));
                    }
                }
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                match inner.kind() {
                    ty::Str => {
                        if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                            return op("cref", vec![Rc::new(N::Str(String::from_utf8_lossy(b).as_ref().into()))]);
                        }
                    }
                    ty::Slice(e) => {
                        if let ConstValue::Slice { alloc_id, meta } = cv {
                            let at = Ty::new_array(tcx, *e, meta);
                            let v = self.constval(
                                ConstValue::Indirect { alloc_id, offset: rustc_abi::Size::ZERO },
                                at,
                                depth + 1,
                            );
                            return op("cref", vec![v]);
                        }
                        if let ConstValue::Indirect { alloc_id, offset } = cv {
                            return self.indirect_slice(alloc_id, offset, *e, depth);
                        }
                    }
                    ty::Dynamic(..) => {}
                    _ => {
                        if let ConstValue::Scalar(Scalar::Ptr(p, _)) = cv {
                            let (prov, off) = p.prov_and_relative_offset();
                            if let GlobalAlloc::Memory(_) = tcx.global_alloc(prov.alloc_id()) {
                                let v = self.constval(
                                    ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off },
                                    *inner,
                                    depth + 1,
                                );
                                return op("cref", vec![v]);
                            }
                        }
                    }
                }
            }
            ty::Adt(d, _) if d.is_union() => {}
            ty::Adt(..) if self.adt_name(t) == "TypeId" => {
                let p = match cv {
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => Some(p),
                    ConstValue::Indirect { alloc_id, offset } => match tcx.global_alloc(alloc_id) {
                        GlobalAlloc::Memory(a) => {
                            let range = rustc_middle::mir::interpret::AllocRange { start: offset, size: tcx.data_layout.pointer_size() };
                            match a.inner().read_scalar(&tcx, range, true) {
                                Ok(Scalar::Ptr(p, _)) => Some(p),
                                _ => None,
                            }
                        }
                        _ => None,
                    },
                    _ => None,
                };
                if let Some(p) = p {
                    if let GlobalAlloc::TypeId { ty } = tcx.global_alloc(p.provenance.alloc_id()) {
                        return konst(&format!("typeid {}", self.tystr(ty)));
                    }
                }
            }
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                if let ConstValue::ZeroSized = cv {
                    let n = self.n_fields(t, None);
                    let is_enum = matches!(t.kind(), ty::Adt(d, _) if d.is_enum());
                    if !is_enum {
                        let name = self.adt_name(t);
                        return agg(&name, 0, vec![unit(); n as usize]);
                    }
                }
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(cv, t) {
                    let fs: Vec<V> = d.fields.iter().map(|(c, t)| self.constval(*c, *t, depth + 1)).collect();
                    let var = d.variant.map(|v| v.as_u32()).unwrap_or(0);
                    let name = self.adt_name(t);
                    return agg(&name, var, fs);
                }
            }
            ty::Closure(..) => {
                if let ConstValue::ZeroSized = cv {
                    return agg("closure", 0, vec![]);
                }
            }
            _ => {}
        }
        konst(&format!("{}={:?}", self.tystr(t), cv))
    }
    fn scalar_bytes(&self, t: Ty<'tcx>) -> Option<u64> {
        Some(match t.kind() {
            ty::Bool => 1,
            ty::Char => 4,
            ty::Int(i) => i.bit_width().unwrap_or(64) / 8,
            ty::Uint(i) => i.bit_width().unwrap_or(64) / 8,
            ty::Float(f) => f.bit_width() / 8,
            _ => return None,
        })
    }
    fn indirect_slice(&mut self, alloc_id: rustc_middle::mir::interpret::AllocId, offset: rustc_abi::Size, e: Ty<'tcx>, depth: u32) -> V {
        let tcx = self.tcx;
        if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
            let a = a.inner();
            let ps = tcx.data_layout.pointer_size();
            let p = a.read_scalar(&tcx, rustc_middle::mir::interpret::AllocRange { start: offset, size: ps }, true);
            let l = a.read_scalar(&tcx, rustc_middle::mir::interpret::AllocRange { start: offset + ps, size: ps }, false);
            if let (Ok(Scalar::Ptr(p, _)), Ok(l)) = (p, l) {
                if let Ok(n) = l.to_target_usize(&tcx).report_err() {
                    let (prov, off) = p.prov_and_relative_offset();
                    let at = Ty::new_array(tcx, e, n);
                    let v = self.constval(ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off }, at, depth + 1);
                    return op("cref", vec![v]);
                }
            }
        }
        konst("slice-const")
    }

    // --------------------------------------------------------------- rvalues
    fn rvalue(&mut self, st: &mut State, body: &Body<'tcx>, rv: &Rvalue<'tcx>, dest_ty: Ty<'tcx>) -> R<V> {
        let tcx = self.tcx;
        Ok(match rv {
            Rvalue::Use(o, _) => self.operand(st, body, o)?,
            Rvalue::Repeat(o, n) => {
                let v = self.operand(st, body, o)?;
                match n.try_to_target_usize(tcx) {
                    Some(n) if n <= 64 => agg("array", 0, vec![v; n as usize]),
                    Some(n) => op("repeat", vec![v, int(n as i128)]),
                    None => return Err("repeat count".into()),
                }
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) | Rvalue::Reborrow(_, _, p) => {
                let p = self.place(st, body, *p)?;
                self.mkref(p)
            }
            Rvalue::ThreadLocalRef(_) => konst("thread-local"),
            Rvalue::CopyForDeref(p) => {
                let p = self.place(st, body, *p)?;
                self.load(st, &p)?
            }
            Rvalue::WrapUnsafeBinder(o, _) => self.operand(st, body, o)?,
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let p = self.place(st, body, *p)?;
                let v = self.load(st, &p)?;
                self.discriminant(st, &v, t)
            }
            Rvalue::Aggregate(k, ops) => {
                let mut fs = vec![];
                for o in ops.iter() {
                    fs.push(self.operand(st, body, o)?);
                }
                match &**k {
                    AggregateKind::Array(_) => agg("array", 0, fs),
                    AggregateKind::Tuple => {
                        if fs.is_empty() {
                            unit()
                        } else {
                            agg("tuple", 0, fs)
                        }
                    }
                    AggregateKind::Adt(d, v, _, _, active) => {
                        if active.is_some() {
                            return Ok(fs.pop().unwrap());
                        }
                        let def = tcx.adt_def(*d);
                        let name = self.adt_name(dest_ty);
                        if def.is_enum() {
                            agg(&name, v.as_u32(), fs)
                        } else {
                            agg(&name, 0, fs)
                        }
                    }
                    AggregateKind::Closure(..) => agg("closure", 0, fs),
                    AggregateKind::RawPtr(..) => match (&*fs[0], as_int(&fs[1])) {
                        (N::Ref(p), _) => {
                            let l = self.load(st, p).map(|v| self.len_of(st, &v));
                            match l {
                                Ok(l) if l == fs[1] => fs[0].clone(),
                                _ => {
                                    let mut p = p.clone();
                                    p.path.push(Pe::Sub(int(0), fs[1].clone()));
                                    Rc::new(N::Ref(normalise_place(p)))
                                }
                            }
                        }
                        _ if fs[1] == unit() => fs[0].clone(),
                        _ => op("rawparts", fs),
                    },
                    _ => return Err("aggregate kind".into()),
                }
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, tcx);
                let v = self.operand(st, body, o)?;
                self.cast(st, k, v, from, *t)?
            }
            Rvalue::BinaryOp(b, ops) => {
                let t = ops.0.ty(&body.local_decls, tcx);
                let x = self.operand(st, body, &ops.0)?;
                let y = self.operand(st, body, &ops.1)?;
                let std = matches!(tcx.crate_name(body.source.def_id().krate).as_str(), "core" | "alloc" | "std");
                match if std { self.exact_overflow(*b, &x, &y, t) } else { None } {
                    Some(v) => v,
                    None => self.binop(st, *b, &x, &y, t)?,
                }
            }
            Rvalue::UnaryOp(u, o) => {
                let t = o.ty(&body.local_decls, tcx);
                let v = self.operand(st, body, o)?;
                match u {
                    UnOp::Not => {
                        if t.is_bool() {
                            not(&v)
                        } else if let Some(i) = as_int(&v) {
                            wrap(!i, t, tcx)
                        } else {
                            op(&format!("bitnot.{}", t), vec![v])
                        }
                    }
                    UnOp::Neg => {
                        if t.is_integral() {
                            lin_comb(&v, -1, &int(0), 1)
                        } else {
                            op("neg", vec![v])
                        }
                    }
                    UnOp::PtrMetadata => match &*v {
                        N::Ref(p) => {
                            let x = self.load(st, p)?;
                            self.len_of(st, &x)
                        }
                        N::Op(o, a) if &**o == "cref" => self.len_of(st, &a[0]),
                        N::Op(o, a) if &**o == "rawparts" => a[1].clone(),
                        _ => {
                            let x = op("*", vec![v.clone()]);
                            let x = st.symst.get(&v).cloned().unwrap_or(x);
                            self.len_of(st, &x)
                        }
                    },
                }
            }
        })
    }
    fn discriminant(&self, st: &State, v: &V, t: Ty<'tcx>) -> V {
        let tcx = self.tcx;
        match t.kind() {
            ty::Adt(d, _) if d.is_enum() => {
                let ds: Vec<i128> = d
                    .discriminants(tcx)
                    .map(|(_, x)| {
                        let s = x.ty.is_signed();
                        if s {
                            // sign extend
                            let bits = tcx.layout_of(self.env().as_query_input(x.ty)).map(|l| l.size.bits()).unwrap_or(64);
                            let sh = 128 - bits as u32;
                            ((x.val << sh) as i128) >> sh
                        } else {
                            x.val as i128
                        }
                    })
                    .collect();
                if let N::Agg(_, i, _) = &**v {
                    return int(ds.get(*i as usize).copied().unwrap_or(0));
                }
                let dn: V = Rc::new(N::Disc(v.clone(), ds.into()));
                if let Some(x) = st.facts.get(&dn) {
                    if matches!(&**x, N::Int(_)) {
                        return x.clone();
                    }
                }
                dn
            }
            _ => int(0),
        }
    }
    fn cast(&mut self, st: &State, k: &CastKind, v: V, from: Ty<'tcx>, to: Ty<'tcx>) -> R<V> {
        let tcx = self.tcx;
        use rustc_middle::ty::adjustment::PointerCoercion as PC;
        Ok(match k {
            CastKind::IntToInt => self.int_cast(&v, from, to),
            CastKind::PointerCoercion(c, _) => match c {
                PC::ReifyFnPointer(_) => {
                    if let ty::FnDef(d, a) = *from.kind() {
                        let i = Instance::resolve_for_fn_ptr(tcx, self.env(), d, a.no_bound_vars().unwrap_or(a.skip_binder())).ok_or("fn ptr")?;
                        let id = self.inst_id(i);
                        Rc::new(N::FnV(id))
                    } else {
                        return Err("reify".into());
                    }
                }
                PC::ClosureFnPointer(_) => {
                    if let ty::Closure(d, a) = *from.kind() {
                        let i = Instance::resolve_closure(tcx, d, a, ty::ClosureKind::FnOnce);
                        let id = self.inst_id(i);
                        Rc::new(N::FnV(id))
                    } else {
                        return Err("closure ptr".into());
                    }
                }
                PC::Unsize => {
                    // keep arrays/boxes; a trait-object coercion records the concrete type
                    if let (Some(fi), Some(ti)) = (pointee(from), pointee(to)) {
                        if ti.is_trait() && !fi.is_trait() {
                            if let N::Box(x) = &*v {
                                return Ok(Rc::new(N::Box(op(
                                    "dyn",
                                    vec![konst(&self.tystr(fi)), x.clone()],
                                ))));
                            }
                            if let (ty::Ref(_, _, ty::Mutability::Not), true) = (from.kind(), self.dyn_any(ti)) {
                                let x = self.deref_load(st, &v)?;
                                let d = op("dyn", vec![konst(&self.tystr(fi)), x]);
                                return Ok(Rc::new(N::Ref(Place { cell: Cell::Const(d), path: vec![] })));
                            }
                        }
                    }
                    let _ = st;
                    v
                }
                _ => v,
            },
            CastKind::Transmute | CastKind::BoxDerefTransmute => self.transmute(&v, from, to),
            CastKind::FloatToInt | CastKind::FloatToFloat | CastKind::IntToFloat => {
                op(&format!("cast.{}", to), vec![v])
            }
            _ => v,
        })
    }
    fn dyn_any(&self, t: Ty<'tcx>) -> bool {
        match t.kind() {
            ty::Dynamic(p, ..) => p.principal_def_id().map_or(false, |d| self.path(d).ends_with("any::Any")),
            _ => false,
        }
    }
    fn transmute(&mut self, v: &V, from: Ty<'tcx>, to: Ty<'tcx>) -> V {
        if from == to {
            return v.clone();
        }
        // array of bytes -> integer
        if let ty::Array(e, _) = from.kind() {
            if e.kind() == &ty::Uint(ty::UintTy::U8) && (to.is_integral() || to.is_floating_point()) {
                return op("le", vec![konst(&int_class(to)), v.clone()]);
            }
        }
        if (from.is_integral() || from.is_floating_point() || from.is_char() || from.is_bool())
            && (to.is_integral() || to.is_floating_point() || to.is_char())
        {
            if from.is_integral() && to.is_integral() {
                return self.int_cast(v, from, to);
            }
            if let N::Op(o, a) = &**v {
                if &**o == "le" || &**o == "be" {
                    return op(o, vec![konst(&int_class(to)), a[1].clone()]);
                }
            }
            return v.clone();
        }
        v.clone()
    }
    fn int_cast(&self, v: &V, from: Ty<'tcx>, to: Ty<'tcx>) -> V {
        let tcx = self.tcx;
        if let Some(i) = as_int(v) {
            return wrap(i, to, tcx);
        }
        let bits = |t: Ty<'tcx>| -> Option<(u64, bool)> {
            match t.kind() {
                ty::Int(k) => Some((k.bit_width().unwrap_or(64), true)),
                ty::Uint(k) => Some((k.bit_width().unwrap_or(64), false)),
                ty::Bool => Some((1, false)),
                ty::Char => Some((32, false)),
                _ => None,
            }
        };
        let (Some((fb, fs)), Some((tb, ts))) = (bits(from), bits(to)) else {
            if matches!(from.kind(), ty::Adt(..)) {
                return v.clone();
            }
            return op(&format!("cast.{}", to), vec![v.clone()]);
        };
        let exact = (fs == ts && tb >= fb) || (!fs && ts && tb > fb);
        // byte-assembled values: same width reinterpretation
        if let N::Op(o, a) = &**v {
            if (&**o == "le" || &**o == "be") && fb == tb {
                return op(o, vec![konst(&int_class(to)), a[1].clone()]);
            }
            // a wrapped 64-bit difference read back as signed is the difference
            if o.starts_with("wrap.") && fb == tb && tb >= 64 {
                return if ts && !self.mode.casts { a[0].clone() } else { op(&format!("wrap.{}", to), vec![a[0].clone()]) };
            }
        }
        if exact || (tb == fb && !self.mode.casts && tb >= 64) {
            return v.clone();
        }
        if tb == fb && !self.mode.casts {
            // same-width reinterpretation
            return op(&format!("cast.{}", to), vec![v.clone()]);
        }
        if tb > fb && !self.mode.casts {
            // sign extension into unsigned
            return v.clone();
        }
        op(&format!("cast.{}", to), vec![v.clone()])
    }
    /// add / sub with overflow whose flag somebody asked for (checked_*, overflowing_*):
    /// the exact condition that the result does not fit
    pub fn exact_overflow(&mut self, b: BinOp, x: &V, y: &V, t: Ty<'tcx>) -> Option<V> {
        let base = match b {
            BinOp::AddWithOverflow => BinOp::Add,
            BinOp::SubWithOverflow => BinOp::Sub,
            _ => return None,
        };
        if !self.mode.casts || !t.is_integral() || int_shape(t).1 > 64 {
            return None;
        }
        let r = self.arith(base, x, y, t);
        if as_int(&r).is_some() {
            return None;
        }
        let (signed, bits) = int_shape(t);
        let (lo, hi) = if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) };
        let over = lt0(&lin_comb(&int(hi), 1, &r, -1));
        let under = lt0(&lin_comb(&r, 1, &int(lo), -1));
        let f = match (signed, base) {
            (false, BinOp::Add) => over,
            (false, _) => under,
            _ => op("bBitOr", vec![over, under]),
        };
        Some(agg("tuple", 0, vec![r, f]))
    }
    fn binop(&mut self, st: &State, b: BinOp, x: &V, y: &V, t: Ty<'tcx>) -> R<V> {
        let tcx = self.tcx;
        let integral = t.is_integral() || t.is_char() || t.is_bool();
        let (xi, yi) = (as_int(x), as_int(y));
        use BinOp::*;
        Ok(match b {
            Add | AddUnchecked | Sub | SubUnchecked | Mul | MulUnchecked if integral => {
                let r = self.arith(b, x, y, t);
                if let Some(i) = as_int(&r) {
                    wrap(i, t, tcx)
                } else {
                    r
                }
            }
            AddWithOverflow | SubWithOverflow | MulWithOverflow => {
                let base = match b {
                    AddWithOverflow => Add,
                    SubWithOverflow => Sub,
                    _ => Mul,
                };
                let r = self.arith(base, x, y, t);
                let (v, o) = if let Some(i) = as_int(&r) {
                    let w = as_int(&wrap(i, t, tcx)).unwrap();
                    (int(w), boolean(w != i))
                } else {
                    let o = if self.mode.checks { op(&format!("ovf.{:?}.{}", base, t), vec![x.clone(), y.clone()]) } else { boolean(false) };
                    (r, o)
                };
                agg("tuple", 0, vec![v, o])
            }
            Lt | Le | Gt | Ge | Eq | Ne if integral => {
                let r = match b {
                    Lt => lt0(&sub(x, y)),
                    Ge => not(&lt0(&sub(x, y))),
                    Gt => lt0(&sub(y, x)),
                    Le => not(&lt0(&sub(y, x))),
                    _ => {
                        // booleans compared with constants
                        if t.is_bool() {
                            let e = if let Some(c) = yi {
                                if c == 1 {
                                    x.clone()
                                } else {
                                    not(x)
                                }
                            } else if let Some(c) = xi {
                                if c == 1 {
                                    y.clone()
                                } else {
                                    not(y)
                                }
                            } else {
                                op("eq", sort2(x, y))
                            };
                            if b == Eq {
                                e
                            } else {
                                not(&e)
                            }
                        } else {
                            let e = self.int_eq(st, x, y, t);
                            if b == Eq {
                                e
                            } else {
                                not(&e)
                            }
                        }
                    }
                };
                r
            }
            Eq | Ne => {
                let e = if x == y && !t.is_floating_point() { boolean(true) } else { op("eq", sort2(x, y)) };
                if b == Eq {
                    e
                } else {
                    not(&e)
                }
            }
            Lt => op("lt", vec![x.clone(), y.clone()]),
            Gt => op("lt", vec![y.clone(), x.clone()]),
            Le => op("le?", vec![x.clone(), y.clone()]),
            Ge => op("le?", vec![y.clone(), x.clone()]),
            Rem | Div => match (xi, yi) {
                (Some(a), Some(b2)) if b2 != 0 => int(if b == Rem { a % b2 } else { a / b2 }),
                _ => op(if b == Rem { "rem" } else { "div" }, vec![x.clone(), y.clone()]),
            },
            BitAnd | BitOr | BitXor => match (xi, yi) {
                (Some(a), Some(c)) => wrap(
                    match b {
                        BitAnd => a & c,
                        BitOr => a | c,
                        _ => a ^ c,
                    },
                    t,
                    tcx,
                ),
                _ => {
                    if t.is_bool() {
                        let (c, o) = if let Some(c) = xi { (Some(c), y) } else { (yi, x) };
                        match (b, c) {
                            (BitAnd, Some(0)) => boolean(false),
                            (BitAnd, Some(_)) => o.clone(),
                            (BitOr, Some(0)) => o.clone(),
                            (BitOr, Some(_)) => boolean(true),
                            (BitXor, Some(0)) => o.clone(),
                            (BitXor, Some(_)) => not(o),
                            _ => op(&format!("b{:?}", b), sort2(x, y)),
                        }
                    } else {
                        op(&format!("{:?}", b), sort2(x, y))
                    }
                }
            },
            Shl | Shr | ShlUnchecked | ShrUnchecked => match (xi, yi) {
                (Some(a), Some(c)) => match b {
                    Shl | ShlUnchecked => wrap(a << (c & 127), t, tcx),
                    _ => int(a >> (c & 127)),
                },
                _ => op(&format!("{:?}.{}", b, t), vec![x.clone(), y.clone()]),
            },
            Cmp => op("cmp", vec![x.clone(), y.clone()]),
            Offset => op("offset", vec![x.clone(), y.clone()]),
            _ => op(&format!("{:?}", b), vec![x.clone(), y.clone()]),
        })
    }
    fn arith(&self, b: BinOp, x: &V, y: &V, t: Ty<'tcx>) -> V {
        use BinOp::*;
        match b {
            Add | AddUnchecked => add(x, y),
            Sub | SubUnchecked => sub(x, y),
            _ => {
                if let Some(c) = as_int(x) {
                    lin_comb(y, c, &int(0), 1)
                } else if let Some(c) = as_int(y) {
                    lin_comb(x, c, &int(0), 1)
                } else {
                    op(&format!("mul.{}", t), sort2(x, y))
                }
            }
        }
    }
    fn int_eq(&self, st: &State, x: &V, y: &V, t: Ty<'tcx>) -> V {
        let d = sub(x, y);
        if let Some(i) = as_int(&d) {
            return boolean(i == 0);
        }
        let unsigned = matches!(t.kind(), ty::Uint(_));
        if unsigned && as_int(y) == Some(0) {
            // x >= 0
            return not(&lt0(&lin_comb(x, -1, &int(0), 1)));
        }
        if unsigned && as_int(x) == Some(0) {
            return not(&lt0(&lin_comb(y, -1, &int(0), 1)));
        }
        // known sign of the difference, or a monotone counter against its bound
        let ge = known(st, &not(&lt0(&d))) == Some(true);
        let le = known(st, &not(&lt0(&lin_comb(&d, -1, &int(0), 1)))) == Some(true);
        let counter = matches!(&*d, N::Lin(a, _) if a.iter().any(|(v, k)| matches!(&**v, N::Cnt(_)) && k.abs() == 1));
        if ge || (counter && cnt_sign(&d) < 0) {
            return not(&lt0(&lin_comb(&d, -1, &int(0), 1)));
        }
        if le || counter {
            return not(&lt0(&d));
        }
        eq0(&d)
    }

    // ------------------------------------------------------------ terminators
    fn terminator(&mut self, st: &mut State, body: &Body<'tcx>, t: &Terminator<'tcx>) -> R<Flow> {
        match &t.kind {
            TerminatorKind::Goto { target, .. } => {
                self.goto(st, *target);
                Ok(Flow::Next)
            }
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                self.goto(st, *real_target);
                Ok(Flow::Next)
            }
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(&body.local_decls, self.tcx).ty;
                match drop_kind(self.tcx, ty, 0) {
                    DropKind::Plain => {}
                    DropKind::Unknown => return Err(format!("drop of {}", self.tystr(ty))),
                    DropKind::Guard => {
                        if self.mode.locks {
                            let n = self.new_node("unlock");
                            self.goto(st, *target);
                            return Ok(Flow::Stop(Stop::Node(n, vec![("".into(), st.clone())])));
                        }
                    }
                    DropKind::Run => {
                        let at = self.place(st, body, *place)?;
                        let inst = Instance::resolve_drop_glue(self.tcx, ty);
                        let ptr = Ty::new_mut_ptr(self.tcx, ty);
                        let c = Call {
                            untupled: false,
                            fty: ptr,
                            fval: None,
                            args: vec![Rc::new(N::Ref(at))],
                            tys: vec![ptr],
                            dest: Place { cell: Cell::Local(u32::MAX, 0), path: vec![] },
                            dty: self.tcx.types.unit,
                            ret: Some(target.as_u32()),
                            span: t.source_info.span,
                        };
                        return self.inline(st, c, inst, None);
                    }
                }
                self.goto(st, *target);
                Ok(Flow::Next)
            }
            TerminatorKind::Unreachable => Ok(Flow::Stop(Stop::Dead)),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => Ok(Flow::Stop(Stop::Dead)),
            TerminatorKind::Return => {
                let f = st.frames.pop().unwrap();
                let mut v = f.locals[0].clone();
                if matches!(&*v, N::Uninit) {
                    v = self.zst(body.local_decls[Local::from_usize(0)].ty);
                }
                if st.frames.is_empty() {
                    let n = self.new_node("ret");
                    // references into the popped root frame cannot escape
                    let fv = self.freeze(st, &v);
                    let roots: Vec<String> = st.roots.iter().map(|r| json(&self.freeze(st, r))).collect();
                    if json(&fv).contains("\"gen_byte\"") || roots.iter().any(|r| r.contains("\"gen_byte\"")) {
                        return Err("a function of a generic stream byte escapes".into());
                    }
                    self.nodes[n].fields.push(("val".into(), json(&fv)));
                    self.nodes[n].fields.push(("pos".into(), json(&st.pos)));
                    self.nodes[n].fields.push(("roots".into(), format!("[{}]", roots.join(","))));
                    return Ok(Flow::Stop(Stop::Node(n, vec![])));
                }
                let dest = f.dest.clone();
                // a drop has nowhere to put its unit
                if !matches!(dest.cell, Cell::Local(u32::MAX, _)) {
                    self.store(st, &dest, v)?;
                }
                match f.ret {
                    Some(bb) => {
                        self.goto(st, BasicBlock::from_u32(bb));
                        Ok(Flow::Next)
                    }
                    None => Ok(Flow::Stop(Stop::Dead)),
                }
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let v = self.operand(st, body, discr)?;
                let t = discr.ty(&body.local_decls, self.tcx);
                self.switch(st, v, targets, t)
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let c = self.operand(st, body, cond)?;
                let c = if *expected { c } else { not(&c) };
                let (kind, desc) = match &**msg {
                    AssertKind::BoundsCheck { .. } => ("bounds", "index out of bounds".to_string()),
                    AssertKind::Overflow(b, ..) => ("overflow", format!("overflow in {:?}", b)),
                    AssertKind::OverflowNeg(_) => ("overflow", "overflow in Neg".into()),
                    AssertKind::DivisionByZero(_) | AssertKind::RemainderByZero(_) => ("divzero", "division by zero".into()),
                    // checks the compiler adds to every dereference
                    AssertKind::NullPointerDereference | AssertKind::NullReferenceConstructed | AssertKind::MisalignedPointerDereference { .. } | AssertKind::InvalidEnumConstruction(..) => {
                        self.goto(st, *target);
                        return Ok(Flow::Next);
                    }
                    _ => ("assert", "assert".into()),
                };
                let kn = known(st, &c);
                if kn == Some(true) || (!self.mode.checks && kn != Some(false)) {
                    self.goto(st, *target);
                    return Ok(Flow::Next);
                }
                let mut s1 = st.clone();
                self.goto(&mut s1, *target);
                let guard = c.clone();
                assume(&mut s1, &guard, true);
                let n = self.new_node("branch");
                let fg = json(&self.freeze(st, &guard));
                self.nodes[n].fields.push(("guard".into(), fg));
                let pn = self.panic_node(st, kind, &desc, t.source_info.span);
                let mut outs = vec![];
                if kn != Some(false) {
                    outs.push(("true".to_string(), s1));
                }
                self.nodes[n].succ.push(("false".into(), pn));
                Ok(Flow::Stop(Stop::Node(n, outs)))
            }
            TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                let ft = func.ty(&body.local_decls, self.tcx);
                let mut av = vec![];
                let mut at = vec![];
                for a in args.iter() {
                    at.push(a.node.ty(&body.local_decls, self.tcx));
                    av.push(self.operand(st, body, &a.node)?);
                }
                let dest = self.place(st, body, *destination)?;
                let dty = destination.ty(&body.local_decls, self.tcx).ty;
                let ret = target.map(|b| b.as_u32());
                let fv = match ft.kind() {
                    ty::FnDef(..) => None,
                    _ => Some(self.operand(st, body, func)?),
                };
                let call = Call { untupled: false, fty: ft, fval: fv, args: av, tys: at, dest, dty, ret, span: *fn_span };
                self.call(st, call)
            }
            k => Err(format!("terminator {:?}", k)),
        }
    }
    fn panic_node(&mut self, st: &State, kind: &str, desc: &str, span: rustc_span::Span) -> usize {
        let n = self.new_node("panic");
        self.nodes[n].fields.push(("what".into(), jstr(kind)));
        self.nodes[n].fields.push(("msg".into(), jstr(desc)));
        let stack: Vec<String> = st.frames.iter().map(|f| jstr(&self.inst_name(f.inst))).collect();
        self.nodes[n].fields.push(("stack".into(), format!("[{}]", stack.join(","))));
        let loc = self.tcx.sess.source_map().span_to_diagnostic_string(span);
        self.nodes[n].fields.push(("at".into(), jstr(&loc)));
        n
    }
    fn branch(&mut self, st: &State, guard: &V, outs: Vec<(String, State)>) -> Flow {
        let mk = (st.clone(), guard.clone());
        if let Some(id) = self.memo.get(&mk) {
            return Flow::Stop(Stop::Link(*id));
        }
        let n = self.new_node("branch");
        self.memo.insert(mk, n);
        let fg = json(&self.freeze(st, guard));
        self.nodes[n].fields.push(("guard".into(), fg));
        let fname = st.frames.last().map(|f| self.inst_name(f.inst)).unwrap_or_default();
        self.nodes[n].fields.push(("fn".into(), jstr(&fname)));
        Flow::Stop(Stop::Node(n, outs))
    }
    fn switch(&mut self, st: &mut State, v: V, targets: &SwitchTargets, ty: Ty<'tcx>) -> R<Flow> {
        if let Some(i) = as_int(&v) {
            let bb = targets.target_for_value(i as u128);
            // negative discriminants are stored truncated
            let mut tgt = bb;
            if i < 0 {
                for (val, t) in targets.iter() {
                    if val as i64 as i128 == i || val as i32 as i128 == i || val as i8 as i128 == i || val as i16 as i128 == i {
                        tgt = t;
                    }
                }
            }
            self.goto(st, tgt);
            return Ok(Flow::Next);
        }
        if matches!(&*v, N::Uninit) {
            return Err("switch on uninitialised value".into());
        }
        if let N::Disc(_, ds) = &*v {
            let mut outs = vec![];
            let excl: Vec<i128> = match st.facts.get(&v).map(|x| (**x).clone()) {
                Some(N::Agg(_, _, xs)) => xs.iter().filter_map(as_int).collect(),
                _ => vec![],
            };
            let mut covered = excl.clone();
            for (val, t) in targets.iter() {
                let val = val as i128;
                if excl.contains(&val) || !ds.iter().any(|d| *d == val || (*d < 0 && (*d as u128 as i128 == val || *d as u64 as i128 == val || *d as u32 as i128 == val || *d as u16 as i128 == val || *d as u8 as i128 == val))) {
                    continue;
                }
                covered.push(val);
                let mut s = st.clone();
                self.goto(&mut s, t);
                s.facts.insert(v.clone(), int(val));
                s.nbranch += 1;
                outs.push((format!("{}", val), s));
            }
            let rest: Vec<i128> = ds.iter().copied().filter(|d| !covered.contains(d)).collect();
            if !rest.is_empty() {
                let mut s = st.clone();
                self.goto(&mut s, targets.otherwise());
                if rest.len() == 1 {
                    s.facts.insert(v.clone(), int(rest[0]));
                } else {
                    covered.sort();
                    covered.dedup();
                    s.facts.insert(v.clone(), agg("not", 0, covered.iter().map(|i| int(*i)).collect()));
                }
                s.nbranch += 1;
                let lab = if rest.len() == 1 {
                    format!("{}", rest[0])
                } else {
                    rest.iter().map(|i| i.to_string()).collect::<Vec<_>>().join("|")
                };
                outs.push((lab, s));
            }
            if outs.is_empty() {
                return Ok(Flow::Stop(Stop::Dead));
            }
            if outs.len() == 1 {
                *st = outs.pop().unwrap().1;
                return Ok(Flow::Next);
            }
            return Ok(self.branch(st, &v, outs));
        }
        // boolean or integer
        let isbool = targets.iter().count() == 1 && targets.iter().next().unwrap().0 == 0 && is_boolish(&v);
        if isbool {
            let (val_t, other) = (targets.iter().next().unwrap().1, targets.otherwise());
            // value 0 -> val_t
            return self.bool_branch(st, &v, other, val_t);
        }
        // integer: first remaining target value
        for (val, t) in targets.iter() {
            let g = if is_boolish(&v) {
                if val == 1 {
                    v.clone()
                } else {
                    not(&v)
                }
            } else {
                self.switch_eq(st, &v, val, ty)
            };
            match known(st, &g) {
                Some(true) => {
                    self.goto(st, t);
                    return Ok(Flow::Next);
                }
                Some(false) => continue,
                None => {
                    let mut s1 = st.clone();
                    self.goto(&mut s1, t);
                    assume(&mut s1, &g, true);
                    s1.nbranch += 1;
                    // stay at the switch, remembering v != val
                    let mut s2 = st.clone();
                    assume(&mut s2, &g, false);
                    s2.nbranch += 1;
                    // the operand may have been moved out: restore it by re-evaluating from facts is
                    // not possible, so emulate by resolving the remaining targets here
                    return self.switch_rest(st, &v, targets, ty, val, s1, s2, g);
                }
            }
        }
        self.goto(st, targets.otherwise());
        Ok(Flow::Next)
    }
    fn switch_eq(&self, st: &State, v: &V, val: u128, t: Ty<'tcx>) -> V {
        // the values of a switch are the bits of the operand's type
        let val = match t.kind() {
            ty::Int(_) => as_int(&wrap(val as i128, t, self.tcx)).unwrap_or(val as i128),
            _ => val as i128,
        };
        if let N::Op(o, _) = &**v {
            if &**o == "cmp" {
                return op("eqc", vec![v.clone(), int(val)]);
            }
        }
        let t = if matches!(t.kind(), ty::Int(_)) { t } else { self.tcx.types.u64 };
        self.int_eq(st, v, &int(val), t)
    }
    fn switch_rest(&mut self, st: &State, v: &V, targets: &SwitchTargets, ty: Ty<'tcx>, done: u128, s1: State, s2: State, g: V) -> R<Flow> {
        // build a chain of branch nodes for the remaining values
        let first = match self.branch(st, &g, vec![]) {
            Flow::Stop(Stop::Node(n, _)) => n,
            f => return Ok(f),
        };
        self.nodes[first].succ.push(("true".into(), usize::MAX));
        let k = self.nodes[first].succ.len() - 1;
        self.work.push((s1, first, k));
        let mut cur = first;
        let mut s = s2;
        let mut seen = false;
        for (val, t) in targets.iter() {
            if val == done {
                seen = true;
                continue;
            }
            if !seen {
                continue;
            }
            let g = if is_boolish(v) {
                if val == 1 {
                    v.clone()
                } else {
                    not(v)
                }
            } else {
                self.switch_eq(&s, v, val, ty)
            };
            match known(&s, &g) {
                Some(true) => {
                    self.goto(&mut s, t);
                    self.nodes[cur].succ.push(("false".into(), usize::MAX));
                    let k = self.nodes[cur].succ.len() - 1;
                    self.work.push((s, cur, k));
                    return Ok(Flow::Stop(Stop::Link(first)));
                }
                Some(false) => continue,
                None => {
                    let n = self.new_node("branch");
                    let fg = json(&self.freeze(&s, &g));
                    self.nodes[n].fields.push(("guard".into(), fg));
                    self.nodes[cur].succ.push(("false".into(), n));
                    let mut s1 = s.clone();
                    self.goto(&mut s1, t);
                    assume(&mut s1, &g, true);
                    self.nodes[n].succ.push(("true".into(), usize::MAX));
                    let k = self.nodes[n].succ.len() - 1;
                    self.work.push((s1, n, k));
                    assume(&mut s, &g, false);
                    cur = n;
                }
            }
        }
        self.goto(&mut s, targets.otherwise());
        self.nodes[cur].succ.push(("false".into(), usize::MAX));
        let k = self.nodes[cur].succ.len() - 1;
        self.work.push((s, cur, k));
        Ok(Flow::Stop(Stop::Link(first)))
    }
    fn bool_branch(&mut self, st: &mut State, v: &V, t: BasicBlock, f: BasicBlock) -> R<Flow> {
        self.check_guard(v)?;
        Ok(match known(st, v) {
            Some(true) => {
                self.goto(st, t);
                Flow::Next
            }
            Some(false) => {
                self.goto(st, f);
                Flow::Next
            }
            None => {
                let (g, t, f) = match &**v {
                    N::Op(o, a) if &**o == "not" => (a[0].clone(), f, t),
                    _ => (v.clone(), t, f),
                };
                let mut s1 = st.clone();
                self.goto(&mut s1, t);
                assume(&mut s1, &g, true);
                s1.nbranch += 1;
                let mut s2 = st.clone();
                self.goto(&mut s2, f);
                assume(&mut s2, &g, false);
                s2.nbranch += 1;
                self.branch(st, &g, vec![("true".into(), s1), ("false".into(), s2)])
            }
        })
    }
}

#[derive(Clone)]
pub struct Call<'tcx> {
    pub untupled: bool,
    pub fty: Ty<'tcx>,
    pub fval: Option<V>,
    pub args: Vec<V>,
    pub tys: Vec<Ty<'tcx>>,
    pub dest: Place,
    pub dty: Ty<'tcx>,
    pub ret: Option<u32>,
    pub span: rustc_span::Span,
}

fn collect_fns(tcx: TyCtxt<'_>, module: DefId, prefix: &str, out: &mut HashMap<String, DefId>) {
    for c in tcx.module_children(module) {
        if let Some(d) = c.res.opt_def_id() {
            match c.res {
                rustc_hir::def::Res::Def(DefKind::Fn, _) => {
                    out.insert(format!("{}{}", prefix, c.ident), d);
                }
                rustc_hir::def::Res::Def(DefKind::Mod, _) if d.krate == module.krate => {
                    collect_fns(tcx, d, &format!("{}{}::", prefix, c.ident), out)
                }
                _ => {}
            }
        }
    }
}

fn int_class(t: Ty<'_>) -> String {
    t.to_string()
}
pub fn pointee(t: Ty<'_>) -> Option<Ty<'_>> {
    match t.kind() {
        ty::Ref(_, i, _) => Some(*i),
        ty::RawPtr(i, _) => Some(*i),
        _ if t.is_box() => t.boxed_ty(),
        _ => None,
    }
}
fn sort2(x: &V, y: &V) -> Vec<V> {
    if x <= y {
        vec![x.clone(), y.clone()]
    } else {
        vec![y.clone(), x.clone()]
    }
}
fn cnt_sign(d: &V) -> i128 {
    if let N::Lin(a, _) = &**d {
        for (v, k) in a {
            if matches!(&**v, N::Cnt(_)) {
                return *k;
            }
        }
    }
    1
}
/// (signed, bits) of an integer type
pub fn int_shape(t: Ty<'_>) -> (bool, u32) {
    match t.kind() {
        ty::Int(k) => (true, k.bit_width().unwrap_or(64) as u32),
        ty::Uint(k) => (false, k.bit_width().unwrap_or(64) as u32),
        _ => (false, 64),
    }
}
pub fn wrap(i: i128, t: Ty<'_>, _tcx: TyCtxt<'_>) -> V {
    match t.kind() {
        ty::Int(k) => {
            let b = k.bit_width().unwrap_or(64) as u32;
            if b >= 128 {
                return int(i);
            }
            let sh = 128 - b;
            int((i << sh) >> sh)
        }
        ty::Uint(k) => {
            let b = k.bit_width().unwrap_or(64) as u32;
            if b >= 128 {
                return int(i);
            }
            int(i & ((1i128 << b) - 1))
        }
        ty::Bool => int(i & 1),
        _ => int(i),
    }
}
fn is_boolish(v: &V) -> bool {
    match &**v {
        N::Op(o, _) => {
            matches!(&**o, "lt0" | "eq0" | "not" | "eq" | "lt" | "le?" | "eqc" | "bBitAnd" | "bBitOr" | "bBitXor")
                || o.starts_with("ovf.")
                || o.starts_with("bool:")
        }
        _ => false,
    }
}
pub fn known(st: &State, g: &V) -> Option<bool> {
    if let N::Int(i) = &**g {
        return Some(*i != 0);
    }
    if let N::Op(o, a) = &**g {
        if &**o == "not" {
            return known(st, &a[0]).map(|b| !b);
        }
    }
    if let Some(f) = st.facts.get(g) {
        if let N::Int(i) = &**f {
            return Some(*i != 0);
        }
    }
    if let N::Op(o, a) = &**g {
        if &**o == "lt0" || &**o == "eq0" {
            let (m, c) = lin_parts(&a[0]);
            for (k, val) in &st.facts {
                if let (N::Op(fo, fa), N::Int(t)) = (&**k, &**val) {
                    if &**fo != "lt0" && &**fo != "eq0" {
                        continue;
                    }
                    let (fm, fc) = lin_parts(&fa[0]);
                    if fm != m {
                        continue;
                    }
                    let d = c - fc; // l = fact + d
                    match (&**fo, *t != 0) {
                        ("eq0", true) => {
                            return Some(if &**o == "lt0" { d < 0 } else { d == 0 });
                        }
                        ("lt0", true) => {
                            // f < 0, so f <= -1, l <= d-1
                            if &**o == "lt0" && d <= 0 {
                                return Some(true);
                            }
                            if &**o == "eq0" && d <= 0 {
                                return Some(false);
                            }
                        }
                        ("lt0", false) => {
                            // f >= 0, l >= d
                            if &**o == "lt0" && d >= 0 {
                                return Some(false);
                            }
                            if &**o == "eq0" && d > 0 {
                                return Some(false);
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
    }
    None
}
pub fn assume(st: &mut State, g: &V, b: bool) {
    match &**g {
        N::Int(_) => {}
        N::Op(o, a) if &**o == "not" => assume(st, &a[0], !b),
        _ => {
            st.facts.insert(g.clone(), boolean(b));
        }
    }
}
pub fn normalise_place(mut p: Place) -> Place {
    // merge Sub of Sub, Idx of Sub
    let mut i = 0;
    while i + 1 < p.path.len() {
        let m = match (&p.path[i], &p.path[i + 1]) {
            (Pe::Sub(a, _), Pe::Sub(c, d)) => Some(Pe::Sub(add(a, c), add(a, d))),
            (Pe::Sub(a, _), Pe::Idx(x)) => Some(Pe::Idx(add(a, x))),
            (Pe::One, Pe::Idx(x)) if as_int(x) == Some(0) => {
                p.path.drain(i..i + 2);
                return normalise_place(p);
            }
            _ => None,
        };
        if let Some(m) = m {
            p.path[i] = m;
            p.path.remove(i + 1);
        } else {
            i += 1;
        }
    }
    p
}

fn gc_facts(st: &mut State) {
    let mut live = BTreeSet::new();
    for f in &st.frames {
        for l in &f.locals {
            event_atoms(l, &mut live);
        }
    }
    for r in &st.roots {
        event_atoms(r, &mut live);
    }
    for (k, v) in &st.symst {
        event_atoms(k, &mut live);
        event_atoms(v, &mut live);
    }
    event_atoms(&st.pos, &mut live);
    let facts = std::mem::take(&mut st.facts);
    for (k, v) in facts {
        let mut at = BTreeSet::new();
        event_atoms(&k, &mut at);
        if at.iter().all(|a| live.contains(a)) {
            st.facts.insert(k, v);
        }
    }
    // facts on linear guards subsumed by stronger ones
    let ks: Vec<V> = st.facts.keys().cloned().collect();
    for k in ks {
        if let N::Op(o, _) = &*k {
            if &**o == "lt0" {
                let v = st.facts.remove(&k).unwrap();
                let b = as_int(&v).map(|i| i != 0);
                if known(st, &k) != b {
                    st.facts.insert(k, v);
                }
            }
        }
    }
}
fn subsumes(s: &State, t: &State) -> bool {
    s.frames == t.frames
        && s.roots == t.roots
        && s.symst == t.symst
        && s.pos == t.pos
        && s.counts == t.counts
        && s.facts.iter().all(|(k, v)| t.facts.get(k) == Some(v))
}
struct Gen<'a> {
    c1: &'a BTreeMap<Key, Option<i128>>,
    c2: &'a BTreeMap<Key, Option<i128>>,
    used: BTreeSet<Key>,
}
impl<'a> Gen<'a> {
    fn v(&mut self, a: &V, b: &V) -> Option<V> {
        if a == b {
            return Some(a.clone());
        }
        match (&**a, &**b) {
            (N::Int(_), N::Int(_)) | (N::Lin(..), N::Lin(..)) | (N::Int(_), N::Lin(..)) | (N::Lin(..), N::Int(_)) => self.lin(a, b),
            (N::Lin(..), _) | (_, N::Lin(..)) => self.lin(a, b),
            (N::Agg(n, i, x), N::Agg(m, j, y)) if n == m && i == j && x.len() == y.len() => {
                let mut o = vec![];
                for (p, q) in x.iter().zip(y) {
                    o.push(self.v(p, q)?);
                }
                Some(Rc::new(N::Agg(n.clone(), *i, o)))
            }
            (N::Op(n, x), N::Op(m, y)) if n == m && x.len() == y.len() => {
                let mut o = vec![];
                for (p, q) in x.iter().zip(y) {
                    o.push(self.v(p, q)?);
                }
                Some(Rc::new(N::Op(n.clone(), o)))
            }
            (N::Box(x), N::Box(y)) => Some(Rc::new(N::Box(self.v(x, y)?))),
            (N::IntoIter(x), N::IntoIter(y)) => Some(Rc::new(N::IntoIter(self.v(x, y)?))),
            (N::Fld(x, i, j), N::Fld(y, k, l)) if i == k && j == l => Some(Rc::new(N::Fld(self.v(x, y)?, *i, *j))),
            (N::Ref(p), N::Ref(q)) => Some(Rc::new(N::Ref(self.place(p, q)?))),
            (N::Iter(p, a1, b1), N::Iter(q, a2, b2)) => {
                Some(Rc::new(N::Iter(self.place(p, q)?, self.v(a1, a2)?, self.v(b1, b2)?)))
            }
            (N::List(x), N::List(y)) if x.len() == y.len() => {
                let mut o = vec![];
                for (p, q) in x.iter().zip(y) {
                    o.push(match (p, q) {
                        (Seg::E(a), Seg::E(b)) => Seg::E(self.v(a, b)?),
                        (Seg::All(a), Seg::All(b)) => Seg::All(self.v(a, b)?),
                        (Seg::Rep(a, n), Seg::Rep(b, m)) => Seg::Rep(self.v(a, b)?, self.v(n, m)?),
                        (Seg::Bytes(a, n), Seg::Bytes(b, m)) => Seg::Bytes(self.v(a, b)?, self.v(n, m)?),
                        (a, b) if a == b => a.clone(),
                        _ => return None,
                    });
                }
                Some(Rc::new(N::List(o)))
            }
            _ => None,
        }
    }
    fn place(&mut self, p: &Place, q: &Place) -> Option<Place> {
        let cell = match (&p.cell, &q.cell) {
            (a, b) if a == b => a.clone(),
            (Cell::Sym(a), Cell::Sym(b)) => Cell::Sym(self.v(a, b)?),
            _ => return None,
        };
        if p.path.len() != q.path.len() {
            return None;
        }
        let mut path = vec![];
        for (a, b) in p.path.iter().zip(&q.path) {
            path.push(match (a, b) {
                (a, b) if a == b => a.clone(),
                (Pe::Idx(a), Pe::Idx(b)) => Pe::Idx(self.v(a, b)?),
                (Pe::Sub(a, c), Pe::Sub(b, d)) => Pe::Sub(self.v(a, b)?, self.v(c, d)?),
                _ => return None,
            });
        }
        Some(Place { cell, path })
    }
    fn lin(&mut self, a: &V, b: &V) -> Option<V> {
        let d = as_int(&sub(b, a))?;
        for (k, c2) in self.c2 {
            let (Some(c2), c1) = (c2, self.c1.get(k).copied().unwrap_or(Some(0))) else { continue };
            let Some(c1) = c1 else { continue };
            let dk = c2 - c1;
            if dk != 0 && d % dk == 0 {
                let m = d / dk;
                self.used.insert(k.clone());
                let base = addc(a, -(m * c1));
                let cnt: V = Rc::new(N::Cnt(k.clone()));
                return Some(lin_comb(&base, 1, &cnt, m));
            }
        }
        None
    }
}
fn generalise(s: &State, t: &State) -> Option<State> {
    if s.frames.len() != t.frames.len() || s.roots.len() != t.roots.len() || s.symst.len() != t.symst.len() {
        return None;
    }
    let mut g = Gen { c1: &s.counts, c2: &t.counts, used: BTreeSet::new() };
    let mut r = t.clone();
    for (i, (a, b)) in s.frames.iter().zip(&t.frames).enumerate() {
        if a.inst != b.inst || a.bb != b.bb || a.dest != b.dest || a.ret != b.ret {
            return None;
        }
        for (j, (x, y)) in a.locals.iter().zip(&b.locals).enumerate() {
            r.frames[i].locals[j] = g.v(x, y)?;
        }
    }
    for (i, (x, y)) in s.roots.iter().zip(&t.roots).enumerate() {
        r.roots[i] = g.v(x, y)?;
    }
    let mut ns = BTreeMap::new();
    for ((k1, v1), (k2, v2)) in s.symst.iter().zip(&t.symst) {
        ns.insert(g.v(k1, k2)?, g.v(v1, v2)?);
    }
    r.symst = ns;
    r.pos = g.v(&s.pos, &t.pos)?;
    let mut used = g.used;
    // counts that differ become "many" together with the keys used
    for (k, c2) in &t.counts {
        let c1 = s.counts.get(k).copied().unwrap_or(Some(0));
        if c1 != *c2 {
            used.insert(k.clone());
        }
    }
    for k in used {
        r.counts.insert(k, None);
    }
    r.facts = t.facts.iter().filter(|(k, v)| s.facts.get(*k) == Some(v)).map(|(k, v)| (k.clone(), v.clone())).collect();
    Some(r)
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum DropKind {
    /// runs no code of the library or the program
    Plain,
    /// releases a lock
    Guard,
    /// runs a Drop impl of the library or the program
    Run,
    /// runs one from inside a std container
    Unknown,
}
/// what dropping a value of this type does
pub fn drop_kind<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, depth: u32) -> DropKind {
    if depth > 12 || !t.needs_drop(tcx, TypingEnv::fully_monomorphized()) {
        return DropKind::Plain;
    }
    let worst = |ts: Vec<Ty<'tcx>>| ts.into_iter().map(|x| drop_kind(tcx, x, depth + 1)).max().unwrap_or(DropKind::Plain);
    match t.kind() {
        ty::Adt(d, a) => {
            let kr = tcx.crate_name(d.did().krate);
            let own = d.did().is_local() || kr.as_str() == "binread" || kr.as_str() == "vrt";
            if own {
                if d.is_manually_drop() {
                    return DropKind::Plain;
                }
                if d.has_dtor(tcx) {
                    return DropKind::Run;
                }
            }
            if d.is_manually_drop() {
                return DropKind::Plain;
            }
            if tcx.def_path_str(d.did()).ends_with("MutexGuard") {
                return DropKind::Guard;
            }
            let k = if own || !d.has_dtor(tcx) {
                let e = TypingEnv::fully_monomorphized();
                worst(d.all_fields().map(|f| tcx.normalize_erasing_regions(e, f.ty(tcx, a))).collect())
            } else {
                worst(a.types().collect())
            };
            match k {
                DropKind::Run if !own && d.has_dtor(tcx) => DropKind::Unknown,
                k => k,
            }
        }
        ty::Tuple(ts) => worst(ts.iter().collect()),
        ty::Array(x, _) | ty::Slice(x) => match drop_kind(tcx, *x, depth + 1) {
            DropKind::Run => DropKind::Unknown,
            k => k,
        },
        ty::Closure(_, a) => worst(a.as_closure().upvar_tys().iter().collect()),
        _ => DropKind::Plain,
    }
}

fn analyse_body<'tcx>(tcx: TyCtxt<'tcx>, b: &Body<'tcx>) -> BodyInfo {
    use rustc_middle::mir::visit::{NonUseContext, PlaceContext, Visitor};
    let n = b.basic_blocks.len();
    // loop heads by DFS back edges
    let mut heads = BTreeSet::new();
    let mut color = vec![0u8; n];
    let mut stack: Vec<(usize, Vec<usize>, usize)> = vec![];
    let succs = |i: usize| -> Vec<usize> {
        b.basic_blocks[BasicBlock::from_usize(i)].terminator().successors().map(|s| s.as_usize()).collect()
    };
    color[0] = 1;
    stack.push((0, succs(0), 0));
    while let Some((u, ss, i)) = stack.last_mut() {
        if *i < ss.len() {
            let v = ss[*i];
            *i += 1;
            if color[v] == 0 {
                color[v] = 1;
                let s = succs(v);
                stack.push((v, s, 0));
            } else if color[v] == 1 {
                heads.insert(v as u32);
            }
        } else {
            color[*u] = 2;
            stack.pop();
        }
    }
    // borrowed locals
    struct B(BTreeSet<u32>);
    impl<'tcx> Visitor<'tcx> for B {
        fn visit_rvalue(&mut self, rv: &Rvalue<'tcx>, l: Location) {
            match rv {
                Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) | Rvalue::Reborrow(_, _, p) => {
                    if !p.is_indirect() {
                        self.0.insert(p.local.as_u32());
                    }
                }
                _ => {}
            }
            self.super_rvalue(rv, l)
        }
    }
    let mut bor = B(BTreeSet::new());
    bor.visit_body(b);
    // backward liveness
    struct U {
        gen: BTreeSet<u32>,
        kill: BTreeSet<u32>,
    }
    impl<'tcx> Visitor<'tcx> for U {
        fn visit_local(&mut self, l: Local, c: PlaceContext, _: Location) {
            match c {
                PlaceContext::NonUse(NonUseContext::StorageDead | NonUseContext::StorageLive) => {
                    self.kill.insert(l.as_u32());
                }
                PlaceContext::NonUse(_) => {}
                PlaceContext::MutatingUse(
                    rustc_middle::mir::visit::MutatingUseContext::Store
                    | rustc_middle::mir::visit::MutatingUseContext::Call,
                ) => {
                    self.kill.insert(l.as_u32());
                }
                PlaceContext::MutatingUse(rustc_middle::mir::visit::MutatingUseContext::Drop) => {}
                _ => {
                    self.gen.insert(l.as_u32());
                }
            }
        }
        fn visit_place(&mut self, p: &rustc_middle::mir::Place<'tcx>, c: PlaceContext, l: Location) {
            if p.projection.is_empty() {
                self.visit_local(p.local, c, l)
            } else {
                // partial write or read through: counts as use
                if !matches!(c, PlaceContext::MutatingUse(rustc_middle::mir::visit::MutatingUseContext::Drop)) {
                    self.gen.insert(p.local.as_u32());
                }
                for e in p.projection.iter() {
                    if let ProjectionElem::Index(l) = e {
                        self.gen.insert(l.as_u32());
                    }
                }
            }
        }
    }
    let mut live_in: Vec<BTreeSet<u32>> = vec![BTreeSet::new(); n];
    loop {
        let mut changed = false;
        for i in (0..n).rev() {
            let data = &b.basic_blocks[BasicBlock::from_usize(i)];
            let mut live: BTreeSet<u32> = BTreeSet::new();
            for s in data.terminator().successors() {
                live.extend(live_in[s.as_usize()].iter().copied());
            }
            let loc = Location { block: BasicBlock::from_usize(i), statement_index: 0 };
            let mut apply = |u: U, live: &mut BTreeSet<u32>| {
                for k in &u.kill {
                    live.remove(k);
                }
                live.extend(u.gen);
            };
            let mut u = U { gen: BTreeSet::new(), kill: BTreeSet::new() };
            u.visit_terminator(data.terminator(), loc);
            if matches!(data.terminator().kind, TerminatorKind::Return) {
                u.gen.insert(0);
            }
            if let TerminatorKind::Drop { place, .. } = &data.terminator().kind {
                if drop_kind(tcx, place.ty(&b.local_decls, tcx).ty, 0) >= DropKind::Run {
                    u.gen.insert(place.local.as_u32());
                }
            }
            apply(u, &mut live);
            for s in data.statements.iter().rev() {
                let mut u = U { gen: BTreeSet::new(), kill: BTreeSet::new() };
                u.visit_statement(s, loc);
                apply(u, &mut live);
            }
            if live != live_in[i] {
                live_in[i] = live;
                changed = true;
            }
        }
        if !changed {
            break;
        }
    }
    let nl = b.local_decls.len() as u32;
    let kill = live_in
        .iter()
        .enumerate()
        .map(|(bi, l)| {
            if bi == 0 {
                return vec![];
            }
            (0..nl).filter(|x| !l.contains(x) && !bor.0.contains(x)).collect()
        })
        .collect();
    BodyInfo { loop_heads: heads, kill }
}
