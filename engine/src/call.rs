//! Calls: intercepts, models, inlining, events.
use super::*;
use crate::val::Place;
use rustc_middle::ty::GenericArg;

#[derive(Clone)]
pub struct Callee<'tcx> {
    pub inst: Instance<'tcx>,
    pub def: DefId,
    pub gargs: ty::GenericArgsRef<'tcx>,
}

impl<'tcx> Interp<'tcx> {
    fn crate_of(&self, d: DefId) -> String {
        self.tcx.crate_name(d.krate).to_string()
    }
    fn mpath(&self, d: DefId) -> String {
        self.tcx.def_path(d).to_string_no_crate_verbose()
    }
    fn done(&mut self, st: &mut State, c: &Call<'tcx>, v: V) -> R<Flow> {
        self.store(st, &c.dest, v)?;
        match c.ret {
            Some(bb) => {
                self.goto(st, BasicBlock::from_u32(bb));
                Ok(Flow::Next)
            }
            None => Ok(Flow::Stop(Stop::Dead)),
        }
    }
    fn ret_state(&self, st: &State, c: &Call<'tcx>, v: V) -> R<State> {
        let mut s = st.clone();
        self.store(&mut s, &c.dest, v)?;
        if let Some(bb) = c.ret {
            self.goto(&mut s, BasicBlock::from_u32(bb));
        }
        s.steps = 0;
        Ok(s)
    }
    /// a branch whose two sides return different values from the call
    fn branch_ret(&mut self, st: &mut State, c: &Call<'tcx>, g: &V, t: V, f: V) -> R<Flow> {
        match known(st, g) {
            Some(true) => self.done(st, c, t),
            Some(false) => self.done(st, c, f),
            None => {
                let (g, t, f) = match &**g {
                    N::Op(o, a) if &**o == "not" => (a[0].clone(), f, t),
                    _ => (g.clone(), t, f),
                };
                self.check_guard(&g)?;
                let mut s1 = self.ret_state(st, c, t)?;
                assume(&mut s1, &g, true);
                s1.nbranch += 1;
                let mut s2 = self.ret_state(st, c, f)?;
                assume(&mut s2, &g, false);
                s2.nbranch += 1;
                Ok(self.branch(st, &g, vec![("true".into(), s1), ("false".into(), s2)]))
            }
        }
    }
    /// in checks mode: panic unless `g`
    fn require(&mut self, st: &mut State, c: &Call<'tcx>, g: &V, kind: &str, v: V) -> R<Flow> {
        let k = known(st, g);
        if k == Some(true) || (!self.mode.checks && k != Some(false)) {
            return self.done(st, c, v);
        }
        let n = self.new_node("branch");
        let fg = json(&self.freeze(st, g));
        self.nodes[n].fields.push(("guard".into(), fg));
        let pn = self.panic_node(st, kind, kind, c.span);
        let mut outs = vec![];
        if k != Some(false) {
            let mut s = self.ret_state(st, c, v)?;
            assume(&mut s, g, true);
            outs.push(("true".to_string(), s));
        }
        self.nodes[n].succ.push(("false".into(), pn));
        Ok(Flow::Stop(Stop::Node(n, outs)))
    }
    pub fn check_guard(&self, g: &V) -> R<()> {
        let mut bad = false;
        visit(g, &mut |n| {
            match n {
                N::Gen(..) => bad = true,
                N::Op(o, _) if &**o == "gen_byte" => bad = true,
                _ => {}
            }
        });
        if bad {
            Err("decision on an element of an already collected run".into())
        } else {
            Ok(())
        }
    }

    // --------------------------------------------------------------- events
    fn aged(&self, st: &State, key: &Key) -> State {
        let mut s = st.clone();
        s.steps = 0;
        for f in s.frames.iter_mut() {
            for l in f.locals.iter_mut() {
                *l = age(l, key);
            }
            f.dest = age_place(&f.dest, key);
        }
        for r in s.roots.iter_mut() {
            *r = age(r, key);
        }
        s.symst = s.symst.iter().map(|(k, v)| (age(k, key), age(v, key))).collect();
        s.facts = s.facts.iter().map(|(k, v)| (age(k, key), age(v, key))).collect();
        s.pos = age(&s.pos, key);
        let c = s.counts.get(key).copied().unwrap_or(Some(0));
        s.counts.insert(key.clone(), c.map(|c| c + 1));
        s
    }
    fn emit(&mut self, st: &State, kind: &str, key: &Key, fields: Vec<(&str, String)>) -> R<Result<usize, usize>> {
        let memo_key = (st.clone(), sym(&format!("{}|{:?}", key, fields)));
        if let Some(n) = self.memo.get(&memo_key) {
            return Ok(Err(*n));
        }
        if fields.iter().any(|(_, v)| v.contains("\"gen_byte\"") || v.contains("[\"gen\",")) {
            return Err("a function of a generic stream byte escapes".into());
        }
        for f in &st.frames {
            for l in &f.locals {
                if self.check_guard(l).is_err() {
                    return Err("an effect for each element of an already collected run".into());
                }
            }
        }
        let n = self.new_node(kind);
        self.memo.insert(memo_key, n);
        self.nodes[n].fields.push(("key".into(), jstr(key)));
        for (k, v) in fields {
            self.nodes[n].fields.push((k.into(), v));
        }
        let pos = json(&st.pos);
        self.nodes[n].fields.push(("pos".into(), pos));
        let who: Vec<String> = st
            .frames
            .iter()
            .rev()
            .take(3)
            .map(|f| jstr(&self.inst_name(f.inst)))
            .collect();
        self.nodes[n].fields.push(("fn".into(), format!("[{}]", who.join(","))));
        Ok(Ok(n))
    }
    /// an event with Ok/Err outcomes. `okv` builds the Ok payload in the aged state
    fn fallible(
        &mut self,
        st: &mut State,
        c: &Call<'tcx>,
        kind: &str,
        key: &str,
        fields: Vec<(&str, String)>,
        okf: &mut dyn FnMut(&Interp<'tcx>, &mut State, &Key) -> R<V>,
        errf: &mut dyn FnMut(&Interp<'tcx>, &mut State, &Key) -> R<()>,
    ) -> R<Flow> {
        let key: Key = key.into();
        let n = match self.emit(st, kind, &key, fields)? {
            Ok(n) => n,
            Err(n) => return Ok(Flow::Stop(Stop::Link(n))),
        };
        let dest = age_place(&c.dest, &key);
        let mut c2 = c.clone();
        c2.dest = dest;
        let mut s1 = self.aged(st, &key);
        let v = okf(self, &mut s1, &key)?;
        let s1 = self.ret_state(&s1, &c2, ok(v))?;
        let mut s2 = self.aged(st, &key);
        errf(self, &mut s2, &key)?;
        let s2 = self.ret_state(&s2, &c2, err(Rc::new(N::Err(key.clone(), 0))))?;
        Ok(Flow::Stop(Stop::Node(n, vec![("ok".into(), s1), ("err".into(), s2)])))
    }
    fn no_gen(&self, st: &State, vs: &[V]) -> R<()> {
        for v in vs {
            self.check_guard(&self.freeze(st, v))?;
        }
        Ok(())
    }

    // ------------------------------------------------------------- dispatch
    pub fn call(&mut self, st: &mut State, mut c: Call<'tcx>) -> R<Flow> {
        let tcx = self.tcx;
        let (def, gargs) = match *c.fty.kind() {
            ty::FnDef(d, a) => (d, a.no_bound_vars().unwrap_or(a.skip_binder())),
            ty::FnPtr(..) => {
                let fv = c.fval.clone().ok_or("fn value")?;
                return match &*fv {
                    N::FnV(id) => {
                        let inst = self.insts[*id as usize];
                        self.call_inst(st, c, inst)
                    }
                    _ => {
                        let a: Vec<V> = std::iter::once(fv.clone()).chain(c.args.iter().cloned()).collect();
                        self.opaque_call(st, c, "fnptr", a)
                    }
                };
            }
            _ => return Err(format!("call of {:?}", c.fty)),
        };
        let gargs = tcx.erase_and_anonymize_regions(gargs);
        let tr = tcx.trait_of_assoc(def);
        if let Some(tr) = tr {
            let trp = self.path(tr);
            let name = tcx.item_name(def).to_string();
            let selft = gargs.type_at(0);
            if let Some(f) = self.trait_intercept(st, &mut c, &trp, &name, selft, gargs, def)? {
                return Ok(f);
            }
        }
        if let Some(i) = tcx.intrinsic(def) {
            if let Some(f) = self.intrinsic(st, &mut c, i.name.as_str(), gargs)? {
                return Ok(f);
            }
        }
        let inst = match Instance::try_resolve(tcx, self.env(), def, gargs) {
            Ok(Some(i)) => i,
            _ => {
                let p = self.path(def);
                return self.opaque_call(st, c.clone(), &p, c.args.clone());
            }
        };
        self.call_inst(st, c, inst)
    }
    fn untuple(&mut self, st: &State, c: &mut Call<'tcx>) -> R<()> {
        let last = c.args.pop().ok_or("untuple")?;
        let lt = c.tys.pop().ok_or("untuple")?;
        if let ty::Tuple(ts) = lt.kind() {
            for (i, t) in ts.iter().enumerate() {
                let v = self.step(st, &last, &Pe::F(i as u32, ts.len() as u32, "tuple".into()), 0)?;
                c.args.push(v);
                c.tys.push(t);
            }
            Ok(())
        } else {
            Err("untuple of non-tuple".into())
        }
    }
    pub fn call_inst(&mut self, st: &mut State, mut c: Call<'tcx>, inst: Instance<'tcx>) -> R<Flow> {
        let tcx = self.tcx;
        match inst.def {
            InstanceKind::Item(d) => {
                if tcx.is_closure_like(d) {
                    if c.args.len() == 2 && matches!(c.tys[1].kind(), ty::Tuple(_)) {
                        // rust-call: closure bodies take their arguments untupled
                        let nargs = {
                            let id = self.inst_id(inst);
                            self.body(id)?.arg_count
                        };
                        let tup = matches!(c.tys[1].kind(), ty::Tuple(ts) if ts.len() + 1 == nargs);
                        if tup && !c.untupled {
                            self.untuple(st, &mut c)?;
                        }
                    }
                    return self.inline(st, c, inst, None);
                }
                if tcx.is_constructor(d) {
                    // a tuple constructor used as a function
                    let t = tcx.erase_and_anonymize_regions(tcx.fn_sig(d).instantiate(tcx, inst.args).skip_norm_wip().skip_binder().output());
                    if let ty::Adt(def, _) = t.kind() {
                        let v = def.variant_index_with_ctor_id(d).as_u32();
                        let r = agg(&self.adt_name(t), v, c.args.clone());
                        return self.done(st, &c, r);
                    }
                }
                let kr = self.crate_of(d);
                let mp = format!("{}{}", kr, self.mpath(d));
                let nice = self.path(d);
                if let Some(f) = self.item_intercept(st, &mut c, d, inst.args, &mp, &nice)? {
                    return Ok(f);
                }
                if self.mode.invisible.iter().any(|p| nice.contains(p.as_str())) {
                    return self.invisible_call(st, c, &nice);
                }
                self.note_unsafe(st, &c, d, &nice);
                if self.may_inline(d, &kr, &mp) && tcx.is_mir_available(d) {
                    return self.inline(st, c, inst, None);
                }
                if c.ret.is_none() || c.dty.is_never() {
                    let n = self.panic_node(st, "panic", &nice, c.span);
                    return Ok(Flow::Stop(Stop::Link(n)));
                }
                let name = format!("{}<{}>", nice, self.garg_str(inst.args));
                let a = c.args.clone();
                self.opaque_call(st, c, &name, a)
            }
            InstanceKind::Intrinsic(d) => {
                let name = tcx.item_name(d).to_string();
                if let Some(f) = self.intrinsic(st, &mut c, &name, inst.args)? {
                    return Ok(f);
                }
                if tcx.intrinsic(d).map(|i| !i.must_be_overridden).unwrap_or(false) && tcx.is_mir_available(d) {
                    return self.inline(st, c, Instance::new_raw(d, inst.args), None);
                }
                Err(format!("intrinsic {}", name))
            }
            InstanceKind::Virtual(d, _) => {
                if self.path(d).ends_with("any::Any::type_id") {
                    let mut v = self.deref_load(st, &c.args[0].clone())?;
                    if let N::Box(x) = &*v.clone() {
                        v = x.clone();
                    }
                    if let N::Op(o, a) = &*v {
                        if let ("dyn", N::Const(t)) = (&**o, &*a[0]) {
                            let t = konst(&format!("typeid {}", t));
                            return self.done(st, &c, t);
                        }
                    }
                }
                let p = format!("virtual {}", self.path(d));
                let a = c.args.clone();
                self.opaque_call(st, c, &p, a)
            }
            InstanceKind::Shim(k) => match k {
                ShimKind::DropGlue(..) => self.done(st, &c, unit()),
                ShimKind::ClosureOnce { closure, .. } => {
                    // by-value closure called through its &mut/& body
                    let ct = inst.args.type_at(0);
                    let cargs = match ct.kind() {
                        ty::Closure(_, a) => *a,
                        _ => return Err("closure shim".into()),
                    };
                    let body = Instance::new_raw(closure, cargs);
                    self.untuple(st, &mut c)?;
                    c.untupled = true;
                    let cell = c.args[0].clone();
                    self.inline(st, c, body, Some(cell))
                }
                ShimKind::FnPtr(_, t) => {
                    self.untuple(st, &mut c)?;
                    c.untupled = true;
                    let f = c.args.remove(0);
                    c.tys.remove(0);
                    match *t.kind() {
                        ty::FnDef(d, a) => {
                            let a = tcx.erase_and_anonymize_regions(a.no_bound_vars().unwrap_or(a.skip_binder()));
                            c.fty = Ty::new_fn_def(tcx, d, ty::Binder::dummy(a));
                            c.fval = None;
                            self.call(st, c)
                        }
                        _ => {
                            // receiver is fn pointer by value or by reference
                            let mut f = f;
                            if let N::Ref(p) = &*f {
                                f = self.load(st, p)?;
                            }
                            match &*f {
                                N::FnV(id) => {
                                    let i = self.insts[*id as usize];
                                    self.call_inst(st, c, i)
                                }
                                _ => {
                                    let a = std::iter::once(f.clone()).chain(c.args.iter().cloned()).collect();
                                    self.opaque_call(st, c, "fnptr", a)
                                }
                            }
                        }
                    }
                }
                ShimKind::Reify(d, _) | ShimKind::VTable(d) => {
                    let i = Instance::new_raw(d, inst.args);
                    self.call_inst(st, c, i)
                }
                ShimKind::Clone(..) => {
                    let v = self.deref_load(st, &c.args[0].clone())?;
                    self.done(st, &c, v)
                }
                _ => Err(format!("shim {:?}", inst.def)),
            },
            _ => Err(format!("instance {:?}", inst.def)),
        }
    }
    fn garg_str(&self, a: ty::GenericArgsRef<'tcx>) -> String {
        a.iter()
            .filter(|x| x.as_region().is_none())
            .map(|x| match x.as_type() {
                Some(t) => self.tystr(t),
                None => format!("{:?}", x),
            })
            .collect::<Vec<_>>()
            .join(",")
    }
    pub fn deref_load(&self, st: &State, v: &V) -> R<V> {
        let p = self.deref(v)?;
        self.load(st, &p)
    }
    pub fn inline(&mut self, st: &mut State, c: Call<'tcx>, inst: Instance<'tcx>, closure_cell: Option<V>) -> R<Flow> {
        if st.frames.len() > 80 {
            return Err("call depth".into());
        }
        let id = self.inst_id(inst);
        if st.frames.iter().filter(|f| f.inst == id).count() > 4 {
            return Err(format!("recursion in {}", self.inst_name(id)));
        }
        let b = self.body(id)?;
        if c.args.len() != b.arg_count {
            return Err(format!("arity of {} ({} vs {})", self.inst_name(id), c.args.len(), b.arg_count));
        }
        let nm = self.inst_name(id);
        self.inlined.insert(nm);
        let mut locals = vec![uninit(); b.local_decls.len() + closure_cell.is_some() as usize];
        for (i, a) in c.args.into_iter().enumerate() {
            locals[i + 1] = a;
        }
        if let Some(v) = closure_cell {
            let depth = st.frames.len() as u32;
            let slot = b.local_decls.len();
            locals[slot] = v;
            locals[1] = Rc::new(N::Ref(Place { cell: Cell::Local(depth, slot as u32), path: vec![] }));
        }
        st.frames.push(Frame { inst: id, bb: 0, st: 0, locals, dest: c.dest, ret: c.ret });
        Ok(Flow::Next)
    }
    /// restart the call with another function
    fn redirect(&mut self, st: &mut State, mut c: Call<'tcx>, model: &str, gargs: Vec<GenericArg<'tcx>>, args: Vec<V>, tys: Vec<Ty<'tcx>>) -> R<Flow> {
        let d = *self.models.get(&format!("models::{}", model)).ok_or_else(|| format!("no model {}", model))?;
        let tcx = self.tcx;
        let ga = tcx.mk_args(&gargs);
        let n = tcx.generics_of(d).count();
        // late-bound lifetimes are erased; early-bound counts must match
        if n != gargs.len() {
            return Err(format!("model {} generics {} vs {}", model, n, gargs.len()));
        }
        c.args = args;
        c.tys = tys;
        let inst = Instance::new_raw(d, ga);
        self.inline(st, c, inst, None)
    }
    fn may_inline(&self, d: DefId, kr: &str, mp: &str) -> bool {
        if d.is_local() || kr == "binread" {
            return true;
        }
        if kr == "vrt" {
            return !matches!(
                self.tcx.opt_item_name(d).map(|s| s.to_string()).as_deref(),
                Some("opaque") | Some("vec_to_array") | Some("lazy_ref")
            );
        }
        let m = mp.splitn(2, "::").nth(1).unwrap_or("");
        if (kr == "core" || kr == "alloc") && (m.starts_with("io::read") || m.starts_with("io::util") || m.starts_with("io::Read") || m.starts_with("io::Bytes") || m.starts_with("io::Seek") || m.starts_with("io::impls") || m.starts_with("io::seek"))
            && !m.contains("default_read_to_")
            && !m.contains("append_to_string")
        {
            return true;
        }
        if kr == "core" {
            const OK: &[&str] = &[
                "option", "result", "ops", "convert", "iter", "cmp", "mem", "num", "clone", "default", "marker", "bool",
                "char", "array", "slice", "any", "borrow", "tuple", "hint", "intrinsics", "ptr", "ub_checks", "unit", "net",
            ];
            if m.starts_with("num::flt2dec") || m.starts_with("num::dec2flt") || m.starts_with("slice::sort") || m.starts_with("slice::memchr") {
                return false;
            }
            return OK.iter().any(|p| m == *p || m.starts_with(&format!("{}::", p)));
        }
        if kr == "std" {
            return (m.starts_with("io::") && !m.starts_with("io::error") && !m.starts_with("io::stdio") && !m.starts_with("io::buffered"))
                && !m.contains("default_read_to_")
                && !m.contains("append_to_string");
        }
        if kr == "alloc" {
            return m.starts_with("boxed::") && !m.contains("::new") || m.starts_with("borrow::");
        }
        if kr == "array_init" {
            return true;
        }
        false
    }
    fn note_unsafe(&mut self, st: &State, c: &Call<'tcx>, d: DefId, nice: &str) {
        let tcx = self.tcx;
        let f = match st.frames.last() {
            Some(f) => self.insts[f.inst as usize],
            None => return,
        };
        let fd = f.def_id();
        let kr = self.crate_of(fd);
        if kr != "binread" && !fd.is_local() {
            return;
        }
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            return;
        }
        if tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
            let mut pre = "none".to_string();
            let kr = self.crate_of(d);
            if (kr == "binread" || d.is_local()) && tcx.is_mir_available(d) {
                // its body is analysed in this context
                pre = "body".into();
            } else if nice.contains("new_unchecked") && nice.contains("NonZero") {
                pre = format!("nonzero:{}", self.is_nonzero(st, &c.args[0]));
            } else if nice.ends_with("::assume_init") {
                // a value never written is one only where there is nothing to write
                pre = format!("init:{}", c.dty.is_unit() || !has_uninit(&c.args[0]));
            } else if nice.contains("core::mem::") || nice.contains("core::ptr::") {
                let l = nice.rsplit("::").next().unwrap_or("");
                let l = l.split('<').next().unwrap_or("");
                if matches!(l, "zeroed" | "uninitialized" | "transmute_copy" | "read") || nice.contains("zeroed<") || nice.contains("transmute_copy<") {
                    pre = format!("unit:{}", c.dty.is_unit());
                }
            }
            let fname = self.path(fd);
            let loc = tcx.sess.source_map().span_to_diagnostic_string(c.span);
            self.unsafe_ops.insert(format!("{}|{}|{}|{}", nice, fname, pre, loc));
        }
    }
    fn is_nonzero(&self, st: &State, v: &V) -> bool {
        let z = eq0(v);
        let z2 = not(&lt0(&lin_comb(v, -1, &int(0), 1)));
        known(st, &z) == Some(false) || known(st, &z2) == Some(false) || op_fact_nonzero(st, v)
    }
    fn invisible_call(&mut self, st: &mut State, c: Call<'tcx>, nice: &str) -> R<Flow> {
        if c.dty.is_unit() {
            return self.done(st, &c, unit());
        }
        // Results of template writers are always assumed to be ignorable: both outcomes
        let v = op(&format!("template:{}", nice), vec![]);
        self.done(st, &c, v)
    }
    fn mentions_reader(&self, t: Ty<'tcx>) -> bool {
        t.walk().any(|x| match x.as_type() {
            Some(t) => match t.kind() {
                ty::Adt(d, _) => {
                    let p = self.path(d.did());
                    p.ends_with("::Rdr") || p == "Rdr"
                }
                ty::Closure(..) => true,
                _ => false,
            },
            None => false,
        })
    }
    pub fn opaque_call(&mut self, st: &mut State, c: Call<'tcx>, name: &str, args: Vec<V>) -> R<Flow> {
        for t in &c.tys {
            if self.mentions_reader(*t) {
                return Err(format!("opaque higher-order call {}", name));
            }
        }
        let name = name.replace("vrt::", "");
        if self.mode.locks {
            if name.starts_with("lazy_static::lazy::Lazy") && name.contains("::get<") && c.tys.len() == 2 {
                if let (ty::Ref(_, l, _), ty::Ref(_, t, _)) = (c.tys[0].kind(), c.dty.kind()) {
                    let g = vec![(*l).into(), (*t).into(), c.tys[1].into()];
                    let (a, ts) = (c.args.clone(), c.tys.clone());
                    return self.redirect(st, c, "lazy_get", g, a, ts);
                }
            }
            if name.contains("sync::Mutex") && name.contains("::lock<") {
                let fargs: Vec<V> = args.iter().map(|a| self.freeze(st, a)).collect();
                let n = self.new_node("lock");
                let who: Vec<String> = st.frames.iter().rev().take(4).map(|f| jstr(&self.inst_name(f.inst))).collect();
                self.nodes[n].fields.push(("fn".into(), format!("[{}]", who.join(","))));
                let s = self.ret_state(st, &c, op(&format!("call:{}", name), fargs))?;
                return Ok(Flow::Stop(Stop::Node(n, vec![("".into(), s)])));
            }
        }
        self.opaque.insert(name.clone());
        let fargs: Vec<V> = args.iter().map(|a| self.freeze(st, a)).collect();
        self.no_gen(st, &fargs)?;
        for (i, (a, t)) in c.args.iter().zip(&c.tys).enumerate() {
            let m = match t.kind() {
                ty::Ref(_, _, m) => m.is_mut(),
                ty::RawPtr(_, m) => m.is_mut(),
                _ => false,
            };
            if m {
                let p = self.deref(a)?;
                self.store(st, &p, op(&format!("mut:{}#{}", name, i), fargs.clone()))?;
            }
        }
        if c.dty.is_unit() {
            return self.done(st, &c, unit());
        }
        // the pieces of a split string: there is always a first one
        if name.contains("str::") && name.contains("Split") && (name.contains("Iterator>::next") || name.contains("Iterator>::nth")) {
            let fresh = |v: &V| matches!(&**v, N::Op(o, _) if o.starts_with("call:core::str::<impl str>::") && o.contains("split"));
            let recv = match &*fargs[0] {
                N::Op(o, a) if &**o == "&" => fresh(&a[0]),
                _ => fresh(&fargs[0]),
            };
            let first = name.contains("::next") || fargs.len() > 1 && fargs[1] == int(0);
            if recv && first {
                return self.done(st, &c, some(op(&format!("call:{}", name), fargs)));
            }
        }
        self.done(st, &c, op(&format!("call:{}", name), fargs))
    }

    // ----------------------------------------------------- trait intercepts
    fn is_rdr(&self, t: Ty<'tcx>) -> bool {
        matches!(t.kind(), ty::Adt(d, _) if self.path(d.did()) == "vrt::Rdr")
    }
    fn ro_json(&self, st: &State, v: &V) -> String {
        match self.deref_load(st, v) {
            Ok(x) => json(&self.freeze(st, &x)),
            Err(_) => json(v),
        }
    }
    fn trait_intercept(
        &mut self,
        st: &mut State,
        c: &mut Call<'tcx>,
        trp: &str,
        name: &str,
        selft: Ty<'tcx>,
        gargs: ty::GenericArgsRef<'tcx>,
        def: DefId,
    ) -> R<Option<Flow>> {
        let tcx = self.tcx;
        let _ = def;
        match (trp, name) {
            ("binread::BinRead", "read_options") | ("binread::BinRead", "after_parse") => {
                let ts = self.tystr(selft);
                if st.frames.len() == 1 && self.root_inlines && !self.is_leaf(selft) || self.mode.inline_all && !self.is_leaf(selft) || self.mode.inline.iter().any(|x| *x == ts) {
                    return Ok(None);
                }
                // reader must be the (possibly re-borrowed) opaque reader
                let mut rt = gargs.type_at(1);
                while let ty::Ref(_, i, _) = rt.kind() {
                    rt = *i;
                }
                if !self.is_rdr(rt) {
                    return Err(format!("read through adapter {}", rt));
                }
                if name == "read_options" {
                    let fields = vec![
                        ("ty", jstr(&ts)),
                        ("ro", self.ro_json(st, &c.args[1])),
                        ("args", json(&self.freeze(st, &c.args[2]))),
                    ];
                    self.no_gen(st, &c.args[1..].to_vec())?;
                    let cc = c.clone();
                    return Ok(Some(self.fallible(
                        st,
                        &cc,
                        "read",
                        &format!("read {}", ts),
                        fields,
                        &mut |_, s, k| {
                            s.pos = Rc::new(N::Pos(k.clone(), 0));
                            Ok(Rc::new(N::Res(k.clone(), 0)))
                        },
                        &mut |_, s, k| {
                            s.pos = Rc::new(N::PosErr(k.clone(), 0));
                            Ok(())
                        },
                    )?));
                }
                let selfv = self.freeze(st, &c.args[0]);
                self.no_gen(st, &c.args.to_vec())?;
                let fields = vec![
                    ("ty", jstr(&ts)),
                    ("self", json(&selfv)),
                    ("ro", self.ro_json(st, &c.args[2])),
                    ("args", json(&self.freeze(st, &c.args[3]))),
                ];
                let cc = c.clone();
                let target = self.deref(&c.args[0])?;
                return Ok(Some(self.fallible(
                    st,
                    &cc,
                    "ap",
                    &format!("ap {}", ts),
                    fields,
                    &mut |me, s, k| {
                        s.pos = Rc::new(N::Pos(k.clone(), 0));
                        let t = age_place(&target, k);
                        // elements of untracked collections stay as they are: the event itself tells
                        if !me.in_opaque_element(s, &t) {
                            let old = me.load(s, &t)?;
                            me.store(s, &t, op("post", vec![old]))?;
                        }
                        Ok(unit())
                    },
                    &mut |_, s, k| {
                        s.pos = Rc::new(N::PosErr(k.clone(), 0));
                        Ok(())
                    },
                )?));
            }
            ("std::ops::Drop", "drop") | ("core::ops::Drop", "drop") if matches!(selft.kind(), ty::Adt(d, _) if d.is_box()) => {
                // deallocation of a box whose contents were moved out
                return Ok(Some(self.done(st, c, unit())?));
            }
            ("std::clone::Clone", "clone") | ("core::clone::Clone", "clone") => {
                // values are immutable terms: cloning is identity for anything without its own code here
                let peeled = selft;
                let own = matches!(peeled.kind(), ty::Adt(d, _) if d.did().is_local() || self.crate_of(d.did()) == "binread");
                if !own {
                    let v = self.deref_load(st, &c.args[0].clone())?;
                    return Ok(Some(self.done(st, c, v)?));
                }
            }
            ("std::cmp::PartialEq", "eq" | "ne") | ("core::cmp::PartialEq", "eq" | "ne") => {
                return self.eq_call(st, c, name == "ne", selft, gargs.type_at(1));
            }
            ("std::cmp::PartialOrd", "lt" | "le" | "gt" | "ge") | ("core::cmp::PartialOrd", "lt" | "le" | "gt" | "ge") => {
                let (mut x, mut y) = (self.deref_load(st, &c.args[0])?, self.deref_load(st, &c.args[1])?);
                let mut t = selft;
                while let ty::Ref(_, i, _) = t.kind() {
                    x = self.deref_load(st, &x)?;
                    y = self.deref_load(st, &y)?;
                    t = *i;
                }
                if t.is_integral() {
                    let o = match name {
                        "lt" => BinOp::Lt,
                        "le" => BinOp::Le,
                        "gt" => BinOp::Gt,
                        _ => BinOp::Ge,
                    };
                    let v = self.binop(st, o, &x, &y, t)?;
                    return Ok(Some(self.done(st, c, v)?));
                }
            }
            ("std::io::Read", _) | ("binread::io::Read", _) | ("binread::io::no_std::Read", _) if self.is_rdr(selft) => {
                return self.reader_read(st, c, name);
            }
            ("std::io::Seek", _) | ("binread::io::Seek", _) | ("binread::io::no_std::Seek", _) if self.is_rdr(selft) => {
                return self.reader_seek(st, c, name);
            }
            ("std::iter::FromIterator", "from_iter") | ("core::iter::FromIterator", "from_iter") => {
                if let ty::Adt(d, a) = selft.kind() {
                    let p = self.path(d.did());
                    let it = gargs.type_at(2);
                    if p.ends_with("result::Result") {
                        // FromIterator<Result<A, E>> for Result<V, E>
                        let v = a.type_at(0);
                        let e = a.type_at(1);
                        let item = gargs.type_at(1);
                        let aa = match item.kind() {
                            ty::Adt(_, x) => x.type_at(0),
                            _ => return Err("from_iter item".into()),
                        };
                        let g = vec![aa.into(), e.into(), v.into(), it.into()];
                        let (ar, ty_) = (c.args.clone(), c.tys.clone());
                        return Ok(Some(self.redirect(st, c.clone(), "result_from_iter", g, ar, ty_)?));
                    }
                    if p.ends_with("option::Option") {
                        return Err("Option from_iter".into());
                    }
                    if p.ends_with("vec::Vec") {
                        let g = vec![a.type_at(0).into(), it.into()];
                        let (ar, ty_) = (c.args.clone(), c.tys.clone());
                        return Ok(Some(self.redirect(st, c.clone(), if self.mode.alloc { "vec_from_iter_alloc" } else { "vec_from_iter" }, g, ar, ty_)?));
                    }
                }
            }
            ("std::iter::Extend", "extend") | ("core::iter::Extend", "extend") => {
                if let ty::Adt(d, a) = selft.kind() {
                    if self.path(d.did()).ends_with("vec::Vec") {
                        let item = gargs.type_at(1);
                        if item == a.type_at(0) {
                            let g = vec![a.type_at(0).into(), gargs.type_at(2).into()];
                            let (ar, ty_) = (c.args.clone(), c.tys.clone());
                            return Ok(Some(self.redirect(st, c.clone(), if self.mode.alloc { "vec_extend_alloc" } else { "vec_extend" }, g, ar, ty_)?));
                        }
                        return Err("Vec::extend by reference".into());
                    }
                }
            }
            ("std::iter::Iterator", _) | ("core::iter::Iterator", _) => {
                return self.iterator_call(st, c, name, selft, gargs);
            }
            ("std::iter::DoubleEndedIterator", "next_back") | ("core::iter::DoubleEndedIterator", "next_back") => {
                if self.iter_kind(selft).is_some() {
                    return self.iter_next_back(st, c);
                }
            }
            ("std::iter::ExactSizeIterator", "len") | ("core::iter::ExactSizeIterator", "len") => {
                if self.iter_kind(selft).is_some() {
                    let v = self.deref_load(st, &c.args[0])?;
                    let l = self.iter_len(st, &v)?;
                    return Ok(Some(self.done(st, c, l)?));
                }
            }
            ("std::iter::IntoIterator", "into_iter") | ("core::iter::IntoIterator", "into_iter") => {
                let v = c.args[0].clone();
                match selft.kind() {
                    ty::Adt(d, _) if self.path(d.did()).ends_with("vec::Vec") => {
                        let l = self.as_list(&v);
                        return Ok(Some(self.done(st, c, Rc::new(N::IntoIter(l)))?));
                    }
                    ty::Array(..) => {
                        let l = self.as_list(&v);
                        return Ok(Some(self.done(st, c, Rc::new(N::IntoIter(l)))?));
                    }
                    ty::Ref(_, i, _) => {
                        let listy = match i.kind() {
                            ty::Slice(_) | ty::Array(..) => true,
                            ty::Adt(d, _) => self.path(d.did()).ends_with("vec::Vec"),
                            _ => false,
                        };
                        if listy {
                            let r = self.slice_iter(st, &v)?;
                            return Ok(Some(self.done(st, c, r)?));
                        }
                    }
                    _ => {
                        if self.iter_kind(selft).is_some() {
                            return Ok(Some(self.done(st, c, v)?));
                        }
                    }
                }
            }
            ("std::ops::Deref", "deref") | ("std::ops::DerefMut", "deref_mut") | ("core::ops::Deref", "deref") | ("core::ops::DerefMut", "deref_mut") => {
                if let ty::Adt(d, _) = selft.kind() {
                    let p = self.path(d.did());
                    if p.ends_with("vec::Vec") || p.ends_with("string::String") {
                        let v = c.args[0].clone();
                        return Ok(Some(self.done(st, c, v)?));
                    }
                    if p.ends_with("boxed::Box") {
                        let mut pl = self.deref(&c.args[0])?;
                        pl.path.push(Pe::BoxIn);
                        let v = self.mkref(pl);
                        return Ok(Some(self.done(st, c, v)?));
                    }
                }
            }
            ("std::convert::AsRef", "as_ref") | ("std::convert::AsMut", "as_mut") | ("std::borrow::Borrow", "borrow") | ("std::borrow::BorrowMut", "borrow_mut")
            | ("core::convert::AsRef", "as_ref") | ("core::convert::AsMut", "as_mut") => {
                let listy = match selft.kind() {
                    ty::Slice(_) | ty::Array(..) | ty::Str => true,
                    ty::Adt(d, _) => {
                        let p = self.path(d.did());
                        p.ends_with("vec::Vec") || p.ends_with("string::String")
                    }
                    _ => false,
                };
                if listy {
                    let v = c.args[0].clone();
                    return Ok(Some(self.done(st, c, v)?));
                }
                if let ty::Adt(d, _) = selft.kind() {
                    if self.path(d.did()) == "vrt::Data" {
                        // the same bytes every time
                        let base = self.deref_load(st, &c.args[0])?;
                        let v = op("data", vec![base]);
                        return Ok(Some(self.done(st, c, v)?));
                    }
                }
            }
            ("std::ops::Index", "index") | ("std::ops::IndexMut", "index_mut") | ("core::ops::Index", "index") | ("core::ops::IndexMut", "index_mut") => {
                let listy = match selft.kind() {
                    ty::Slice(_) | ty::Array(..) => true,
                    ty::Adt(d, _) => self.path(d.did()).ends_with("vec::Vec"),
                    _ => false,
                };
                if listy {
                    return self.index_call(st, c, gargs.type_at(1)).map(Some);
                }
            }
            ("std::default::Default", "default") | ("core::default::Default", "default") => {
                if let ty::Adt(d, _) = selft.kind() {
                    let p = self.path(d.did());
                    if p.ends_with("vec::Vec") {
                        return Ok(Some(self.done(st, c, Rc::new(N::List(vec![])))?));
                    }
                    if p.starts_with("vrt::L") {
                        let ts = self.tystr(selft);
                        return Ok(Some(self.done(st, c, op(&format!("default {}", ts), vec![]))?));
                    }
                }
            }
            _ => {}
        }
        let _ = tcx;
        Ok(None)
    }
    fn is_leaf(&self, t: Ty<'tcx>) -> bool {
        match t.kind() {
            ty::Adt(d, _) => self.crate_of(d.did()) == "vrt",
            _ => false,
        }
    }
    fn eq_call(&mut self, st: &mut State, c: &mut Call<'tcx>, ne: bool, a: Ty<'tcx>, b: Ty<'tcx>) -> R<Option<Flow>> {
        let (mut ta, mut tb) = (a, b);
        let mut pa = c.args[0].clone();
        let mut pb = c.args[1].clone();
        // peel matching references
        while let (ty::Ref(_, x, _), ty::Ref(_, y, _)) = (ta.kind(), tb.kind()) {
            pa = self.deref_load(st, &pa)?;
            pb = self.deref_load(st, &pb)?;
            ta = *x;
            tb = *y;
        }
        let x = self.deref_load(st, &pa)?;
        let y = self.deref_load(st, &pb)?;
        let fin = |me: &mut Self, st: &mut State, c: &Call<'tcx>, e: V| -> R<Option<Flow>> {
            let e = if ne { not(&e) } else { e };
            Ok(Some(me.done(st, c, e)?))
        };
        if ta.is_integral() || ta.is_char() || ta.is_bool() {
            let v = self.binop(st, BinOp::Eq, &x, &y, ta)?;
            return fin(self, st, c, v);
        }
        if ta.is_unit() {
            return fin(self, st, c, boolean(true));
        }
        let transparent = match ta.kind() {
            ty::Adt(d, _) => {
                let kr = self.crate_of(d.did());
                let p = self.path(d.did());
                d.did().is_local() || kr == "binread" || p.ends_with("option::Option") || p.ends_with("cmp::Ordering")
            }
            _ => false,
        };
        if transparent {
            if a == ta && b == tb {
                return Ok(None);
            }
            // call the peeled instance
            let tcx = self.tcx;
            let tr = tcx.trait_of_assoc(match *c.fty.kind() {
                ty::FnDef(d, _) => d,
                _ => return Err("eq".into()),
            });
            let d = match *c.fty.kind() {
                ty::FnDef(d, _) => d,
                _ => unreachable!(),
            };
            let _ = tr;
            let ga = tcx.mk_args(&[ta.into(), tb.into()]);
            let mut c2 = c.clone();
            c2.args = vec![pa, pb];
            c2.fty = Ty::new_fn_def(tcx, d, ty::Binder::dummy(ga));
            return Ok(Some(self.call(st, c2)?));
        }
        let fx = self.freeze(st, &x);
        let fy = self.freeze(st, &y);
        let e = if fx == fy && !ta.is_floating_point() && !self.is_leaf(ta) {
            boolean(true)
        } else if ground(&fx) && ground(&fy) && !ta.is_floating_point() {
            boolean(unlist(&fx) == unlist(&fy))
        } else {
            op("eq", sort2(&fx, &fy))
        };
        fin(self, st, c, e)
    }

    // --------------------------------------------------------------- reader
    fn reader_read(&mut self, st: &mut State, c: &mut Call<'tcx>, name: &str) -> R<Option<Flow>> {
        match name {
            "by_ref" => {
                let v = c.args[0].clone();
                Ok(Some(self.done(st, c, v)?))
            }
            "read_exact" => {
                let bp = self.deref(&c.args[1])?;
                let buf = self.load(st, &bp)?;
                let len = self.len_of(st, &buf);
                if as_int(&len) == Some(0) {
                    return Ok(Some(self.done(st, c, ok(unit()))?));
                }
                let fields = vec![("len", json(&len))];
                let p0 = st.pos.clone();
                let p1 = add(&p0, &len);
                let cc = c.clone();
                Ok(Some(self.fallible(
                    st,
                    &cc,
                    "rx",
                    "rx",
                    fields,
                    &mut |me, s, k| {
                        let p0 = age(&p0, k);
                        let p1 = age(&p1, k);
                        let bp = age_place(&bp, k);
                        let l = age(&len, k);
                        let v = match as_int(&l) {
                            Some(n) if n <= 32 => {
                                agg("array", 0, (0..n).map(|i| op("byte_at", vec![addc(&p0, i)])).collect())
                            }
                            _ => op("stream", vec![p0.clone(), p1.clone()]),
                        };
                        let old = me.load(s, &bp)?;
                        let v = match &*old {
                            N::List(_) if bp.path.is_empty() || !matches!(bp.path.last(), Some(Pe::Sub(..))) => Rc::new(N::List(vec![Seg::Bytes(p0.clone(), p1.clone())])),
                            _ => v,
                        };
                        me.store(s, &bp, v)?;
                        s.pos = p1;
                        Ok(unit())
                    },
                    &mut |me, s, k| {
                        let bp = age_place(&bp, k);
                        me.store(s, &bp, op("clobbered", vec![]))?;
                        s.pos = Rc::new(N::PosErr(k.clone(), 0));
                        Ok(())
                    },
                )?))
            }
            "read" => {
                let bp = self.deref(&c.args[1])?;
                if self.mode.bufs {
                    if let (Cell::Sym(_) | Cell::Root(_), [] | [Pe::Sub(..)]) = (&bp.cell, &bp.path[..]) {
                        return self.read_region(st, c, bp);
                    }
                }
                let buf = self.load(st, &bp)?;
                let len = self.len_of(st, &buf);
                let mut fields = vec![("len", json(&len))];
                if self.mode.bufs {
                    fields.push(("at", json(&int(0))));
                }
                let key: Key = "rd".into();
                let n = match self.emit(st, "rd", &key, fields)? {
                    Ok(n) => n,
                    Err(n) => return Ok(Some(Flow::Stop(Stop::Link(n)))),
                };
                let mut c2 = c.clone();
                c2.dest = age_place(&c.dest, &key);
                let bp = age_place(&bp, &key);
                let base = self.aged(st, &key);
                let mut outs = vec![];
                if as_int(&len) == Some(1) {
                    let s0 = self.ret_state(&base, &c2, ok(int(0)))?;
                    outs.push(("ok0".into(), s0));
                    let mut s1 = base.clone();
                    let b = op("byte_at", vec![s1.pos.clone()]);
                    let v = match &*buf {
                        N::List(_) => Rc::new(N::List(vec![Seg::E(b)])),
                        _ => agg("array", 0, vec![b]),
                    };
                    self.store(&mut s1, &bp, v)?;
                    s1.pos = addc(&s1.pos, 1);
                    let s1 = self.ret_state(&s1, &c2, ok(int(1)))?;
                    outs.push(("ok1".into(), s1));
                } else {
                    let mut s1 = base.clone();
                    let r: V = Rc::new(N::Res(key.clone(), 0));
                    let p1 = add(&s1.pos, &r);
                    let old = self.load(&s1, &bp)?;
                    let v = op("readinto", vec![old, s1.pos.clone(), p1.clone()]);
                    self.store(&mut s1, &bp, v)?;
                    s1.pos = p1;
                    assume(&mut s1, &lt0(&r), false);
                    let over = lt0(&sub(&age(&len, &key), &r));
                    assume(&mut s1, &over, false);
                    let s1 = self.ret_state(&s1, &c2, ok(r))?;
                    outs.push(("ok".into(), s1));
                }
                let mut s2 = base;
                if self.mode.bufs {
                    s2 = self.pos_kept(s2, st, &key);
                } else {
                    s2.pos = Rc::new(N::PosErr(key.clone(), 0));
                }
                let s2 = self.ret_state(&s2, &c2, err(Rc::new(N::Err(key.clone(), 0))))?;
                outs.push(("err".into(), s2));
                Ok(Some(Flow::Stop(Stop::Node(n, outs))))
            }
            "bytes" | "take" | "chain" => Ok(None),
            "read_to_end" | "read_to_string" | "read_vectored" | "read_buf" | "read_buf_exact" => {
                Err(format!("reader method {}", name))
            }
            _ => Ok(None),
        }
    }
    /// a failing `read` has consumed nothing: the position it leaves is the one before it
    fn pos_kept(&self, mut s: State, before: &State, key: &Key) -> State {
        if matches!(&*before.pos, N::Pos(k, 0) if k == key) {
            let k = key.clone();
            let mut f = |n: &N| match n {
                N::Pos(kk, 1) if *kk == k => Some(Rc::new(N::Pos(k.clone(), 0)) as V),
                _ => None,
            };
            for fr in s.frames.iter_mut() {
                for l in fr.locals.iter_mut() {
                    *l = map(l, &mut f);
                }
                fr.dest = map_place(&fr.dest, &mut f);
            }
            for r in s.roots.iter_mut() {
                *r = map(r, &mut f);
            }
            s.symst = s.symst.iter().map(|(k, v)| (map(k, &mut f), map(v, &mut f))).collect();
            s.facts = s.facts.iter().map(|(k, v)| (map(k, &mut f), map(v, &mut f))).collect();
            s.pos = map(&s.pos, &mut f);
        }
        s
    }
    /// one `read` into a region of a buffer whose contents are the reader's business
    fn read_region(&mut self, st: &mut State, c: &Call<'tcx>, bp: Place) -> R<Option<Flow>> {
        let (at, len) = match bp.path.first() {
            Some(Pe::Sub(a, b)) => (a.clone(), sub(b, a)),
            _ => {
                let v = self.load(st, &bp)?;
                (int(0), self.len_of(st, &v))
            }
        };
        let key: Key = "rd".into();
        let n = match self.emit(st, "rd", &key, vec![("len", json(&len)), ("at", json(&at))])? {
            Ok(n) => n,
            Err(n) => return Ok(Some(Flow::Stop(Stop::Link(n)))),
        };
        let mut c2 = c.clone();
        c2.dest = age_place(&c.dest, &key);
        let base = self.aged(st, &key);
        let s0 = self.pos_kept(base.clone(), st, &key);
        let c0 = self.kept_call(&c2, st, &key);
        let s0 = self.ret_state(&s0, &c0, ok(int(0)))?;
        let mut s1 = base.clone();
        let p1: V = Rc::new(N::Pos(key.clone(), 0));
        let r = sub(&p1, &s1.pos);
        s1.pos = p1;
        assume(&mut s1, &lt0(&addc(&r, -1)), false);
        let over = lt0(&sub(&age(&len, &key), &r));
        assume(&mut s1, &over, false);
        let s1 = self.ret_state(&s1, &c2, ok(r))?;
        let s2 = self.pos_kept(base, st, &key);
        let s2 = self.ret_state(&s2, &c0, err(Rc::new(N::Err(key.clone(), 0))))?;
        Ok(Some(Flow::Stop(Stop::Node(n, vec![("ok0".into(), s0), ("ok1".into(), s1), ("err".into(), s2)]))))
    }
    fn kept_call(&self, c: &Call<'tcx>, before: &State, key: &Key) -> Call<'tcx> {
        let mut c = c.clone();
        if matches!(&*before.pos, N::Pos(k, 0) if k == key) {
            let k = key.clone();
            c.dest = map_place(&c.dest, &mut |n: &N| match n {
                N::Pos(kk, 1) if *kk == k => Some(Rc::new(N::Pos(k.clone(), 0)) as V),
                _ => None,
            });
        }
        c
    }
    /// `Bytes::next` over the opaque reader: a byte, the end of the stream, or an error (retries
    /// after interruptions are the iterator's own business)
    fn next_byte(&mut self, st: &mut State, c: &Call<'tcx>) -> R<Flow> {
        let key: Key = "rb".into();
        let n = match self.emit(st, "rd", &key, vec![("len", json(&int(1)))])? {
            Ok(n) => n,
            Err(n) => return Ok(Flow::Stop(Stop::Link(n))),
        };
        let mut c2 = c.clone();
        c2.dest = age_place(&c.dest, &key);
        let base = self.aged(st, &key);
        let s0 = self.ret_state(&base, &c2, none())?;
        let mut s1 = base.clone();
        let b = op("byte_at", vec![s1.pos.clone()]);
        s1.pos = addc(&s1.pos, 1);
        let s1 = self.ret_state(&s1, &c2, some(ok(b)))?;
        let mut s2 = base;
        s2.pos = Rc::new(N::PosErr(key.clone(), 0));
        let s2 = self.ret_state(&s2, &c2, some(err(Rc::new(N::Err(key.clone(), 0)))))?;
        Ok(Flow::Stop(Stop::Node(n, vec![("ok0".into(), s0), ("ok1".into(), s1), ("err".into(), s2)])))
    }
    fn reader_seek(&mut self, st: &mut State, c: &mut Call<'tcx>, name: &str) -> R<Option<Flow>> {
        let target: V;
        let mut tell = false;
        // query: asks for the position, as opposed to setting it to where it already is
        let mut query = false;
        match name {
            "stream_position" => {
                target = st.pos.clone();
                tell = true;
                query = true;
            }
            "rewind" => target = int(0),
            "seek_relative" => target = add(&st.pos, &c.args[1]),
            "seek" => {
                let sf = c.args[1].clone();
                let t = c.tys[1];
                let vname = |i: u32| -> String {
                    match t.kind() {
                        ty::Adt(d, _) => d.variant(rustc_abi::VariantIdx::from_u32(i)).name.to_string(),
                        _ => String::new(),
                    }
                };
                target = match &*sf {
                    N::Agg(_, i, f) => match &*vname(*i) {
                        "Start" => f[0].clone(),
                        "Current" => {
                            query = matches!(&*f[0], N::Lin(m, 0) if m.is_empty()) || f[0] == int(0);
                            add(&st.pos, &f[0])
                        }
                        _ => op("from_end", vec![f[0].clone()]),
                    },
                    _ => op("seekto", vec![st.pos.clone(), self.freeze(st, &sf)]),
                };
                if target == st.pos {
                    tell = true;
                }
            }
            _ => return Err(format!("reader method {}", name)),
        }
        let mut unit_ret = false;
        if let ty::Adt(_, a) = c.dty.kind() {
            unit_ret = a.type_at(0).is_unit();
        }
        if !self.mode.io_fail {
            st.pos = target.clone();
            return Ok(Some(self.done(st, c, ok(if unit_ret { unit() } else { target }))?));
        }
        let fields = vec![("to", json(&target)), ("tell", format!("{}", tell)), ("query", format!("{}", query))];
        let cc = c.clone();
        let key = if tell { "tell" } else { "seek" };
        Ok(Some(self.fallible(
            st,
            &cc,
            "seek",
            key,
            fields,
            &mut |_, s, k| {
                let t = age(&target, k);
                s.pos = t.clone();
                Ok(if unit_ret { unit() } else { t })
            },
            &mut |_, s, k| {
                s.pos = Rc::new(N::PosErr(k.clone(), 0));
                Ok(())
            },
        )?))
    }

    // ---------------------------------------------------------------- lists
    pub fn as_list(&self, v: &V) -> V {
        match &**v {
            N::List(_) => v.clone(),
            N::Agg(n, _, fs) if &**n == "array" => Rc::new(N::List(fs.iter().map(|x| Seg::E(x.clone())).collect())),
            N::Op(o, a) if &**o == "stream" => Rc::new(N::List(vec![Seg::Bytes(a[0].clone(), a[1].clone())])),
            N::Op(o, a) if &**o == "repeat" => Rc::new(N::List(vec![Seg::Rep(a[0].clone(), a[1].clone())])),
            N::Op(o, a) if &**o == "arr" => a[0].clone(),
            _ => Rc::new(N::List(vec![Seg::All(v.clone())])),
        }
    }
    fn slice_iter(&mut self, st: &State, r: &V) -> R<V> {
        let p = self.deref(r)?;
        let v = self.load(st, &p)?;
        let l = self.len_of(st, &v);
        Ok(Rc::new(N::Iter(p, int(0), l)))
    }
    fn iter_kind(&self, t: Ty<'tcx>) -> Option<&'static str> {
        if let ty::Adt(d, _) = t.kind() {
            let mp = format!("{}{}", self.crate_of(d.did()), self.mpath(d.did()));
            return match &*mp {
                "core::slice::iter::Iter" | "core::slice::iter::IterMut" => Some("slice"),
                "alloc::vec::into_iter::IntoIter" | "core::array::iter::IntoIter" => Some("owned"),
                _ => None,
            };
        }
        None
    }
    fn iter_len(&self, st: &State, v: &V) -> R<V> {
        Ok(match &**v {
            N::Iter(_, a, b) => sub(b, a),
            N::IntoIter(l) => self.len_of(st, l),
            _ => op("itlen", vec![self.freeze(st, v)]),
        })
    }
    fn iter_next(&mut self, st: &mut State, c: &mut Call<'tcx>) -> R<Option<Flow>> {
        let ip = self.deref(&c.args[0])?;
        let mut it = self.load(st, &ip)?;
        // iterating over shared references to the elements of a list: the elements can stand
        // for themselves, nothing in the loop can change them
        let mut selft = c.tys[0];
        while let ty::Ref(_, t, _) = selft.kind() {
            selft = *t;
        }
        let shared = matches!(selft.kind(), ty::Adt(d, _) if self.crate_of(d.did()) == "core" && self.mpath(d.did()) == "::slice::iter::Iter");
        if let (true, N::Iter(p, a, b)) = (shared, &*it) {
            let v = self.load(st, p)?;
            if let N::List(segs) = &*v {
                let open = segs.iter().any(|s| as_int(&seg_len(s, &st.counts)).is_none());
                let plain = segs.iter().all(|s| !matches!(s, Seg::All(_)));
                if open && plain && as_int(a) == Some(0) && *b == self.len_of(st, &v) {
                    it = Rc::new(N::IntoIter(v.clone()));
                }
            }
        }
        let item = |v: V| -> V {
            some(if shared { Rc::new(N::Ref(Place { cell: Cell::Const(v), path: vec![] })) } else { v })
        };
        // a loop that runs once for all the elements of a run has this as a reminder in its iterator
        let reminder = |v: &V| Seg::Rep(v.clone(), int(0));
        match &*it {
            N::Iter(p, a, b) => {
                let g = lt0(&sub(a, b));
                let mut ep = p.clone();
                ep.path.push(Pe::Idx(a.clone()));
                let r = self.mkref(normalise_place(ep));
                let adv: V = Rc::new(N::Iter(p.clone(), addc(a, 1), b.clone()));
                match known(st, &g) {
                    Some(true) => {
                        self.store(st, &ip, adv)?;
                        Ok(Some(self.done(st, c, some(r))?))
                    }
                    Some(false) => Ok(Some(self.done(st, c, none())?)),
                    None => {
                        let mut s1 = st.clone();
                        self.store(&mut s1, &ip, adv)?;
                        self.split(st, c, &g, s1, some(r), st.clone(), none())
                    }
                }
            }
            N::IntoIter(l) => {
                let N::List(segs) = &**l else { return Err("iterator over unknown list".into()) };
                let mut segs: &[Seg] = segs;
                while let Some(Seg::Rep(_, n)) = segs.first() {
                    if as_int(n) != Some(0) {
                        break;
                    }
                    segs = &segs[1..];
                }
                if segs.is_empty() {
                    self.store(st, &ip, Rc::new(N::IntoIter(Rc::new(N::List(vec![])))))?;
                    return Ok(Some(self.done(st, c, none())?));
                }
                let rest = |s: Vec<Seg>| -> V { Rc::new(N::IntoIter(Rc::new(N::List(s)))) };
                match &segs[0] {
                    Seg::E(x) => {
                        let v = x.clone();
                        self.store(st, &ip, rest(segs[1..].to_vec()))?;
                        Ok(Some(self.done(st, c, item(v))?))
                    }
                    Seg::Run(p, k, s, e) => {
                        let (k2, s2, e2) = (k.clone(), *s, *e);
                        // concretely known run: peel one element
                        if let Some(Some(cnt)) = st.counts.get(k) {
                            let total = *cnt - *e as i128 - *s;
                            let agev = (*cnt - 1 - *s) as u32;
                            let kk = k.clone();
                            let v = map(p, &mut |n| match n {
                                N::Res(q, 0) if *q == kk => Some(Rc::new(N::Res(kk.clone(), agev))),
                                _ => None,
                            });
                            let mut r = segs.to_vec();
                            if total <= 1 {
                                r.remove(0);
                            } else {
                                r[0] = Seg::Run(p.clone(), k.clone(), s + 1, *e);
                            }
                            self.store(st, &ip, rest(r))?;
                            return Ok(Some(self.done(st, c, item(v))?));
                        }
                        let v = map(p, &mut |n| match n {
                            N::Res(q, 0) if *q == k2 => Some(Rc::new(N::Gen(k2.clone(), s2, e2))),
                            _ => None,
                        });
                        let mut r = segs.to_vec();
                        r[0] = reminder(&v);
                        self.store(st, &ip, rest(r))?;
                        Ok(Some(self.done(st, c, item(v))?))
                    }
                    // a range of stream bytes of unknown length: one element stands for all of them
                    Seg::Bytes(a, b) if as_int(&sub(b, a)).is_none() => {
                        let v = op("gen_byte", vec![a.clone(), b.clone()]);
                        let mut r = segs.to_vec();
                        r[0] = reminder(&v);
                        self.store(st, &ip, rest(r))?;
                        Ok(Some(self.done(st, c, item(v))?))
                    }
                    Seg::All(_) | Seg::Bytes(..) | Seg::Rep(..) => {
                        let len = seg_len(&segs[0], &st.counts);
                        let (el, more) = match &segs[0] {
                            Seg::Bytes(a, b) => (op("byte_at", vec![a.clone()]), Seg::Bytes(addc(a, 1), b.clone())),
                            Seg::Rep(x, n) => (x.clone(), Seg::Rep(x.clone(), addc(n, -1))),
                            Seg::All(v) => match &**v {
                                N::Op(o, a) if &**o == "slice" => (
                                    op("idx", vec![a[0].clone(), a[1].clone()]),
                                    Seg::All(op("slice", vec![a[0].clone(), addc(&a[1], 1), a[2].clone()])),
                                ),
                                _ => (
                                    op("idx", vec![v.clone(), int(0)]),
                                    Seg::All(op("slice", vec![v.clone(), int(1), op("len", vec![v.clone()])])),
                                ),
                            },
                            _ => unreachable!(),
                        };
                        let len = match &segs[0] {
                            Seg::All(v) => self.len_of(st, v),
                            _ => len,
                        };
                        let g = lt0(&lin_comb(&len, -1, &int(0), 1)); // 0 < len
                        let mut r = segs.to_vec();
                        r[0] = more;
                        let mut s1 = st.clone();
                        self.store(&mut s1, &ip, rest(r))?;
                        match known(st, &g) {
                            Some(true) => {
                                *st = s1;
                                Ok(Some(self.done(st, c, item(el))?))
                            }
                            Some(false) => {
                                self.store(st, &ip, rest(segs[1..].to_vec()))?;
                                self.iter_next(st, c)
                            }
                            None => {
                                if segs.len() > 1 {
                                    return Err("iteration over composite list".into());
                                }
                                self.split(st, c, &g, s1, item(el), st.clone(), none())
                            }
                        }
                    }
                }
            }
            _ => Err("next on unknown iterator".into()),
        }
    }
    fn iter_next_back(&mut self, st: &mut State, c: &mut Call<'tcx>) -> R<Option<Flow>> {
        let ip = self.deref(&c.args[0])?;
        let it = self.load(st, &ip)?;
        match &*it {
            N::Iter(p, a, b) => {
                let g = lt0(&sub(a, b));
                let b1 = addc(b, -1);
                let mut ep = p.clone();
                ep.path.push(Pe::Idx(b1.clone()));
                let r = self.mkref(normalise_place(ep));
                let mut s1 = st.clone();
                self.store(&mut s1, &ip, Rc::new(N::Iter(p.clone(), a.clone(), b1)))?;
                self.split(st, c, &g, s1, some(r), st.clone(), none())
            }
            N::IntoIter(l) => {
                let N::List(segs) = &**l else { return Err("iterator over unknown list".into()) };
                match segs.last() {
                    None => Ok(Some(self.done(st, c, none())?)),
                    Some(Seg::E(x)) => {
                        let v = x.clone();
                        let r = segs[..segs.len() - 1].to_vec();
                        self.store(st, &ip, Rc::new(N::IntoIter(Rc::new(N::List(r)))))?;
                        Ok(Some(self.done(st, c, some(v))?))
                    }
                    _ => Err("next_back over runs".into()),
                }
            }
            _ => Err("next_back on unknown iterator".into()),
        }
    }
    fn split(&mut self, st: &mut State, c: &Call<'tcx>, g: &V, s1: State, v1: V, s2: State, v2: V) -> R<Option<Flow>> {
        let (g, s1, v1, s2, v2) = match &**g {
            N::Op(o, a) if &**o == "not" => (a[0].clone(), s2, v2, s1, v1),
            _ => (g.clone(), s1, v1, s2, v2),
        };
        match known(st, &g) {
            Some(b) => {
                let (s, v) = if b { (s1, v1) } else { (s2, v2) };
                *st = s;
                return Ok(Some(self.done(st, c, v)?));
            }
            None => {}
        }
        self.check_guard(&g)?;
        let mut a = self.ret_state(&s1, c, v1)?;
        assume(&mut a, &g, true);
        a.nbranch += 1;
        let mut b = self.ret_state(&s2, c, v2)?;
        assume(&mut b, &g, false);
        b.nbranch += 1;
        Ok(Some(self.branch(st, &g, vec![("true".into(), a), ("false".into(), b)])))
    }
    fn iterator_call(&mut self, st: &mut State, c: &mut Call<'tcx>, name: &str, selft: Ty<'tcx>, gargs: ty::GenericArgsRef<'tcx>) -> R<Option<Flow>> {
        if self.iter_kind(selft).is_some() {
            match name {
                "next" => return self.iter_next(st, c),
                "size_hint" => {
                    let v = self.deref_load(st, &c.args[0])?;
                    let l = self.iter_len(st, &v)?;
                    let t = agg("tuple", 0, vec![l.clone(), some(l)]);
                    return Ok(Some(self.done(st, c, t)?));
                }
                "count" => {
                    let v = c.args[0].clone();
                    let l = self.iter_len(st, &v)?;
                    return Ok(Some(self.done(st, c, l)?));
                }
                _ => {}
            }
        }
        let rest: Vec<GenericArg<'tcx>> = gargs.iter().collect();
        let (ar, tys) = (c.args.clone(), c.tys.clone());
        let model = match name {
            "fold" => "fold",
            "try_fold" => "try_fold",
            "count" => "count",
            "last" => "last",
            "nth" => "nth",
            "for_each" => "for_each",
            "next" => {
                if let ty::Adt(d, a) = selft.kind() {
                    let mp = format!("{}{}", self.crate_of(d.did()), self.mpath(d.did()));
                    let own = mp.starts_with("binread");
                    if !(own && self.mode.inline.iter().any(|x| x == "Bytes")) && (mp.ends_with("::io::Bytes") || mp.ends_with("::io::util::Bytes") || own && mp.contains("::io::") && mp.ends_with("::Bytes")) {
                        let mut p = self.deref(&c.args[0])?;
                        p.path.push(Pe::F(0, 1, "Bytes".into()));
                        let mut rt = a.type_at(0);
                        while let ty::Ref(_, i, _) = rt.kind() {
                            rt = *i;
                        }
                        if self.is_rdr(rt) {
                            return Ok(Some(self.next_byte(st, c)?));
                        }
                        if own {
                            return Ok(None);
                        }
                        let r = self.mkref(p);
                        return Ok(Some(self.redirect(st, c.clone(), "bytes_next", vec![a.type_at(0).into()], vec![r], vec![tys[0]])?));
                    }
                    if mp == "core::iter::adapters::zip::Zip" {
                        let p = self.deref(&c.args[0])?;
                        let n = self.n_fields(selft, None);
                        let fld = |i: u32| {
                            let mut q = p.clone();
                            q.path.push(Pe::F(i, n, "Zip".into()));
                            q
                        };
                        let (ra, rb) = (self.mkref(fld(0)), self.mkref(fld(1)));
                        return Ok(Some(self.redirect(
                            st,
                            c.clone(),
                            "zip_next",
                            vec![a.type_at(0).into(), a.type_at(1).into()],
                            vec![ra, rb],
                            vec![tys[0], tys[0]],
                        )?));
                    }
                }
                return Ok(None);
            }
            _ => return Ok(None),
        };
        // models take the same generics as the trait method (Self, then its own)
        Ok(Some(self.redirect(st, c.clone(), model, rest, ar, tys)?))
    }
    fn index_call(&mut self, st: &mut State, c: &mut Call<'tcx>, it: Ty<'tcx>) -> R<Flow> {
        let p = self.deref(&c.args[0])?;
        let v = self.load(st, &p)?;
        let len = self.len_of(st, &v);
        let ix = c.args[1].clone();
        if it.is_integral() {
            let mut q = p.clone();
            q.path.push(Pe::Idx(ix.clone()));
            let r = self.mkref(normalise_place(q));
            let g = lt0(&sub(&ix, &len));
            let cc = c.clone();
            return self.require(st, &cc, &g, "bounds", r);
        }
        let name = match it.kind() {
            ty::Adt(d, _) => self.tcx.item_name(d.did()).to_string(),
            _ => return Err("index kind".into()),
        };
        let f = |me: &Self, i: u32, n: u32| me.step(st, &ix, &Pe::F(i, n, "Range".into()), 0);
        let (a, b) = match &*name {
            "Range" => (f(self, 0, 2)?, f(self, 1, 2)?),
            "RangeTo" => (int(0), f(self, 0, 1)?),
            "RangeFrom" => (f(self, 0, 1)?, len.clone()),
            "RangeFull" => {
                let v = c.args[0].clone();
                return self.done(st, c, v);
            }
            "RangeInclusive" => (f(self, 0, 3)?, addc(&f(self, 1, 3)?, 1)),
            "RangeToInclusive" => (int(0), addc(&f(self, 0, 1)?, 1)),
            _ => return Err(format!("index by {}", name)),
        };
        let r = if as_int(&a) == Some(0) && b == len {
            c.args[0].clone()
        } else {
            let mut q = p.clone();
            q.path.push(Pe::Sub(a.clone(), b.clone()));
            self.mkref(normalise_place(q))
        };
        let g1 = not(&lt0(&sub(&len, &b)));
        let g2 = not(&lt0(&sub(&b, &a)));
        let cc = c.clone();
        let k1 = known(st, &g1) == Some(true) || b == len;
        let k2 = known(st, &g2) == Some(true) || as_int(&a) == Some(0);
        let g = if k1 { g2 } else if k2 { g1 } else { op("bool:and", vec![g1, g2]) };
        if k1 && k2 {
            return self.done(st, &cc, r);
        }
        self.require(st, &cc, &g, "bounds", r)
    }

    // ------------------------------------------------------ item intercepts
    fn item_intercept(
        &mut self,
        st: &mut State,
        c: &mut Call<'tcx>,
        d: DefId,
        gargs: ty::GenericArgsRef<'tcx>,
        mp: &str,
        nice: &str,
    ) -> R<Option<Flow>> {
        let tcx = self.tcx;
        let kr = self.crate_of(d);
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        macro_rules! ret {
            ($v:expr) => {{
                let v = $v;
                return Ok(Some(self.done(st, c, v)?));
            }};
        }
        if kr == "vrt" {
            match &*name {
                "pure0" | "pure1" | "pure2" => {
                    let a: Vec<V> = c.args.iter().map(|x| self.freeze(st, x)).collect();
                    let n = gargs.iter().last().map(|x| format!("{}", x)).unwrap_or_default();
                    ret!(op(&format!("{}{}", if c.dty.is_bool() { "bool:p" } else { "p" }, n), a));
                }
                "ev0" | "ev1" => {
                    let a: Vec<V> = c.args.iter().map(|x| self.freeze(st, x)).collect();
                    self.no_gen(st, &a)?;
                    let n = gargs.iter().last().map(|x| format!("{}", x)).unwrap_or_default();
                    let key: Key = format!("ev{}", n).as_str().into();
                    let fields = vec![("args", format!("[{}]", a.iter().map(json).collect::<Vec<_>>().join(",")))];
                    let nd = match self.emit(st, "ev", &key, fields)? {
                        Ok(n) => n,
                        Err(n) => return Ok(Some(Flow::Stop(Stop::Link(n)))),
                    };
                    let s = self.aged(st, &key);
                    let mut c2 = c.clone();
                    c2.dest = age_place(&c.dest, &key);
                    let v: V = if c.dty.is_unit() {
                        unit()
                    } else if c.dty.is_bool() {
                        op("bool:", vec![Rc::new(N::Res(key.clone(), 0))])
                    } else {
                        Rc::new(N::Res(key.clone(), 0))
                    };
                    let s = self.ret_state(&s, &c2, v)?;
                    return Ok(Some(Flow::Stop(Stop::Node(nd, vec![("".into(), s)]))));
                }
                "parse" => {
                    let n = gargs.iter().last().map(|x| format!("{}", x)).unwrap_or_default();
                    let fields = vec![
                        ("ty", jstr(&format!("parse{}", n))),
                        ("ro", self.ro_json(st, &c.args[1])),
                        ("args", json(&self.freeze(st, &c.args[2]))),
                    ];
                    let cc = c.clone();
                    return Ok(Some(self.fallible(
                        st,
                        &cc,
                        "parse",
                        &format!("parse{}", n),
                        fields,
                        &mut |_, s, k| {
                            s.pos = Rc::new(N::Pos(k.clone(), 0));
                            Ok(Rc::new(N::Res(k.clone(), 0)))
                        },
                        &mut |_, s, k| {
                            s.pos = Rc::new(N::PosErr(k.clone(), 0));
                            Ok(())
                        },
                    )?));
                }
                "vec_to_array" => {
                    let l = c.args[0].clone();
                    let n = match c.dty.kind() {
                        ty::Array(_, n) => n.try_to_target_usize(tcx).unwrap_or(0),
                        _ => return Err("vec_to_array".into()),
                    };
                    let mut fs = vec![];
                    for i in 0..n {
                        let x = self.step(st, &l, &Pe::Idx(int(i as i128)), 0)?;
                        fs.push(x);
                    }
                    ret!(agg("array", 0, fs));
                }
                "into_seek_from" => {
                    let a: Vec<V> = c.args.iter().map(|x| self.freeze(st, x)).collect();
                    ret!(op("call:into_seek_from", a));
                }
                "opaque" => return Err("entered an opaque body".into()),
                _ => {}
            }
            return Ok(None);
        }
        if kr == "array_init" && name == "try_array_init" {
            // version 1: <Array, E, F> in some order; version 2: <E, F, T, const N>
            let mut arr = None;
            let mut clo = None;
            let mut others = vec![];
            for t in gargs.types() {
                if t.is_array() && arr.is_none() {
                    arr = Some(t);
                } else if t.is_closure() || t.is_fn() {
                    clo = Some(t);
                } else {
                    others.push(t);
                }
            }
            if let Some(n) = gargs.consts().next() {
                let (Some(f), true) = (clo, gargs.len() == 4) else { return Err("try_array_init generics".into()) };
                let g = vec![gargs.type_at(2).into(), f.into(), gargs.type_at(0).into(), gargs.type_at(2).into(), n.into()];
                let (ar, ty_) = (c.args.clone(), c.tys.clone());
                return Ok(Some(self.redirect(st, c.clone(), "try_array_init", g, ar, ty_)?));
            }
            if let (Some(a), Some(f), Some(e)) = (arr, clo, others.first()) {
                if let ty::Array(el, n) = a.kind() {
                    let g = vec![a.into(), f.into(), (*e).into(), (*el).into(), (*n).into()];
                    let (ar, ty_) = (c.args.clone(), c.tys.clone());
                    return Ok(Some(self.redirect(st, c.clone(), "try_array_init", g, ar, ty_)?));
                }
            }
        }
        if kr == "alloc" && mp.starts_with("alloc::vec::") {
            return self.vec_call(st, c, d, gargs, &name, mp);
        }
        if kr == "alloc" && (nice == "std::vec::from_elem" || nice == "alloc::vec::from_elem") {
            return self.vec_call(st, c, d, gargs, &name, mp);
        }
        if kr == "alloc" && mp.starts_with("alloc::boxed::") {
            match &*name {
                "new" | "pin" | "from" if c.args.len() == 1 && c.dty.is_box() && !c.tys[0].is_box() => {
                    // Box::new(x) and From<T> for Box<T>
                    if c.dty.boxed_ty() == Some(c.tys[0]) {
                        let v = c.args[0].clone();
                        ret!(Rc::new(N::Box(v)));
                    }
                }
                "into_inner" => {
                    let v = self.step(st, &c.args[0].clone(), &Pe::BoxIn, 0)?;
                    ret!(v)
                }
                "as_ref" | "as_mut" | "borrow" | "borrow_mut" => {
                    let mut p = self.deref(&c.args[0])?;
                    p.path.push(Pe::BoxIn);
                    ret!(self.mkref(p))
                }
                _ => {}
            }
        }
        // text that may or may not be borrowed is the same text once owned
        if kr == "alloc" && mp.starts_with("alloc::borrow::") && name == "into_owned" && !matches!(&*c.args[0], N::Agg(..)) {
            let v = c.args[0].clone();
            ret!(v)
        }
        if kr == "alloc" && mp.starts_with("alloc::boxed::") && name == "downcast" {
            if let ty::Adt(_, ra) = c.dty.kind() {
                if let Some(t) = ra.type_at(0).boxed_ty() {
                    let want = konst(&self.tystr(t));
                    if let N::Box(x) = &*c.args[0].clone() {
                        if let N::Op(o, a) = &**x {
                            if &**o == "dyn" {
                                if a[0] == want {
                                    ret!(ok(Rc::new(N::Box(a[1].clone()))));
                                }
                                ret!(err(c.args[0].clone()));
                            }
                        }
                    }
                    let g = op(&format!("bool:is {}", self.tystr(t)), vec![c.args[0].clone()]);
                    let cc = c.clone();
                    let inner = Rc::new(N::Box(op("downcast", vec![want, c.args[0].clone()])));
                    return Ok(Some(self.branch_ret(st, &cc, &g, ok(inner), err(c.args[0].clone()))?));
                }
            }
        }
        if kr == "core" && mp.starts_with("core::any::") && matches!(&*name, "downcast_ref" | "downcast_mut" | "is") {
            let t = gargs.types().last().ok_or("downcast")?;
            let want = konst(&self.tystr(t));
            let mut v = self.deref_load(st, &c.args[0].clone())?;
            if let N::Box(x) = &*v.clone() {
                v = x.clone();
            }
            if let N::Op(o, a) = &*v {
                if &**o == "dyn" {
                    let same = a[0] == want;
                    if name == "is" {
                        ret!(boolean(same));
                    }
                    if !same {
                        ret!(none());
                    }
                    if name == "downcast_ref" {
                        ret!(some(Rc::new(N::Ref(Place { cell: Cell::Const(a[1].clone()), path: vec![] }))));
                    }
                }
            }
        }
        if kr == "alloc" && mp.starts_with("alloc::slice::") {
            match &*name {
                "to_vec" | "into_vec" | "to_owned" => {
                    let v = if name == "into_vec" {
                        self.step(st, &c.args[0].clone(), &Pe::BoxIn, 0)?
                    } else {
                        self.deref_load(st, &c.args[0].clone())?
                    };
                    ret!(self.as_list(&v))
                }
                _ => {}
            }
        }
        if kr == "core" {
            if mp.starts_with("core::mem::") || mp.starts_with("core::ptr::") {
                match &*name {
                    "replace" => {
                        let p = self.deref(&c.args[0])?;
                        let old = self.load(st, &p)?;
                        let v = c.args[1].clone();
                        self.store(st, &p, v)?;
                        self.note_unsafe(st, c, d, nice);
                        ret!(old)
                    }
                    "swap" if mp.starts_with("core::mem") => {
                        let p = self.deref(&c.args[0])?;
                        let q = self.deref(&c.args[1])?;
                        let a = self.load(st, &p)?;
                        let b = self.load(st, &q)?;
                        self.store(st, &p, b)?;
                        self.store(st, &q, a)?;
                        ret!(unit())
                    }
                    "drop" | "forget" => ret!(unit()),
                    "drop_in_place" => ret!(unit()),
                    "transmute_copy" => {
                        self.note_unsafe(st, c, d, nice);
                        let v = self.deref_load(st, &c.args[0].clone())?;
                        let (f, t) = (gargs.type_at(0), gargs.type_at(1));
                        let v = self.transmute(&v, f, t);
                        ret!(v)
                    }
                    "read" | "read_unaligned" if mp.starts_with("core::ptr") && c.args.len() == 1 => {
                        self.note_unsafe(st, c, d, nice);
                        let v = self.deref_load(st, &c.args[0].clone())?;
                        ret!(v)
                    }
                    "write" if mp.starts_with("core::ptr") && c.args.len() == 2 => {
                        self.note_unsafe(st, c, d, nice);
                        let p = self.deref(&c.args[0])?;
                        let v = c.args[1].clone();
                        self.store(st, &p, v)?;
                        ret!(unit())
                    }
                    "size_of" | "align_of" if c.args.is_empty() => {
                        let t = gargs.type_at(0);
                        let l = tcx.layout_of(self.env().as_query_input(t)).map_err(|_| "layout")?;
                        ret!(int(if name == "size_of" { l.size.bytes() as i128 } else { l.align.abi.bytes() as i128 }))
                    }
                    _ => {}
                }
                if mp.contains("maybe_uninit") {
                    match &*name {
                        "uninit" | "zeroed" => {
                            self.note_unsafe(st, c, d, nice);
                            ret!(op(&name, vec![]))
                        }
                        "new" | "assume_init" => {
                            self.note_unsafe(st, c, d, nice);
                            let mut v = c.args[0].clone();
                            if matches!(&*v, N::Op(o, _) if &**o == "uninit") && matches!(self.zst(c.dty).as_ref(), N::Agg(..)) {
                                v = self.zst(c.dty);
                            }
                            ret!(v)
                        }
                        "assume_init_ref" | "assume_init_mut" | "as_ptr" | "as_mut_ptr" => {
                            self.note_unsafe(st, c, d, nice);
                            let v = c.args[0].clone();
                            ret!(v)
                        }
                        "write" => {
                            let p = self.deref(&c.args[0])?;
                            let v = c.args[1].clone();
                            self.store(st, &p, v)?;
                            let r = c.args[0].clone();
                            ret!(r)
                        }
                        _ => {}
                    }
                }
            }
            if mp.starts_with("core::any::") {
                if name == "of" {
                    let t = gargs.type_at(0);
                    let s = format!("typeid {}", self.tystr(t));
                    ret!(konst(&s))
                }
                if name == "type_name" {
                    let t = gargs.type_at(0);
                    let s = self.tystr(t);
                    ret!(op("cref", vec![Rc::new(N::Str(s.as_str().into()))]))
                }
            }
            if mp.starts_with("core::num::nonzero") {
                match &*name {
                    "new_unchecked" => {
                        self.note_unsafe(st, c, d, nice);
                        let v = c.args[0].clone();
                        ret!(v)
                    }
                    "get" => {
                        let v = c.args[0].clone();
                        ret!(v)
                    }
                    "new" => {
                        let v = c.args[0].clone();
                        let t = c.tys[0];
                        let z = self.int_eq(st, &v, &int(0), t);
                        let cc = c.clone();
                        return Ok(Some(self.branch_ret(st, &cc, &z, none(), some(v))?));
                    }
                    "from" => {
                        let v = c.args[0].clone();
                        ret!(v)
                    }
                    _ => {}
                }
            }
            if mp.starts_with("core::num::") || mp.starts_with("core::f32") || mp.starts_with("core::f64") {
                match &*name {
                    "from_be_bytes" | "from_le_bytes" | "from_ne_bytes" => {
                        let o = if name == "from_be_bytes" { "be" } else { "le" };
                        let v = c.args[0].clone();
                        let bytes = self.freeze(st, &v);
                        let n = match &*bytes {
                            N::Agg(_, _, f) => f.len(),
                            _ => 0,
                        };
                        let k = int_class(c.dty);
                        let o = if n == 1 { "le" } else { o };
                        if let (true, N::Agg(_, _, f)) = (c.dty.kind() == tcx.types.u8.kind(), &*bytes) {
                            if n == 1 {
                                let b = f[0].clone();
                                ret!(b)
                            }
                        }
                        ret!(assembled(o, konst(&k), bytes))
                    }
                    "swap_bytes" | "from_be" | "to_be" => {
                        let v = c.args[0].clone();
                        ret!(swap(&v, c.dty, tcx))
                    }
                    "from_le" | "to_le" => {
                        let v = c.args[0].clone();
                        ret!(v)
                    }
                    "pow" => {
                        if let (Some(b), Some(e)) = (as_int(&c.args[0]), as_int(&c.args[1])) {
                            if let Some(r) = b.checked_pow(e as u32) {
                                ret!(wrap(r, c.dty, tcx))
                            }
                        }
                    }
                    "min" | "max" if c.args.len() == 2 => {}
                    _ => {}
                }
                let t = c.dty;
                if name == "saturating_sub" && c.args.len() == 2 && matches!(t.kind(), ty::Uint(_)) {
                    let d = sub(&c.args[0], &c.args[1]);
                    return Ok(Some(self.branch_ret(st, c, &lt0(&d), int(0), d)?));
                }
                if let Some(r) = self.num_call(st, c, &name, t)? {
                    return Ok(Some(self.done(st, c, r)?));
                }
            }
            if mp.starts_with("core::slice::") {
                if let Some(f) = self.slice_call(st, c, &name, mp, gargs)? {
                    return Ok(Some(f));
                }
            }
            if mp.starts_with("core::hint::") && (name == "assert_unchecked" || name == "black_box" || name == "must_use") {
                if name == "assert_unchecked" {
                    ret!(unit())
                }
                let v = c.args[0].clone();
                ret!(v)
            }
            if mp.starts_with("core::panicking::") || nice.contains("unwrap_failed") || nice.contains("expect_failed") {
                let n = self.panic_node(st, "panic", nice, c.span);
                return Ok(Some(Flow::Stop(Stop::Link(n))));
            }
            if mp.starts_with("core::array::") && matches!(&*name, "as_slice" | "as_mut_slice" | "as_ref" | "as_mut") {
                let v = c.args[0].clone();
                ret!(v)
            }
        }
        if (kr == "std" && mp.starts_with("std::rt")) || mp.starts_with("std::panicking") {
            let n = self.panic_node(st, "panic", nice, c.span);
            return Ok(Some(Flow::Stop(Stop::Link(n))));
        }
        Ok(None)
    }
    fn num_call(&mut self, st: &mut State, c: &Call<'tcx>, name: &str, t: Ty<'tcx>) -> R<Option<V>> {
        let tcx = self.tcx;
        let two = c.args.len() == 2;
        if let (true, Some(x)) = (name.starts_with("wrapping_") && two, c.args.get(0)) {
            let y = &c.args[1];
            let b = match name {
                "wrapping_add" => BinOp::Add,
                "wrapping_sub" => BinOp::Sub,
                "wrapping_mul" => BinOp::Mul,
                _ => return Ok(None),
            };
            let r = self.arith(b, x, y, t);
            if let Some(i) = as_int(&r) {
                return Ok(Some(wrap(i, t, tcx)));
            }
            if r == *x {
                return Ok(Some(r));
            }
            return Ok(Some(op(&format!("wrap.{}", t), vec![r])));
        }
        if name == "saturating_sub" && two && matches!(t.kind(), ty::Uint(_)) {
            let l = lt0(&sub(&c.args[0], &c.args[1]));
            match known(st, &l) {
                Some(true) => return Ok(Some(int(0))),
                Some(false) => return Ok(Some(sub(&c.args[0], &c.args[1]))),
                None => {}
            }
        }
        if name.starts_with("saturating_") && two {
            if let (Some(_), Some(_)) = (as_int(&c.args[0]), as_int(&c.args[1])) {
                return Ok(None);
            }
            return Ok(Some(op(&format!("{}.{}", name, t), c.args.clone())));
        }
        if matches!(name, "count_ones" | "leading_zeros" | "trailing_zeros" | "is_power_of_two" | "next_power_of_two" | "abs" | "unsigned_abs" | "rem_euclid" | "div_euclid" | "next_multiple_of" | "abs_diff" | "rotate_left" | "rotate_right" | "reverse_bits" | "div_ceil" | "midpoint" | "isqrt" | "signum") {
            let nm = if t.is_bool() { format!("bool:{}", name) } else { format!("{}.{}", name, t) };
            return Ok(Some(op(&nm, c.args.clone())));
        }
        Ok(None)
    }
    fn alloc_node(&mut self, st: &mut State, c: &Call<'tcx>, what: &str, size: &V, v: V) -> R<Flow> {
        if !self.mode.alloc {
            return self.done(st, c, v);
        }
        let fs = self.freeze(st, size);
        let lim = lt0(&sub(&int(1 << 20), &fs));
        let bounded = as_int(&fs).map(|x| x <= 1 << 20).unwrap_or(false) || known(st, &lim) == Some(false);
        let n = self.new_node("alloc");
        let who: Vec<String> = st.frames.iter().rev().take(4).map(|f| jstr(&self.inst_name(f.inst))).collect();
        self.nodes[n].fields.push(("what".into(), jstr(what)));
        self.nodes[n].fields.push(("size".into(), json(&fs)));
        self.nodes[n].fields.push(("bounded".into(), format!("{}", bounded)));
        self.nodes[n].fields.push(("fn".into(), format!("[{}]", who.join(","))));
        let s = self.ret_state(st, c, v)?;
        Ok(Flow::Stop(Stop::Node(n, vec![("".into(), s)])))
    }
    fn vec_call(&mut self, st: &mut State, c: &mut Call<'tcx>, d: DefId, gargs: ty::GenericArgsRef<'tcx>, name: &str, mp: &str) -> R<Option<Flow>> {
        let _ = (gargs, d);
        macro_rules! ret {
            ($v:expr) => {{
                let v = $v;
                return Ok(Some(self.done(st, c, v)?));
            }};
        }
        let cc = c.clone();
        if mp.contains("::into_iter::") || mp.contains("::drain::") || mp.contains("::splice::") {
            return match name {
                "as_slice" => {
                    let v = c.args[0].clone();
                    ret!(v)
                }
                _ => Err(format!("vec iterator method {}", name)),
            };
        }
        match name {
            "new" | "new_in" => ret!(Rc::new(N::List(vec![]))),
            "with_capacity" | "with_capacity_in" => {
                let n = c.args[0].clone();
                return Ok(Some(self.alloc_node(st, &cc, "Vec::with_capacity", &n, Rc::new(N::List(vec![])))?));
            }
            "reserve" | "reserve_exact" => {
                let n = c.args[1].clone();
                return Ok(Some(self.alloc_node(st, &cc, "Vec::reserve", &n, unit())?));
            }
            "try_reserve" | "try_reserve_exact" => {
                let n = c.args[1].clone();
                let f = self.freeze(st, &n);
                let g = op("bool:reserve_ok", vec![f]);
                return Ok(Some(self.branch_ret(st, &cc, &g, ok(unit()), err(konst("TryReserveError")))?));
            }
            "shrink_to_fit" => ret!(unit()),
            "from_elem" => {
                let (x, n) = (c.args[0].clone(), c.args[1].clone());
                let v = if as_int(&n) == Some(0) { Rc::new(N::List(vec![])) } else { Rc::new(N::List(vec![Seg::Rep(x, n.clone())])) };
                return Ok(Some(self.alloc_node(st, &cc, "vec![x; n]", &n, v)?));
            }
            "push" => {
                let p = self.deref(&c.args[0])?;
                let old = self.load(st, &p)?;
                let N::List(segs) = &*self.as_list(&old) else { return Err("push on non-list".into()) };
                let mut segs = segs.clone();
                list_push(&mut segs, c.args[1].clone(), &st.counts);
                self.store(st, &p, Rc::new(N::List(segs)))?;
                ret!(unit())
            }
            "pop" => {
                let p = self.deref(&c.args[0])?;
                let old = self.load(st, &p)?;
                if let N::List(segs) = &*old {
                    let mut segs = segs.clone();
                    match segs.last().cloned() {
                        None => ret!(none()),
                        Some(Seg::E(x)) => {
                            segs.pop();
                            self.store(st, &p, Rc::new(N::List(segs)))?;
                            ret!(some(x))
                        }
                        Some(Seg::Run(pt, k, s, e)) => {
                            // last element of the run, run end one older
                            let kk = k.clone();
                            let el = map(&pt, &mut |n| match n {
                                N::Res(q, 0) if *q == kk => Some(Rc::new(N::Res(kk.clone(), e))),
                                _ => None,
                            });
                            let len = seg_len(&Seg::Run(pt.clone(), k.clone(), s, e), &st.counts);
                            let li = segs.len() - 1;
                            segs[li] = Seg::Run(pt, k, s, e + 1);
                            if as_int(&len) == Some(1) {
                                segs.pop();
                            }
                            let mut s1 = st.clone();
                            self.store(&mut s1, &p, Rc::new(N::List(segs)))?;
                            if as_int(&len).map(|l| l > 0).unwrap_or(false) {
                                *st = s1;
                                ret!(some(el))
                            }
                            let g = lt0(&lin_comb(&len, -1, &int(0), 1));
                            return self.split(st, &cc, &g, s1, some(el), st.clone(), none());
                        }
                        _ => {}
                    }
                }
                return Err("pop on unknown list".into());
            }
            "len" => {
                let v = self.deref_load(st, &c.args[0].clone())?;
                ret!(self.len_of(st, &v))
            }
            "is_empty" => {
                let v = self.deref_load(st, &c.args[0].clone())?;
                let l = self.len_of(st, &v);
                ret!(not(&lt0(&lin_comb(&l, -1, &int(0), 1))))
            }
            "clear" => {
                let p = self.deref(&c.args[0])?;
                self.store(st, &p, Rc::new(N::List(vec![])))?;
                ret!(unit())
            }
            "truncate" => {
                let p = self.deref(&c.args[0])?;
                let old = self.load(st, &p)?;
                let n = c.args[1].clone();
                let len = self.len_of(st, &old);
                if let N::List(segs) = &*old {
                    // exact prefix of segments
                    let mut off = int(0);
                    let mut out = vec![];
                    let mut okk = n == len;
                    if okk {
                        out = segs.clone();
                    } else {
                        for s in segs {
                            if off == n {
                                okk = true;
                                break;
                            }
                            let e = add(&off, &seg_len(s, &st.counts));
                            if let Seg::Run(pt, k, s0, en) = s {
                                // cut inside the run by a constant from its end
                                if let Some(dk) = as_int(&sub(&e, &n)) {
                                    if dk > 0 {
                                        out.push(Seg::Run(pt.clone(), k.clone(), *s0, en + dk as u32));
                                        okk = true;
                                        break;
                                    }
                                }
                            }
                            if let Seg::Bytes(a, _) = s {
                                out.push(Seg::Bytes(a.clone(), add(a, &sub(&n, &off))));
                                okk = true;
                                break;
                            }
                            out.push(s.clone());
                            off = e;
                        }
                    }
                    if okk {
                        self.store(st, &p, Rc::new(N::List(out)))?;
                        ret!(unit())
                    }
                }
                self.store(st, &p, op("truncate", vec![old, n]))?;
                ret!(unit())
            }
            "resize" => {
                let p = self.deref(&c.args[0])?;
                let old = self.load(st, &p)?;
                let n = c.args[1].clone();
                let x = c.args[2].clone();
                let N::List(segs) = &*self.as_list(&old) else { return Err("resize".into()) };
                let mut segs = segs.clone();
                let len = list_len(&segs, &st.counts);
                let more = sub(&n, &len);
                if let Some(k) = as_int(&more) {
                    if k < 0 {
                        return Err("shrinking resize".into());
                    }
                }
                if as_int(&more) != Some(0) {
                    segs.push(Seg::Rep(x, more.clone()));
                }
                self.store(st, &p, Rc::new(N::List(segs)))?;
                return Ok(Some(self.alloc_node(st, &cc, "Vec::resize", &more, unit())?));
            }
            "extend_from_slice" => {
                let p = self.deref(&c.args[0])?;
                let old = self.load(st, &p)?;
                let x = self.deref_load(st, &c.args[1].clone())?;
                let N::List(a) = &*self.as_list(&old) else { return Err("extend".into()) };
                let N::List(b) = &*self.as_list(&x) else { return Err("extend".into()) };
                let mut a = a.clone();
                for s in b {
                    match s {
                        Seg::E(v) => list_push(&mut a, v.clone(), &st.counts),
                        Seg::Bytes(f, t) => match a.last_mut() {
                            Some(Seg::Bytes(_, e)) if e == f => *e = t.clone(),
                            _ => a.push(s.clone()),
                        },
                        _ => a.push(s.clone()),
                    }
                }
                self.store(st, &p, Rc::new(N::List(a)))?;
                ret!(unit())
            }
            "append" => {
                let p = self.deref(&c.args[0])?;
                let q = self.deref(&c.args[1])?;
                let (a, b) = (self.load(st, &p)?, self.load(st, &q)?);
                let N::List(a) = &*self.as_list(&a) else { return Err("append".into()) };
                let N::List(b) = &*self.as_list(&b) else { return Err("append".into()) };
                let mut a = a.clone();
                a.extend(b.iter().cloned());
                self.store(st, &p, Rc::new(N::List(a)))?;
                self.store(st, &q, Rc::new(N::List(vec![])))?;
                ret!(unit())
            }
            "as_slice" | "as_mut_slice" | "as_ref" | "as_mut" | "borrow" | "borrow_mut" => {
                let v = c.args[0].clone();
                ret!(v)
            }
            "into_boxed_slice" => {
                let v = c.args[0].clone();
                ret!(Rc::new(N::Box(v)))
            }
            "capacity" => {
                let v = self.deref_load(st, &c.args[0].clone())?;
                ret!(op("capacity", vec![self.freeze(st, &v)]))
            }
            "drain" | "splice" | "retain" | "dedup" | "insert" | "remove" | "swap_remove" | "split_off" | "set_len" | "as_mut_ptr" | "as_ptr" => {
                self.note_unsafe(st, c, d, &format!("alloc::vec::Vec::{}", name));
                Err(format!("Vec::{}", name))
            }
            "from" | "into" => {
                if c.args.len() == 1 {
                    match c.tys[0].kind() {
                        ty::Array(..) => {
                            let v = self.as_list(&c.args[0].clone());
                            ret!(v)
                        }
                        ty::Ref(_, i, _) if matches!(i.kind(), ty::Slice(_) | ty::Array(..)) => {
                            let v = self.deref_load(st, &c.args[0].clone())?;
                            ret!(self.as_list(&v))
                        }
                        _ => {}
                    }
                }
                Ok(None)
            }
            _ => Ok(None),
        }
    }
    fn slice_call(&mut self, st: &mut State, c: &mut Call<'tcx>, name: &str, mp: &str, _gargs: ty::GenericArgsRef<'tcx>) -> R<Option<Flow>> {
        macro_rules! ret {
            ($v:expr) => {{
                let v = $v;
                return Ok(Some(self.done(st, c, v)?));
            }};
        }
        if mp.starts_with("core::slice::iter") {
            return Ok(None);
        }
        let cc = c.clone();
        if name == "from_mut" || name == "from_ref" {
            let mut p = self.deref(&c.args[0])?;
            p.path.push(Pe::One);
            ret!(self.mkref(p))
        }
        match name {
            "iter" | "iter_mut" => {
                let r = self.slice_iter(st, &c.args[0].clone())?;
                ret!(r)
            }
            "len" => {
                let v = self.deref_load(st, &c.args[0].clone())?;
                ret!(self.len_of(st, &v))
            }
            "is_empty" => {
                let v = self.deref_load(st, &c.args[0].clone())?;
                let l = self.len_of(st, &v);
                ret!(not(&lt0(&lin_comb(&l, -1, &int(0), 1))))
            }
            "first" | "last" | "first_mut" | "last_mut" => {
                let p = self.deref(&c.args[0])?;
                let v = self.load(st, &p)?;
                let l = self.len_of(st, &v);
                let g = lt0(&lin_comb(&l, -1, &int(0), 1));
                let mut q = p;
                q.path.push(Pe::Idx(if name.starts_with("first") { int(0) } else { addc(&l, -1) }));
                let r = self.mkref(normalise_place(q));
                Ok(Some(self.branch_ret(st, &cc, &g, some(r), none())?))
            }
            "get" | "get_mut" if c.tys[1].is_integral() => {
                let p = self.deref(&c.args[0])?;
                let v = self.load(st, &p)?;
                let l = self.len_of(st, &v);
                let g = lt0(&sub(&c.args[1], &l));
                let mut q = p;
                q.path.push(Pe::Idx(c.args[1].clone()));
                let r = self.mkref(normalise_place(q));
                Ok(Some(self.branch_ret(st, &cc, &g, some(r), none())?))
            }
            "get" | "get_mut" => Err("slice get by range".into()),
            "index" | "index_mut" => {
                // SliceIndex::index(self, slice)
                if c.args.len() == 2 && mp.contains("slice::index") {
                    let mut c2 = c.clone();
                    let it;
                    if mp.contains("{impl#0}") || matches!(c.tys[1].kind(), ty::Ref(..)) {
                        c2.args = vec![c.args[1].clone(), c.args[0].clone()];
                        it = c.tys[0];
                    } else {
                        it = c.tys[1];
                    }
                    if matches!(c.tys[0].kind(), ty::Ref(..)) {
                        c2.args = vec![c.args[0].clone(), c.args[1].clone()];
                        return Ok(Some(self.index_call(st, &mut c2, c.tys[1])?));
                    }
                    return Ok(Some(self.index_call(st, &mut c2, it)?));
                }
                Ok(None)
            }
            "copy_from_slice" | "clone_from_slice" => {
                let p = self.deref(&c.args[0])?;
                let src = self.deref_load(st, &c.args[1].clone())?;
                let dst = self.load(st, &p)?;
                let (a, b) = (self.len_of(st, &dst), self.len_of(st, &src));
                let src = if let (N::Agg(..), Some(n)) = (&*dst, as_int(&b)) {
                    let mut fs = vec![];
                    for i in 0..n {
                        fs.push(self.step(st, &src, &Pe::Idx(int(i)), 0)?);
                    }
                    agg("array", 0, fs)
                } else {
                    src
                };
                self.store(st, &p, src)?;
                let d = sub(&a, &b);
                let z = eq0(&d);
                Ok(Some(self.require(st, &cc, &z, "slice-length", unit())?))
            }
            "fill" => {
                let p = self.deref(&c.args[0])?;
                let dst = self.load(st, &p)?;
                let x = c.args[1].clone();
                let v = match &*dst {
                    N::Agg(n, i, f) => Rc::new(N::Agg(n.clone(), *i, vec![x; f.len()])),
                    _ => {
                        let l = self.len_of(st, &dst);
                        Rc::new(N::List(vec![Seg::Rep(x, l)]))
                    }
                };
                self.store(st, &p, v)?;
                ret!(unit())
            }
            "reverse" => {
                let p = self.deref(&c.args[0])?;
                let dst = self.load(st, &p)?;
                let v = match &*dst {
                    N::Agg(n, i, f) => {
                        let mut f = f.clone();
                        f.reverse();
                        Rc::new(N::Agg(n.clone(), *i, f))
                    }
                    N::List(s) if s.iter().all(|x| matches!(x, Seg::E(_))) => {
                        let mut s = s.clone();
                        s.reverse();
                        Rc::new(N::List(s))
                    }
                    _ => op("reversed", vec![dst.clone()]),
                };
                self.store(st, &p, v)?;
                ret!(unit())
            }
            "swap" => {
                let p = self.deref(&c.args[0])?;
                let at = |i: &V| {
                    let mut q = p.clone();
                    q.path.push(Pe::Idx(i.clone()));
                    normalise_place(q)
                };
                let (q1, q2) = (at(&c.args[1]), at(&c.args[2]));
                let (a, b) = (self.load(st, &q1)?, self.load(st, &q2)?);
                self.store(st, &q1, b)?;
                self.store(st, &q2, a)?;
                ret!(unit())
            }
            "split_at" | "split_at_mut" if c.args.len() == 2 => {
                let p = self.deref(&c.args[0])?;
                let v = self.load(st, &p)?;
                let l = self.len_of(st, &v);
                let mid = c.args[1].clone();
                let (mut a, mut b) = (p.clone(), p);
                a.path.push(Pe::Sub(int(0), mid.clone()));
                b.path.push(Pe::Sub(mid, l));
                let t = agg("tuple", 0, vec![self.mkref(normalise_place(a)), self.mkref(normalise_place(b))]);
                ret!(t)
            }
            "as_ptr" | "as_mut_ptr" | "get_unchecked" | "get_unchecked_mut" | "chunks" | "windows" | "chunks_exact" => {
                Err(format!("slice method {}", name))
            }
            "contains" | "starts_with" | "ends_with" => {
                let a: Vec<V> = c.args.iter().map(|x| self.freeze(st, x)).collect();
                ret!(op(&format!("bool:{}", name), a))
            }
            _ => Ok(None),
        }
    }

    // ----------------------------------------------------------- intrinsics
    fn intrinsic(&mut self, st: &mut State, c: &mut Call<'tcx>, name: &str, gargs: ty::GenericArgsRef<'tcx>) -> R<Option<Flow>> {
        let tcx = self.tcx;
        macro_rules! ret {
            ($v:expr) => {{
                let v = $v;
                return Ok(Some(self.done(st, c, v)?));
            }};
        }
        let a0 = c.args.first().cloned();
        match name {
            "size_of" | "min_align_of" | "align_of" => {
                let t = gargs.type_at(0);
                let l = tcx.layout_of(self.env().as_query_input(t)).map_err(|_| "layout")?;
                ret!(int(if name == "size_of" { l.size.bytes() as i128 } else { l.align.abi.bytes() as i128 }))
            }
            "type_id" => {
                let t = gargs.type_at(0);
                let s = format!("typeid {}", self.tystr(t));
                ret!(konst(&s))
            }
            "type_id_eq" => {
                let (x, y) = (c.args[0].clone(), c.args[1].clone());
                ret!(boolean(x == y))
            }
            "type_name" => {
                let s = self.tystr(gargs.type_at(0));
                ret!(op("cref", vec![Rc::new(N::Str(s.as_str().into()))]))
            }
            "needs_drop" => ret!(boolean(true)),
            "transmute" | "transmute_unchecked" => {
                if name == "transmute" {
                    let f = st.frames.last().map(|f| self.insts[f.inst as usize].def_id());
                    if let Some(fd) = f {
                        if self.crate_of(fd) == "binread" || fd.is_local() {
                            let p = self.path(fd);
                            let (f, t) = (gargs.type_at(0), gargs.type_at(1));
                            let pre = if f == t {
                                "same:true".to_string()
                            } else if f.is_integral() && self.tystr(t).contains("NonZero") {
                                format!("nonzero:{}", self.is_nonzero(st, a0.as_ref().unwrap()))
                            } else {
                                "none".into()
                            };
                            let loc = tcx.sess.source_map().span_to_diagnostic_string(c.span);
                            self.unsafe_ops.insert(format!("core::intrinsics::transmute|{}|{}|{}", p, pre, loc));
                        }
                    }
                }
                let v = self.transmute(&a0.unwrap(), gargs.type_at(0), gargs.type_at(1));
                ret!(v)
            }
            "unchecked_add" | "unchecked_sub" | "unchecked_mul" | "unchecked_shl" | "unchecked_shr" | "unchecked_div" | "unchecked_rem" | "exact_div" => {
                let b = match name {
                    "unchecked_add" => BinOp::Add,
                    "unchecked_sub" => BinOp::Sub,
                    "unchecked_mul" => BinOp::Mul,
                    "unchecked_shl" => BinOp::Shl,
                    "unchecked_shr" => BinOp::Shr,
                    "unchecked_rem" => BinOp::Rem,
                    _ => BinOp::Div,
                };
                let (x, y) = (c.args[0].clone(), c.args[1].clone());
                let v = self.binop(st, b, &x, &y, gargs.type_at(0))?;
                ret!(v)
            }
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" => {
                let t = gargs.type_at(0);
                let cc = c.clone();
                if let Some(v) = self.num_call(st, &cc, name, t)? {
                    ret!(v)
                }
                Ok(None)
            }
            "saturating_add" | "saturating_sub" => {
                let t = gargs.type_at(0);
                if let (Some(x), Some(y)) = (as_int(&c.args[0]), as_int(&c.args[1])) {
                    let r = if name == "saturating_add" { x + y } else { x - y };
                    let w = wrap(r, t, tcx);
                    if as_int(&w) == Some(r) {
                        ret!(w)
                    }
                }
                ret!(op(&format!("{}.{}", name, t), c.args.clone()))
            }
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let b = match name {
                    "add_with_overflow" => BinOp::AddWithOverflow,
                    "sub_with_overflow" => BinOp::SubWithOverflow,
                    _ => BinOp::MulWithOverflow,
                };
                let (x, y) = (c.args[0].clone(), c.args[1].clone());
                let t = gargs.type_at(0);
                if let Some(v) = self.exact_overflow(b, &x, &y, t) {
                    ret!(v)
                }
                let v = self.binop(st, b, &x, &y, t)?;
                ret!(v)
            }
            "bswap" => {
                let v = swap(&a0.unwrap(), gargs.type_at(0), tcx);
                ret!(v)
            }
            "ctpop" | "ctlz" | "cttz" | "ctlz_nonzero" | "cttz_nonzero" | "rotate_left" | "rotate_right" | "bitreverse" => {
                ret!(op(&format!("{}.{}", name, gargs.type_at(0)), c.args.clone()))
            }
            "black_box" | "likely" | "unlikely" => ret!(a0.unwrap()),
            "cold_path" | "assume" | "forget" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" => ret!(unit()),
            "abort" | "breakpoint" | "unreachable" => Ok(Some(Flow::Stop(Stop::Dead))),
            "three_way_compare" => {
                let (x, y) = (c.args[0].clone(), c.args[1].clone());
                ret!(op("cmp", vec![x, y]))
            }
            "discriminant_value" => {
                let t = gargs.type_at(0);
                let v = self.deref_load(st, &a0.unwrap())?;
                ret!(self.discriminant(st, &v, t))
            }
            "is_val_statically_known" | "ub_checks" | "contract_checks" | "overflow_checks" => ret!(boolean(false)),
            "const_eval_select" => {
                let (tup, rt) = (c.args[0].clone(), c.args[2].clone());
                let (tt, ft) = (c.tys[0], c.tys[2]);
                let mut c2 = c.clone();
                c2.args = vec![tup];
                c2.tys = vec![tt];
                let _ = rt;
                self.untuple(st, &mut c2)?;
                c2.untupled = true;
                c2.fty = ft;
                Ok(Some(self.call(st, c2)?))
            }
            "caller_location" => ret!(konst("location")),
            "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => {
                let v = self.deref_load(st, &a0.unwrap())?;
                ret!(v)
            }
            "write_via_move" => {
                let p = self.deref(&c.args[0])?;
                let v = c.args[1].clone();
                self.store(st, &p, v)?;
                ret!(unit())
            }
            "raw_eq" => {
                let x = self.deref_load(st, &c.args[0].clone())?;
                let y = self.deref_load(st, &c.args[1].clone())?;
                let (fx, fy) = (self.freeze(st, &x), self.freeze(st, &y));
                let e = if fx == fy { boolean(true) } else if ground(&fx) && ground(&fy) { boolean(false) } else { op("eq", sort2(&fx, &fy)) };
                ret!(e)
            }
            "aggregate_raw_ptr" => {
                let v = a0.unwrap();
                ret!(v)
            }
            "ptr_metadata" => {
                let p = self.deref(&a0.unwrap())?;
                let v = self.load(st, &p)?;
                ret!(self.len_of(st, &v))
            }
            _ => Ok(None),
        }
    }
}

/// `x != 0` recorded as a fact under any of its spellings
fn op_fact_nonzero(st: &State, v: &V) -> bool {
    st.facts.iter().any(|(k, b)| {
        if let N::Op(o, a) = &**k {
            if &**o == "eq" && as_int(b) == Some(0) {
                return a.iter().any(|x| x == v) && a.iter().any(|x| as_int(x) == Some(0));
            }
        }
        false
    })
}
pub fn age_place(p: &Place, k: &Key) -> Place {
    let mut q = p.clone();
    if let Cell::Sym(v) | Cell::Const(v) = &p.cell {
        let v2 = age(v, k);
        q.cell = match &p.cell {
            Cell::Sym(_) => Cell::Sym(v2),
            _ => Cell::Const(v2),
        };
    }
    for e in q.path.iter_mut() {
        match e {
            Pe::Idx(v) => *v = age(v, k),
            Pe::Sub(a, b) => {
                *a = age(a, k);
                *b = age(b, k);
            }
            _ => {}
        }
    }
    q
}
/// A number made of bytes; with the bytes known one by one, always lowest first.
fn assembled(o: &str, k: V, bytes: V) -> V {
    if let (true, N::Agg(n, i, f)) = (o == "be", &*bytes) {
        let r: Vec<V> = f.iter().rev().cloned().collect();
        return op("le", vec![k, agg(n, *i, r)]);
    }
    op(o, vec![k, bytes])
}
fn swap(v: &V, t: Ty<'_>, tcx: TyCtxt<'_>) -> V {
    let bits = match t.kind() {
        ty::Int(k) => k.bit_width().unwrap_or(64),
        ty::Uint(k) => k.bit_width().unwrap_or(64),
        _ => 0,
    };
    if bits == 8 {
        return v.clone();
    }
    match &**v {
        N::Int(i) if bits > 0 => {
            let mut r: u128 = 0;
            let u = *i as u128;
            for b in 0..(bits / 8) {
                r |= ((u >> (8 * b)) & 0xff) << (bits - 8 - 8 * b);
            }
            wrap(r as i128, t, tcx)
        }
        N::Op(o, a) if &**o == "le" => assembled("be", a[0].clone(), a[1].clone()),
        N::Op(o, a) if &**o == "be" => assembled("le", a[0].clone(), a[1].clone()),
        N::Op(o, a) if &**o == "bswap" => a[0].clone(),
        _ => op("bswap", vec![v.clone()]),
    }
}
pub fn ground(v: &V) -> bool {
    match &**v {
        N::Int(_) | N::Str(_) => true,
        N::Const(s) => s.starts_with("typeid"),
        N::Agg(_, _, f) => f.iter().all(ground),
        N::Op(o, a) if &**o == "&" || &**o == "cref" => a.iter().all(ground),
        N::List(s) => s.iter().all(|s| matches!(s, Seg::E(x) if ground(x))),
        _ => false,
    }
}
fn unlist(v: &V) -> V {
    map(v, &mut |n| match n {
        N::List(s) => Some(agg(
            "array",
            0,
            s.iter()
                .map(|s| match s {
                    Seg::E(x) => unlist(x),
                    _ => uninit(),
                })
                .collect(),
        )),
        N::Op(o, a) if &**o == "&" || &**o == "cref" => Some(unlist(&a[0])),
        N::Str(s) => Some(agg("array", 0, s.bytes().map(|b| int(b as i128)).collect())),
        _ => None,
    })
}

fn has_uninit(v: &V) -> bool {
    let mut found = false;
    map(v, &mut |n| {
        if matches!(n, N::Uninit) || matches!(n, N::Op(o, _) if &**o == "uninit") {
            found = true;
        }
        None
    });
    found
}
