//! Effect analysis: what the monomorphised call graph below a function can do, whatever the lengths of its inputs.
//! Flow insensitive; calls that do not return (panics) are not followed.
use crate::driver::js;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

struct Walk<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    from: HashMap<Instance<'tcx>, Option<(Instance<'tcx>, Span)>>,
    queue: VecDeque<Instance<'tcx>>,
    allocs: HashSet<(Instance<'tcx>, AllocId)>,
    calls: HashMap<Instance<'tcx>, Vec<(Instance<'tcx>, Span)>>,
    /// (kind, what) -> the function it is in and where
    effects: BTreeMap<(&'static str, String), (Instance<'tcx>, Span)>,
    edges: usize,
}

impl<'tcx> Walk<'tcx> {
    fn effect(&mut self, kind: &'static str, what: String, at: Instance<'tcx>, sp: Span) {
        self.effects.entry((kind, what)).or_insert((at, sp));
    }

    fn diverges(&self, i: Instance<'tcx>) -> bool {
        let d = i.def_id();
        if !matches!(i.def, InstanceKind::Item(_)) || self.tcx.is_closure_like(d) {
            return false;
        }
        self.tcx.fn_sig(d).skip_binder().output().skip_binder().is_never()
    }

    fn add(&mut self, i: Instance<'tcx>, by: Instance<'tcx>, sp: Span) {
        self.edges += 1;
        if self.diverges(i) {
            return;
        }
        let d = i.def_id();
        if let InstanceKind::Item(_) = i.def {
            if self.tcx.is_foreign_item(d) {
                let n = self.tcx.item_name(d).to_string();
                if n.starts_with("miri_") {
                    return; // hooks the analysed standard library has for Miri only
                }
                let k = if n.contains("__rust") && (n.contains("alloc")) { "allocates" } else { "calls foreign code" };
                self.effect(k, n, by, sp);
                return;
            }
        }
        if let InstanceKind::Virtual(..) = i.def {
            return; // its targets were found where the trait object was made
        }
        self.calls.entry(by).or_default().push((i, sp));
        if !self.from.contains_key(&i) {
            self.from.insert(i, Some((by, sp)));
            self.queue.push_back(i);
        }
    }

    fn call(&mut self, ty: Ty<'tcx>, by: Instance<'tcx>, sp: Span) {
        if let ty::FnDef(d, a) = *ty.kind() {
            let i = Instance::expect_resolve(self.tcx, self.env, d, a.skip_binder(), sp);
            self.add(i, by, sp);
        }
    }

    fn vtable(&mut self, ty: Ty<'tcx>, tr: Ty<'tcx>, by: Instance<'tcx>, sp: Span) {
        let ty::Dynamic(preds, _) = *tr.kind() else { return };
        if let Some(p) = preds.principal() {
            let tref = self.tcx.instantiate_bound_regions_with_erased(p.with_self_ty(self.tcx, ty));
            for e in self.tcx.vtable_entries(tref) {
                if let ty::VtblEntry::Method(i) = e {
                    self.add(*i, by, sp);
                }
            }
        }
        if ty.needs_drop(self.tcx, self.env) {
            self.add(Instance::resolve_drop_glue(self.tcx, ty), by, sp);
        }
    }

    fn alloc(&mut self, id: AllocId, by: Instance<'tcx>, sp: Span) {
        if !self.allocs.insert((by, id)) {
            return;
        }
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Function { instance } => self.add(instance, by, sp),
            GlobalAlloc::VTable(ty, preds) => {
                if let Some(p) = preds.principal() {
                    let tref = self.tcx.instantiate_bound_regions_with_erased(p.with_self_ty(self.tcx, ty));
                    for e in self.tcx.vtable_entries(tref) {
                        if let ty::VtblEntry::Method(i) = e {
                            self.add(*i, by, sp);
                        }
                    }
                }
            }
            GlobalAlloc::Static(d) => {
                let ty = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
                if self.tcx.is_foreign_item(d) || self.tcx.is_thread_local_static(d) || self.tcx.is_mutable_static(d) || !ty.is_freeze(self.tcx, self.env) {
                    self.effect("uses global state", self.tcx.def_path_str(d), by, sp);
                } else if let Ok(a) = self.tcx.eval_static_initializer(d) {
                    for (_, p) in a.inner().provenance().ptrs().iter() {
                        self.alloc(p.alloc_id(), by, sp);
                    }
                }
            }
            GlobalAlloc::Memory(a) => {
                for (_, p) in a.inner().provenance().ptrs().iter() {
                    self.alloc(p.alloc_id(), by, sp);
                }
            }
            _ => {}
        }
    }

    fn konst(&mut self, c: mir::Const<'tcx>, by: Instance<'tcx>, sp: Span) {
        match c.eval(self.tcx, self.env, sp) {
            Ok(ConstValue::Scalar(Scalar::Ptr(p, _))) => self.alloc(p.provenance.alloc_id(), by, sp),
            Ok(ConstValue::Slice { alloc_id, .. }) | Ok(ConstValue::Indirect { alloc_id, .. }) => self.alloc(alloc_id, by, sp),
            _ => {}
        }
    }

    fn body(&mut self, i: Instance<'tcx>) {
        let tcx = self.tcx;
        match i.def {
            InstanceKind::Intrinsic(_) => return,
            InstanceKind::Item(d) if tcx.intrinsic(d).is_some() => return,
            InstanceKind::Item(d) if matches!(tcx.def_kind(d), rustc_hir::def::DefKind::Ctor(..)) => return,
            InstanceKind::Item(d) if !tcx.is_mir_available(d) => {
                self.effect("calls code which cannot be seen", tcx.def_path_str(d), i, tcx.def_span(d));
                return;
            }
            _ => {}
        }
        let body = tcx.instance_mir(i.def);
        let env = self.env;
        macro_rules! mono {
            ($t:expr) => {
                i.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, $t))
            };
        }
        struct V<'a, 'tcx> {
            body: &'a Body<'tcx>,
            tcx: TyCtxt<'tcx>,
            consts: Vec<(ConstOperand<'tcx>, Span)>,
            casts: Vec<(PointerCoercion, Ty<'tcx>, Ty<'tcx>, Span)>,
            tls: Vec<(rustc_hir::def_id::DefId, Span)>,
        }
        impl<'a, 'tcx> mir::visit::Visitor<'tcx> for V<'a, 'tcx> {
            fn visit_const_operand(&mut self, c: &ConstOperand<'tcx>, _l: Location) {
                self.consts.push((c.clone(), c.span));
            }
            fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, l: Location) {
                let sp = self.body.source_info(l).span;
                if let Rvalue::Cast(CastKind::PointerCoercion(k, _), op, t) = r {
                    self.casts.push((*k, op.ty(self.body, self.tcx), *t, sp));
                }
                if let Rvalue::ThreadLocalRef(d) = r {
                    self.tls.push((*d, sp));
                }
                self.super_rvalue(r, l);
            }
        }
        // only what lies on a way to a return: a block that leads to a panic and nowhere else is part of the panic
        let preds = body.basic_blocks.predecessors();
        let mut returns: BTreeSet<BasicBlock> = BTreeSet::new();
        let mut todo: Vec<BasicBlock> = body
            .basic_blocks
            .iter_enumerated()
            .filter(|(_, d)| matches!(d.terminator().kind, TerminatorKind::Return | TerminatorKind::TailCall { .. } | TerminatorKind::CoroutineDrop))
            .map(|(b, _)| b)
            .collect();
        while let Some(b) = todo.pop() {
            if returns.insert(b) {
                todo.extend(preds[b].iter().copied());
            }
        }
        for (bb, data) in mir::traversal::mono_reachable(body, tcx, i) {
            if !returns.contains(&bb) {
                continue;
            }
            let mut v = V { body, tcx, consts: vec![], casts: vec![], tls: vec![] };
            mir::visit::Visitor::visit_basic_block_data(&mut v, bb, data);
            for (c, sp) in v.consts {
                let k = mono!(c.const_);
                if let ty::FnDef(..) = k.ty().kind() {
                    // a function mentioned by value: called, or handed to something that calls it
                    self.call(k.ty(), i, sp);
                } else if !k.has_param() {
                    self.konst(k, i, sp);
                }
            }
            for (d, sp) in v.tls {
                self.effect("uses global state", tcx.def_path_str(d), i, sp);
            }
            for (k, a, b, sp) in v.casts {
                let (a, b) = (mono!(a), mono!(b));
                match k {
                    PointerCoercion::ReifyFnPointer(_) => self.call(a, i, sp),
                    PointerCoercion::ClosureFnPointer(_) => {
                        if let ty::Closure(d, s) = *a.kind() {
                            let inst = Instance::resolve_closure(tcx, d, s, ty::ClosureKind::FnOnce);
                            self.add(inst, i, sp);
                        }
                    }
                    PointerCoercion::Unsize => {
                        if let (Some(x), Some(y)) = (a.builtin_deref(true), b.builtin_deref(true)) {
                            let (x, y) = tcx.struct_lockstep_tails_for_codegen(x, y, env);
                            if y.is_trait() && !x.is_trait() {
                                self.vtable(x, y, i, sp);
                            }
                        } else {
                            self.effect("makes an owned trait object", b.to_string(), i, sp);
                        }
                    }
                    _ => {}
                }
            }
            let t = data.terminator();
            let sp = t.source_info.span;
            match &t.kind {
                TerminatorKind::Call { func, .. } | TerminatorKind::TailCall { func, .. } => {
                    let ty = mono!(func.ty(body, tcx));
                    self.call(ty, i, sp);
                }
                TerminatorKind::Drop { place, .. } => {
                    let ty = mono!(place.ty(body, tcx).ty);
                    let g = Instance::resolve_drop_glue(tcx, ty);
                    if ty.needs_drop(tcx, env) {
                        self.add(g, i, sp);
                    }
                }
                TerminatorKind::InlineAsm { .. } => self.effect("runs inline assembly", tcx.def_path_str(i.def_id()), i, sp),
                _ => {}
            }
        }
    }
}

/// The cycles of the call graph, and the length of the longest chain of calls when each cycle counts once.
fn cycles<'tcx>(w: &Walk<'tcx>, root: Instance<'tcx>) -> (Vec<Vec<Instance<'tcx>>>, usize) {
    // Tarjan, with an explicit stack; components come out callees first
    let none: Vec<(Instance<'tcx>, Span)> = vec![];
    let mut index: HashMap<Instance<'tcx>, (usize, usize)> = HashMap::new(); // (index, low)
    let mut comp: HashMap<Instance<'tcx>, usize> = HashMap::new();
    let mut depth: Vec<usize> = vec![];
    let mut stack: Vec<Instance<'tcx>> = vec![];
    let mut work: Vec<(Instance<'tcx>, usize)> = vec![(root, 0)];
    let mut out = vec![];
    index.insert(root, (0, 0));
    stack.push(root);
    while let Some((v, k)) = work.pop() {
        let next = w.calls.get(&v).unwrap_or(&none);
        if k < next.len() {
            work.push((v, k + 1));
            let u = next[k].0;
            if let Some(&(iu, _)) = index.get(&u) {
                if !comp.contains_key(&u) {
                    let e = index.get_mut(&v).unwrap();
                    e.1 = e.1.min(iu);
                }
            } else {
                let n = index.len();
                index.insert(u, (n, n));
                stack.push(u);
                work.push((u, 0));
            }
            continue;
        }
        let (iv, lv) = index[&v];
        if let Some((p, _)) = work.last() {
            let e = index.get_mut(p).unwrap();
            e.1 = e.1.min(lv);
        }
        if iv == lv {
            let mut c = vec![];
            loop {
                let u = stack.pop().unwrap();
                comp.insert(u, depth.len());
                c.push(u);
                if u == v {
                    break;
                }
            }
            let here = depth.len();
            let below = c.iter().flat_map(|u| w.calls.get(u).unwrap_or(&none)).filter(|(u, _)| comp[u] != here).map(|(u, _)| depth[comp[u]]).max().unwrap_or(0);
            depth.push(below + c.len());
            if c.len() > 1 || w.calls.get(&v).unwrap_or(&none).iter().any(|(u, _)| *u == v) {
                out.push(c);
            }
        }
    }
    (out, *depth.last().unwrap_or(&0))
}

pub fn effects<'tcx>(tcx: TyCtxt<'tcx>, name: &str, root: Instance<'tcx>, visited: &mut BTreeSet<String>) -> String {
    let mut w = Walk {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        from: HashMap::new(),
        queue: VecDeque::new(),
        allocs: HashSet::new(),
        calls: HashMap::new(),
        effects: BTreeMap::new(),
        edges: 0,
    };
    w.from.insert(root, None);
    w.queue.push_back(root);
    let mut subject = 0;
    while let Some(i) = w.queue.pop_front() {
        if tcx.crate_name(i.def_id().krate).as_str() == "midi2" {
            subject += 1;
            visited.insert(tcx.def_path_str(i.def_id()));
        }
        w.body(i);
    }
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"root\":{},\"functions\":{},\"subject_functions\":{},\"call_edges\":{},\"effects\":[",
        js(name),
        w.from.len(),
        subject,
        w.edges
    );
    for (n, ((kind, what), (at, sp))) in w.effects.iter().enumerate() {
        let mut chain = vec![];
        let mut c = Some((*at, *sp));
        let mut inner: Option<String> = None;
        while let Some((f, s)) = c {
            let p = tcx.def_path_str(f.def_id());
            if inner.is_none() && tcx.crate_name(f.def_id().krate).as_str() == "midi2" {
                inner = Some(p.clone());
            }
            chain.push(js(&format!("{} @ {}", p, tcx.sess.source_map().span_to_diagnostic_string(s))));
            c = w.from[&f];
        }
        let _ = write!(
            o,
            "{}{{\"kind\":{},\"what\":{},\"func\":{},\"chain\":[{}]}}",
            if n > 0 { "," } else { "" },
            js(kind),
            js(what),
            js(&inner.unwrap_or_default()),
            chain.join(",")
        );
    }
    let (cs, depth) = cycles(&w, root);
    let _ = write!(o, "],\"depth\":{},\"std_cycles\":{},\"cycles\":[", depth, cs.len());
    let mine = |i: &Instance<'tcx>| tcx.crate_name(i.def_id().krate).as_str() == "midi2";
    let mut first = true;
    for c in cs {
        let Some(f) = c.iter().filter(|i| mine(i)).min_by_key(|i| tcx.def_path_str(i.def_id())) else {
            if name.starts_with("ob_control_") {
                // the controls are not functions of midi2
                let _ = write!(o, "{}{{\"func\":\"control\",\"cycle\":[],\"chain\":[]}}", if first { "" } else { "," });
                first = false;
            }
            continue;
        };
        let inside: HashSet<Instance<'tcx>> = c.iter().copied().collect();
        let mut cycle = vec![];
        for (at, sps) in c.iter().filter_map(|i| w.calls.get(i).map(|s| (i, s))) {
            for (to, sp) in sps.iter().filter(|(t, _)| inside.contains(t)).take(2) {
                if cycle.len() < 12 {
                    cycle.push(js(&format!("{} -> {} @ {}", tcx.def_path_str(at.def_id()), tcx.def_path_str(to.def_id()), tcx.sess.source_map().span_to_diagnostic_string(*sp))));
                }
            }
        }
        let mut chain = vec![];
        let mut at = w.from[f];
        while let Some((g, s)) = at {
            chain.push(js(&format!("{} @ {}", tcx.def_path_str(g.def_id()), tcx.sess.source_map().span_to_diagnostic_string(s))));
            at = w.from[&g];
        }
        let _ = write!(o, "{}{{\"func\":{},\"cycle\":[{}],\"chain\":[{}]}}", if first { "" } else { "," }, js(&tcx.def_path_str(f.def_id())), cycle.join(","), chain.join(","));
        first = false;
    }
    o.push_str("]}");
    o
}
