//! Abstract interpreter over monomorphic MIR.
use crate::bdd::*;
use crate::mem::*;
use rustc_abi::{FieldsShape, Primitive, TagEncoding, VariantIdx, Variants};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::layout::{LayoutCx, TyAndLayout};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type R<T> = Result<T, String>;

#[derive(Clone)]
pub struct FrameInfo {
    pub name: String,
    pub krate: String,
    pub span: Span,
}
#[derive(Clone)]
pub struct Event {
    pub kind: &'static str,
    pub msg: String,
    pub pc: Bit,
    pub stack: Vec<FrameInfo>,
}

pub enum Scal {
    Bits(Bits),
    Ptr(Rc<PtrVal>),
}

pub struct BodyInfo<'tcx> {
    pub body: Body<'tcx>,
    pub rpo: HashMap<BasicBlock, usize>,
}

#[derive(Clone)]
struct MPlace<'tcx> {
    ptr: PtrVal,
    meta: Option<Bytes>,
    layout: TyAndLayout<'tcx>,
}

pub struct Ctx<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub env: TypingEnv<'tcx>,
    pub cx: LayoutCx<'tcx>,
    pub b: Bdd,
    bodies: HashMap<Instance<'tcx>, Rc<BodyInfo<'tcx>>>,
    names: HashMap<rustc_hir::def_id::DefId, Rc<(String, String)>>,
    next_alloc: AllocId,
    globals: HashMap<AllocId, Rc<Alloc>>,
    global_map: HashMap<interpret::AllocId, AllocId>,
    fn_by_id: HashMap<AllocId, Instance<'tcx>>,
    id_by_fn: HashMap<Instance<'tcx>, AllocId>,
    pub events: Vec<Event>,
    pub checks: usize,
    pub calls: usize,
    pub covers: BTreeMap<String, Bit>,
    pub stack: Vec<FrameInfo>,
    pub visited: BTreeSet<String>,
    pub blocks: u64,
    pub block_limit: u64,
    pub deadline: std::time::Instant,
    /// crates whose functions count as "the code under analysis"
    pub subject: String,
    /// also record definition paths (to find functions no obligation reaches)
    pub paths: bool,
}

impl<'tcx> Ctx<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>, limit: usize) -> Self {
        let env = TypingEnv::fully_monomorphized();
        Ctx {
            tcx,
            env,
            cx: LayoutCx::new(tcx, env),
            b: Bdd::new(limit),
            bodies: HashMap::new(),
            names: HashMap::new(),
            next_alloc: 1,
            globals: HashMap::new(),
            global_map: HashMap::new(),
            fn_by_id: HashMap::new(),
            id_by_fn: HashMap::new(),
            events: vec![],
            checks: 0,
            calls: 0,
            covers: BTreeMap::new(),
            stack: vec![],
            visited: BTreeSet::new(),
            blocks: 0,
            block_limit: 3_000_000,
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(3600),
            subject: "midi2".into(),
            paths: std::env::var("BITFLOW_PATHS").is_ok(),
        }
    }
    pub fn reset(&mut self, limit: usize) {
        self.b = Bdd::new(limit);
        self.events.clear();
        self.stack.clear();
        self.covers.clear();
        self.blocks = 0;
        self.checks = 0;
        self.calls = 0;
    }
    fn layout(&self, ty: Ty<'tcx>) -> R<TyAndLayout<'tcx>> {
        self.tcx
            .layout_of(self.env.as_query_input(ty))
            .map_err(|e| format!("layout of {ty}: {e:?}"))
    }
    fn new_id(&mut self) -> AllocId {
        self.next_alloc += 1;
        self.next_alloc
    }
    pub fn alloc_bytes(&mut self, st: &mut State, bytes: Bytes) -> AllocId {
        let id = self.new_id();
        st.mem.insert(id, Rc::new(Alloc { bytes }));
        id
    }
    fn fn_ptr(&mut self, i: Instance<'tcx>) -> AllocId {
        if let Some(x) = self.id_by_fn.get(&i) {
            return *x;
        }
        let id = self.new_id();
        self.id_by_fn.insert(i, id);
        self.fn_by_id.insert(id, i);
        self.globals.insert(id, Rc::new(Alloc { bytes: vec![AByte::Uninit] }));
        id
    }
    fn name_of(&mut self, d: rustc_hir::def_id::DefId) -> Rc<(String, String)> {
        if let Some(n) = self.names.get(&d) {
            return n.clone();
        }
        let n = Rc::new((
            self.tcx.def_path_str(d),
            self.tcx.crate_name(d.krate).to_string(),
        ));
        self.names.insert(d, n.clone());
        n
    }
    pub fn span_str(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }
    fn event(&mut self, kind: &'static str, msg: String, pc: Bit) {
        if pc == F {
            return;
        }
        self.events.push(Event { kind, msg, pc, stack: self.stack.clone() });
    }

    // ---------------------------------------------------------------- memory
    fn get_alloc(&self, st: &State, id: AllocId) -> Option<Rc<Alloc>> {
        st.mem.get(&id).or_else(|| self.globals.get(&id)).cloned()
    }
    /// All values a bit vector can take under pc, each with the guard selecting it.
    fn concretize(&mut self, pc: Bit, bits: &[Bit], cap: usize) -> R<Vec<(Bit, u128)>> {
        if let Some(c) = as_const(bits) {
            return Ok(vec![(T, c)]);
        }
        let mut cur: Vec<(Bit, u128)> = vec![(T, 0)];
        for i in (0..bits.len()).rev() {
            match bits[i] {
                T => cur.iter_mut().for_each(|e| e.1 |= 1 << i),
                F => {}
                x => {
                    let mut nxt = vec![];
                    for (g, v) in cur {
                        let g1 = self.b.and(g, x);
                        let g0 = self.b.and(g, x ^ 1);
                        if self.b.and(g1, pc) != F {
                            nxt.push((g1, v | 1 << i));
                        }
                        if self.b.and(g0, pc) != F {
                            nxt.push((g0, v));
                        }
                    }
                    if nxt.len() > cap {
                        return Err(format!("more than {cap} feasible values"));
                    }
                    cur = nxt;
                }
            }
        }
        Ok(cur)
    }
    fn resolve_ptr(&mut self, pc: Bit, p: &PtrVal) -> R<Vec<(Bit, Option<AllocId>, u64)>> {
        let mut out = vec![];
        for a in &p.alts {
            let live = self.b.and(pc, a.guard);
            if live == F {
                continue;
            }
            for (g, v) in self.concretize(live, &a.off, 4096)? {
                let g = self.b.and(g, a.guard);
                let v = v as u64;
                match a.prov {
                    Some(id) => out.push((g, Some(id), v)),
                    None => {
                        let id = (v >> 32) as u32;
                        if id > 1 && id <= self.next_alloc + 1 {
                            out.push((g, Some(id - 1), v & 0xffff_ffff));
                        } else {
                            out.push((g, None, v));
                        }
                    }
                }
            }
        }
        if out.len() == 1 {
            out[0].0 = T;
        }
        Ok(out)
    }
    fn load(&mut self, st: &mut State, p: &PtrVal, size: u64) -> R<Bytes> {
        if size == 0 {
            return Ok(vec![]);
        }
        let tg = self.resolve_ptr(st.pc, p)?;
        let mut acc: Option<Bytes> = None;
        for (g, id, off) in tg {
            let bytes = match id.and_then(|id| self.get_alloc(st, id)) {
                Some(a) if off as usize + size as usize <= a.bytes.len() => {
                    a.bytes[off as usize..(off + size) as usize].to_vec()
                }
                _ => {
                    let pc = self.b.and(st.pc, g);
                    self.event("memory", format!("load outside an object ({id:?}+{off}, {size} bytes)"), pc);
                    st.pc = self.b.and(st.pc, g ^ 1);
                    continue;
                }
            };
            let live = self.b.and(st.pc, g);
            let bytes = self.plain_words(live, bytes);
            acc = Some(match acc {
                None => bytes,
                Some(o) => self.merge_bytes(g, &bytes, &o)?,
            });
        }
        Ok(acc.unwrap_or_else(|| vec![AByte::Uninit; size as usize]))
    }
    /// Where states joined a pointer and plain words (variants of an enum sharing storage) and
    /// only plain words are possible at this point, the bytes of those words.
    fn plain_words(&mut self, pc: Bit, mut bytes: Bytes) -> Bytes {
        let mut last: Option<(Rc<PtrVal>, Option<Bits>)> = None;
        for x in bytes.iter_mut() {
            let (p, k) = match x {
                AByte::Ptr(p, k) if p.alts.len() > 1 && p.alts.iter().any(|a| a.prov.is_none()) => (p.clone(), *k as usize),
                _ => continue,
            };
            let hit = matches!(&last, Some((q, _)) if Rc::ptr_eq(q, &p));
            if !hit {
                let mut bits: Option<Bits> = None;
                let mut plain = true;
                for a in &p.alts {
                    if self.b.and(pc, a.guard) == F {
                        continue;
                    }
                    if a.prov.is_some() {
                        plain = false;
                        break;
                    }
                    bits = Some(match bits {
                        None => a.off.clone(),
                        Some(o) => self.b.v_ite(a.guard, &a.off, &o),
                    });
                }
                last = Some((p.clone(), if plain { bits } else { None }));
            }
            if let Some((_, Some(bits))) = &last {
                let mut v = [F; 8];
                v.copy_from_slice(&bits[8 * k..8 * k + 8]);
                *x = AByte::Bits(v);
            }
        }
        bytes
    }
    fn store(&mut self, st: &mut State, p: &PtrVal, bytes: &Bytes) -> R<()> {
        self.store_g(st, p, bytes, T)
    }
    fn store_g(&mut self, st: &mut State, p: &PtrVal, bytes: &Bytes, guard: Bit) -> R<()> {
        if bytes.is_empty() {
            return Ok(());
        }
        let live = self.b.and(st.pc, guard);
        let tg = self.resolve_ptr(live, p)?;
        for (g, id, off) in tg {
            let g = self.b.and(g, guard);
            let n = bytes.len();
            let off = off as usize;
            let ok = match id {
                Some(id) => st.mem.get(&id).map_or(false, |a| off + n <= a.bytes.len()),
                None => false,
            };
            if !ok {
                let pc = self.b.and(st.pc, g);
                self.event("memory", format!("store outside an object ({id:?}+{off}, {n} bytes)"), pc);
                st.pc = self.b.and(st.pc, g ^ 1);
                continue;
            }
            let id = id.unwrap();
            let new = if g == T {
                bytes.clone()
            } else {
                let old = st.mem[&id].bytes[off..off + n].to_vec();
                self.merge_bytes(g, bytes, &old)?
            };
            let a = Rc::make_mut(st.mem.get_mut(&id).unwrap());
            a.bytes[off..off + n].clone_from_slice(&new);
        }
        Ok(())
    }
    /// g ? a : b
    fn merge_bytes(&mut self, g: Bit, a: &[AByte], b: &[AByte]) -> R<Bytes> {
        if g == T {
            return Ok(a.to_vec());
        }
        if g == F {
            return Ok(b.to_vec());
        }
        let mut out: Bytes = Vec::with_capacity(a.len());
        let mut i = 0;
        while i < a.len() {
            if a[i] == b[i] {
                out.push(a[i].clone());
                i += 1;
                continue;
            }
            match (&a[i], &b[i]) {
                (AByte::Uninit, x) | (x, AByte::Uninit) => {
                    out.push(x.clone());
                    i += 1;
                }
                (AByte::Bits(x), AByte::Bits(y)) => {
                    let mut r = [F; 8];
                    for k in 0..8 {
                        r[k] = self.b.ite(g, x[k], y[k]);
                    }
                    out.push(AByte::Bits(r));
                    i += 1;
                }
                _ => {
                    let ka = matches!(&a[i], AByte::Ptr(_, k) if *k != 0);
                    let kb = matches!(&b[i], AByte::Ptr(_, k) if *k != 0);
                    if ka || kb || i + 8 > a.len() {
                        // partial pointer: unknown garbage on one side
                        return Err("merging partial pointers".into());
                    }
                    // a pointer on one side and partially undefined / short integer on the other:
                    // different enum variants sharing storage; the pointer is kept where the
                    // other side is not a complete word.
                    let pa = self.try_word(&a[i..i + 8]);
                    let pb = self.try_word(&b[i..i + 8]);
                    match (pa, pb) {
                        (Some(pa), Some(pb)) => {
                            let m = self.merge_ptr(g, &pa, &pb);
                            out.extend(ptr_bytes(m));
                        }
                        (Some(pa), None) => out.extend(ptr_bytes(pa)),
                        (None, Some(pb)) => out.extend(ptr_bytes(pb)),
                        _ => return Err("merging pointers".into()),
                    }
                    i += 8;
                }
            }
        }
        Ok(out)
    }
    /// Like `try_ptr`, with zeroes for the undefined bytes of a partly defined word.
    fn try_word(&mut self, b: &[AByte]) -> Option<PtrVal> {
        if b.iter().any(|x| matches!(x, AByte::Bits(_))) && b.iter().all(|x| !matches!(x, AByte::Ptr(..))) {
            let mut out = Vec::with_capacity(64);
            for x in b {
                match x {
                    AByte::Bits(v) => out.extend_from_slice(v),
                    _ => out.extend_from_slice(&[F; 8]),
                }
            }
            return Some(PtrVal::from_bits(out));
        }
        self.try_ptr(b)
    }
    fn try_ptr(&mut self, b: &[AByte]) -> Option<PtrVal> {
        match self.to_scal(b) {
            Ok(Scal::Ptr(p)) => Some((*p).clone()),
            Ok(Scal::Bits(x)) => Some(PtrVal::from_bits(x)),
            Err(_) => None,
        }
    }
    fn merge_ptr(&mut self, g: Bit, a: &PtrVal, b: &PtrVal) -> PtrVal {
        let mut alts: Vec<PtrAlt> = vec![];
        for (gg, p) in [(g, a), (g ^ 1, b)] {
            for x in &p.alts {
                let gx = self.b.and(x.guard, gg);
                if gx == F {
                    continue;
                }
                if let Some(e) = alts.iter_mut().find(|e| e.prov == x.prov) {
                    let off: Bits =
                        e.off.iter().zip(&x.off).map(|(o, n)| self.b.ite(gx, *n, *o)).collect();
                    e.off = off;
                    e.guard = self.b.or(e.guard, gx);
                } else {
                    alts.push(PtrAlt { guard: gx, prov: x.prov, off: x.off.clone() });
                }
            }
        }
        if alts.len() == 1 {
            alts[0].guard = T;
        }
        PtrVal { alts }
    }
    fn merge_states(&mut self, a: State, b: State) -> R<State> {
        let pc = self.b.or(a.pc, b.pc);
        let g = self.b.constrain(a.pc, pc);
        let mut mem = a.mem;
        for (id, bb) in b.mem {
            match mem.get(&id) {
                None => {
                    mem.insert(id, bb);
                }
                Some(aa) => {
                    if Rc::ptr_eq(aa, &bb) {
                        continue;
                    }
                    let aa = aa.clone();
                    let m = self.merge_bytes(g, &aa.bytes, &bb.bytes)?;
                    mem.insert(id, Rc::new(Alloc { bytes: m }));
                }
            }
        }
        Ok(State { pc, mem })
    }

    // ---------------------------------------------------------------- scalars
    pub fn to_scal(&mut self, b: &[AByte]) -> R<Scal> {
        if let Some(AByte::Ptr(p, 0)) = b.first() {
            if b.len() == 8 {
                for (i, x) in b.iter().enumerate() {
                    match x {
                        AByte::Ptr(q, k) if *k as usize == i && Rc::ptr_eq(p, q) => {}
                        AByte::Ptr(q, k) if *k as usize == i && **p == **q => {}
                        _ => return Err("torn pointer".into()),
                    }
                }
                return Ok(Scal::Ptr(p.clone()));
            }
        }
        let mut out = Vec::with_capacity(b.len() * 8);
        for x in b {
            match x {
                AByte::Bits(v) => out.extend_from_slice(v),
                AByte::Uninit => return Err("read of uninitialised memory".into()),
                AByte::Ptr(..) => {
                    return Err("integer read of part of a pointer".into());
                }
            }
        }
        Ok(Scal::Bits(out))
    }
    fn to_bits(&mut self, b: &[AByte]) -> R<Bits> {
        match self.to_scal(b)? {
            Scal::Bits(x) => Ok(x),
            Scal::Ptr(p) => Ok(self.addr(&p)),
        }
    }
    fn to_ptr(&mut self, b: &[AByte]) -> R<PtrVal> {
        match self.to_scal(b)? {
            Scal::Bits(x) => Ok(PtrVal::from_bits(x)),
            Scal::Ptr(p) => Ok((*p).clone()),
        }
    }
    fn addr(&mut self, p: &PtrVal) -> Bits {
        let mut acc: Option<Bits> = None;
        for a in &p.alts {
            let v = match a.prov {
                None => a.off.clone(),
                Some(id) => {
                    let base = const_bits(base_addr(id) as u128, 64);
                    self.b.v_add(&base, &a.off)
                }
            };
            acc = Some(match acc {
                None => v,
                Some(o) => self.b.v_ite(a.guard, &v, &o),
            });
        }
        acc.unwrap_or_else(|| const_bits(0, 64))
    }
    fn ptr_add(&mut self, p: &PtrVal, d: &[Bit]) -> PtrVal {
        PtrVal {
            alts: p
                .alts
                .iter()
                .map(|a| {
                    let off = match (as_const(&a.off), as_const(d)) {
                        (Some(x), Some(y)) => const_bits((x as u64).wrapping_add(y as u64) as u128, 64),
                        _ => self.b.v_add(&a.off, d),
                    };
                    PtrAlt { guard: a.guard, prov: a.prov, off }
                })
                .collect(),
        }
    }
    fn ptr_addc(&mut self, p: &PtrVal, d: u64) -> PtrVal {
        if d == 0 {
            return p.clone();
        }
        self.ptr_add(p, &const_bits(d as u128, 64))
    }

    // ---------------------------------------------------------------- constants
    fn import_alloc(&mut self, id: interpret::AllocId) -> R<AllocId> {
        if let Some(x) = self.global_map.get(&id) {
            return Ok(*x);
        }
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => {
                let nid = self.new_id();
                self.global_map.insert(id, nid);
                self.import_const_alloc(nid, a)?;
                Ok(nid)
            }
            GlobalAlloc::Function { instance, .. } => {
                let f = self.fn_ptr(instance);
                self.global_map.insert(id, f);
                Ok(f)
            }
            GlobalAlloc::Static(d) => {
                let a = self
                    .tcx
                    .eval_static_initializer(d)
                    .map_err(|_| "static initialiser".to_string())?;
                let nid = self.new_id();
                self.global_map.insert(id, nid);
                self.import_const_alloc(nid, a)?;
                Ok(nid)
            }
            GlobalAlloc::VTable(ty, preds) => {
                let nid = self.vtable(ty, preds.principal())?;
                self.global_map.insert(id, nid);
                Ok(nid)
            }
            _ => {
                let nid = self.new_id();
                self.global_map.insert(id, nid);
                self.globals.insert(nid, Rc::new(Alloc { bytes: vec![AByte::Uninit; 64] }));
                Ok(nid)
            }
        }
    }
    /// The table of the methods of `ty` behind a trait object.
    fn vtable(&mut self, ty: Ty<'tcx>, principal: Option<ty::PolyExistentialTraitRef<'tcx>>) -> R<AllocId> {
        let tr = principal.map(|p| self.tcx.instantiate_bound_regions_with_erased(p));
        let ty = self.tcx.erase_and_anonymize_regions(ty);
        let id = self.tcx.vtable_allocation((ty, tr));
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => {
                if let Some(x) = self.global_map.get(&id) {
                    return Ok(*x);
                }
                let nid = self.new_id();
                self.global_map.insert(id, nid);
                self.import_const_alloc(nid, a)?;
                Ok(nid)
            }
            _ => Err("vtable".into()),
        }
    }
    fn import_const_alloc(&mut self, nid: AllocId, a: interpret::ConstAllocation<'tcx>) -> R<()> {
        let a = a.inner();
        let n = a.len();
        let raw = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n).to_vec();
        let mut bytes: Bytes = Vec::with_capacity(n);
        for (i, x) in raw.iter().enumerate() {
            let init = a
                .init_mask()
                .is_range_initialized(AllocRange {
                    start: rustc_abi::Size::from_bytes(i as u64),
                    size: rustc_abi::Size::from_bytes(1),
                })
                .is_ok();
            if init {
                bytes.push(bits_bytes(&const_bits(*x as u128, 8)).pop().unwrap());
            } else {
                bytes.push(AByte::Uninit);
            }
        }
        let ptrs: Vec<_> = a.provenance().ptrs().iter().map(|(o, p)| (o.bytes(), p.alloc_id())).collect();
        for (o, p) in ptrs {
            let o = o as usize;
            let off = u64::from_le_bytes(raw[o..o + 8].try_into().unwrap());
            let tgt = self.import_alloc(p)?;
            bytes.splice(o..o + 8, ptr_bytes(ptr_to(tgt, off)));
        }
        self.globals.insert(nid, Rc::new(Alloc { bytes }));
        Ok(())
    }
    fn scalar_bytes(&mut self, s: Scalar, size: u64) -> R<Bytes> {
        match s {
            Scalar::Int(i) => Ok(bits_bytes(&const_bits(i.to_bits_unchecked(), size as usize * 8))),
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                let id = self.import_alloc(prov.alloc_id())?;
                Ok(ptr_bytes(ptr_to(id, off.bytes())))
            }
        }
    }
    fn eval_const(&mut self, c: &mir::Const<'tcx>, span: Span) -> R<(Bytes, Ty<'tcx>)> {
        let ty = c.ty();
        let lay = self.layout(ty)?;
        let v = c
            .eval(self.tcx, self.env, span)
            .map_err(|e| format!("constant evaluation failed: {e:?}"))?;
        let size = lay.size.bytes();
        let bytes = match v {
            ConstValue::ZeroSized => vec![],
            ConstValue::Scalar(s) => self.scalar_bytes(s, size)?,
            ConstValue::Slice { alloc_id, meta } => {
                let id = self.import_alloc(alloc_id)?;
                let mut b = ptr_bytes(ptr_to(id, 0));
                b.extend(bits_bytes(&const_bits(meta as u128, 64)));
                b
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let id = self.import_alloc(alloc_id)?;
                let o = offset.bytes() as usize;
                self.globals[&id].bytes[o..o + size as usize].to_vec()
            }
        };
        Ok((bytes, ty))
    }

    // ---------------------------------------------------------------- bodies
    fn body(&mut self, inst: Instance<'tcx>) -> R<Rc<BodyInfo<'tcx>>> {
        if let Some(b) = self.bodies.get(&inst) {
            return Ok(b.clone());
        }
        if let InstanceKind::Item(d) = inst.def {
            if !self.tcx.is_mir_available(d) {
                return Err(format!("no MIR for {}", self.tcx.def_path_str(d)));
            }
        }
        let raw = self.tcx.instance_mir(inst.def);
        let body = inst.instantiate_mir_and_normalize_erasing_regions(
            self.tcx,
            self.env,
            ty::EarlyBinder::bind(self.tcx, raw.clone()),
        );
        let rpo = mir::traversal::reverse_postorder(&body).enumerate().map(|(i, (b, _))| (b, i)).collect();
        let bi = Rc::new(BodyInfo { body, rpo });
        self.bodies.insert(inst, bi.clone());
        Ok(bi)
    }

    pub fn run_root(&mut self, inst: Instance<'tcx>) -> R<()> {
        let bi = self.body(inst)?;
        let mut st = State { pc: T, mem: Default::default() };
        let mut args = vec![];
        for i in 1..=bi.body.arg_count {
            let ty = bi.body.local_decls[Local::from_usize(i)].ty;
            let lay = self.layout(ty)?;
            let nm = bi
                .body
                .var_debug_info
                .iter()
                .find(|v| v.argument_index == Some(i as u16))
                .map(|v| v.name.to_string())
                .unwrap_or_else(|| format!("arg{i}"));
            let b = self.input(&nm, ty, lay)?;
            args.push(b);
        }
        if let Some((s, _)) = self.exec_fn(inst, args, State { pc: st.pc, mem: std::mem::take(&mut st.mem) })? {
            let c = self.covers.entry("return".into()).or_insert(F);
            *c = self.b.or(*c, s.pc);
        }
        Ok(())
    }
    fn input(&mut self, nm: &str, ty: Ty<'tcx>, lay: TyAndLayout<'tcx>) -> R<Bytes> {
        match ty.kind() {
            ty::Uint(_) | ty::Int(_) => {
                let n = lay.size.bits() as usize;
                // most significant first so that comparisons stay small
                let mut v = vec![F; n];
                for i in (0..n).rev() {
                    v[i] = self.b.new_var(format!("{nm}.{i}"));
                }
                Ok(bits_bytes(&v))
            }
            ty::Bool => {
                let v = self.b.new_var(nm.to_string());
                Ok(bits_bytes(&[v]))
            }
            ty::Array(e, _) => {
                let el = self.layout(*e)?;
                let n = lay.size.bytes().checked_div(el.size.bytes()).unwrap_or(0);
                let mut out = vec![];
                // the integers of an array within an array share their places in the variable
                // order bit by bit, so that comparing them with one another stays small
                if let ty::Array(f, _) = e.kind() {
                    if matches!(f.kind(), ty::Uint(_) | ty::Int(_)) {
                        let fl = self.layout(*f)?;
                        let (w, m) = (fl.size.bits() as usize, (el.size.bytes() / fl.size.bytes()) as usize);
                        for i in 0..n {
                            let mut v = vec![vec![F; w]; m];
                            for b in (0..w).rev() {
                                for (k, v) in v.iter_mut().enumerate() {
                                    v[b] = self.b.new_var(format!("{nm}[{i}][{k}].{b}"));
                                }
                            }
                            for v in v {
                                out.extend(bits_bytes(&v));
                            }
                        }
                        return Ok(out);
                    }
                }
                for i in 0..n {
                    out.extend(self.input(&format!("{nm}[{i}]"), *e, el)?);
                }
                Ok(out)
            }
            ty::Tuple(ts) if ts.is_empty() => Ok(vec![]),
            _ => Err(format!("unsupported parameter type {ty}")),
        }
    }

    fn exec_fn(&mut self, inst: Instance<'tcx>, args: Vec<Bytes>, mut st: State) -> R<Option<(State, Bytes)>> {
        let bi = self.body(inst)?;
        let body = &bi.body;
        let nm = self.name_of(inst.def_id());
        self.calls += 1;
        if nm.1 == self.subject {
            if !self.visited.contains(&nm.0) {
                self.visited.insert(nm.0.clone());
            }
            if self.paths {
                self.visited.insert(format!("@{}", self.tcx.def_path(inst.def_id()).to_string_no_crate_verbose()));
            }
        }
        self.stack.push(FrameInfo { name: nm.0.clone(), krate: nm.1.clone(), span: body.span });
        if self.stack.len() > 200 {
            return Err("call depth".into());
        }
        // locals
        let base = self.next_alloc + 1;
        self.next_alloc += body.local_decls.len() as u32;
        for (l, d) in body.local_decls.iter_enumerated() {
            let lay = self.layout(d.ty)?;
            st.mem.insert(
                base + l.as_u32(),
                Rc::new(Alloc { bytes: vec![AByte::Uninit; lay.size.bytes() as usize] }),
            );
        }
        let mut args = args;
        if let Some(sp) = body.spread_arg {
            let lay = self.layout(body.local_decls[sp].ty)?;
            let first = sp.as_usize() - 1;
            let rest: Vec<Bytes> = args.drain(first..).collect();
            let mut tup = vec![AByte::Uninit; lay.size.bytes() as usize];
            for (i, r) in rest.into_iter().enumerate() {
                let o = lay.fields.offset(i).bytes() as usize;
                let n = r.len();
                tup.splice(o..o + n, r);
            }
            args.push(tup);
        }
        if args.len() != body.arg_count {
            return Err(format!("arity mismatch calling {} ({} vs {})", nm.0, args.len(), body.arg_count));
        }
        for (i, a) in args.into_iter().enumerate() {
            let id = base + 1 + i as u32;
            let al = Rc::make_mut(st.mem.get_mut(&id).unwrap());
            if al.bytes.len() != a.len() {
                return Err(format!("argument size mismatch calling {}", nm.0));
            }
            al.bytes = a;
        }
        let depth = self.stack.len();
        let mut work: BTreeMap<usize, (BasicBlock, State)> = BTreeMap::new();
        work.insert(bi.rpo[&START_BLOCK], (START_BLOCK, st));
        let mut ret: Option<State> = None;
        while let Some((_, (bb, mut st))) = work.pop_first() {
            self.blocks += 1;
            if self.blocks > self.block_limit {
                return Err("block budget exhausted".into());
            }
            if self.blocks % 256 == 0 && std::time::Instant::now() > self.deadline {
                return Err("time budget exhausted".into());
            }
            let data = &body.basic_blocks[bb];
            for s in &data.statements {
                self.stack[depth - 1].span = s.source_info.span;
                self.stmt(&bi, base, s, &mut st)?;
                if st.pc == F {
                    break;
                }
            }
            if st.pc == F {
                continue;
            }
            let term = data.terminator();
            self.stack[depth - 1].span = term.source_info.span;
            let mut succ: Vec<(BasicBlock, State)> = vec![];
            match &term.kind {
                TerminatorKind::Goto { target, .. } => succ.push((*target, st)),
                TerminatorKind::FalseEdge { real_target, .. } => succ.push((*real_target, st)),
                TerminatorKind::FalseUnwind { real_target, .. } => succ.push((*real_target, st)),
                TerminatorKind::Return => {
                    ret = Some(match ret {
                        None => st,
                        Some(r) => self.merge_states(r, st)?,
                    });
                }
                TerminatorKind::Unreachable => {
                    let pc = st.pc;
                    self.event("unreachable", "undefined behaviour: unreachable code reached".into(), pc);
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let (b, _) = self.operand(&bi, base, discr, &mut st)?;
                    let bits = self.to_bits(&b)?;
                    let mut rest = st.pc;
                    let mut todo = vec![];
                    for (v, t) in targets.iter() {
                        let c = const_bits(v, bits.len());
                        let e = self.b.v_eq(&bits, &c);
                        let pc = self.b.and(st.pc, e);
                        rest = self.b.and(rest, e ^ 1);
                        if pc != F {
                            todo.push((t, pc));
                        }
                    }
                    if rest != F {
                        todo.push((targets.otherwise(), rest));
                    }
                    let n = todo.len();
                    let mut st = Some(st);
                    for (i, (t, pc)) in todo.into_iter().enumerate() {
                        let mut s = if i + 1 == n { st.take().unwrap() } else { st.as_ref().unwrap().clone() };
                        s.pc = pc;
                        succ.push((t, s));
                    }
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (b, _) = self.operand(&bi, base, cond, &mut st)?;
                    let c = self.to_bits(&b)?[0] ^ (!*expected as u32);
                    let bad = self.b.and(st.pc, c ^ 1);
                    if bad != F {
                        let k = match &**msg {
                            AssertKind::BoundsCheck { .. } => "index out of bounds".to_string(),
                            AssertKind::Overflow(op, ..) => format!("arithmetic overflow in {op:?}"),
                            o => format!("assertion {:?}", std::mem::discriminant(o)),
                        };
                        self.event("panic", k, bad);
                    }
                    st.pc = self.b.and(st.pc, c);
                    if st.pc != F {
                        succ.push((*target, st));
                    }
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(&body.local_decls, self.tcx).ty;
                    if ty.needs_drop(self.tcx, self.env) {
                        let mp = self.place(&bi, base, place, &mut st)?;
                        if let (ty::Dynamic(..), Some(m)) = (ty.kind(), &mp.meta) {
                            let m = m.clone();
                            if let Some((s, _)) = self.drop_dyn(mp.ptr, &m, st)? {
                                succ.push((*target, s));
                            }
                        } else {
                            let gi = Instance::resolve_drop_glue(self.tcx, ty);
                            let mut a = ptr_bytes(mp.ptr);
                            if let Some(m) = mp.meta {
                                a.extend(m);
                            }
                            if let Some((s, _)) = self.exec_fn(gi, vec![a], st)? {
                                succ.push((*target, s));
                            }
                        }
                    } else {
                        succ.push((*target, st));
                    }
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let r = self.call(&bi, base, func, args, *fn_span, target.is_some(), &mut st)?;
                    if let (Some((mut s, bytes)), Some(t)) = (r, target) {
                        if s.pc != F {
                            let mp = self.place(&bi, base, destination, &mut s)?;
                            if mp.layout.size.bytes() as usize != bytes.len() {
                                return Err(format!("return size mismatch at {}", self.span_str(*fn_span)));
                            }
                            self.store(&mut s, &mp.ptr, &bytes)?;
                            succ.push((*t, s));
                        }
                    }
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {}
                o => return Err(format!("terminator {o:?}")),
            }
            for (t, s) in succ {
                if s.pc == F {
                    continue;
                }
                let k = bi.rpo[&t];
                let s = match work.remove(&k) {
                    None => s,
                    Some((_, o)) => self.merge_states(o, s)?,
                };
                work.insert(k, (t, s));
            }
        }
        self.stack.truncate(depth - 1);
        match ret {
            None => Ok(None),
            Some(mut s) => {
                let r = s.mem[&base].bytes.clone();
                for i in 0..body.local_decls.len() as u32 {
                    s.mem.remove(&(base + i));
                }
                Ok(Some((s, r)))
            }
        }
    }

    // ---------------------------------------------------------------- places
    fn place(&mut self, bi: &BodyInfo<'tcx>, base: AllocId, p: &Place<'tcx>, st: &mut State) -> R<MPlace<'tcx>> {
        let lay = self.layout(bi.body.local_decls[p.local].ty)?;
        let mut cur = MPlace { ptr: ptr_to(base + p.local.as_u32(), 0), meta: None, layout: lay };
        for e in p.projection {
            cur = match e {
                ProjectionElem::Deref => {
                    let ty = cur.layout.ty;
                    let inner = ty.builtin_deref(true).ok_or_else(|| format!("deref of {ty}"))?;
                    let b = self.load(st, &cur.ptr, cur.layout.size.bytes())?;
                    let ptr = self.to_ptr(&b[..8])?;
                    let meta = if b.len() > 8 { Some(b[8..].to_vec()) } else { None };
                    MPlace { ptr, meta, layout: self.layout(inner)? }
                }
                ProjectionElem::Field(f, _) => {
                    let off = cur.layout.fields.offset(f.as_usize()).bytes();
                    let fl = cur.layout.field(&self.cx, f.as_usize());
                    MPlace {
                        ptr: self.ptr_addc(&cur.ptr, off),
                        meta: if fl.is_sized() { None } else { cur.meta },
                        layout: fl,
                    }
                }
                ProjectionElem::Index(l) => {
                    let a = self.get_alloc(st, base + l.as_u32()).unwrap();
                    let idx = self.to_bits(&a.bytes)?;
                    self.index(&cur, &idx)?
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let idx = if from_end {
                        let len = self.len_of(&cur)?;
                        self.b.v_sub(&len, &const_bits(offset as u128, 64))
                    } else {
                        const_bits(offset as u128, 64)
                    };
                    self.index(&cur, &idx)?
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let len = self.len_of(&cur)?;
                    let end = if from_end {
                        self.b.v_sub(&len, &const_bits(to as u128, 64))
                    } else {
                        const_bits(to as u128, 64)
                    };
                    let nl = self.b.v_sub(&end, &const_bits(from as u128, 64));
                    let e = self.index(&cur, &const_bits(from as u128, 64))?;
                    match cur.layout.ty.kind() {
                        ty::Array(el, _) => {
                            let n = as_const(&nl).ok_or("subslice")? as u64;
                            let lay = self.layout(Ty::new_array(self.tcx, *el, n))?;
                            MPlace { ptr: e.ptr, meta: None, layout: lay }
                        }
                        _ => MPlace { ptr: e.ptr, meta: Some(bits_bytes(&nl)), layout: cur.layout },
                    }
                }
                ProjectionElem::Downcast(_, v) => {
                    MPlace { layout: cur.layout.for_variant(&self.cx, v), ..cur }
                }
                ProjectionElem::OpaqueCast(ty) | ProjectionElem::UnwrapUnsafeBinder(ty) => {
                    MPlace { layout: self.layout(ty)?, ..cur }
                }
                o => return Err(format!("projection {o:?}")),
            };
        }
        Ok(cur)
    }
    fn len_of(&mut self, p: &MPlace<'tcx>) -> R<Bits> {
        match (&p.meta, p.layout.ty.kind()) {
            (Some(m), _) => {
                let m = m.clone();
                self.to_bits(&m)
            }
            (None, ty::Array(_, _)) => match p.layout.fields {
                FieldsShape::Array { count, .. } => Ok(const_bits(count as u128, 64)),
                _ => Err("array layout".into()),
            },
            _ => Err("length of non-slice".into()),
        }
    }
    fn index(&mut self, p: &MPlace<'tcx>, idx: &[Bit]) -> R<MPlace<'tcx>> {
        let el_ty = match p.layout.ty.kind() {
            ty::Array(e, _) | ty::Slice(e) => *e,
            ty::Str => self.tcx.types.u8,
            _ => return Err(format!("index into {}", p.layout.ty)),
        };
        let el = self.layout(el_ty)?;
        let d = self.scale(idx, el.size.bytes());
        Ok(MPlace { ptr: self.ptr_add(&p.ptr, &d), meta: None, layout: el })
    }
    fn scale(&mut self, idx: &[Bit], s: u64) -> Bits {
        match as_const(idx) {
            Some(c) => const_bits((c as u64).wrapping_mul(s) as u128, 64),
            None => self.b.v_mul(idx, &const_bits(s as u128, 64), 64),
        }
    }

    // ---------------------------------------------------------------- operands
    fn operand(&mut self, bi: &BodyInfo<'tcx>, base: AllocId, o: &Operand<'tcx>, st: &mut State) -> R<(Bytes, Ty<'tcx>)> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                if p.projection.is_empty() {
                    let a = &st.mem[&(base + p.local.as_u32())];
                    return Ok((a.bytes.clone(), bi.body.local_decls[p.local].ty));
                }
                let m = self.place(bi, base, p, st)?;
                let b = self.load(st, &m.ptr, m.layout.size.bytes())?;
                Ok((b, m.layout.ty))
            }
            Operand::Constant(c) => self.eval_const(&c.const_, c.span),
            // debug-only run-time checks of the standard library itself
            Operand::RuntimeChecks(_) => Ok((bits_bytes(&[F]), self.tcx.types.bool)),
        }
    }

    fn stmt(&mut self, bi: &BodyInfo<'tcx>, base: AllocId, s: &Statement<'tcx>, st: &mut State) -> R<()> {
        match &s.kind {
            StatementKind::Assign(a) => {
                let (place, rv) = &**a;
                let bytes = self.rvalue(bi, base, place, rv, st)?;
                if st.pc == F {
                    return Ok(());
                }
                if place.projection.is_empty() {
                    let id = base + place.local.as_u32();
                    let al = Rc::make_mut(st.mem.get_mut(&id).unwrap());
                    if al.bytes.len() != bytes.len() {
                        return Err(format!("size mismatch in assignment {s:?}"));
                    }
                    al.bytes = bytes;
                    return Ok(());
                }
                let mp = self.place(bi, base, place, st)?;
                if mp.layout.size.bytes() as usize != bytes.len() {
                    return Err(format!("size mismatch in assignment {s:?}"));
                }
                self.store(st, &mp.ptr, &bytes)
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let mp = self.place(bi, base, place, st)?;
                let mut b = self.load(st, &mp.ptr, mp.layout.size.bytes())?;
                self.write_discr(&mut b, mp.layout, *variant_index)?;
                self.store(st, &mp.ptr, &b)
            }
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(o) => {
                    let (b, _) = self.operand(bi, base, o, st)?;
                    let c = self.to_bits(&b)?[0];
                    let bad = self.b.and(st.pc, c ^ 1);
                    self.event("assume", "compiler assumption may be false".into(), bad);
                    st.pc = self.b.and(st.pc, c);
                    Ok(())
                }
                NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                    let (src, sty) = self.operand(bi, base, &c.src, st)?;
                    let (dst, _) = self.operand(bi, base, &c.dst, st)?;
                    let (cnt, _) = self.operand(bi, base, &c.count, st)?;
                    let el = sty.builtin_deref(true).unwrap();
                    self.mem_copy(st, &src, &dst, &cnt, el)
                }
            },
            StatementKind::StorageLive(_)
            | StatementKind::StorageDead(_)
            | StatementKind::Nop
            | StatementKind::ConstEvalCounter
            | StatementKind::Coverage(_)
            | StatementKind::FakeRead(_)
            | StatementKind::PlaceMention(_)
            | StatementKind::AscribeUserType(..) => Ok(()),
            o => Err(format!("statement {o:?}")),
        }
    }
    fn mem_copy(&mut self, st: &mut State, src: &Bytes, dst: &Bytes, cnt: &Bytes, el: Ty<'tcx>) -> R<()> {
        let sz = self.layout(el)?.size.bytes();
        let s = self.to_ptr(src)?;
        let d = self.to_ptr(dst)?;
        let c = self.to_bits(cnt)?;
        if sz == 0 {
            return Ok(());
        }
        let vals = self.concretize(st.pc, &c, 1024)?;
        let mut moves = vec![];
        for (g, n) in vals {
            let mut s2 = State { pc: self.b.and(st.pc, g), mem: std::mem::take(&mut st.mem) };
            let data = self.load(&mut s2, &s, n as u64 * sz)?;
            st.mem = s2.mem;
            moves.push((g, data));
        }
        for (g, data) in moves {
            self.store_g(st, &d, &data, g)?;
        }
        Ok(())
    }

    fn is_signed(&self, ty: Ty<'tcx>) -> bool {
        matches!(ty.kind(), ty::Int(_))
    }

    fn rvalue(&mut self, bi: &BodyInfo<'tcx>, base: AllocId, place: &Place<'tcx>, rv: &Rvalue<'tcx>, st: &mut State) -> R<Bytes> {
        match rv {
            Rvalue::Use(o, ..) => Ok(self.operand(bi, base, o, st)?.0),
            Rvalue::CopyForDeref(p) => Ok(self.operand(bi, base, &Operand::Copy(*p), st)?.0),
            Rvalue::Repeat(o, n) => {
                let (b, _) = self.operand(bi, base, o, st)?;
                let n = n.try_to_target_usize(self.tcx).ok_or("repeat count")?;
                let mut out = vec![];
                for _ in 0..n {
                    out.extend(b.iter().cloned());
                }
                Ok(out)
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) | Rvalue::Reborrow(_, _, p) => {
                let mp = self.place(bi, base, p, st)?;
                if let Rvalue::Reborrow(..) = rv {
                    return self.load(st, &mp.ptr, mp.layout.size.bytes());
                }
                let mut b = ptr_bytes(mp.ptr);
                if let Some(m) = mp.meta {
                    b.extend(m);
                }
                Ok(b)
            }
            Rvalue::Discriminant(p) => {
                let mp = self.place(bi, base, p, st)?;
                let b = self.load(st, &mp.ptr, mp.layout.size.bytes())?;
                let d = self.read_discr(&b, mp.layout)?;
                let want = self.layout(mp.layout.ty.discriminant_ty(self.tcx))?.size.bits() as usize;
                let mut d = d;
                d.resize(want, F);
                Ok(bits_bytes(&d))
            }
            Rvalue::Aggregate(k, ops) => {
                let ty = place.ty(&bi.body.local_decls, self.tcx).ty;
                let mut vals = vec![];
                for o in ops {
                    vals.push(self.operand(bi, base, o, st)?.0);
                }
                self.aggregate(k, ty, vals)
            }
            Rvalue::UnaryOp(op, o) => {
                let (b, ty) = self.operand(bi, base, o, st)?;
                match op {
                    UnOp::PtrMetadata => Ok(b[8..].to_vec()),
                    UnOp::Not => {
                        let x = self.to_bits(&b)?;
                        if ty.is_bool() {
                            return Ok(bits_bytes(&[x[0] ^ 1]));
                        }
                        Ok(bits_bytes(&self.b.v_not(&x)))
                    }
                    UnOp::Neg => {
                        let x = self.to_bits(&b)?;
                        Ok(bits_bytes(&self.b.v_neg(&x)))
                    }
                }
            }
            Rvalue::BinaryOp(op, oo) => {
                let (a, ta) = self.operand(bi, base, &oo.0, st)?;
                let (b, _) = self.operand(bi, base, &oo.1, st)?;
                let dty = place.ty(&bi.body.local_decls, self.tcx).ty;
                self.binop(*op, &a, ta, &b, dty)
            }
            Rvalue::Cast(k, o, to) => {
                let (b, from) = self.operand(bi, base, o, st)?;
                self.cast(k, b, from, *to)
            }
            o => Err(format!("rvalue {o:?}")),
        }
    }

    fn aggregate(&mut self, k: &AggregateKind<'tcx>, ty: Ty<'tcx>, vals: Vec<Bytes>) -> R<Bytes> {
        if let AggregateKind::RawPtr(..) = k {
            return Ok(vals.concat());
        }
        let lay = self.layout(ty)?;
        let mut out = vec![AByte::Uninit; lay.size.bytes() as usize];
        let (vl, variant) = match k {
            AggregateKind::Adt(_, v, _, _, Some(f)) => {
                let o = lay.fields.offset(f.as_usize()).bytes() as usize;
                let n = vals[0].len();
                out.splice(o..o + n, vals[0].clone());
                let _ = v;
                return Ok(out);
            }
            AggregateKind::Adt(_, v, _, _, None) if ty.is_enum() => (lay.for_variant(&self.cx, *v), Some(*v)),
            _ => (lay, None),
        };
        for (i, v) in vals.into_iter().enumerate() {
            let o = match k {
                AggregateKind::Array(_) => i * v.len(),
                _ => vl.fields.offset(i).bytes() as usize,
            };
            let n = v.len();
            out.splice(o..o + n, v);
        }
        if let Some(v) = variant {
            self.write_discr(&mut out, lay, v)?;
        }
        Ok(out)
    }
    fn tag_range(&self, lay: TyAndLayout<'tcx>) -> Option<(usize, usize)> {
        if let Variants::Multiple { tag, tag_field, .. } = &lay.layout.variants {
            let o = lay.fields.offset(tag_field.as_usize()).bytes() as usize;
            let n = tag.size(&self.cx).bytes() as usize;
            Some((o, n))
        } else {
            None
        }
    }
    fn write_discr(&mut self, out: &mut Bytes, lay: TyAndLayout<'tcx>, v: VariantIdx) -> R<()> {
        match &lay.layout.variants {
            Variants::Multiple { tag_encoding, .. } => {
                let (o, n) = self.tag_range(lay).unwrap();
                let val = match tag_encoding {
                    TagEncoding::Direct => {
                        lay.ty.discriminant_for_variant(self.tcx, v).ok_or("discriminant")?.val
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        if v == *untagged_variant {
                            return Ok(());
                        }
                        niche_start.wrapping_add((v.as_u32() - niche_variants.start.as_u32()) as u128)
                    }
                };
                out.splice(o..o + n, bits_bytes(&const_bits(val, n * 8)));
                Ok(())
            }
            _ => Ok(()),
        }
    }
    fn read_discr(&mut self, b: &Bytes, lay: TyAndLayout<'tcx>) -> R<Bits> {
        let dw = self.layout(lay.ty.discriminant_ty(self.tcx))?.size.bits() as usize;
        match &lay.layout.variants {
            Variants::Single { index } => {
                let v = lay
                    .ty
                    .discriminant_for_variant(self.tcx, *index)
                    .map(|d| d.val)
                    .unwrap_or(index.as_u32() as u128);
                Ok(const_bits(v, dw))
            }
            Variants::Multiple { tag, tag_encoding, .. } => {
                let (o, n) = self.tag_range(lay).unwrap();
                let tb = self.to_bits(&b[o..o + n])?;
                match tag_encoding {
                    TagEncoding::Direct => {
                        let signed = matches!(tag.primitive(), Primitive::Int(_, true));
                        let fill = if signed { *tb.last().unwrap() } else { F };
                        let mut t = tb;
                        t.resize(dw, fill);
                        Ok(t)
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        let w = tb.len();
                        let st = const_bits(*niche_start, w);
                        let rel = self.b.v_sub(&tb, &st);
                        let last = niche_variants.last.as_u32() - niche_variants.start.as_u32();
                        let maxb = const_bits(last as u128, w);
                        let gt = self.b.v_ult(&maxb, &rel);
                        let mut relx = rel;
                        relx.resize(dw.max(w), F);
                        let s2 = const_bits(niche_variants.start.as_u32() as u128, relx.len());
                        let mut v = self.b.v_add(&relx, &s2);
                        v.resize(dw, F);
                        let u = const_bits(untagged_variant.as_u32() as u128, dw);
                        Ok(self.b.v_ite(gt, &u, &v))
                    }
                }
            }
            _ => Err("uninhabited enum".into()),
        }
    }

    fn binop(&mut self, op: BinOp, a: &Bytes, ta: Ty<'tcx>, b: &Bytes, dty: Ty<'tcx>) -> R<Bytes> {
        use BinOp::*;
        let signed = self.is_signed(ta);
        if let Offset = op {
            let p = self.to_ptr(a)?;
            let el = ta.builtin_deref(true).unwrap();
            let sz = self.layout(el)?.size.bytes();
            let i = self.to_bits(b)?;
            let d = self.scale(&i, sz);
            return Ok(ptr_bytes(self.ptr_add(&p, &d)));
        }
        if a.len() == 16 && ta.is_any_ptr() {
            // wide pointers: compare address then metadata
            let (x, y) = (self.to_bits(&a[..8])?, self.to_bits(&b[..8])?);
            let (m, n) = (self.to_bits(&a[8..])?, self.to_bits(&b[8..])?);
            let e1 = self.b.v_eq(&x, &y);
            let e2 = self.b.v_eq(&m, &n);
            let e = self.b.and(e1, e2);
            return match op {
                Eq => Ok(bits_bytes(&[e])),
                Ne => Ok(bits_bytes(&[e ^ 1])),
                _ => Err("ordering of wide pointers".into()),
            };
        }
        let x = self.to_bits(a)?;
        let y = self.to_bits(b)?;
        let n = x.len();
        let r: Bits = match op {
            Add | AddUnchecked => self.b.v_add(&x, &y),
            Sub | SubUnchecked => self.b.v_sub(&x, &y),
            Mul | MulUnchecked => self.b.v_mul(&x, &y, n),
            AddWithOverflow | SubWithOverflow | MulWithOverflow => {
                let (v, o) = match op {
                    AddWithOverflow => {
                        let (s, c, t) = self.b.v_addc(&x, &y, F);
                        (s, if signed { self.b.xor(c, t) } else { c })
                    }
                    SubWithOverflow => {
                        let ny = self.b.v_not(&y);
                        let (s, c, t) = self.b.v_addc(&x, &ny, T);
                        (s, if signed { self.b.xor(c, t) } else { c ^ 1 })
                    }
                    _ => {
                        if signed {
                            let (Some(p), Some(q)) = (as_const(&x), as_const(&y)) else {
                                return Err("signed multiply".into());
                            };
                            let sx = |v: u128| ((v << (128 - n)) as i128) >> (128 - n);
                            let r = sx(p).wrapping_mul(sx(q));
                            let rb = const_bits(r as u128, n);
                            let back = sx(as_const(&rb).unwrap());
                            (rb, if back == r { F } else { T })
                        } else {
                            let full = self.b.v_mul(&x, &y, 2 * n);
                            let mut o = F;
                            for z in &full[n..] {
                                o = self.b.or(o, *z);
                            }
                            (full[..n].to_vec(), o)
                        }
                    }
                };
                let lay = self.layout(dty)?;
                let mut out = vec![AByte::Uninit; lay.size.bytes() as usize];
                let (o0, o1) = (lay.fields.offset(0).bytes() as usize, lay.fields.offset(1).bytes() as usize);
                out.splice(o0..o0 + n / 8, bits_bytes(&v));
                out.splice(o1..o1 + 1, bits_bytes(&[o]));
                return Ok(out);
            }
            Div | Rem => {
                if signed {
                    let nx = self.b.v_neg(&x);
                    let ax = self.b.v_ite(x[n - 1], &nx, &x);
                    let ny = self.b.v_neg(&y);
                    let ay = self.b.v_ite(y[n - 1], &ny, &y);
                    let (q, r) = self.b.v_udivrem(&ax, &ay);
                    if let Div = op {
                        let s = self.b.xor(x[n - 1], y[n - 1]);
                        let nq = self.b.v_neg(&q);
                        self.b.v_ite(s, &nq, &q)
                    } else {
                        let nr = self.b.v_neg(&r);
                        self.b.v_ite(x[n - 1], &nr, &r)
                    }
                } else {
                    let (q, r) = self.b.v_udivrem(&x, &y);
                    if let Div = op {
                        q
                    } else {
                        r
                    }
                }
            }
            BitXor => self.b.v_xor(&x, &y),
            BitAnd => self.b.v_and(&x, &y),
            BitOr => self.b.v_or(&x, &y),
            Shl | ShlUnchecked => self.b.v_shift(&x, &y, true, F),
            Shr | ShrUnchecked => {
                let fill = if signed { x[n - 1] } else { F };
                self.b.v_shift(&x, &y, false, fill)
            }
            Eq => vec![self.b.v_eq(&x, &y)],
            Ne => vec![self.b.v_eq(&x, &y) ^ 1],
            Lt => vec![self.b.v_lt(&x, &y, signed)],
            Ge => vec![self.b.v_lt(&x, &y, signed) ^ 1],
            Gt => vec![self.b.v_lt(&y, &x, signed)],
            Le => vec![self.b.v_lt(&y, &x, signed) ^ 1],
            Cmp => {
                let lt = self.b.v_lt(&x, &y, signed);
                let gt = self.b.v_lt(&y, &x, signed);
                let m1 = const_bits(0xff, 8);
                let z = const_bits(0, 8);
                let p1 = const_bits(1, 8);
                let r = self.b.v_ite(gt, &p1, &z);
                self.b.v_ite(lt, &m1, &r)
            }
            _ => return Err(format!("binop {op:?}")),
        };
        Ok(bits_bytes(&r))
    }

    fn cast(&mut self, k: &CastKind, b: Bytes, from: Ty<'tcx>, to: Ty<'tcx>) -> R<Bytes> {
        match k {
            CastKind::Transmute | CastKind::Subtype | CastKind::BoxDerefTransmute => Ok(b),
            CastKind::PtrToPtr | CastKind::FnPtrToPtr => {
                let n = self.layout(to)?.size.bytes() as usize;
                Ok(b[..n].to_vec())
            }
            CastKind::PointerExposeProvenance => {
                let x = self.to_bits(&b)?;
                Ok(bits_bytes(&x))
            }
            CastKind::PointerWithExposedProvenance => Ok(b),
            CastKind::IntToInt => {
                let mut x = if from.is_enum() {
                    let l = self.layout(from)?;
                    self.read_discr(&b, l)?
                } else {
                    self.to_bits(&b)?
                };
                let n = self.layout(to)?.size.bits() as usize;
                let signed = if from.is_enum() {
                    self.is_signed(from.discriminant_ty(self.tcx))
                } else {
                    self.is_signed(from)
                };
                let fill = if signed { *x.last().unwrap_or(&F) } else { F };
                x.resize(n, fill);
                Ok(bits_bytes(&x))
            }
            CastKind::PointerCoercion(c, _) => match c {
                PointerCoercion::Unsize => {
                    let (sp, dp) = (from.builtin_deref(true), to.builtin_deref(true));
                    if let (Some(s), Some(d)) = (sp, dp) {
                        let (s_t, d_t) = self.tcx.struct_lockstep_tails_for_codegen(s, d, self.env);
                        if let (ty::Array(_, _), ty::Slice(_)) = (s_t.kind(), d_t.kind()) {
                            let al = self.layout(s_t)?;
                            let n = match al.fields {
                                FieldsShape::Array { count, .. } => count,
                                _ => return Err("array".into()),
                            };
                            let mut o = b;
                            o.extend(bits_bytes(&const_bits(n as u128, 64)));
                            return Ok(o);
                        }
                        if let ty::Dynamic(preds, ..) = d_t.kind() {
                            if b.len() == 16 {
                                if let ty::Dynamic(p2, ..) = s_t.kind() {
                                    if p2.principal() == preds.principal() {
                                        return Ok(b);
                                    }
                                }
                                return Err(format!("unsize {from} -> {to}"));
                            }
                            let id = self.vtable(s_t, preds.principal())?;
                            let mut o = b;
                            o.extend(ptr_bytes(ptr_to(id, 0)));
                            return Ok(o);
                        }
                    }
                    Err(format!("unsize {from} -> {to}"))
                }
                PointerCoercion::ReifyFnPointer(_) => match from.kind() {
                    ty::FnDef(d, a) => {
                        let i = Instance::expect_resolve(self.tcx, self.env, *d, a.skip_binder(), rustc_span::DUMMY_SP);
                        let id = self.fn_ptr(i);
                        Ok(ptr_bytes(ptr_to(id, 0)))
                    }
                    _ => Err("reify".into()),
                },
                PointerCoercion::ClosureFnPointer(_) => match from.kind() {
                    ty::Closure(d, a) => {
                        let i = Instance::resolve_closure(self.tcx, *d, a, ty::ClosureKind::FnOnce);
                        let id = self.fn_ptr(i);
                        Ok(ptr_bytes(ptr_to(id, 0)))
                    }
                    _ => Err("closure pointer".into()),
                },
                _ => {
                    let n = self.layout(to)?.size.bytes() as usize;
                    Ok(b[..n].to_vec())
                }
            },
            o => Err(format!("cast {o:?}")),
        }
    }

    // ---------------------------------------------------------------- calls
    fn read_str(&mut self, st: &mut State, b: &Bytes) -> Option<String> {
        if b.len() != 16 {
            return None;
        }
        let p = self.to_ptr(&b[..8]).ok()?;
        let n = self.to_bits(&b[8..]).ok().and_then(|x| as_const(&x))? as u64;
        if n > 400 {
            return None;
        }
        // only for messages: neither events nor the path condition may be affected
        let (ev, pc) = (self.events.len(), st.pc);
        let d = self.load(st, &p, n).ok();
        self.events.truncate(ev);
        st.pc = pc;
        let mut s = vec![];
        for x in d? {
            match x {
                AByte::Bits(v) => s.push(as_const(&v)? as u8),
                _ => return None,
            }
        }
        String::from_utf8(s).ok()
    }

    #[allow(clippy::too_many_arguments)]
    fn call(
        &mut self,
        bi: &BodyInfo<'tcx>,
        base: AllocId,
        func: &Operand<'tcx>,
        args: &[rustc_span::Spanned<Operand<'tcx>>],
        span: Span,
        returns: bool,
        st: &mut State,
    ) -> R<Option<(State, Bytes)>> {
        let fty = func.ty(&bi.body.local_decls, self.tcx);
        let mut vals = vec![];
        let mut tys = vec![];
        for a in args {
            let (b, t) = self.operand(bi, base, &a.node, st)?;
            vals.push(b);
            tys.push(t);
        }
        let mut targets = vec![];
        let inst = match fty.kind() {
            ty::FnDef(d, a) => Instance::expect_resolve(self.tcx, self.env, *d, a.skip_binder(), span),
            ty::FnPtr(..) => {
                let (b, _) = self.operand(bi, base, func, st)?;
                let p = self.to_ptr(&b)?;
                for (g, id, _) in self.resolve_ptr(st.pc, &p)? {
                    let f = id.and_then(|id| self.fn_by_id.get(&id)).ok_or("call through unknown pointer")?;
                    targets.push((g, *f));
                }
                targets.first().ok_or("call through unknown pointer")?.1
            }
            _ => return Err(format!("call of {fty}")),
        };
        let sig = fty.fn_sig(self.tcx);
        if sig.abi() == rustc_abi::ExternAbi::RustCall {
            // untuple the last argument
            let tup = vals.pop().unwrap();
            let tt = tys.pop().unwrap();
            let lay = self.layout(tt)?;
            if let ty::Tuple(ts) = tt.kind() {
                for i in 0..ts.len() {
                    let fl = lay.field(&self.cx, i);
                    let o = lay.fields.offset(i).bytes() as usize;
                    vals.push(tup[o..o + fl.size.bytes() as usize].to_vec());
                    tys.push(fl.ty);
                }
            }
        }
        let owned = State { pc: st.pc, mem: std::mem::take(&mut st.mem) };
        if targets.len() > 1 {
            let mut acc = None;
            for (g, f) in targets {
                let s = State { pc: self.b.and(owned.pc, g), mem: owned.mem.clone() };
                let (vals, tys) = self.with_empty_closure(f, vals.clone(), tys.clone());
                let r = self.dispatch(f, vals, tys, returns, s)?;
                acc = self.join_outcomes(acc, r)?;
            }
            return Ok(acc);
        }
        if !targets.is_empty() {
            (vals, tys) = self.with_empty_closure(inst, vals, tys);
        }
        self.dispatch(inst, vals, tys, returns, owned)
    }

    /// A closure without captures behind a function pointer: its body takes the empty closure first.
    fn with_empty_closure(&self, f: Instance<'tcx>, mut vals: Vec<Bytes>, mut tys: Vec<Ty<'tcx>>) -> (Vec<Bytes>, Vec<Ty<'tcx>>) {
        if matches!(f.def, InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. })) || self.tcx.is_closure_like(f.def_id()) {
            vals.insert(0, vec![]);
            tys.insert(0, self.tcx.types.unit);
        }
        (vals, tys)
    }

    fn dispatch(
        &mut self,
        inst: Instance<'tcx>,
        vals: Vec<Bytes>,
        tys: Vec<Ty<'tcx>>,
        returns: bool,
        mut st: State,
    ) -> R<Option<(State, Bytes)>> {
        let nm = self.name_of(inst.def_id());
        match inst.def {
            InstanceKind::Intrinsic(d) => {
                return self.intrinsic(inst, d, vals, tys, returns, st);
            }
            InstanceKind::Virtual(_, idx) => {
                // a fat pointer: the object and the table of its methods
                if vals.is_empty() || vals[0].len() != 16 {
                    return Err(format!("dynamic dispatch to {}", nm.0));
                }
                let vt = self.to_ptr(&vals[0][8..16])?;
                let tg = self.resolve_ptr(st.pc, &vt)?;
                let mut acc: Option<(State, Bytes)> = None;
                for (g, id, off) in tg {
                    let id = id.ok_or_else(|| format!("dynamic dispatch to {}", nm.0))?;
                    let mut s = State { pc: self.b.and(st.pc, g), mem: st.mem.clone() };
                    let slot = self.load(&mut s, &ptr_to(id, off + 8 * idx as u64), 8)?;
                    let p = self.to_ptr(&slot)?;
                    let f = match &self.resolve_ptr(s.pc, &p)?[..] {
                        [(_, Some(f), _)] => *self.fn_by_id.get(f).ok_or_else(|| format!("dynamic dispatch to {}", nm.0))?,
                        _ => return Err(format!("dynamic dispatch to {}", nm.0)),
                    };
                    let mut v = vals.clone();
                    v[0].truncate(8);
                    let r = self.dispatch(f, v, tys.clone(), returns, s)?;
                    acc = self.join_outcomes(acc, r)?;
                }
                return Ok(acc);
            }
            _ => {}
        }
        let last = self.tcx.opt_item_name(inst.def_id()).map(|s| s.to_string()).unwrap_or_default();
        if nm.1 == "bf" || last.starts_with("bf_") {
            return self.special(&last, inst, vals, st);
        }
        if let InstanceKind::Item(d) = inst.def {
            if matches!(self.tcx.def_kind(d), rustc_hir::def::DefKind::Ctor(..)) {
                // a tuple constructor used as a function
                let ty = self.tcx.instantiate_bound_regions_with_erased(inst.ty(self.tcx, self.env).fn_sig(self.tcx).output());
                let ty = self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new(ty));
                if let ty::Adt(adt, args) = ty.kind() {
                    let v = adt.variant_index_with_ctor_id(d);
                    let k = AggregateKind::Adt(adt.did(), v, *args, None, None);
                    let out = self.aggregate(&k, ty, vals)?;
                    return Ok(Some((st, out)));
                }
            }
        }
        let diverges = match inst.def {
            InstanceKind::Item(d) => {
                self.tcx.def_kind(d).is_fn_like()
                    && !self.tcx.is_closure_like(d)
                    && self.tcx.fn_sig(d).skip_binder().output().skip_binder().is_never()
            }
            _ => false,
        };
        if diverges {
            let mut msg = last.clone();
            let pc = st.pc;
            for v in &vals {
                if let Some(s) = self.read_str(&mut st, v) {
                    msg = format!("{msg}: {s}");
                }
            }
            self.event("panic", msg, pc);
            return Ok(None);
        }
        match last.as_str() {
            "__rust_alloc" | "__rust_alloc_zeroed" => {
                let n = self.to_bits(&vals[0])?;
                return self.split_on(st, &n, |me, mut s, n| {
                    let fill = if last == "__rust_alloc" {
                        AByte::Uninit
                    } else {
                        AByte::Bits([F; 8])
                    };
                    if n > 1 << 20 {
                        return Err("huge allocation".into());
                    }
                    let id = me.alloc_bytes(&mut s, vec![fill; n as usize]);
                    Ok(Some((s, ptr_bytes(ptr_to(id, 0)))))
                });
            }
            "__rust_realloc" => {
                // (ptr, old_size, align, new_size)
                let old = self.to_bits(&vals[1])?;
                let new = self.to_bits(&vals[3])?;
                let pv = vals[0].clone();
                return self.split_on(st, &new, |me, s, n| {
                    me.split_on(s, &old, |me, mut s, o| {
                        let p = me.to_ptr(&pv)?;
                        let mut d = me.load(&mut s, &p, (o as u64).min(n as u64))?;
                        d.resize(n as usize, AByte::Uninit);
                        let id = me.alloc_bytes(&mut s, d);
                        Ok(Some((s, ptr_bytes(ptr_to(id, 0)))))
                    })
                });
            }
            "__rust_dealloc" | "miri_promise_symbolic_alignment" => return Ok(Some((st, vec![]))),
            "__rust_no_alloc_shim_is_unstable" | "__rust_no_alloc_shim_is_unstable_v2" => {
                let n = if last.ends_with("v2") { 0 } else { 1 };
                return Ok(Some((st, bits_bytes(&const_bits(0, 8 * n)))));
            }
            _ => {}
        }
        self.exec_fn(inst, vals, st)
    }

    /// Case split on every feasible value of `bits`, joining the outcomes.
    fn split_on(
        &mut self,
        st: State,
        bits: &[Bit],
        mut f: impl FnMut(&mut Self, State, u128) -> R<Option<(State, Bytes)>>,
    ) -> R<Option<(State, Bytes)>> {
        let vals = self.concretize(st.pc, bits, 256)?;
        let mut acc: Option<(State, Bytes)> = None;
        for (g, v) in vals {
            let s = State { pc: self.b.and(st.pc, g), mem: st.mem.clone() };
            if s.pc == F {
                continue;
            }
            let r = f(self, s, v)?;
            acc = self.join_outcomes(acc, r)?;
        }
        Ok(acc)
    }
    /// Drops the object behind a trait object: the first slot of its table, if it has one.
    fn drop_dyn(&mut self, p: PtrVal, meta: &Bytes, st: State) -> R<Option<(State, Bytes)>> {
        let vt = self.to_ptr(meta)?;
        let tg = self.resolve_ptr(st.pc, &vt)?;
        let mut acc: Option<(State, Bytes)> = None;
        for (g, id, off) in tg {
            let id = id.ok_or("drop of a trait object")?;
            let mut s = State { pc: self.b.and(st.pc, g), mem: st.mem.clone() };
            let slot = self.load(&mut s, &ptr_to(id, off), 8)?;
            let f = self.to_ptr(&slot)?;
            let r = match &self.resolve_ptr(s.pc, &f)?[..] {
                [(_, None, _)] => Some((s, vec![])),
                [(_, Some(f), _)] => {
                    let f = *self.fn_by_id.get(f).ok_or("drop of a trait object")?;
                    self.exec_fn(f, vec![ptr_bytes(p.clone())], s)?
                }
                _ => return Err("drop of a trait object".into()),
            };
            acc = self.join_outcomes(acc, r)?;
        }
        Ok(acc)
    }
    fn join_outcomes(&mut self, a: Option<(State, Bytes)>, b: Option<(State, Bytes)>) -> R<Option<(State, Bytes)>> {
        Ok(match (a, b) {
            (None, r) => r,
            (a, None) => a,
            (Some((s1, b1)), Some((s2, b2))) => {
                let g1 = {
                    let pc = self.b.or(s1.pc, s2.pc);
                    self.b.constrain(s1.pc, pc)
                };
                let b = self.merge_bytes(g1, &b1, &b2)?;
                Some((self.merge_states(s1, s2)?, b))
            }
        })
    }

    /// Analyser primitives used by the obligation crates.
    fn special(&mut self, name: &str, _inst: Instance<'tcx>, vals: Vec<Bytes>, mut st: State) -> R<Option<(State, Bytes)>> {
        match name {
            "bf_assume" => {
                let c = self.to_bits(&vals[0])?[0];
                st.pc = self.b.and(st.pc, c);
                if st.pc == F {
                    return Ok(None);
                }
                Ok(Some((st, vec![])))
            }
            "bf_check" => {
                self.checks += 1;
                let c = self.to_bits(&vals[0])?[0];
                let bad = self.b.and(st.pc, c ^ 1);
                if bad != F {
                    let m = self.read_str(&mut st, &vals[1]).unwrap_or_default();
                    self.event("obligation", m, bad);
                }
                st.pc = self.b.and(st.pc, c);
                if st.pc == F {
                    return Ok(None);
                }
                Ok(Some((st, vec![])))
            }
            "bf_eq" => {
                // bitwise equality of two values of one (plain integer / array) type
                self.checks += 1;
                let m = self.read_str(&mut st, &vals[2]).unwrap_or_default();
                let x = self.to_bits(&vals[0])?;
                let y = self.to_bits(&vals[1])?;
                let mut bad = F;
                let mut which = vec![];
                for (i, (p, q)) in x.iter().zip(&y).enumerate() {
                    let d = self.b.xor(*p, *q);
                    let d = self.b.and(d, st.pc);
                    if d != F {
                        which.push((i, *p, *q));
                        if bad == F {
                            bad = d;
                        }
                    }
                }
                if bad != F {
                    let det: Vec<String> = which
                        .iter()
                        .take(6)
                        .map(|(i, p, q)| format!("bit {i}: got {} want {}", self.b.show(*p), self.b.show(*q)))
                        .collect();
                    self.event("obligation", format!("{m} [{}]", det.join(", ")), bad);
                }
                Ok(Some((st, vec![])))
            }
            "bf_cover" => {
                let m = self.read_str(&mut st, &vals[0]).unwrap_or_default();
                let pc = st.pc;
                let c = self.covers.entry(m).or_insert(F);
                *c = self.b.or(*c, pc);
                Ok(Some((st, vec![])))
            }
            _ => Err(format!("unknown analyser primitive {name}")),
        }
    }

    fn intrinsic(
        &mut self,
        inst: Instance<'tcx>,
        d: rustc_hir::def_id::DefId,
        vals: Vec<Bytes>,
        tys: Vec<Ty<'tcx>>,
        returns: bool,
        mut st: State,
    ) -> R<Option<(State, Bytes)>> {
        let name = self.tcx.item_name(d).to_string();
        let t0 = inst.args.types().next();
        macro_rules! ret {
            ($b:expr) => {
                return Ok(Some((st, $b)))
            };
        }
        match name.as_str() {
            "abort" | "unreachable" => {
                let pc = st.pc;
                self.event("panic", format!("intrinsic {name}"), pc);
                return Ok(None);
            }
            "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "cold_path" | "forget" => ret!(vec![]),
            "ub_checks" | "contract_checks" | "overflow_checks" | "is_val_statically_known" => ret!(bits_bytes(&[F])),
            "likely" | "unlikely" | "black_box" => ret!(vals[0].clone()),
            "size_of" => {
                let n = self.layout(t0.unwrap())?.size.bytes();
                ret!(bits_bytes(&const_bits(n as u128, 64)))
            }
            "align_of" | "min_align_of" | "pref_align_of" => {
                let n = self.layout(t0.unwrap())?.align.abi.bytes();
                ret!(bits_bytes(&const_bits(n as u128, 64)))
            }
            "size_of_val" => {
                let t = t0.unwrap();
                let l = self.layout(t)?;
                if l.is_sized() {
                    ret!(bits_bytes(&const_bits(l.size.bytes() as u128, 64)))
                }
                match t.kind() {
                    ty::Slice(e) => {
                        let s = self.layout(*e)?.size.bytes();
                        let n = self.to_bits(&vals[0][8..])?;
                        let r = self.scale(&n, s);
                        ret!(bits_bytes(&r))
                    }
                    ty::Str => ret!(vals[0][8..].to_vec()),
                    ty::Dynamic(..) if vals[0].len() == 16 => {
                        // second slot of the table
                        let vt = self.to_ptr(&vals[0][8..16])?;
                        let q = self.ptr_addc(&vt, 8);
                        let r = self.load(&mut st, &q, 8)?;
                        ret!(r)
                    }
                    _ => return Err("size_of_val".into()),
                }
            }
            "align_of_val" | "min_align_of_val" => {
                if matches!(t0.unwrap().kind(), ty::Dynamic(..)) && vals[0].len() == 16 {
                    // third slot of the table
                    let vt = self.to_ptr(&vals[0][8..16])?;
                    let q = self.ptr_addc(&vt, 16);
                    let r = self.load(&mut st, &q, 8)?;
                    ret!(r)
                }
                let n = match t0.unwrap().kind() {
                    ty::Slice(e) => self.layout(*e)?.align.abi.bytes(),
                    ty::Str => 1,
                    _ => self.layout(t0.unwrap())?.align.abi.bytes(),
                };
                ret!(bits_bytes(&const_bits(n as u128, 64)))
            }
            "needs_drop" => {
                let v = t0.unwrap().needs_drop(self.tcx, self.env);
                ret!(bits_bytes(&[if v { T } else { F }]))
            }
            "assume" => {
                let c = self.to_bits(&vals[0])?[0];
                let bad = self.b.and(st.pc, c ^ 1);
                self.event("assume", "compiler assumption may be false".into(), bad);
                st.pc = self.b.and(st.pc, c);
                if st.pc == F {
                    return Ok(None);
                }
                ret!(vec![])
            }
            "transmute" | "transmute_unchecked" => ret!(vals[0].clone()),
            "ptr_metadata" => ret!(vals[0][8..].to_vec()),
            "aggregate_raw_ptr" => ret!(vals.concat()),
            "offset" | "arith_offset" => {
                let p = self.to_ptr(&vals[0])?;
                let el = tys[0].builtin_deref(true).unwrap();
                let s = self.layout(el)?.size.bytes();
                let i = self.to_bits(&vals[1])?;
                let d = self.scale(&i, s);
                let r = self.ptr_add(&p, &d);
                ret!(ptr_bytes(r))
            }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let a = self.to_bits(&vals[0])?;
                let b = self.to_bits(&vals[1])?;
                let d = self.b.v_sub(&a, &b);
                let s = self.layout(t0.unwrap())?.size.bytes();
                if s == 0 {
                    return Err("offset_from ZST".into());
                }
                // exact division; sign handled by replicating the top bit
                let neg = *d.last().unwrap();
                let nd = self.b.v_neg(&d);
                let ad = self.b.v_ite(neg, &nd, &d);
                let q = if s.is_power_of_two() {
                    let k = s.trailing_zeros() as usize;
                    let mut q = ad[k..].to_vec();
                    q.resize(64, F);
                    q
                } else {
                    self.b.v_udivrem(&ad, &const_bits(s as u128, 64)).0
                };
                let nq = self.b.v_neg(&q);
                let r = self.b.v_ite(neg, &nq, &q);
                ret!(bits_bytes(&r))
            }
            "ptr_guaranteed_cmp" => ret!(bits_bytes(&const_bits(2, 8))),
            "ptr_mask" => return Err("ptr_mask".into()),
            "copy" | "copy_nonoverlapping" | "volatile_copy_memory" => {
                self.mem_copy(&mut st, &vals[0], &vals[1], &vals[2], t0.unwrap())?;
                ret!(vec![])
            }
            "write_bytes" => {
                let s = self.layout(t0.unwrap())?.size.bytes();
                let p = self.to_ptr(&vals[0])?;
                let c = self.to_bits(&vals[2])?;
                for (g, n) in self.concretize(st.pc, &c, 1024)? {
                    let data = vec![vals[1][0].clone(); (n as u64 * s) as usize];
                    self.store_g(&mut st, &p, &data, g)?;
                }
                ret!(vec![])
            }
            "compare_bytes" => {
                let (p, q) = (self.to_ptr(&vals[0])?, self.to_ptr(&vals[1])?);
                let n = self.to_bits(&vals[2])?;
                let n = self.concretize(st.pc, &n, 256)?;
                let mut acc: Option<Bits> = None;
                for (g, n) in n {
                    let mut s2 = State { pc: self.b.and(st.pc, g), mem: std::mem::take(&mut st.mem) };
                    let a = self.load(&mut s2, &p, n as u64)?;
                    let b = self.load(&mut s2, &q, n as u64)?;
                    st.mem = s2.mem;
                    let mut r = const_bits(0, 32);
                    for i in (0..n as usize).rev() {
                        let (x, y) = (self.to_bits(&a[i..=i])?, self.to_bits(&b[i..=i])?);
                        let e = self.b.v_eq(&x, &y);
                        let l = self.b.v_ult(&x, &y);
                        let m1 = const_bits(u32::MAX as u128, 32);
                        let p1 = const_bits(1, 32);
                        let ne = self.b.v_ite(l, &m1, &p1);
                        r = self.b.v_ite(e, &r, &ne);
                    }
                    acc = Some(match acc {
                        None => r,
                        Some(o) => self.b.v_ite(g, &r, &o),
                    });
                }
                ret!(bits_bytes(&acc.unwrap_or_else(|| const_bits(0, 32))))
            }
            "raw_eq" => {
                let n = self.layout(t0.unwrap())?.size.bytes();
                let (p, q) = (self.to_ptr(&vals[0])?, self.to_ptr(&vals[1])?);
                let a = self.load(&mut st, &p, n)?;
                let b = self.load(&mut st, &q, n)?;
                let (x, y) = (self.to_bits(&a)?, self.to_bits(&b)?);
                let e = self.b.v_eq(&x, &y);
                ret!(bits_bytes(&[e]))
            }
            "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => {
                let n = self.layout(t0.unwrap())?.size.bytes();
                let p = self.to_ptr(&vals[0][..8])?;
                let b = self.load(&mut st, &p, n)?;
                ret!(b)
            }
            "write_via_move" | "volatile_store" => {
                let p = self.to_ptr(&vals[0][..8])?;
                let v = vals[1].clone();
                self.store(&mut st, &p, &v)?;
                ret!(vec![])
            }
            "typed_swap_nonoverlapping" => {
                let n = self.layout(t0.unwrap())?.size.bytes();
                let (p, q) = (self.to_ptr(&vals[0])?, self.to_ptr(&vals[1])?);
                let a = self.load(&mut st, &p, n)?;
                let b = self.load(&mut st, &q, n)?;
                self.store(&mut st, &p, &b)?;
                self.store(&mut st, &q, &a)?;
                ret!(vec![])
            }
            "slice_get_unchecked" => {
                // (slice ref/ptr, index) -> pointer to element
                let p = self.to_ptr(&vals[0][..8])?;
                let t = tys[0].builtin_deref(true).unwrap();
                let el = match t.kind() {
                    ty::Slice(e) | ty::Array(e, _) => *e,
                    _ => return Err("slice_get_unchecked".into()),
                };
                let s = self.layout(el)?.size.bytes();
                let i = self.to_bits(&vals[1])?;
                let d = self.scale(&i, s);
                let r = self.ptr_add(&p, &d);
                ret!(ptr_bytes(r))
            }
            "discriminant_value" => {
                let l = self.layout(t0.unwrap())?;
                let p = self.to_ptr(&vals[0])?;
                let b = self.load(&mut st, &p, l.size.bytes())?;
                let mut r = self.read_discr(&b, l)?;
                let w = self.layout(l.ty.discriminant_ty(self.tcx))?.size.bits() as usize;
                r.resize(w, F);
                ret!(bits_bytes(&r))
            }
            "ctpop" | "ctlz" | "ctlz_nonzero" | "cttz" | "cttz_nonzero" => {
                let x = self.to_bits(&vals[0])?;
                let r = match name.as_str() {
                    "ctpop" => self.b.v_popcnt(&x, 32),
                    "ctlz" | "ctlz_nonzero" => self.b.v_czeros(&x, 32, true),
                    _ => self.b.v_czeros(&x, 32, false),
                };
                ret!(bits_bytes(&r))
            }
            "bswap" => {
                let x = self.to_bits(&vals[0])?;
                let r: Bits = x.chunks(8).rev().flatten().cloned().collect();
                ret!(bits_bytes(&r))
            }
            "bitreverse" => {
                let mut x = self.to_bits(&vals[0])?;
                x.reverse();
                ret!(bits_bytes(&x))
            }
            "rotate_left" | "rotate_right" => {
                let x = self.to_bits(&vals[0])?;
                let s = self.to_bits(&vals[1])?;
                let c = as_const(&s).ok_or("rotate amount")? as usize % x.len();
                let mut r = x;
                if name == "rotate_left" {
                    r.rotate_right(c)
                } else {
                    r.rotate_left(c)
                }
                ret!(bits_bytes(&r))
            }
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "unchecked_add" | "unchecked_sub" | "unchecked_mul"
            | "unchecked_shl" | "unchecked_shr" | "unchecked_div" | "unchecked_rem" | "exact_div" => {
                let op = match name.as_str() {
                    "wrapping_add" | "unchecked_add" => BinOp::Add,
                    "wrapping_sub" | "unchecked_sub" => BinOp::Sub,
                    "wrapping_mul" | "unchecked_mul" => BinOp::Mul,
                    "unchecked_shl" => BinOp::Shl,
                    "unchecked_shr" => BinOp::Shr,
                    "unchecked_rem" => BinOp::Rem,
                    _ => BinOp::Div,
                };
                let r = self.binop(op, &vals[0], tys[0], &vals[1], tys[0])?;
                ret!(r)
            }
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let op = match &name[..3] {
                    "add" => BinOp::AddWithOverflow,
                    "sub" => BinOp::SubWithOverflow,
                    _ => BinOp::MulWithOverflow,
                };
                let dty = Ty::new_tup(self.tcx, &[tys[0], self.tcx.types.bool]);
                let r = self.binop(op, &vals[0], tys[0], &vals[1], dty)?;
                ret!(r)
            }
            "saturating_add" | "saturating_sub" => {
                let (x, y) = (self.to_bits(&vals[0])?, self.to_bits(&vals[1])?);
                if self.is_signed(tys[0]) {
                    let s = if name == "saturating_add" { self.b.v_addc(&x, &y, F).0 } else { self.b.v_sub(&x, &y) };
                    let top = x.len() - 1;
                    let (sx, sy, ss) = (x[top], y[top], s[top]);
                    let differ = self.b.xor(sx, sy);
                    let may = if name == "saturating_add" { differ ^ 1 } else { differ };
                    let turned = self.b.xor(sx, ss);
                    let over = self.b.and(may, turned);
                    let mut lim = vec![sx ^ 1; x.len()];
                    lim[top] = sx;
                    let r = self.b.v_ite(over, &lim, &s);
                    ret!(bits_bytes(&r))
                }
                let r = if name == "saturating_add" {
                    let (s, c, _) = self.b.v_addc(&x, &y, F);
                    let m = const_bits(u128::MAX, x.len());
                    self.b.v_ite(c, &m, &s)
                } else {
                    let lt = self.b.v_ult(&x, &y);
                    let s = self.b.v_sub(&x, &y);
                    let z = const_bits(0, x.len());
                    self.b.v_ite(lt, &z, &s)
                };
                ret!(bits_bytes(&r))
            }
            "three_way_compare" => {
                let r = self.binop(BinOp::Cmp, &vals[0], tys[0], &vals[1], tys[0])?;
                ret!(r)
            }
            "select_unpredictable" => {
                let c = self.to_bits(&vals[0])?[0];
                let r = self.merge_bytes(c, &vals[1], &vals[2])?;
                ret!(r)
            }
            "caller_location" => {
                let id = self.new_id();
                self.globals.insert(id, Rc::new(Alloc { bytes: vec![AByte::Uninit; 32] }));
                ret!(ptr_bytes(ptr_to(id, 0)))
            }
            "const_eval_select" => {
                // the run-time arm
                let f = inst.args.type_at(2);
                let (fd, fa) = match f.kind() {
                    ty::FnDef(d, a) => (*d, a.skip_binder()),
                    _ => return Err("const_eval_select".into()),
                };
                let i = Instance::expect_resolve(self.tcx, self.env, fd, fa, rustc_span::DUMMY_SP);
                let lay = self.layout(tys[0])?;
                let mut a = vec![];
                let mut at = vec![];
                if let ty::Tuple(ts) = tys[0].kind() {
                    for k in 0..ts.len() {
                        let fl = lay.field(&self.cx, k);
                        let o = lay.fields.offset(k).bytes() as usize;
                        a.push(vals[0][o..o + fl.size.bytes() as usize].to_vec());
                        at.push(fl.ty);
                    }
                }
                return self.dispatch(i, a, at, returns, st);
            }
            _ => {}
        }
        let def = self.tcx.intrinsic(d).unwrap();
        if !def.must_be_overridden && self.tcx.is_mir_available(d) {
            let i = Instance { def: InstanceKind::Item(d), args: inst.args };
            return self.exec_fn(i, vals, st);
        }
        Err(format!("intrinsic {name}"))
    }
}
