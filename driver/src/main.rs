//! Dumps the type-checked program (MIR, types, impls, constants) of one crate as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc, the rest are rustc arguments.
//! The crate named by MIRDUMP_CRATE is written to MIRDUMP_OUT; other crates compile as usual.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::HashMap;
use std::fmt::Write as _;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hexs(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}

fn list(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    adts: HashMap<DefId, ()>,
    adt_queue: Vec<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!(with_resolve_crate_name!(self.tcx.def_path_str(d))))
    }
    fn id(&self, d: DefId) -> String {
        let p = self.tcx.def_path(d).to_string_no_crate_verbose();
        format!("{}{}", self.tcx.crate_name(d.krate), p)
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!(with_resolve_crate_name!(format!("{t}"))))
    }
    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.to_string_lossy().into_owned())
                .unwrap_or_default(),
            _ => String::new(),
        };
        esc(&format!("{}:{}", f, lo.line))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let s = esc(&self.tystr(t));
        let body = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(i) => format!("\"k\":\"int\",\"w\":{},\"sg\":true", i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!("\"k\":\"int\",\"w\":{},\"sg\":false", i.bit_width().unwrap_or(64)),
            ty::Float(_) => "\"k\":\"float\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Adt(def, args) => {
                if !self.adts.contains_key(&def.did()) {
                    self.adts.insert(def.did(), ());
                    self.adt_queue.push(def.did());
                }
                let a = self.args(args);
                format!(
                    "\"k\":\"adt\",\"p\":{},\"a\":{}",
                    esc(&self.path(def.did())),
                    a
                )
            }
            ty::Array(e, n) => {
                let e = self.ty(e);
                let n = match n.try_to_target_usize(self.tcx) {
                    Some(n) => n.to_string(),
                    None => esc(&format!("{n}")),
                };
                format!("\"k\":\"array\",\"e\":{e},\"n\":{n}")
            }
            ty::Slice(e) => {
                let e = self.ty(e);
                format!("\"k\":\"slice\",\"e\":{e}")
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(e);
                format!("\"k\":\"ptr\",\"e\":{e},\"m\":{}", m.is_mut())
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(e);
                format!("\"k\":\"ref\",\"e\":{e},\"m\":{}", m.is_mut())
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"tuple\",\"a\":{}", list(&v))
            }
            ty::Closure(d, _) => {
                format!("\"k\":\"closure\",\"id\":{}", esc(&self.id(d)))
            }
            ty::FnDef(d, _) => format!("\"k\":\"fndef\",\"p\":{}", esc(&self.path(d))),
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Dynamic(preds, ..) => {
                let p = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                format!("\"k\":\"dyn\",\"p\":{}", esc(&p))
            }
            ty::Param(_) => "\"k\":\"param\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.ty_out[i] = format!("{{\"s\":{s},{body}}}");
        i
    }

    fn args(&mut self, args: GenericArgsRef<'tcx>) -> String {
        let mut v = Vec::new();
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(self.ty(t).to_string());
            } else if let Some(c) = a.as_const() {
                match c.try_to_target_usize(self.tcx) {
                    Some(n) => v.push(format!("{{\"n\":{n}}}")),
                    None => v.push(format!("{{\"c\":{}}}", esc(&format!("{c}")))),
                }
            }
        }
        list(&v)
    }

    fn callee(&mut self, env: TypingEnv<'tcx>, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let mut o = format!("{{\"p\":{},\"id\":{},\"a\":{}", esc(&self.path(d)), esc(&self.id(d)), self.args(args));
        if let Some(t) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"tr\":{}", esc(&self.path(t)));
            if let Some(st) = args.types().next() {
                let st = self.ty(st);
                let _ = write!(o, ",\"st\":{st}");
            }
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate(tcx, args).skip_norm_wip();
            let st = self.ty(st);
            let _ = write!(o, ",\"st\":{st}");
        }
        let _ = write!(o, ",\"nm\":{}", esc(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str()));
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
            let rd = inst.def_id();
            let kind = match inst.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Virtual(..) => "virtual",
                ty::InstanceKind::Intrinsic(_) => "intrinsic",
                _ => "shim",
            };
            let ra = self.args(inst.args);
            let _ = write!(o, ",\"r\":{{\"p\":{},\"id\":{},\"k\":\"{kind}\",\"a\":{}", esc(&self.path(rd)), esc(&self.id(rd)), ra);
            if let Some(im) = tcx.impl_of_assoc(rd) {
                if kind == "item" {
                    let st = tcx.type_of(im).instantiate(tcx, inst.args).skip_norm_wip();
                    let st = self.ty(st);
                    let _ = write!(o, ",\"st\":{st}");
                }
            }
            o.push('}');
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).skip_binder();
            if !sig.safety().is_safe() {
                o.push_str(",\"unsafe\":true");
            }
        }
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let parent = tcx.parent(d);
            let (adt, var) = if matches!(tcx.def_kind(parent), DefKind::Variant) {
                (tcx.parent(parent), Some(parent))
            } else {
                (parent, None)
            };
            let ad = tcx.adt_def(adt);
            let vi = match var {
                Some(v) => ad.variant_index_with_id(v).as_usize(),
                None => 0,
            };
            let _ = write!(o, ",\"ctor\":[{},{}]", esc(&self.path(adt)), vi);
        }
        o.push('}');
        o
    }

    fn const_val(&mut self, cv: ConstValue, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        match cv {
            ConstValue::ZeroSized => "\"zst\":true".into(),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let sz = i.size();
                let u = i.to_bits(sz);
                if t.is_signed() {
                    format!("\"v\":\"{}\"", i.to_int(sz))
                } else {
                    format!("\"v\":\"{u}\"")
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                match tcx.try_get_global_alloc(prov.alloc_id()) {
                    Some(GlobalAlloc::Memory(a)) => {
                        let a = a.inner();
                        let all = a.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes() as usize..a.len());
                        let np = a.provenance().ptrs().is_empty();
                        if np && all.len() <= 4096 {
                            format!("\"rb\":\"{}\"", hexs(all))
                        } else if np {
                            format!("\"rl\":{}", all.len())
                        } else {
                            let mut parts = Vec::new();
                            for (_, pr) in a.provenance().ptrs().iter() {
                                if let Some(GlobalAlloc::Memory(b)) = tcx.try_get_global_alloc(pr.alloc_id()) {
                                    let b = b.inner();
                                    if b.len() <= 256 && b.provenance().ptrs().is_empty() {
                                        let by = b.inspect_with_uninit_and_ptr_outside_interpreter(0..b.len());
                                        parts.push(format!("\"{}\"", hexs(by)));
                                    }
                                }
                            }
                            let al = if off.bytes() == 0 { self.alloc(a, 0) } else { "{}".into() };
                            format!("\"rp\":{},\"al\":{al}", list(&parts))
                        }
                    }
                    Some(GlobalAlloc::Static(d)) => format!("\"static\":{}", esc(&self.path(d))),
                    Some(GlobalAlloc::Function { instance }) => {
                        format!("\"fnp\":{}", esc(&self.path(instance.def_id())))
                    }
                    Some(GlobalAlloc::VTable(t, _)) => format!("\"vt\":{}", self.ty(t)),
                    _ => "\"ptr\":true".into(),
                }
            }
            ConstValue::Slice { .. } => match cv.try_get_slice_bytes_for_diagnostics(tcx) {
                Some(b) => format!("\"sb\":\"{}\"", hexs(b)),
                None => "\"opaque\":true".into(),
            },
            ConstValue::Indirect { alloc_id, offset } => {
                if let Some(GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) {
                    let a = a.inner();
                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(offset.bytes() as usize..a.len());
                    if a.provenance().ptrs().is_empty() && b.len() <= 8192 {
                        return format!("\"ib\":\"{}\"", hexs(b));
                    }
                    if offset.bytes() == 0 {
                        return format!("\"opaque\":true,\"al\":{}", self.alloc(a, 0));
                    }
                }
                "\"opaque\":true".into()
            }
        }
    }

    /// bytes of a memory block and what its pointers point to
    fn alloc(&mut self, a: &rustc_middle::mir::interpret::Allocation, depth: usize) -> String {
        let tcx = self.tcx;
        if a.len() > 8192 || depth > 4 {
            return "{}".into();
        }
        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
        let mut parts = Vec::new();
        for (off, pr) in a.provenance().ptrs().iter() {
            let t = match tcx.try_get_global_alloc(pr.alloc_id()) {
                Some(GlobalAlloc::Memory(m)) => format!("{{\"m\":{}}}", self.alloc(m.inner(), depth + 1)),
                Some(GlobalAlloc::Static(d)) => format!("{{\"s\":{}}}", esc(&self.path(d))),
                Some(GlobalAlloc::Function { instance }) => format!("{{\"f\":{}}}", esc(&self.path(instance.def_id()))),
                Some(GlobalAlloc::VTable(t, _)) => format!("{{\"vt\":{}}}", self.ty(t)),
                _ => "{}".into(),
            };
            parts.push(format!("[{},{t}]", off.bytes()));
        }
        format!("{{\"b\":\"{}\",\"p\":{}}}", hexs(b), list(&parts))
    }

    fn konst(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        if let ty::FnDef(d, args) = *t.kind() {
            let args = args.skip_binder();
            return format!("{{\"t\":{ti},\"fn\":{}}}", self.callee(env, d, args));
        }
        let mut o = format!("{{\"t\":{ti}");
        let mut generic = false;
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let _ = write!(o, ",\"promoted\":[{},{}]", esc(&self.id(u.def)), p.as_usize());
            } else {
                let _ = write!(o, ",\"sym\":{}", esc(&self.path(u.def)));
                let a = self.args(u.args);
                let _ = write!(o, ",\"sa\":{a}");
            }
            generic = ty::TypeVisitableExt::has_non_region_param(&u.args);
        }
        if let Const::Ty(_, tc) = c.const_ {
            let _ = write!(o, ",\"tc\":{}", esc(&format!("{tc}")));
        }
        if !generic || true {
            if let Ok(cv) = c.const_.eval(tcx, env, c.span) {
                let s = self.const_val(cv, t);
                let _ = write!(o, ",{s}");
            }
        }
        o.push('}');
        o
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = Vec::new();
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, _) => format!("[\"f\",{}]", f.as_usize()),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{offset},{min_length},{from_end}]")
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{from},{to},{from_end}]"),
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.as_usize()),
                _ => "\"?\"".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), list(&v))
    }

    fn op(&mut self, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.konst(env, c)),
            Operand::RuntimeChecks(_) => "{\"rc\":true}".into(),
        }
    }

    fn rvalue(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(env, o)),
            Rvalue::Repeat(o, n) => {
                let n = match n.try_to_target_usize(self.tcx) {
                    Some(n) => n.to_string(),
                    None => esc(&format!("{n}")),
                };
                format!("[\"repeat\",{},{}]", self.op(env, o), n)
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{m},{}]", self.place(p))
            }
            Rvalue::RawPtr(k, p) => {
                let m = matches!(k, RawPtrKind::Mut);
                format!("[\"raw\",{m},{}]", self.place(p))
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{k:?}");
                let st = o.ty(body, self.tcx);
                let (o, t, st) = (self.op(env, o), self.ty(*t), self.ty(st));
                format!("[\"cast\",{},{o},{t},{st}]", esc(&ks))
            }
            Rvalue::BinaryOp(b, ab) => {
                let t = ab.0.ty(body, self.tcx);
                let (a, c, t) = (self.op(env, &ab.0), self.op(env, &ab.1), self.ty(t));
                format!("[\"bin\",\"{b:?}\",{a},{c},{t}]")
            }
            Rvalue::UnaryOp(u, o) => {
                let t = o.ty(body, self.tcx);
                let (o, t) = (self.op(env, o), self.ty(t));
                format!("[\"un\",\"{u:?}\",{o},{t}]")
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let t = self.ty(t);
                format!("[\"discr\",{},{t}]", self.place(p))
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.op(env, o)).collect();
                let ks = match **k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(t)),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, vi, args, _, fi) => {
                        let t = self.tcx.type_of(d).instantiate(self.tcx, args).skip_norm_wip();
                        let ti = self.ty(t);
                        format!(
                            "[\"adt\",{},{},{ti},{}]",
                            esc(&self.path(d)),
                            vi.as_usize(),
                            fi.map(|f| f.as_usize() as i64).unwrap_or(-1)
                        )
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&self.id(d))),
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{ks},{}]", list(&v))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut(), self.place(p)),
            _ => format!("[\"other\",{}]", esc(&format!("{r:?}"))),
        }
    }

    fn body(&mut self, def: DefId, body: &Body<'tcx>, env: TypingEnv<'tcx>, promoted: Option<usize>) -> String {
        let tcx = self.tcx;
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                }
            }
        }
        let mut locals = Vec::new();
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            match names.get(&l.as_usize()) {
                Some(n) => locals.push(format!("[{t},{}]", esc(n))),
                None => locals.push(format!("[{t}]")),
            }
        }
        let mut blocks = Vec::new();
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut st = Vec::new();
            for s in &b.statements {
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let sp = self.span(s.source_info.span);
                        st.push(format!("[\"=\",{},{},{sp}]", self.place(&a.0), self.rvalue(env, body, &a.1)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let sp = self.span(s.source_info.span);
                        st.push(format!("[\"sd\",{},{},{sp}]", self.place(place), variant_index.as_usize()))
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(format!("[\"intr\",{}]", esc(&format!("{i:?}"))));
                    }
                    _ => {}
                }
            }
            let term = b.terminator();
            let sp = self.span(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(body, tcx);
                    let mut v = Vec::new();
                    for (x, bb) in targets.iter() {
                        v.push(format!("[\"{}\",{}]", x, bb.as_usize()));
                    }
                    let ti = self.ty(dt);
                    format!(
                        "[\"switch\",{},{},{},{ti}]",
                        self.op(env, discr),
                        list(&v),
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(body, tcx).ty;
                    let ti = self.ty(pt);
                    format!("[\"drop\",{},{},{ti}]", self.place(place), target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.op(env, &x.node)).collect();
                    let f = self.op(env, func);
                    let ft = func.ty(body, tcx);
                    let fti = self.ty(ft);
                    let rt = destination.ty(body, tcx).ty;
                    let rti = self.ty(rt);
                    let at: Vec<String> = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(body, tcx);
                            self.ty(t).to_string()
                        })
                        .collect();
                    format!(
                        "[\"call\",{f},{},{},{},{fti},{rti},{}]",
                        list(&a),
                        self.place(destination),
                        target.map(|t| t.as_usize() as i64).unwrap_or(-1),
                        list(&at)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            format!("[\"bounds\",{},{}]", self.op(env, len), self.op(env, index))
                        }
                        AssertKind::Overflow(b, x, y) => {
                            format!("[\"ovf\",\"{b:?}\",{},{}]", self.op(env, x), self.op(env, y))
                        }
                        AssertKind::OverflowNeg(x) => format!("[\"neg\",{}]", self.op(env, x)),
                        AssertKind::DivisionByZero(x) => format!("[\"div0\",{}]", self.op(env, x)),
                        AssertKind::RemainderByZero(x) => format!("[\"rem0\",{}]", self.op(env, x)),
                        _ => "[\"misc\"]".into(),
                    };
                    format!("[\"assert\",{},{expected},{m},{}]", self.op(env, cond), target.as_usize())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                _ => "[\"other\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{t},\"sp\":{sp}{}}}", list(&st), if b.is_cleanup { ",\"cl\":true" } else { "" }));
        }
        let mut o = format!("{{\"id\":{},\"path\":{}", esc(&self.id(def)), esc(&self.path(def)));
        if let Some(p) = promoted {
            let _ = write!(o, ",\"promoted\":{p}");
        }
        let kind = tcx.def_kind(def);
        let _ = write!(o, ",\"kind\":\"{kind:?}\"");
        let _ = write!(o, ",\"nm\":{}", esc(tcx.opt_item_name(def).map(|s| s.to_string()).unwrap_or_default().as_str()));
        let _ = write!(o, ",\"parent\":{}", esc(&self.id(tcx.parent(def))));
        if let Some(im) = tcx.impl_of_assoc(def) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let _ = write!(o, ",\"self\":{}", self.ty(st));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let _ = write!(o, ",\"trait\":{},\"targs\":{}", esc(&self.path(tr.def_id)), self.args(tr.args));
            }
            let _ = write!(o, ",\"impl\":{}", esc(&self.id(im)));
        } else if let Some(t) = tcx.trait_of_assoc(def) {
            let _ = write!(o, ",\"intrait\":{}", esc(&self.path(t)));
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) && promoted.is_none() {
            let sig = tcx.fn_sig(def).instantiate_identity().skip_norm_wip().skip_binder();
            let _ = write!(o, ",\"unsafe\":{}", !sig.safety().is_safe());
            let vis = tcx.visibility(def);
            let _ = write!(o, ",\"pub\":{}", vis.is_public());
            if let Some(ld) = def.as_local() {
                let ev = tcx.effective_visibilities(());
                let _ = write!(o, ",\"reach\":{}", ev.is_reachable(ld));
            }
        }
        let g = tcx.generics_of(def);
        let mut gn = Vec::new();
        let mut cur = Some(g);
        while let Some(x) = cur {
            let mut these: Vec<String> = x
                .own_params
                .iter()
                .filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))
                .map(|p| esc(p.name.as_str()))
                .collect();
            these.extend(gn);
            gn = these;
            cur = x.parent.map(|p| tcx.generics_of(p));
        }
        let _ = write!(o, ",\"gen\":{}", list(&gn));
        let _ = write!(
            o,
            ",\"argc\":{},\"locals\":{},\"blocks\":{},\"span\":{}}}",
            body.arg_count,
            list(&locals),
            list(&blocks),
            self.span(body.span)
        );
        o
    }

    fn adt(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let kind = if def.is_enum() {
            "enum"
        } else if def.is_union() {
            "union"
        } else {
            "struct"
        };
        let mut o = format!("{{\"p\":{},\"kind\":\"{kind}\",\"local\":{}", esc(&self.path(d)), d.is_local());
        let gn: Vec<String> = tcx
            .generics_of(d)
            .own_params
            .iter()
            .filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))
            .map(|p| esc(p.name.as_str()))
            .collect();
        let _ = write!(o, ",\"gen\":{}", list(&gn));
        let mut vs = Vec::new();
        let want_fields = true;
        for (vi, v) in def.variants().iter_enumerated() {
            let dv = if def.is_enum() {
                def.discriminant_for_variant(tcx, vi).val.to_string()
            } else {
                "0".into()
            };
            let mut fs = Vec::new();
            if want_fields {
                for f in &v.fields {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let ti = if d.is_local() { self.ty(t) as i64 } else { -1 };
                    fs.push(format!("[{},{ti},{}]", esc(f.name.as_str()), f.vis.is_public()));
                }
            }
            vs.push(format!("{{\"n\":{},\"d\":\"{dv}\",\"f\":{}}}", esc(v.name.as_str()), list(&fs)));
        }
        let _ = write!(o, ",\"v\":{}", list(&vs));
        if d.is_local() && !def.is_union() && tcx.generics_of(d).own_params.is_empty() {
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            if let Ok(lay) = tcx.layout_of(ty::TypingEnv::fully_monomorphized().as_query_input(t)) {
                let _ = write!(o, ",\"sz\":{}", lay.size.bytes());
                if def.is_struct() {
                    let offs: Vec<String> = (0..lay.fields.count()).map(|i| lay.fields.offset(i).bytes().to_string()).collect();
                    let _ = write!(o, ",\"off\":{}", list(&offs));
                }
            }
        }
        o.push('}');
        o
    }
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, tys: HashMap::new(), ty_out: vec![], adts: HashMap::new(), adt_queue: vec![] };
        let mut bodies = Vec::new();
        let mut consts = Vec::new();
        let mut impls = Vec::new();
        for ld in tcx.hir_body_owners() {
            let def = ld.to_def_id();
            let kind = tcx.def_kind(def);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if !tcx.is_mir_available(def) {
                        continue;
                    }
                    let env = TypingEnv::post_analysis(tcx, def);
                    let body = tcx.optimized_mir(def);
                    let s = cx.body(def, body, env, None);
                    bodies.push(s);
                    for (i, p) in tcx.promoted_mir(def).iter_enumerated() {
                        let s = cx.body(def, p, env, Some(i.as_usize()));
                        bodies.push(s);
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                    let ti = cx.ty(t);
                    let mut o = format!("{{\"id\":{},\"p\":{},\"t\":{ti}", esc(&cx.id(def)), esc(&cx.path(def)));
                    let _ = write!(o, ",\"nm\":{}", esc(tcx.opt_item_name(def).map(|s| s.to_string()).unwrap_or_default().as_str()));
                    if let Some(im) = tcx.impl_of_assoc(def) {
                        let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                        let _ = write!(o, ",\"self\":{}", cx.ty(st));
                        if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                            let tr = tr.instantiate_identity().skip_norm_wip();
                            let _ = write!(o, ",\"trait\":{},\"targs\":{}", esc(&cx.path(tr.def_id)), cx.args(tr.args));
                        }
                    }
                    let _ = write!(o, ",\"span\":{}", cx.span(tcx.def_span(def)));
                    if matches!(kind, DefKind::Static { .. }) {
                        let body = tcx.mir_for_ctfe(def);
                        let env = TypingEnv::post_analysis(tcx, def);
                        let _ = write!(o, ",\"body\":{}", cx.body(def, body, env, None));
                        for (i, p) in tcx.promoted_mir(def).iter_enumerated() {
                            let s = cx.body(def, p, env, Some(i.as_usize()));
                            bodies.push(s);
                        }
                        if let Ok(a) = tcx.eval_static_initializer(def) {
                            let _ = write!(o, ",\"al\":{}", cx.alloc(a.inner(), 0));
                        }
                    } else {
                        if tcx.generics_of(def).requires_monomorphization(tcx) {
                            o.push_str(",\"generic\":true");
                            let body = tcx.mir_for_ctfe(def);
                            let env = TypingEnv::post_analysis(tcx, def);
                            let _ = write!(o, ",\"body\":{}", cx.body(def, body, env, None));
                        } else if let Ok(cv) = tcx.const_eval_poly(def) {
                            let s = cx.const_val(cv, t);
                            let _ = write!(o, ",{s}");
                        }
                    }
                    o.push('}');
                    consts.push(o);
                }
                _ => {}
            }
        }
        for ld in tcx.hir_crate_items(()).definitions() {
            let def = ld.to_def_id();
            match tcx.def_kind(def) {
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                    let sti = cx.ty(st);
                    let mut o = format!("{{\"id\":{},\"self\":{sti}", esc(&cx.id(def)));
                    if let Some(tr) = tcx.impl_opt_trait_ref(def) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        let _ = write!(o, ",\"trait\":{},\"targs\":{}", esc(&cx.path(tr.def_id)), cx.args(tr.args));
                        let h = tcx.impl_trait_header(def);
                        let _ = write!(o, ",\"unsafe\":{}", !h.safety.is_safe());
                        let _ = write!(o, ",\"neg\":{}", matches!(h.polarity, ty::ImplPolarity::Negative));
                    }
                    let mut ms = Vec::new();
                    let mut tys = Vec::new();
                    for a in tcx.associated_items(def).in_definition_order() {
                        ms.push(esc(a.opt_name().map(|s| s.to_string()).unwrap_or_default().as_str()));
                        if let ty::AssocKind::Type { .. } = a.kind {
                            let t = tcx.type_of(a.def_id).instantiate_identity().skip_norm_wip();
                            let ti = cx.ty(t);
                            tys.push(format!("[{},{ti}]", esc(a.opt_name().map(|s| s.to_string()).unwrap_or_default().as_str())));
                        }
                    }
                    let _ = write!(o, ",\"items\":{},\"types\":{},\"span\":{}}}", list(&ms), list(&tys), cx.span(tcx.def_span(def)));
                    impls.push(o);
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                    cx.ty(t);
                }
                _ => {}
            }
        }
        let mut adts = Vec::new();
        while let Some(d) = cx.adt_queue.pop() {
            let s = cx.adt(d);
            adts.push(s);
        }
        let mut o = String::new();
        o.push_str("{\"bodies\":[\n");
        o.push_str(&bodies.join(",\n"));
        o.push_str("],\n\"consts\":[\n");
        o.push_str(&consts.join(",\n"));
        o.push_str("],\n\"impls\":[\n");
        o.push_str(&impls.join(",\n"));
        o.push_str("],\n\"adts\":[\n");
        o.push_str(&adts.join(",\n"));
        o.push_str("],\n\"types\":[\n");
        o.push_str(&cx.ty_out.join(",\n"));
        o.push_str("]}\n");
        std::fs::write(&self.out, o).expect("cannot write the dump");
        Compilation::Continue
    }
}

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // As a wrapper: argv[1] is the path of the real rustc.
    args.remove(0);
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    rustc_driver::catch_with_exit_code(move || {
        if name == want && !want.is_empty() {
            let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
            let mut args = args.clone();
            for a in ["-Zmir-opt-level=0", "-Cdebug-assertions=off", "-Coverflow-checks=off", "-Awarnings"] {
                args.push(a.to_string());
            }
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Plain);
        }
    })
}
