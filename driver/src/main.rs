//! RUSTC_WORKSPACE_WRAPPER driver: compiles a workspace crate exactly as cargo asked and, before the
//! analysis phase steals it, writes every body's promoted MIR (with resolved callees, field names, variant
//! names, literal values and source positions) as JSON lines to $MIRDUMP_OUT/<crate>.jsonl.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TyKind, TypeVisitableExt};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: impl IntoIterator<Item = String>) -> String {
    let mut o = String::from("[");
    for (i, x) in v.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&x);
    }
    o.push(']');
    o
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: RefCell<BTreeMap<String, DefId>>,
}

impl<'tcx> D<'tcx> {
    fn id(&self, d: DefId) -> String {
        format!("{:?}", self.tcx.def_path_hash(d).0).replace("Fingerprint", "").replace(['(', ')', ' '], "").replace(',', "-")
    }
    fn name(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let s = ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(
            ty::print::with_crate_prefix!(tcx.def_path_str(d))
        ));
        let c = tcx.crate_name(LOCAL_CRATE);
        self.fix(&s, c.as_str())
    }
    fn fix(&self, s: &str, c: &str) -> String {
        s.replace("crate::", &format!("{c}::"))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        let s = ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(
            ty::print::with_crate_prefix!(t.to_string())
        ));
        self.fix(&s, self.tcx.crate_name(LOCAL_CRATE).as_str())
    }
    fn note_adt(&self, t: Ty<'tcx>) {
        for a in t.walk() {
            if let Some(t) = a.as_type() {
                if let TyKind::Adt(adt, _) = t.kind() {
                    self.adts.borrow_mut().insert(self.name(adt.did()), adt.did());
                }
            }
        }
    }
    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut out = Vec::new();
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for el in p.projection.iter() {
            let s = match el {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(f, _) => {
                    let nm = match pt.ty.kind() {
                        TyKind::Adt(adt, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if adt.is_union() || vi.as_usize() >= adt.variants().len() {
                                f.as_usize().to_string()
                            } else {
                                adt.variant(vi).fields[f].name.to_string()
                            }
                        }
                        _ => f.as_usize().to_string(),
                    };
                    format!("[\"f\",{}]", esc(&nm))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"ci\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(s, v) => {
                    let nm = match s {
                        Some(s) => s.to_string(),
                        None => match pt.ty.kind() {
                            TyKind::Adt(adt, _) => adt.variant(v).name.to_string(),
                            _ => v.as_usize().to_string(),
                        },
                    };
                    format!("[\"v\",{}]", esc(&nm))
                }
                _ => "[\"o\"]".to_string(),
            };
            out.push(s);
            pt = pt.projection_ty(tcx, el);
        }
        format!("{{\"l\":{},\"p\":{}}}", p.local.as_usize(), arr(out))
    }
    fn fndef(&self, owner: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut res = "null".to_string();
        let mut resname = "null".to_string();
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            let env = ty::TypingEnv::non_body_analysis(tcx, owner);
            let args2 = tcx.erase_and_anonymize_regions(args);
            if !args2.has_infer() {
                if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, args2) {
                    let rd = i.def_id();
                    res = esc(&self.id(rd));
                    resname = esc(&self.name(rd));
                }
            }
        }
        let tr = tcx.trait_of_assoc(d).map(|t| esc(&self.name(t))).unwrap_or("null".into());
        let targs = arr(args.iter().filter_map(|a| a.as_type()).map(|t| esc(&self.ty(t))));
        let ctor = match tcx.def_kind(d) {
            DefKind::Ctor(..) => {
                let v = tcx.parent(d);
                // variant or struct
                let (adt, var) = match tcx.def_kind(v) {
                    DefKind::Variant => (tcx.parent(v), tcx.item_name(v).to_string()),
                    _ => (v, tcx.item_name(v).to_string()),
                };
                let nf: Vec<String> = tcx
                    .adt_def(adt)
                    .variants()
                    .iter()
                    .find(|x| x.name.as_str() == var)
                    .map(|x| x.fields.iter().map(|f| esc(f.name.as_str())).collect())
                    .unwrap_or_default();
                format!("[{},{},{}]", esc(&self.name(adt)), esc(&var), arr(nf))
            }
            _ => "null".into(),
        };
        format!(
            "{{\"k\":\"fn\",\"id\":{},\"name\":{},\"rid\":{},\"rname\":{},\"trait\":{},\"targs\":{},\"ctor\":{}}}",
            esc(&self.id(d)),
            esc(&self.name(d)),
            res,
            resname,
            tr,
            targs,
            ctor
        )
    }
    fn konst(&self, owner: DefId, c: &Const<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        if let TyKind::FnDef(d, args) = t.kind() {
            return self.fndef(owner, *d, args.skip_binder());
        }
        if let TyKind::Closure(d, _) = t.kind() {
            return format!("{{\"k\":\"closure\",\"id\":{},\"name\":{}}}", esc(&self.id(*d)), esc(&self.name(*d)));
        }
        match c {
            Const::Unevaluated(u, _)
                if t.is_integral()
                    && matches!(tcx.def_kind(u.def), rustc_hir::def::DefKind::AnonConst)
                    && tcx.const_eval_poly(u.def).is_ok_and(|v| matches!(v, ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(_)))) =>
            {
                self.constval(tcx.const_eval_poly(u.def).unwrap(), t)
            }
            Const::Unevaluated(u, _) => format!(
                "{{\"k\":\"const\",\"id\":{},\"name\":{},\"promoted\":{},\"ty\":{},\"targs\":{}}}",
                esc(&self.id(u.def)),
                esc(&self.name(u.def)),
                u.promoted.map(|p| p.as_usize().to_string()).unwrap_or("null".into()),
                esc(&self.ty(t)),
                arr(u.args.iter().filter_map(|a| a.as_type()).map(|t| esc(&self.ty(t))))
            ),
            Const::Val(v, _) => self.constval(*v, t),
            Const::Ty(_, ct) => {
                if let Some(v) = ct.try_to_value() {
                    if let Some(s) = v.try_to_leaf() {
                        return self.scalar(s, t);
                    }
                    // string literals
                    if let TyKind::Ref(_, inner, _) = t.kind() {
                        if inner.is_str() {
                            if let Some(b) = v.try_to_raw_bytes(tcx) {
                                return format!("{{\"k\":\"str\",\"v\":{}}}", esc(&String::from_utf8_lossy(b)));
                            }
                        }
                    }
                }
                format!("{{\"k\":\"other\",\"v\":{},\"ty\":{}}}", esc(&format!("{}", ct)), esc(&self.ty(t)))
            }
        }
    }
    fn scalar(&self, s: ty::ScalarInt, t: Ty<'tcx>) -> String {
        let bits = s.to_bits(s.size());
        match t.kind() {
            TyKind::Bool => format!("{{\"k\":\"bool\",\"v\":{}}}", bits != 0),
            TyKind::Int(_) => {
                let v = s.size().sign_extend(bits);
                format!("{{\"k\":\"int\",\"v\":\"{}\",\"ty\":{}}}", v as i128, esc(&self.ty(t)))
            }
            TyKind::Float(ty::FloatTy::F64) => {
                let f = f64::from_bits(bits as u64);
                if f.fract() == 0.0 && f.abs() < 1e36 {
                    format!("{{\"k\":\"int\",\"v\":\"{:.0}\",\"ty\":{}}}", f, esc(&self.ty(t)))
                } else {
                    format!("{{\"k\":\"other\",\"v\":{},\"ty\":{}}}", esc(&format!("{}", f)), esc(&self.ty(t)))
                }
            }
            _ => format!("{{\"k\":\"int\",\"v\":\"{}\",\"ty\":{}}}", bits, esc(&self.ty(t))),
        }
    }
    fn constval(&self, v: ConstValue, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(s)) = v {
            return self.scalar(s, t);
        }
        if let ConstValue::ZeroSized = v {
            return format!("{{\"k\":\"zst\",\"ty\":{}}}", esc(&self.ty(t)));
        }
        if let TyKind::Ref(_, inner, _) = t.kind() {
            let is_bytes = matches!(inner.kind(), TyKind::Slice(e) if *e == tcx.types.u8);
            if inner.is_str() || is_bytes {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    return format!("{{\"k\":\"str\",\"v\":{}}}", esc(&String::from_utf8_lossy(b)));
                }
            }
            // byte string literals: a thin pointer to [u8; N]
            if let (TyKind::Array(e, n), ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _))) =
                (inner.kind(), v)
            {
                if *e == tcx.types.u8 {
                    if let Some(n) = n.try_to_target_usize(tcx) {
                        let (prov, off) = p.into_raw_parts();
                        if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(prov.alloc_id()) {
                            let o = off.bytes() as usize;
                            let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize);
                            return format!("{{\"k\":\"str\",\"v\":{}}}", esc(&String::from_utf8_lossy(b)));
                        }
                    }
                }
            }
        }
        format!("{{\"k\":\"other\",\"v\":{},\"ty\":{}}}", esc(&format!("{:?}", v)), esc(&self.ty(t)))
    }
    fn operand(&self, body: &Body<'tcx>, owner: DefId, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) | Operand::Move(p) => self.place(body, p),
            Operand::Constant(c) => self.konst(owner, &c.const_),
            _ => "{\"k\":\"other\",\"v\":\"rtcheck\",\"ty\":\"bool\"}".into(),
        }
    }
    fn rvalue(&self, body: &Body<'tcx>, owner: DefId, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        let op = |o: &Operand<'tcx>| self.operand(body, owner, o);
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", op(o)),
            Rvalue::Repeat(o, _) => format!("[\"repeat\",{}]", op(o)),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", self.place(body, p), m)
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(body, p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"reborrow\",{},{}]", self.place(body, p), m.is_mut()),
            Rvalue::Cast(k, o, t) => {
                format!("[\"cast\",{},{},{}]", op(o), esc(&self.ty(*t)), esc(&format!("{:?}", k)))
            }
            Rvalue::BinaryOp(b, x) => format!("[\"bin\",{},{},{}]", esc(&format!("{:?}", b)), op(&x.0), op(&x.1)),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", esc(&format!("{:?}", u)), op(o)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let mut vs = Vec::new();
                let mut nm = String::new();
                if let TyKind::Adt(adt, _) = t.kind() {
                    nm = self.name(adt.did());
                    self.adts.borrow_mut().insert(nm.clone(), adt.did());
                    if adt.is_enum() {
                        for (vi, d) in adt.discriminants(tcx) {
                            vs.push(format!("[\"{}\",{}]", d.val, esc(adt.variant(vi).name.as_str())));
                        }
                    }
                }
                format!("[\"discr\",{},{},{}]", self.place(body, p), arr(vs), esc(&nm))
            }
            Rvalue::Aggregate(k, ops) => match &**k {
                AggregateKind::Array(_) => format!("[\"array\",{}]", arr(ops.iter().map(op))),
                AggregateKind::Tuple => format!("[\"tuple\",{}]", arr(ops.iter().map(op))),
                AggregateKind::Adt(d, vi, args, _, _) => {
                    let adt = tcx.adt_def(*d);
                    let v = adt.variant(*vi);
                    let nm = self.name(*d);
                    self.adts.borrow_mut().insert(nm.clone(), *d);
                    let fs = arr(v.fields.iter().map(|f| esc(f.name.as_str())));
                    let ta = arr(args.iter().filter_map(|a| a.as_type()).map(|t| esc(&self.ty(t))));
                    format!(
                        "[\"adt\",{},{},{},{},{}]",
                        esc(&nm),
                        esc(v.name.as_str()),
                        fs,
                        arr(ops.iter().map(op)),
                        ta
                    )
                }
                AggregateKind::Closure(d, _) => {
                    format!("[\"closure\",{},{},{}]", esc(&self.id(*d)), esc(&self.name(*d)), arr(ops.iter().map(op)))
                }
                _ => "[\"unk\"]".into(),
            },
            Rvalue::CopyForDeref(p) => format!("[\"use\",{}]", self.place(body, p)),
            _ => "[\"unk\"]".into(),
        }
    }
    fn line(&self, sp: rustc_span::Span) -> usize {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }
    fn body(&self, owner: DefId, body: &Body<'tcx>) -> String {
        let mut blocks = Vec::new();
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut st = Vec::new();
            for s in &data.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        st.push(format!(
                            "[{},{},{}]",
                            self.place(body, p),
                            self.rvalue(body, owner, r),
                            self.line(s.source_info.span)
                        ));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!(
                            "[{},[\"setdiscr\",{}],{}]",
                            self.place(body, place),
                            variant_index.as_usize(),
                            self.line(s.source_info.span)
                        ));
                    }
                    _ => {}
                }
            }
            let t = data.terminator();
            let ln = self.line(t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts = arr(targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())));
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        self.operand(body, owner, discr),
                        ts,
                        targets.otherwise().as_usize(),
                        esc(&self.ty(dt))
                    )
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Drop { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => format!(
                    "[\"assert\",{},{},{},{}]",
                    self.operand(body, owner, cond),
                    expected,
                    target.as_usize(),
                    esc(match &**msg { AssertKind::BoundsCheck { .. } => "bounds", AssertKind::Overflow(..) => "overflow", AssertKind::OverflowNeg(..) => "overflow", AssertKind::DivisionByZero(..) => "divzero", _ => "other" })
                ),
                TerminatorKind::Call { func, args, destination, target, .. } => format!(
                    "[\"call\",{},{},{},{}]",
                    self.operand(body, owner, func),
                    arr(args.iter().map(|a| self.operand(body, owner, &a.node))),
                    self.place(body, destination),
                    target.map(|t| t.as_usize().to_string()).unwrap_or("null".into())
                ),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                _ => "[\"dead\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"n\":{}}}", arr(st), term, ln));
        }
        let locals = arr(body.local_decls.iter().map(|l| {
            self.note_adt(l.ty);
            esc(&self.ty(l.ty))
        }));
        let mut names = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.as_usize(), esc(v.name.as_str())));
                }
            }
        }
        format!(
            "\"argc\":{},\"locals\":{},\"names\":{},\"blocks\":{}",
            body.arg_count,
            locals,
            arr(names),
            arr(blocks)
        )
    }
}

struct C;

impl Callbacks for C {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let Ok(out) = std::env::var("MIRDUMP_OUT") else { return Compilation::Continue };
        let d = D { tcx, adts: Default::default() };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let extra = ["cw20_base", "cw1_whitelist", "cw_utils", "cw2"];
        if !(krate.starts_with("astro") || extra.contains(&krate.as_str())) {
            return Compilation::Continue;
        }
        let registry = std::env::var("CARGO_MANIFEST_DIR").map(|d| d.contains("/registry/")).unwrap_or(false);
        let path = format!("{out}/{krate}-{:x}.jsonl", tcx.stable_crate_id(LOCAL_CRATE).as_u64());
        let tmp = format!("{path}.tmp");
        let mut f = std::io::BufWriter::new(std::fs::File::create(&tmp).unwrap());
        writeln!(f, "{{\"rec\":\"crate\",\"name\":{},\"registry\":{}}}", esc(&krate), registry).unwrap();
        let owners: Vec<_> = tcx.hir_body_owners().collect();
        let derived = |mut x: DefId| -> bool {
            loop {
                if matches!(tcx.def_kind(x), DefKind::Impl { .. }) && tcx.is_automatically_derived(x) {
                    return true;
                }
                match tcx.opt_parent(x) {
                    Some(p) => x = p,
                    None => return false,
                }
            }
        };
        // take the bodies first: queries below (resolution, const evaluation) may steal them
        let mut bodies = std::collections::HashMap::new();
        let rank = |k: DefKind, d: DefId| match k {
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => 0,
            _ if tcx.is_const_fn(d) => 1,
            _ => 2,
        };
        let mut sorted: Vec<_> = owners.clone();
        sorted.sort_by_key(|l| rank(tcx.def_kind(l.to_def_id()), l.to_def_id()));
        for l in &sorted {
            let def = l.to_def_id();
            if derived(def) || matches!(tcx.def_kind(def), DefKind::AnonConst) {
                continue;
            }
            let (b, p) = tcx.mir_promoted(*l);
            let v = if b.is_stolen() || p.is_stolen() {
                (tcx.mir_for_ctfe(*l).clone(), tcx.promoted_mir(def).clone())
            } else {
                (b.borrow().clone(), p.borrow().clone())
            };
            bodies.insert(def, v);
        }
        for l in &owners {
            let def = l.to_def_id();
            if derived(def) {
                continue;
            }
            let kind = tcx.def_kind(def);
            if matches!(kind, DefKind::AnonConst) {
                continue;
            }
            let (b, p) = bodies.remove(&def).unwrap();
            let sm = tcx.sess.source_map();
            let lo = sm.lookup_char_pos(tcx.def_span(def).source_callsite().lo());
            let file = format!("{}", lo.file.name.prefer_local_unconditionally());
            let parent = tcx.opt_parent(def);
            let implof = parent.filter(|x| matches!(tcx.def_kind(*x), DefKind::Impl { .. }));
            let mut extra = String::new();
            if let Some(i) = implof {
                let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                let _ = write!(extra, ",\"self\":{}", esc(&d.ty(st)));
                if let Some(tr) = tcx.impl_opt_trait_ref(i) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let _ = write!(extra, ",\"trait\":{}", esc(&d.name(tr.def_id)));
                    if let Some(ti) = tcx.associated_item(def).trait_item_def_id() {
                        let _ = write!(extra, ",\"timpl\":{}", esc(&d.id(ti)));
                    }
                }
            }
            let proms = arr(p.iter().map(|b| format!("{{{}}}", d.body(def, b))));
            let vis = if matches!(kind, DefKind::Closure) { false } else { tcx.visibility(def).is_public() };
            writeln!(
                f,
                "{{\"rec\":\"fn\",\"id\":{},\"name\":{},\"kind\":{},\"crate\":{},\"file\":{},\"line\":{},\"pub\":{}{},{},\"promoted\":{}}}",
                esc(&d.id(def)),
                esc(&d.name(def)),
                esc(&format!("{:?}", kind)),
                esc(&krate),
                esc(&file),
                lo.line,
                vis,
                extra,
                d.body(def, &b),
                proms
            )
            .unwrap();
        }
        let adts = d.adts.borrow().clone();
        for (n, did) in adts {
            let a = tcx.adt_def(did);
            let vs = arr(a.variants().iter().map(|v| {
                format!(
                    "[{},{}]",
                    esc(v.name.as_str()),
                    arr(v.fields.iter().map(|fd| {
                        let t = tcx.type_of(fd.did).instantiate_identity().skip_norm_wip();
                        format!("[{},{}]", esc(fd.name.as_str()), esc(&d.ty(t)))
                    }))
                )
            }));
            writeln!(
                f,
                "{{\"rec\":\"adt\",\"name\":{},\"enum\":{},\"variants\":{},\"local\":{}}}",
                esc(&n),
                a.is_enum(),
                vs,
                did.is_local()
            )
            .unwrap();
        }
        f.flush().unwrap();
        drop(f);
        std::fs::rename(tmp, path).unwrap();
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as argv[1]
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut C))
}
