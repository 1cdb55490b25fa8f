//! mirfacts: a rustc wrapper that type-checks the crate exactly as the build does and then
//! writes, for every body of the crate (functions, methods, closures, async coroutines,
//! promoteds), its drop-elaborated MIR with resolved callees as JSON lines.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    strs: HashMap<String, usize>,
    strv: Vec<String>,
    tys: HashMap<Ty<'tcx>, usize>,
    tyv: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
    fn s(&mut self, s: &str) -> usize {
        if let Some(i) = self.strs.get(s) {
            return *i;
        }
        let i = self.strv.len();
        self.strv.push(s.to_string());
        self.strs.insert(s.to_string(), i);
        i
    }

    fn path(&self, d: DefId) -> String {
        path(self.tcx, d)
    }

    fn hash(&self, d: DefId) -> String {
        hash(self.tcx, d)
    }

    /// Interned type: JSON object {"s": printed, "adt": def path, "h": hash of closure/coroutine/adt, "a": args}
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.tyv.len();
        self.tyv.push(String::new());
        self.tys.insert(t, i);
        let printed = tyname(self.tcx, t);
        let mut o = format!("{{\"s\":{}", esc(&printed));
        match t.kind() {
            ty::Adt(def, args) => {
                let _ = write!(o, ",\"k\":\"adt\",\"adt\":{},\"h\":{}", esc(&self.path(def.did())), esc(&self.hash(def.did())));
                let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(o, ",\"a\":[{}]", a.join(","));
            }
            ty::Ref(_, inner, m) => {
                let x = self.ty(*inner);
                let _ = write!(o, ",\"k\":\"ref\",\"m\":{},\"t\":{}", m.is_mut(), x);
            }
            ty::RawPtr(inner, _) => {
                let x = self.ty(*inner);
                let _ = write!(o, ",\"k\":\"ptr\",\"t\":{}", x);
            }
            ty::Slice(inner) | ty::Array(inner, _) => {
                let x = self.ty(*inner);
                let _ = write!(o, ",\"k\":\"slice\",\"t\":{}", x);
            }
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(o, ",\"k\":\"tuple\",\"a\":[{}]", a.join(","));
            }
            ty::Closure(d, _) => {
                let _ = write!(o, ",\"k\":\"closure\",\"h\":{}", esc(&self.hash(*d)));
            }
            ty::Coroutine(d, _) => {
                let _ = write!(o, ",\"k\":\"coroutine\",\"h\":{}", esc(&self.hash(*d)));
            }
            ty::FnDef(d, _) => {
                let _ = write!(o, ",\"k\":\"fndef\",\"adt\":{},\"h\":{}", esc(&self.path(*d)), esc(&self.hash(*d)));
            }
            ty::Dynamic(preds, ..) => {
                if let Some(p) = preds.principal_def_id() {
                    let _ = write!(o, ",\"k\":\"dyn\",\"adt\":{}", esc(&self.path(p)));
                } else {
                    o.push_str(",\"k\":\"dyn\"");
                }
            }
            ty::Param(_) => o.push_str(",\"k\":\"param\""),
            ty::Alias(..) => o.push_str(",\"k\":\"alias\""),
            _ => o.push_str(",\"k\":\"prim\""),
        }
        o.push('}');
        self.tyv[i] = o;
        i
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        if p.projection.is_empty() {
            return format!("[{}]", p.local.as_usize());
        }
        let mut o = format!("[{}", p.local.as_usize());
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for elem in p.projection.iter() {
            match elem {
                ProjectionElem::Deref => o.push_str(",\"*\""),
                ProjectionElem::Field(f, _) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            if def.is_enum() {
                                let vi = pty.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                                def.variant(vi).fields[f].name.to_string()
                            } else {
                                def.non_enum_variant().fields[f].name.to_string()
                            }
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let _ = write!(o, ",[{},{}]", f.as_usize(), self.s(&name));
                }
                ProjectionElem::Downcast(n, v) => {
                    let n = n.map(|x| x.to_string()).unwrap_or_default();
                    let _ = write!(o, ",[\"v\",{},{}]", v.as_usize(), self.s(&n));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, ",[\"ci\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { .. } => o.push_str(",[\"sub\"]"),
                _ => o.push_str(",\"o\""),
            }
            pty = pty.projection_ty(self.tcx, elem);
        }
        o.push(']');
        o
    }

    fn konst(&mut self, body: &Body<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let env = body.typing_env(self.tcx);
        let t = c.const_.ty();
        match t.kind() {
            ty::FnDef(d, bargs) => {
                let args = self.tcx.instantiate_bound_regions_with_erased(*bargs);
                let (rp, rh) = self.resolve(env, *d, args);
                let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                return format!(
                    "{{\"fn\":{},\"h\":{},\"r\":{},\"rh\":{},\"a\":[{}]}}",
                    { let p = self.path(*d); self.s(&p) },
                    esc(&self.hash(*d)),
                    self.s(&rp),
                    esc(&rh),
                    targs.join(",")
                );
            }
            _ => {}
        }
        let tid = self.ty(t);
        let mut o = format!("{{\"t\":{}", tid);
        match c.const_ {
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    let _ = write!(o, ",\"prom\":{},\"ph\":{}", p.as_usize(), esc(&self.hash(u.def)));
                    o.push('}');
                    return o;
                }
                let p = self.path(u.def);
                let _ = write!(o, ",\"item\":{},\"h\":{}", self.s(&p), esc(&self.hash(u.def)));
            }
            _ => {}
        }
        // value, when it is a plain scalar or a string
        let generic = c.const_.ty().has_param_flag() || matches!(c.const_, Const::Unevaluated(u, _) if u.args.iter().any(|a| match a.kind() { ty::GenericArgKind::Type(t) => t.has_param_flag(), _ => false }));
        if !generic {
            match t.kind() {
                ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char => {
                    if let Some(v) = c.const_.try_eval_scalar_int(self.tcx, env) {
                        let sz = v.size();
                        let bits = v.to_bits(sz);
                        if let ty::Int(_) = t.kind() {
                            let _ = write!(o, ",\"v\":{}", sz.sign_extend(bits));
                        } else {
                            let _ = write!(o, ",\"v\":{}", bits);
                        }
                    }
                }
                ty::Ref(_, inner, _) if inner.is_str() => {
                    if let Ok(v) = c.const_.eval(self.tcx, env, c.span) {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                            let st = String::from_utf8_lossy(b).to_string();
                            let _ = write!(o, ",\"str\":{}", esc(&st));
                        }
                    }
                }
                // byte strings, also the templates of formatted strings; a char per byte
                ty::Ref(_, inner, _) if matches!(inner.kind(), ty::Array(e, _) | ty::Slice(e) if *e == self.tcx.types.u8) => {
                    if let Ok(v) = c.const_.eval(self.tcx, env, c.span) {
                        let b = match (v, inner.kind()) {
                            (ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(ptr, _)), ty::Array(_, n)) => {
                                let (prov, off) = ptr.prov_and_relative_offset();
                                match (self.tcx.try_get_global_alloc(prov.alloc_id()), n.try_to_target_usize(self.tcx)) {
                                    (Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(a)), Some(n)) => {
                                        let a = a.inner();
                                        let (off, n) = (off.bytes() as usize, n as usize);
                                        if off + n <= a.len() && a.provenance().ptrs().is_empty() {
                                            Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + n).to_vec())
                                        } else {
                                            None
                                        }
                                    }
                                    _ => None,
                                }
                            }
                            _ => v.try_get_slice_bytes_for_diagnostics(self.tcx).map(|b| b.to_vec()),
                        };
                        if let Some(b) = b {
                            let st: String = b.iter().map(|b| *b as char).collect();
                            let _ = write!(o, ",\"str\":{}", esc(&st));
                        }
                    }
                }
                _ => {}
            }
        }
        o.push('}');
        o
    }

    fn resolve(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> (String, String) {
        match self.tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {}
            _ => return (self.path(d), self.hash(d)),
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(self.tcx, env, d, args)));
        match r {
            Ok(Ok(Some(inst))) => {
                let rd = inst.def_id();
                (self.path(rd), self.hash(rd))
            }
            _ => (self.path(d), self.hash(d)),
        }
    }

    fn op(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(body, p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.konst(body, c)),
            _ => "{\"k\":{\"t\":0}}".to_string(),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(body, o)),
            Rvalue::Repeat(o, _) => format!("[\"rep\",{}]", self.op(body, o)),
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(body, p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(body, p)),
            Rvalue::Cast(_, o, t) => format!("[\"cast\",{},{}]", self.op(body, o), self.ty(*t)),
            Rvalue::BinaryOp(b, ops) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(body, &ops.0), self.op(body, &ops.1)),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(body, o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(body, p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(body, p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"ref\",true,{}]", self.place(body, p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.op(body, o)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|x| self.op(body, x)).collect();
                let (kind, name, var, vname, fields) = match &**k {
                    AggregateKind::Array(_) => ("array", String::new(), 0, String::new(), vec![]),
                    AggregateKind::Tuple => ("tuple", String::new(), 0, String::new(), vec![]),
                    AggregateKind::Adt(d, v, _, _, af) => {
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*v);
                        let f: Vec<String> = if let Some(af) = af {
                            vec![var.fields[*af].name.to_string()]
                        } else {
                            var.fields.iter().map(|f| f.name.to_string()).collect()
                        };
                        ("adt", self.path(*d), v.as_usize(), var.name.to_string(), f)
                    }
                    AggregateKind::Closure(d, _) => ("closure", self.hash(*d), 0, String::new(), vec![]),
                    AggregateKind::Coroutine(d, _) => ("coroutine", self.hash(*d), 0, String::new(), vec![]),
                    AggregateKind::CoroutineClosure(d, _) => ("closure", self.hash(*d), 0, String::new(), vec![]),
                    AggregateKind::RawPtr(..) => ("rawptr", String::new(), 0, String::new(), vec![]),
                };
                let n = self.s(&name);
                let vn = self.s(&vname);
                let fl: Vec<String> = fields.iter().map(|f| self.s(f).to_string()).collect();
                format!("[\"agg\",\"{}\",{},{},{},[{}],[{}]]", kind, n, var, vn, fl.join(","), os.join(","))
            }
            Rvalue::ThreadLocalRef(d) => {
                let p = self.path(*d);
                format!("[\"tls\",{}]", self.s(&p))
            }
        }
    }

    fn line(&self, sp: rustc_span::Span) -> usize {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }

    fn body(&mut self, body: &Body<'tcx>, out: &mut String) {
        // locals
        out.push_str("\"locals\":[");
        for (i, l) in body.local_decls.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            let _ = write!(out, "{}", self.ty(l.ty));
        }
        out.push_str("],\"names\":{");
        let mut first = true;
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    if !first {
                        out.push(',');
                    }
                    first = false;
                    let _ = write!(out, "\"{}\":{}", p.local.as_usize(), esc(v.name.as_str()));
                }
            }
        }
        let _ = write!(out, "}},\"argc\":{},\"blocks\":[", body.arg_count);
        for (bi, bb) in body.basic_blocks.iter().enumerate() {
            if bi > 0 {
                out.push(',');
            }
            if bb.is_cleanup {
                out.push_str("null");
                continue;
            }
            out.push_str("{\"s\":[");
            let mut firsts = true;
            for st in &bb.statements {
                let txt = match &st.kind {
                    StatementKind::Assign(b) => {
                        let pl = self.place(body, &b.0);
                        let rv = self.rvalue(body, &b.1);
                        Some(format!("[{},{},{}]", pl, rv, self.line(st.source_info.span)))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(body, place);
                        Some(format!("[{},[\"setd\",{}],{}]", pl, variant_index.as_usize(), self.line(st.source_info.span)))
                    }
                    StatementKind::StorageDead(l) => Some(format!("[[{}],[\"dead\"],0]", l.as_usize())),
                    _ => None,
                };
                if let Some(t) = txt {
                    if !firsts {
                        out.push(',');
                    }
                    firsts = false;
                    out.push_str(&t);
                }
            }
            out.push_str("],\"t\":");
            let term = bb.terminator();
            let line = self.line(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.op(body, discr);
                    let v: Vec<String> = targets.iter().map(|(v, t)| format!("[{},{}]", v, t.as_usize())).collect();
                    format!("[\"switch\",{},[{}],{},{}]", o, v.join(","), targets.otherwise().as_usize(), line)
                }
                TerminatorKind::Return => format!("[\"ret\",{}]", line),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, self.tcx).ty;
                    let tid = self.ty(t);
                    format!("[\"drop\",{},{},{},{}]", self.place(body, place), target.as_usize(), tid, line)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(body, func);
                    let a: Vec<String> = args.iter().map(|x| self.op(body, &x.node)).collect();
                    let d = self.place(body, destination);
                    let t = target.map(|x| x.as_usize().to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},[{}],{},{},{}]", f, a.join(","), d, t, line)
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    let f = self.op(body, func);
                    let a: Vec<String> = args.iter().map(|x| self.op(body, &x.node)).collect();
                    format!("[\"call\",{},[{}],[0],null,{}]", f, a.join(","), line)
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let k = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) | AssertKind::OverflowNeg(_) => "overflow",
                        AssertKind::DivisionByZero(_) | AssertKind::RemainderByZero(_) => "div",
                        _ => "other",
                    };
                    format!("[\"assert\",{},{},{},\"{}\",{}]", self.op(body, cond), expected, target.as_usize(), k, line)
                }
                TerminatorKind::Yield { resume, resume_arg, .. } => {
                    format!("[\"yield\",{},{},{}]", resume.as_usize(), self.place(body, resume_arg), line)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                _ => "[\"other\"]".to_string(),
            };
            out.push_str(&t);
            out.push('}');
        }
        out.push(']');
    }
}

trait HasParam {
    fn has_param_flag(&self) -> bool;
}
impl<'tcx> HasParam for Ty<'tcx> {
    fn has_param_flag(&self) -> bool {
        use rustc_middle::ty::TypeVisitableExt;
        self.has_param() || self.has_aliases()
    }
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let p = rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(
        rustc_middle::ty::print::with_resolve_crate_name!(tcx.def_path_str(d))
    ));
    p
}

fn tyname<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> String {
    let _ = tcx;
    rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(
        rustc_middle::ty::print::with_resolve_crate_name!(format!("{t}"))
    ))
}

fn hash(tcx: TyCtxt<'_>, d: DefId) -> String {
    let h = tcx.def_path_hash(d);
    format!("{:?}", h.0).replace("Fingerprint", "").replace(['(', ')', ' '], "").replace(',', "_")
}

fn dump(tcx: TyCtxt<'_>, outdir: &str) {
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let ctypes: Vec<String> = tcx.crate_types().iter().map(|x| format!("{x:?}")).collect();
    let mut cx = Cx { tcx, strs: HashMap::new(), strv: vec![], tys: HashMap::new(), tyv: vec![] };
    cx.s("");
    let mut out = String::new();
    let file = format!("{}/{}-{}-{}.jsonl.tmp", outdir, krate, ctypes.join("_"), std::process::id());
    let mut f = std::io::BufWriter::new(std::fs::File::create(&file).unwrap());
    let _ = writeln!(f, "{{\"kind\":\"crate\",\"name\":{},\"types\":{}}}", esc(&krate), esc(&ctypes.join(",")));

    // types
    let items = tcx.hir_crate_items(());
    for id in items.definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let def = tcx.adt_def(d);
                let vs: Vec<String> = def
                    .variants()
                    .iter_enumerated()
                    .map(|(_i, v)| {
                        let fs: Vec<String> = v
                            .fields
                            .iter()
                            .map(|fd| {
                                let t = tcx.type_of(fd.did).instantiate_identity();
                                format!("[{},{}]", esc(fd.name.as_str()), esc(&rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_resolve_crate_name!(format!("{}", t.skip_normalization()))))))
                            })
                            .collect();
                        format!("[{},[{}]]", esc(v.name.as_str()), fs.join(","))
                    })
                    .collect();
                let _ = writeln!(f, "{{\"kind\":\"adt\",\"path\":{},\"h\":{},\"variants\":[{}]}}", esc(&cx.path(d)), esc(&cx.hash(d)), vs.join(","));
            }
            DefKind::Impl { of_trait: true } => {
                let tr = tcx.impl_trait_ref(d);
                let tr = tr.instantiate_identity();
                let trs = rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_resolve_crate_name!(format!("{}", tr.skip_normalization()))));
                let tdid = tcx.impl_trait_id(d);
                let tname = cx.path(tdid);
                let selfty = rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_resolve_crate_name!(format!("{}", tcx.type_of(d).instantiate_identity().skip_normalization()))));
                let ms: Vec<String> = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .map(|it| {
                        let th = it.trait_item_def_id().map(|t| cx.hash(t)).unwrap_or_default();
                        format!("[{},{},{}]", esc(&it.opt_name().map(|x| x.to_string()).unwrap_or_default()), esc(&cx.hash(it.def_id)), esc(&th))
                    })
                    .collect();
                let _ = writeln!(
                    f,
                    "{{\"kind\":\"impl\",\"trait\":{},\"ref\":{},\"self\":{},\"items\":[{}]}}",
                    esc(&tname),
                    esc(&trs),
                    esc(&selfty),
                    ms.join(",")
                );
            }
            DefKind::Trait => {
                let ms: Vec<String> = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .map(|it| format!("[{},{},{}]", esc(&it.opt_name().map(|x| x.to_string()).unwrap_or_default()), esc(&cx.hash(it.def_id)), it.defaultness(tcx).has_value()))
                    .collect();
                let _ = writeln!(f, "{{\"kind\":\"trait\",\"path\":{},\"h\":{},\"items\":[{}]}}", esc(&cx.path(d)), esc(&cx.hash(d)), ms.join(","));
            }
            _ => {}
        }
    }

    let mut n = 0usize;
    let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    for id in keys {
        let d = id.to_def_id();
        let dk = tcx.def_kind(d);
        let kind = match dk {
            DefKind::Fn | DefKind::AssocFn => "fn",
            DefKind::Closure => {
                if tcx.is_coroutine(d) {
                    "coroutine"
                } else {
                    "closure"
                }
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => "const",
            _ => continue,
        };
        let b;
        let stash;
        let guard;
        let body: &Body<'_> = if kind == "const" {
            if !matches!(dk, DefKind::Static { .. }) && tcx.generics_of(d).requires_monomorphization(tcx) {
                continue;
            }
            b = tcx.mir_for_ctfe(d);
            b
        } else {
            let st = tcx.mir_drops_elaborated_and_const_checked(id);
            if let Some(x) = STASH.with(|s| s.borrow_mut().remove(&id)) {
                // SAFETY: the body was cloned out of this same `tcx`, which outlives this call.
                stash = unsafe { std::mem::transmute::<Body<'static>, Body<'_>>(x) };
                &stash
            } else if st.is_stolen() {
                eprintln!("mirfacts: stolen {}", path(tcx, d));
                let _ = writeln!(f, "{{\"kind\":\"stolen\",\"path\":{}}}", esc(&path(tcx, d)));
                continue;
            } else {
                guard = st.borrow();
                &guard
            }
        };
        out.clear();
        let span = tcx.def_span(d);
        let loc = tcx.sess.source_map().lookup_char_pos(span.source_callsite().lo());
        let fname = loc.file.name.prefer_local_unconditionally().to_string();
        let parent = tcx.parent(d);
        let (mut tritem, mut selfty, mut trname) = (String::new(), String::new(), String::new());
        let mut derived = false;
        if dk == DefKind::AssocFn {
            if let Some(t) = tcx.associated_item(d).trait_item_def_id() {
                tritem = cx.hash(t);
                trname = cx.path(t);
            }
            if matches!(tcx.def_kind(parent), DefKind::Impl { .. }) {
                selfty = rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_resolve_crate_name!(format!("{}", tcx.type_of(parent).instantiate_identity().skip_normalization()))));
                derived = tcx.is_automatically_derived(parent);
            }
        }
        let _ = write!(
            out,
            "{{\"kind\":\"{}\",\"path\":{},\"h\":{},\"parent\":{},\"file\":{},\"line\":{},\"tritem\":{},\"trname\":{},\"self\":{},\"derived\":{},\"macro\":{},\"pub\":{},",
            kind,
            esc(&cx.path(d)),
            esc(&cx.hash(d)),
            esc(&cx.hash(parent)),
            esc(&fname),
            loc.line,
            esc(&tritem),
            esc(&trname),
            esc(&selfty),
            derived,
            span.from_expansion(),
            tcx.visibility(d).is_public(),
        );
        if kind == "closure" || kind == "coroutine" {
            let ups: Vec<String> = tcx
                .closure_captures(id)
                .iter()
                .map(|c| format!("[{},{}]", esc(c.to_symbol().as_str()), c.is_by_ref()))
                .collect();
            let _ = write!(out, "\"upvars\":[{}],", ups.join(","));
        }
        if kind == "fn" {
            let mut ps: Vec<String> = Vec::new();
            let g = tcx.generics_of(d);
            for i in 0..g.count() {
                let q = g.param_at(i, tcx);
                if matches!(q.kind, ty::GenericParamDefKind::Type { .. }) {
                    ps.push(esc(q.name.as_str()));
                }
            }
            let _ = write!(out, "\"gen\":[{}],", ps.join(","));
        }
        cx.body(body, &mut out);
        // promoteds
        if kind != "const" {
            let pm = tcx.promoted_mir(d);
            if !pm.is_empty() {
                out.push_str(",\"prom\":[");
                for (i, p) in pm.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    out.push('{');
                    cx.body(p, &mut out);
                    out.push('}');
                }
                out.push(']');
            }
        }
        out.push('}');
        let _ = writeln!(f, "{}", out);
        n += 1;
    }
    let strs: Vec<String> = cx.strv.iter().map(|s| esc(s)).collect();
    let _ = writeln!(f, "{{\"kind\":\"tables\",\"bodies\":{},\"strs\":[{}],\"tys\":[{}]}}", n, strs.join(","), cx.tyv.join(","));
    f.flush().unwrap();
    drop(f);
    std::fs::rename(&file, file.trim_end_matches(".tmp")).unwrap();
}

thread_local! {
    /// Drop-elaborated bodies, cloned before the coroutine transform steals them.
    static STASH: std::cell::RefCell<HashMap<LocalDefId, Body<'static>>> = std::cell::RefCell::new(HashMap::new());
}

fn stash_drops_elaborated<'tcx>(
    tcx: TyCtxt<'tcx>,
    def: LocalDefId,
) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>> {
    // The coroutine transform is part of drop elaboration: keep the body as it was before it,
    // so that an `async` body still has the control flow that was written.
    let pre: Option<Body<'tcx>> = if tcx.is_coroutine(def.to_def_id()) {
        let (p, _) = tcx.mir_promoted(def);
        Some(p.borrow().clone())
    } else {
        None
    };
    let st = (rustc_interface::DEFAULT_QUERY_PROVIDERS.queries.mir_drops_elaborated_and_const_checked)(tcx, def);
    let b: Body<'tcx> = pre.unwrap_or_else(|| st.borrow().clone());
    // SAFETY: only used while `tcx` is alive (see `dump`).
    let b = unsafe { std::mem::transmute::<Body<'tcx>, Body<'static>>(b) };
    STASH.with(|s| s.borrow_mut().insert(def, b));
    st
}

struct Cb {
    out: Option<String>,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        if self.out.is_some() {
            config.override_queries = Some(|_s, p| {
                p.queries.mir_drops_elaborated_and_const_checked = stash_drops_elaborated;
            });
        }
    }

    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(o) = &self.out {
            dump(tcx, o);
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("MIRFACTS_OUT").ok();
    let has_src = args.iter().any(|a| a.ends_with(".rs"));
    let out = if has_src && !args.iter().any(|a| a == "build_script_build") { out } else { None };
    args.push("-Zmir-opt-level=0".into());
    args.push("--cap-lints=allow".into());
    let mut cb = Cb { out };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
