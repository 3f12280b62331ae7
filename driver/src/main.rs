//! `mirfacts`: a rustc driver that dumps the type-checked program (MIR at
//! mir-opt-level 0, data types, impls, visibility) of the crate being compiled
//! as JSON lines. It is injected with RUSTC_WORKSPACE_WRAPPER; the output
//! directory is given in MIRFACTS_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::print::PrintTraitRefExt as _;
use rustc_infer::infer::TyCtxtInferExt as _;
use rustc_middle::ty::{self, GenericArgs, Instance, Ty, TyCtxt, TypingEnv, TypingMode};
use rustc_trait_selection::infer::InferCtxtExt as _;
use std::fmt::Write as _;
use std::io::Write as _;

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(dir) = std::env::var("MIRFACTS_OUT") {
            let s = ty::print::with_no_trimmed_paths!(dump(tcx));
            let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
            let path = format!("{dir}/{name}.jsonl");
            let tmp = format!("{path}.tmp{}", std::process::id());
            let mut f = std::fs::File::create(&tmp).unwrap();
            f.write_all(s.as_bytes()).unwrap();
            std::fs::rename(tmp, path).unwrap();
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As a RUSTC_WORKSPACE_WRAPPER argv[1] is the path of the real rustc.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let is_build_script = args.windows(2).any(|w| w[0] == "--crate-name" && w[1].starts_with("build_script"));
    if !is_build_script {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Whether `t` is Send and Sync, as "SY" (missing letters: not implemented).
/// Type parameters of the owner are taken to be both (`u8`).
fn auto<'tcx>(tcx: TyCtxt<'tcx>, owner: DefId, t: Ty<'tcx>) -> String {
    let infcx = tcx.infer_ctxt().build(TypingMode::non_body_analysis());
    let env = ty::ParamEnv::empty();
    let _ = owner;
    let mut o = String::new();
    for (n, name) in [("S", rustc_span::sym::Send), ("Y", rustc_span::sym::Sync)] {
        if let Some(tr) = tcx.get_diagnostic_item(name).or_else(|| if n == "Y" { tcx.lang_items().sync_trait() } else { None }) {
            if infcx.type_implements_trait(tr, [t], env).must_apply_modulo_regions() {
                o.push_str(n);
            }
        } else {
            o.push('?');
        }
    }
    o
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
}

fn dump(tcx: TyCtxt<'_>) -> String {
    let d = D { tcx };
    let mut out = String::new();
    let ev = tcx.effective_visibilities(());
    // Data types.
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let adt = tcx.adt_def(did);
                let args = GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    ty::GenericParamDefKind::Type { .. } => tcx.types.u8.into(),
                    ty::GenericParamDefKind::Const { .. } => ty::Const::new_error(tcx, tcx.dcx().delayed_bug("const generic")).into(),
                });
                let mut vs = vec![];
                for (vi, v) in adt.variants().iter_enumerated() {
                    let discr = if adt.is_enum() {
                        adt.discriminant_for_variant(tcx, vi).val.to_string()
                    } else {
                        "0".into()
                    };
                    let fs: Vec<String> = v
                        .fields
                        .iter()
                        .map(|f| {
                            let t = tcx.type_of(f.did).instantiate_identity();
                            format!("[{},{},{},{}]", js(f.name.as_str()), js(&format!("{}", t.skip_norm_wip())), f.vis.is_public(), js(&auto(tcx, did, tcx.type_of(f.did).instantiate(tcx, args).skip_norm_wip())))
                        })
                        .collect();
                    vs.push(format!("{{\"name\":{},\"discr\":\"{}\",\"fields\":[{}]}}", js(v.name.as_str()), discr, fs.join(",")));
                }
                let _ = writeln!(
                    out,
                    "{{\"t\":\"adt\",\"path\":{},\"kind\":{},\"pub\":{},\"exp\":{},\"generics\":{},\"auto\":{},\"variants\":[{}]}}",
                    js(&tcx.def_path_str(did)),
                    js(if adt.is_enum() { "enum" } else { "struct" }),
                    ev.is_exported(id),
                    ev.is_reachable(id),
                    tcx.generics_of(did).own_params.len(),
                    js(&auto(tcx, did, tcx.type_of(did).instantiate(tcx, args).skip_norm_wip())),
                    vs.join(",")
                );
            }
            DefKind::Impl { of_trait } => {
                let self_ty = tcx.type_of(did).instantiate_identity();
                let tr = if of_trait {
                    js(&format!("{}", tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip().print_only_trait_path()))
                } else {
                    "null".into()
                };
                let items: Vec<String> = tcx
                    .associated_item_def_ids(did)
                    .iter()
                    .map(|i| js(&tcx.def_path_str(*i)))
                    .collect();
                let derived = tcx.is_builtin_derived(did);
                let _ = writeln!(
                    out,
                    "{{\"t\":\"impl\",\"trait\":{},\"self\":{},\"derived\":{},\"items\":[{}]}}",
                    tr,
                    js(&format!("{}", self_ty.skip_norm_wip())),
                    derived,
                    items.join(",")
                );
            }
            _ => {}
        }
    }
    // Bodies.
    for id in tcx.hir_body_owners() {
        let did = id.to_def_id();
        let kind = tcx.def_kind(did);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if tcx.is_constructor(did) {
                    continue;
                }
                let body = tcx.optimized_mir(did);
                d.body(&mut out, id, body, "fn", None);
                for (i, p) in tcx.promoted_mir(did).iter_enumerated() {
                    d.body(&mut out, id, p, "promoted", Some(i.as_usize()));
                }
            }
            DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => {
                let body = tcx.mir_for_ctfe(did);
                d.body(&mut out, id, body, "const", None);
                for (i, p) in tcx.promoted_mir(did).iter_enumerated() {
                    d.body(&mut out, id, p, "promoted", Some(i.as_usize()));
                }
            }
            _ => {}
        }
    }
    out
}

impl<'tcx> D<'tcx> {
    fn body(&self, out: &mut String, id: LocalDefId, body: &Body<'tcx>, kind: &str, promoted: Option<usize>) {
        let tcx = self.tcx;
        let did = id.to_def_id();
        let env = TypingEnv::post_analysis(tcx, did);
        let ev = tcx.effective_visibilities(());
        let mut names: Vec<Vec<String>> = vec![vec![]; body.local_decls.len()];
        let mut upvars: Vec<String> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()].push(v.name.to_string());
                } else {
                    upvars.push(format!("[{},{}]", js(v.name.as_str()), self.place(body, p)));
                }
            }
        }
        let locals: Vec<String> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, decl)| {
                let n = &names[l.as_usize()];
                format!("[{},{}]", js(&format!("{}", decl.ty)), if n.is_empty() { "null".into() } else { js(&n[0]) })
            })
            .collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, rv) = &**b;
                        st.push(format!("[\"=\",{},{},{}]", self.place(body, p), self.rvalue(body, env, rv), self.line(s.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"discr\",{},{}]", self.place(body, place), variant_index.as_usize()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"to\":{}}}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                    format!(
                        "{{\"k\":\"switch\",\"on\":{},\"ty\":{},\"targets\":[{}],\"else\":{}}}",
                        self.operand(body, env, discr),
                        js(&format!("{}", discr.ty(&body.local_decls, tcx))),
                        ts.join(","),
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => "{\"k\":\"return\"}".into(),
                TerminatorKind::Unreachable => "{\"k\":\"unreachable\"}".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "{\"k\":\"resume\"}".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!(
                        "{{\"k\":\"drop\",\"place\":{},\"ty\":{},\"to\":{}}}",
                        self.place(body, place),
                        js(&format!("{}", place.ty(&body.local_decls, tcx).ty)),
                        target.as_usize()
                    )
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|a| self.operand(body, env, &a.node)).collect();
                    let (f, extra) = self.callee(body, env, func);
                    format!(
                        "{{\"k\":\"call\",\"f\":{}{},\"args\":[{}],\"dest\":{},\"to\":{}}}",
                        f,
                        extra,
                        a.join(","),
                        self.place(body, destination),
                        target.map(|t| t.as_usize() as i64).unwrap_or(-1)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (mk, ops): (&str, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds", vec![self.operand(body, env, len), self.operand(body, env, index)])
                        }
                        AssertKind::Overflow(op, a, b) => (
                            match op {
                                BinOp::Add | BinOp::AddWithOverflow | BinOp::AddUnchecked => "overflow_add",
                                BinOp::Sub | BinOp::SubWithOverflow | BinOp::SubUnchecked => "overflow_sub",
                                BinOp::Mul | BinOp::MulWithOverflow | BinOp::MulUnchecked => "overflow_mul",
                                BinOp::Shl | BinOp::Shr => "overflow_shift",
                                _ => "overflow_other",
                            },
                            vec![self.operand(body, env, a), self.operand(body, env, b)],
                        ),
                        AssertKind::OverflowNeg(a) => ("overflow_neg", vec![self.operand(body, env, a)]),
                        AssertKind::DivisionByZero(a) => ("div_zero", vec![self.operand(body, env, a)]),
                        AssertKind::RemainderByZero(a) => ("rem_zero", vec![self.operand(body, env, a)]),
                        _ => ("other", vec![]),
                    };
                    format!(
                        "{{\"k\":\"assert\",\"cond\":{},\"exp\":{},\"msg\":\"{}\",\"ops\":[{}],\"to\":{}}}",
                        self.operand(body, env, cond),
                        expected,
                        mk,
                        ops.join(","),
                        target.as_usize()
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"k\":\"goto\",\"to\":{}}}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"k\":\"goto\",\"to\":{}}}", real_target.as_usize()),
                _ => "{\"k\":\"other\"}".into(),
            };
            blocks.push(format!(
                "[{},[{}],{},{}]",
                bb.is_cleanup as u8,
                st.join(","),
                term,
                self.line(t.source_info.span)
            ));
        }
        let sm = tcx.sess.source_map();
        let dspan = tcx.def_span(did);
        let lo = sm.lookup_char_pos(dspan.lo());
        let file = format!("{}", lo.file.name.prefer_local_unconditionally());
        let from_exp = dspan.from_expansion();
        let kind_s = if let Some(i) = promoted { format!("\"promoted\",\"idx\":{i}") } else { format!("\"{kind}\"") };
        let (ispub, isexp) = (tcx.visibility(did).is_public(), ev.is_reachable(id));
        let exported = ev.is_exported(id);
        let dk = tcx.def_kind(did);
        let parent_impl = if matches!(dk, DefKind::AssocFn | DefKind::AssocConst { .. }) {
            let p = tcx.parent(did);
            match tcx.def_kind(p) {
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(p).instantiate_identity();
                    let tr = if of_trait {
                        js(&format!("{}", tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip().print_only_trait_path()))
                    } else {
                        "null".into()
                    };
                    format!("{{\"self\":{},\"trait\":{},\"derived\":{}}}", js(&format!("{}", st.skip_norm_wip())), tr, tcx.is_builtin_derived(p))
                }
                DefKind::Trait => format!("{{\"self\":\"Self\",\"trait\":{},\"derived\":false}}", js(&tcx.def_path_str(p))),
                _ => "null".into(),
            }
        } else {
            "null".into()
        };
        let _ = writeln!(
            out,
            "{{\"t\":\"body\",\"kind\":{},\"path\":{},\"name\":{},\"hash\":{},\"file\":{},\"line\":{},\"exp\":{},\"pub\":{},\"reach\":{},\"exported\":{},\"impl\":{},\"nargs\":{},\"upvars\":[{}],\"locals\":[{}],\"blocks\":[{}]}}",
            kind_s,
            js(&self.path(did)),
            js(&tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default()),
            js(&format!("{:?}", tcx.def_path_hash(did).0.to_hex())),
            js(&file),
            lo.line,
            from_exp,
            ispub,
            isexp,
            exported,
            parent_impl,
            body.arg_count,
            upvars.join(","),
            locals.join(","),
            blocks.join(",")
        );
    }

    fn path(&self, did: DefId) -> String {
        self.tcx.def_path_str(did)
    }

    fn line(&self, span: rustc_span::Span) -> usize {
        let sp = span.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }

    fn callee(&self, body: &Body<'tcx>, env: TypingEnv<'tcx>, func: &Operand<'tcx>) -> (String, String) {
        let tcx = self.tcx;
        let fty = func.ty(&body.local_decls, tcx);
        if let ty::FnDef(def, args) = fty.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            let def = *def;
            let decl = self.path(def);
            let targs: Vec<String> = args.iter().filter(|a| a.as_region().is_none()).map(|a| js(&format!("{}", a))).collect();
            let tr = tcx.trait_of_assoc(def).map(|t| js(&tcx.def_path_str(t))).unwrap_or("null".into());
            let mut res = "null".to_string();
            let mut local = def.is_local();
            let mut virt = false;
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, def, args) {
                let rd = inst.def_id();
                res = js(&self.path(rd));
                local = rd.is_local();
                if let ty::InstanceKind::Virtual(..) = inst.def {
                    virt = true;
                }
            }
            (
                js(&decl),
                format!(",\"res\":{},\"local\":{},\"virt\":{},\"targs\":[{}],\"trait\":{}", res, local, virt, targs.join(","), tr),
            )
        } else {
            ("null".into(), format!(",\"op\":{},\"fty\":{}", self.operand(body, env, func), js(&format!("{}", fty))))
        }
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        if p.projection.is_empty() {
            return format!("[{}]", p.local.as_usize());
        }
        let mut s = format!("[{}", p.local.as_usize());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => s.push_str(",\"*\""),
                ProjectionElem::Field(f, _) => {
                    let (owner, name) = match pt.ty.kind() {
                        ty::Adt(adt, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            let v = adt.variant(vi);
                            let owner = if adt.is_enum() {
                                format!("{}::{}", tcx.def_path_str(adt.did()), v.name)
                            } else {
                                tcx.def_path_str(adt.did())
                            };
                            (owner, v.fields[f].name.to_string())
                        }
                        ty::Closure(..) => ("{closure}".to_string(), format!("{}", f.as_usize())),
                        _ => ("()".to_string(), format!("{}", f.as_usize())),
                    };
                    let _ = write!(s, ",[{},{}]", js(&owner), js(&name));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(s, ",[\"#\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(s, ",[\"##\",{}{}]", if from_end { "-" } else { "" }, offset);
                }
                ProjectionElem::Subslice { .. } => s.push_str(",[\"sub\"]"),
                ProjectionElem::Downcast(n, vi) => {
                    let _ = write!(s, ",[\"as\",{},{}]", js(&n.map(|n| n.to_string()).unwrap_or_default()), vi.as_usize());
                }
                _ => s.push_str(",[\"?\"]"),
            }
            pt = pt.projection_ty(tcx, e);
        }
        s.push(']');
        s
    }

    fn operand(&self, body: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"p\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"p\":{},\"m\":1}}", self.place(body, p)),
            Operand::Constant(c) => self.konst(env, &c.const_, c.span),
            _ => "{\"c\":\"rtcheck\"}".into(),
        }
    }

    fn konst(&self, env: TypingEnv<'tcx>, c: &Const<'tcx>, span: rustc_span::Span) -> String {
        let tcx = self.tcx;
        let ty = c.ty();
        let tys = js(&format!("{}", ty));
        let mut named = String::new();
        if let Const::Unevaluated(uv, _) = c {
            if let Some(p) = uv.promoted {
                return format!("{{\"c\":\"promoted\",\"of\":{},\"idx\":{},\"ty\":{}}}", js(&self.path(uv.def)), p.as_usize(), tys);
            }
            named = format!(",\"name\":{}", js(&self.path(uv.def)));
        }
        if let ty::FnDef(def, args) = ty.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            let mut res = js(&self.path(*def));
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, *def, args) {
                res = js(&self.path(inst.def_id()));
            }
            let targs: Vec<String> = args.iter().filter(|a| a.as_region().is_none()).map(|a| js(&format!("{}", a))).collect();
            return format!("{{\"c\":\"fn\",\"f\":{},\"res\":{},\"targs\":[{}]}}", js(&self.path(*def)), res, targs.join(","));
        }
        let v = match c.eval(tcx, env, span) {
            Ok(v) => v,
            Err(_) => return format!("{{\"c\":\"generic\"{},\"ty\":{}}}", named, tys),
        };
        match v {
            ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                let val: String = match ty.kind() {
                    ty::Int(_) => {
                        let sz = i.size();
                        format!("{}", sz.sign_extend(bits) as i128)
                    }
                    ty::Float(ty::FloatTy::F64) => {
                        let f = f64::from_bits(bits as u64);
                        return format!("{{\"c\":\"float\",\"v\":{}{},\"ty\":{}}}", js(&format!("{:?}", f)), named, tys);
                    }
                    ty::Float(ty::FloatTy::F32) => {
                        let f = f32::from_bits(bits as u32);
                        return format!("{{\"c\":\"float\",\"v\":{}{},\"ty\":{}}}", js(&format!("{:?}", f)), named, tys);
                    }
                    _ => format!("{}", bits),
                };
                let mut extra = String::new();
                if let ty::Adt(adt, _) = ty.kind() {
                    if adt.is_enum() {
                        for (vi, d) in adt.discriminants(tcx) {
                            if d.val == bits {
                                extra = format!(",\"variant\":{}", js(adt.variant(vi).name.as_str()));
                            }
                        }
                    }
                }
                format!("{{\"c\":\"int\",\"v\":\"{}\"{}{},\"ty\":{}}}", val, extra, named, tys)
            }
            ConstValue::ZeroSized => format!("{{\"c\":\"zst\"{},\"ty\":{}}}", named, tys),
            _ => {
                // &str and byte strings.
                let slice = match ty.kind() {
                    ty::Ref(_, inner, _) => {
                        inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8)
                    }
                    _ => false,
                };
                if let Some(bytes) = if slice { v.try_get_slice_bytes_for_diagnostics(tcx) } else { None } {
                    if let ty::Ref(_, inner, _) = ty.kind() {
                        if inner.is_str() {
                            return format!("{{\"c\":\"str\",\"v\":{}{}}}", js(&String::from_utf8_lossy(bytes)), named);
                        }
                    }
                    let hex: String = bytes.iter().map(|b| format!("{:02x}", b)).collect();
                    return format!("{{\"c\":\"bytes\",\"v\":\"{}\"{},\"ty\":{}}}", hex, named, tys);
                }
                if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(ptr, _)) = v {
                    let (prov, off) = ptr.into_raw_parts();
                    if let rustc_middle::mir::interpret::GlobalAlloc::Memory(m) = tcx.global_alloc(prov.alloc_id()) {
                        let a = m.inner();
                        let n = a.len();
                        let no_ptrs = a.provenance().ptrs().is_empty();
                        if n <= 65536 && no_ptrs {
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..n);
                            let hex: String = b.iter().map(|b| format!("{:02x}", b)).collect();
                            return format!("{{\"c\":\"bytes\",\"v\":\"{}\"{},\"ty\":{}}}", hex, named, tys);
                        }
                    }
                    if let rustc_middle::mir::interpret::GlobalAlloc::Static(s) = tcx.global_alloc(prov.alloc_id()) {
                        return format!("{{\"c\":\"static\",\"name\":{},\"ty\":{}}}", js(&self.path(s)), tys);
                    }
                }
                format!("{{\"c\":\"opaque\"{},\"ty\":{}}}", named, tys)
            }
        }
    }

    fn rvalue(&self, body: &Body<'tcx>, env: TypingEnv<'tcx>, rv: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match rv {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(body, env, o)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(body, env, o), js(&format!("{}", n))),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }) as u8, self.place(body, p)),
            Rvalue::RawPtr(k, p) => format!("[\"ref\",{},{}]", matches!(k, RawPtrKind::Mut) as u8, self.place(body, p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut() as u8, self.place(body, p)),
            Rvalue::Cast(_, o, t) => format!("[\"cast\",{},{}]", self.operand(body, env, o), js(&format!("{}", t))),
            Rvalue::BinaryOp(op, b) => {
                format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(body, env, &b.0), self.operand(body, env, &b.1))
            }
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(body, env, o)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                format!("[\"discr\",{},{}]", self.place(body, p), js(&format!("{}", t)))
            }
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|o| self.operand(body, env, o)).collect();
                let kind = match &**k {
                    AggregateKind::Array(_) => "\"array\"".to_string(),
                    AggregateKind::Tuple => "\"tuple\"".to_string(),
                    AggregateKind::Adt(did, vi, _, _, _) => {
                        let adt = tcx.adt_def(*did);
                        let v = adt.variant(*vi);
                        let fs: Vec<String> = v.fields.iter().map(|f| js(f.name.as_str())).collect();
                        format!("{{\"adt\":{},\"variant\":{},\"vi\":{},\"fields\":[{}]}}", js(&tcx.def_path_str(*did)), js(v.name.as_str()), vi.as_usize(), fs.join(","))
                    }
                    AggregateKind::Closure(did, _) => format!("{{\"closure\":{}}}", js(&self.path(*did))),
                    _ => "\"other\"".to_string(),
                };
                format!("[\"agg\",{},[{}]]", kind, o.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"p\":{}}}]", self.place(body, p)),
            Rvalue::ThreadLocalRef(_) => "[\"other\"]".into(),
            _ => "[\"other\"]".into(),
        }
    }
}
