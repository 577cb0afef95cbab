// rustc driver that dumps the type-checked program for the analysis engine.
//
// Used as RUSTC_WRAPPER: `vdriver <rustc> <args...>`. For crates named in VSA_DUMP (comma
// separated) it writes $VSA_OUT/<crate>.json after analysis; every crate is compiled normally.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;
extern crate rustc_infer;

mod json;
use json::J;

use rustc_abi::{FieldsShape, Variants};
use rustc_hir::def::{CtorKind, DefKind};
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

struct Dump;

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER passes the real rustc as first argument.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let wanted = std::env::var("VSA_DUMP").unwrap_or_default();
    let dump = wanted.split(',').any(|w| w == name) && !args.iter().any(|a| a == "--print");
    let is_proc_macro = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "proc-macro");
    if !is_proc_macro && name != "build_script_build" && args.iter().any(|a| a == "--crate-name") {
        args.push("-Zalways-encode-mir".into());
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zspan-free-formats".into());
        args.push("-Zub-checks=no".into());
        args.push("-Coverflow-checks=off".into());
        args.push(format!("-Cdebug-assertions={}", std::env::var("VSA_DEBUG_ASSERTIONS").unwrap_or("off".into())));
        args.push("--cap-lints=allow".into());
    }
    struct Nop;
    impl rustc_driver::Callbacks for Nop {}
    if dump {
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Dump))
    } else {
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Nop))
    }
}

impl rustc_driver::Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        if tcx.dcx().has_errors().is_some() {
            return rustc_driver::Compilation::Continue;
        }
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let j = dump_crate(tcx);
        let out = std::env::var("VSA_OUT").expect("VSA_OUT");
        let mut s = String::new();
        j.write(&mut s);
        let p = format!("{out}/{name}.json");
        let tmp = format!("{p}.tmp");
        std::fs::write(&tmp, s).expect("write dump");
        std::fs::rename(&tmp, &p).expect("rename dump");
        rustc_driver::Compilation::Continue
    }
}

fn path(tcx: TyCtxt<'_>, did: DefId) -> String {
    let kr = tcx.crate_name(did.krate).to_string();
    rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!({
        let s = tcx.def_path_str(did);
        if did.is_local() { format!("{kr}::{s}") } else { s }
    }))
}

fn tystr<'tcx>(t: Ty<'tcx>) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(format!("{t}")))
}

fn span_str(tcx: TyCtxt<'_>, sp: rustc_span::Span) -> String {
    let sp = sp.source_callsite();
    let sm = tcx.sess.source_map();
    let lo = sm.lookup_char_pos(sp.lo());
    format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
}

struct Scope<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: BTreeMap<String, Option<J>>,
    tyqueue: VecDeque<Ty<'tcx>>,
    insts: BTreeMap<String, J>,
    queue: VecDeque<(Instance<'tcx>, Option<Promoted>)>,
    seen: HashSet<(Instance<'tcx>, Option<Promoted>)>,
}

const STOP: &[&str] = &[
    "core::fmt", "alloc::fmt", "std::", "core::panicking", "alloc::string", "alloc::vec", "alloc::raw_vec",
    "core::str", "alloc::str", "bumpalo", "alloc::alloc", "core::unicode", "core::slice::sort",
    "core::num::fmt", "core::hash", "alloc::collections", "core::char", "core::num::dec2flt", "core::time",
];

// Exceptions: text handling that the library might come to use on its way from a source to the object.
const GO: &[&str] = &["core::str::<impl str>", "core::str::pattern", "core::str::iter", "core::str::traits", "core::str::validations", "core::char::methods", "core::char::<impl char>"];

fn stop_dump(p: &str) -> bool {
    let q = p.trim_start_matches('<');
    if GO.iter().any(|s| q.starts_with(s)) {
        return false;
    }
    STOP.iter().any(|s| q.starts_with(s))
}

impl<'tcx> Scope<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        let s = tystr(t);
        if !self.types.contains_key(&s) {
            self.types.insert(s.clone(), None);
            self.tyqueue.push_back(t);
        }
        J::S(s)
    }

    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        match self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t)) {
            Ok(t) => t,
            Err(_) => t,
        }
    }

    fn layout(&self, t: Ty<'tcx>) -> J {
        if t.has_escaping_bound_vars() {
            return J::Null;
        }
        match self.tcx.layout_of(self.env.as_query_input(t)) {
            Ok(l) => {
                let mut m = vec![
                    ("size".to_string(), J::I(l.size.bytes() as i128)),
                    ("align".to_string(), J::I(l.align.abi.bytes() as i128)),
                ];
                if let (FieldsShape::Arbitrary { offsets, .. }, Variants::Single { .. }) = (&l.fields, &l.variants) {
                    m.push(("offsets".into(), J::A(offsets.iter().map(|o| J::I(o.bytes() as i128)).collect())));
                }
                J::O(m)
            }
            Err(_) => J::Null,
        }
    }

    fn describe(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let mut m: Vec<(String, J)> = vec![];
        macro_rules! put { ($k:expr, $v:expr) => { let v = $v; m.push(($k.to_string(), v)); }; }
        let base = match *t.kind() { ty::Pat(b, _) => b, _ => t };
        match *base.kind() {
            ty::Bool => { put!("k", J::s("bool")); }
            ty::Char => { put!("k", J::s("char")); }
            ty::Int(i) => { put!("k", J::s("int")); put!("bits", J::I(i.bit_width().unwrap_or(64) as i128)); put!("signed", J::B(true)); }
            ty::Uint(i) => { put!("k", J::s("int")); put!("bits", J::I(i.bit_width().unwrap_or(64) as i128)); put!("signed", J::B(false)); }
            ty::Float(_) => { put!("k", J::s("float")); }
            ty::Str => { put!("k", J::s("str")); }
            ty::Never => { put!("k", J::s("never")); }
            ty::Adt(def, args) => {
                put!("k", J::s("adt"));
                put!("path", J::S(path(tcx, def.did())));
                put!("kind", J::s(if def.is_struct() { "struct" } else if def.is_enum() { "enum" } else { "union" }));
                put!("transparent", J::B(def.repr().transparent()));
                put!("args", J::A(args.iter().filter_map(|a| a.as_type()).map(|a| self.ty(a)).collect()));
                let mut cargs = vec![];
                for a in args.iter() {
                    if let Some(c) = a.as_const() { cargs.push(self.tyconst(c)); }
                }
                put!("cargs", J::A(cargs));
                let mut vs = vec![];
                // Do not expand enormous std types.
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = self.norm(f.ty(tcx, args).skip_norm_wip());
                        let j = self.ty(ft);
                        fs.push(J::A(vec![J::S(f.name.to_string()), j]));
                    }
                    let d = if def.is_enum() { J::I(def.discriminant_for_variant(tcx, vi).val as i128) } else { J::Null };
                    vs.push(J::O(vec![("name".into(), J::S(v.name.to_string())), ("fields".into(), J::A(fs)), ("discr".into(), d)]));
                }
                put!("variants", J::A(vs));
                put!("manually_drop", J::B(def.is_manually_drop()));
                put!("phantom", J::B(def.is_phantom_data()));
                if let Some(d) = def.destructor(tcx) {
                    put!("has_drop", J::B(true));
                    let tr = tcx.require_lang_item(rustc_attr_ir::LangItem::Drop, rustc_span::DUMMY_SP);
                    let drop_fn = tcx.associated_item_def_ids(tr)[0];
                    let _ = d;
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, drop_fn, tcx.mk_args(&[t.into()])) {
                        let p = path(tcx, i.def_id());
                        if !stop_dump(&p) && !p.contains("alloc::") {
                            let k = self.enqueue(i, None);
                            put!("drop_impl", k);
                        }
                    }
                }
            }
            ty::Ref(_, to, mt) => { put!("k", J::s("ref")); put!("mut", J::B(mt.is_mut())); put!("to", self.ty(to)); }
            ty::RawPtr(to, mt) => { put!("k", J::s("ptr")); put!("mut", J::B(mt.is_mut())); put!("to", self.ty(to)); }
            ty::Slice(e) => { put!("k", J::s("slice")); put!("elem", self.ty(e)); }
            ty::Array(e, n) => { put!("k", J::s("array")); put!("elem", self.ty(e)); put!("len", self.tyconst(n)); }
            ty::Tuple(ts) => { put!("k", J::s("tuple")); put!("elems", J::A(ts.iter().map(|a| self.ty(a)).collect())); }
            ty::FnDef(did, args) => {
                put!("k", J::s("fndef"));
                let args = args.no_bound_vars().unwrap_or_else(|| self.tcx.mk_args(&[]));
                put!("call", self.callee(did, args));
            }
            ty::Closure(did, args) => {
                put!("k", J::s("closure"));
                put!("path", J::S(path(tcx, did)));
                let c = args.as_closure();
                put!("upvars", J::A(c.upvar_tys().iter().map(|a| self.ty(a)).collect()));
                let inst = Instance::new_raw(did, args);
                put!("body", self.enqueue(inst, None));
            }
            ty::FnPtr(..) => { put!("k", J::s("fnptr")); }
            ty::Param(p) => { put!("k", J::s("param")); put!("name", J::S(p.name.to_string())); }
            ty::Alias(..) => { put!("k", J::s("alias")); }
            ty::Dynamic(..) => { put!("k", J::s("dyn")); }
            _ => { put!("k", J::s("other")); }
        }
        let sized = !t.has_escaping_bound_vars() && t.is_sized(tcx, self.env);
        put!("sized", J::B(sized));
        put!("layout", if sized { self.layout(t) } else { J::Null });
        put!("needs_drop", J::B(t.needs_drop(tcx, self.env)));
        J::O(m)
    }

    fn tyconst(&mut self, c: ty::Const<'tcx>) -> J {
        if let Some(v) = c.try_to_target_usize(self.tcx) {
            return J::I(v as i128);
        }
        J::S(format!("{c}"))
    }

    fn drain(&mut self) {
        loop {
            if let Some(t) = self.tyqueue.pop_front() {
                let s = tystr(t);
                let d = self.describe(t);
                self.types.insert(s, Some(d));
                continue;
            }
            if let Some((i, p)) = self.queue.pop_front() {
                let k = inst_key(self.tcx, i, p);
                let b = self.body(i, p);
                self.insts.insert(k, b);
                continue;
            }
            break;
        }
    }

    fn enqueue(&mut self, i: Instance<'tcx>, p: Option<Promoted>) -> J {
        let k = inst_key(self.tcx, i, p);
        if self.seen.insert((i, p)) {
            self.queue.push_back((i, p));
        }
        J::S(k)
    }

    fn has_body(&self, i: Instance<'tcx>) -> bool {
        match i.def {
            InstanceKind::Item(d) => {
                let tcx = self.tcx;
                match tcx.def_kind(d) {
                    DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..) => tcx.is_mir_available(d),
                    DefKind::Const{..} | DefKind::AssocConst{..} | DefKind::AnonConst => true,
                    _ => false,
                }
            }
            InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => true,
            InstanceKind::Shim(ty::ShimKind::Clone(..)) => true,
            InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => true,
            _ => false,
        }
    }

    // Description of a call to (did, args): resolved instance if possible.
    fn callee(&mut self, did: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let p = path(tcx, did);
        let mut m: Vec<(String, J)> = vec![("path".into(), J::S(p.clone()))];
        let targs: Vec<J> = args.iter().filter_map(|a| a.as_type()).map(|a| self.ty(a)).collect();
        m.push(("targs".into(), J::A(targs)));
        let cargs: Vec<J> = args.iter().filter_map(|a| a.as_const()).map(|a| self.tyconst(a)).collect();
        m.push(("cargs".into(), J::A(cargs)));
        if tcx.trait_of_assoc(did).is_some() {
            m.push(("trait".into(), J::B(true)));
        }
        if let DefKind::Ctor(_, CtorKind::Fn) = tcx.def_kind(did) {
            m.push(("ctor".into(), J::B(true)));
        }
        match Instance::try_resolve(tcx, self.env, did, args) {
            Ok(Some(i)) => {
                let rp = path(tcx, i.def_id());
                m.push(("rpath".into(), J::S(rp.clone())));
                m.push(("rkind".into(), J::S(kind_str(i.def))));
                let rt: Vec<J> = i.args.iter().filter_map(|a| a.as_type()).map(|a| self.ty(a)).collect();
                m.push(("rtargs".into(), J::A(rt)));
                if !stop_dump(&rp) && self.has_body(i) {
                    let k = self.enqueue(i, None);
                    m.push(("inst".into(), k));
                }
            }
            _ => {
                m.push(("opaque".into(), J::B(true)));
            }
        }
        J::O(m)
    }

    fn body(&mut self, inst: Instance<'tcx>, promoted: Option<Promoted>) -> J {
        let tcx = self.tcx;
        let body: &Body<'tcx> = match (inst.def, promoted) {
            (InstanceKind::Item(d), Some(p)) => &tcx.promoted_mir(d)[p],
            (InstanceKind::Item(d), None) => match tcx.def_kind(d) {
                DefKind::Const{..} | DefKind::AssocConst{..} | DefKind::AnonConst => tcx.mir_for_ctfe(d),
                _ => tcx.instance_mir(inst.def),
            },
            _ => tcx.instance_mir(inst.def),
        };
        let body: Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, body.clone())) {
            Ok(b) => b,
            Err(_) => return J::O(vec![("error".into(), J::s("normalize"))]),
        };
        let mut m: Vec<(String, J)> = vec![];
        m.push(("path".into(), J::S(path(tcx, inst.def_id()))));
        m.push(("span".into(), J::S(span_str(tcx, body.span))));
        m.push(("args".into(), J::I(body.arg_count as i128)));
        m.push(("spread".into(), body.spread_arg.map_or(J::Null, |l| J::I(l.as_u32() as i128))));
        let mut ls = vec![];
        for l in body.local_decls.iter() { let j = self.ty(l.ty); ls.push(j); }
        m.push(("locals".into(), J::A(ls)));
        let mut bs = vec![];
        for bb in body.basic_blocks.iter() {
            let mut ss = vec![];
            for s in &bb.statements {
                if let Some(j) = self.stmt(s, &body) { ss.push(j); }
            }
            let t = self.term(bb.terminator(), &body, inst);
            bs.push(J::O(vec![("s".into(), J::A(ss)), ("t".into(), t), ("c".into(), J::B(bb.is_cleanup))]));
        }
        m.push(("blocks".into(), J::A(bs)));
        J::O(m)
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut ps = vec![];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let before = pt;
            pt = pt.projection_ty(tcx, e);
            let tyj = |s: &mut Self, t: Ty<'tcx>| { let t = s.norm(t); s.ty(t) };
            let j = match e {
                ProjectionElem::Deref => { let t = tyj(self, pt.ty); J::A(vec![J::s("*"), t]) }
                ProjectionElem::Field(f, t) => { let t = tyj(self, t); let b = tyj(self, before.ty); J::A(vec![J::s("f"), J::I(f.as_u32() as i128), t, b]) }
                ProjectionElem::Index(l) => { let t = tyj(self, pt.ty); J::A(vec![J::s("i"), J::I(l.as_u32() as i128), t]) }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => { let t = tyj(self, pt.ty); J::A(vec![J::s("c"), J::I(offset as i128), J::B(from_end), t]) }
                ProjectionElem::Subslice { from, to, from_end } => { let t = tyj(self, pt.ty); J::A(vec![J::s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end), t]) }
                ProjectionElem::PhantomDeref => J::A(vec![J::s("?")]),
                ProjectionElem::Downcast(_, v) => J::A(vec![J::s("d"), J::I(v.as_u32() as i128)]),
                ProjectionElem::OpaqueCast(t) | ProjectionElem::UnwrapUnsafeBinder(t) => { let t = tyj(self, t); J::A(vec![J::s("o"), t]) }
            };
            ps.push(j);
        }
        let t = self.norm(pt.ty);
        let tj = self.ty(t);
        J::A(vec![J::I(p.local.as_u32() as i128), J::A(ps), tj])
    }

    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![J::s("cp"), self.place(p, body)]),
            Operand::Move(p) => J::A(vec![J::s("mv"), self.place(p, body)]),
            Operand::Constant(c) => J::A(vec![J::s("k"), self.konst(&c.const_)]),
            Operand::RuntimeChecks(r) => J::A(vec![J::s("rt"), J::S(format!("{r:?}"))]),
        }
    }

    fn konst(&mut self, c: &mir::Const<'tcx>) -> J {
        let tcx = self.tcx;
        let t = self.norm(c.ty());
        let tj = self.ty(t);
        let mut m: Vec<(String, J)> = vec![("ty".into(), tj)];
        if let ty::FnDef(..) = t.kind() {
            m.push(("k".into(), J::s("fn")));
            return J::O(m);
        }
        if let mir::Const::Ty(_, ct) = c {
            if let Some(v) = ct.try_to_target_usize(tcx) {
                m.push(("k".into(), J::s("int")));
                m.push(("v".into(), J::I(v as i128)));
                return J::O(m);
            }
            if let ty::ConstKind::Param(p) = ct.kind() {
                m.push(("k".into(), J::s("cparam")));
                m.push(("v".into(), J::S(p.name.to_string())));
                return J::O(m);
            }
        }
        let scalar_like = matches!(t.kind(), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_));
        let has_params = match c { mir::Const::Unevaluated(u, _) => u.args.has_param(), mir::Const::Ty(_, c) => c.has_param(), _ => false };
        let try_eval = !has_params || scalar_like;
        let is_unev_body = matches!(c, mir::Const::Unevaluated(..)) && !scalar_like && {
            // Prefer interpreting bodies for anything that is not a scalar or a zero-sized value.
            match self.tcx.layout_of(self.env.as_query_input(t)) { Ok(l) => !l.is_zst(), Err(_) => true }
        };
        if try_eval && !is_unev_body && !(has_params) {
            if let Ok(v) = c.eval(tcx, self.env, rustc_span::DUMMY_SP) {
                return self.constval(v, t, m);
            }
        }
        match c {
            mir::Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    let i = Instance::new_raw(u.def, u.args);
                    let k = self.enqueue(i, Some(p));
                    m.push(("k".into(), J::s("body")));
                    m.push(("inst".into(), k));
                    return J::O(m);
                }
                m.push(("path".into(), J::S(path(tcx, u.def))));
                let ta: Vec<J> = u.args.iter().filter_map(|a| a.as_type()).map(|a| self.ty(a)).collect();
                m.push(("targs".into(), J::A(ta)));
                match Instance::try_resolve(tcx, self.env, u.def, u.args) {
                    Ok(Some(i)) if self.has_body(i) => {
                        let k = self.enqueue(i, None);
                        m.push(("k".into(), J::s("body")));
                        m.push(("inst".into(), k));
                    }
                    _ => m.push(("k".into(), J::s("assoc"))),
                }
                J::O(m)
            }
            mir::Const::Val(v, _) => self.constval(*v, t, m),
            mir::Const::Ty(_, c) => {
                m.push(("k".into(), J::s("tyconst")));
                m.push(("v".into(), J::S(format!("{c}"))));
                J::O(m)
            }
        }
    }

    fn constval(&mut self, v: mir::ConstValue, t: Ty<'tcx>, mut m: Vec<(String, J)>) -> J {
        let tcx = self.tcx;
        match v {
            mir::ConstValue::ZeroSized => { m.push(("k".into(), J::s("zst"))); }
            mir::ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                m.push(("k".into(), J::s("int")));
                let bits = i.to_bits(i.size());
                let val = match t.kind() {
                    ty::Int(_) => i.size().sign_extend(bits),
                    _ => bits as i128,
                };
                m.push(("v".into(), J::I(val)));
            }
            mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(..)) => { m.push(("k".into(), J::s("ptr"))); }
            mir::ConstValue::Slice { .. } => {
                m.push(("k".into(), J::s("str")));
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    m.push(("v".into(), J::S(String::from_utf8_lossy(b).into_owned())));
                    m.push(("len".into(), J::I(b.len() as i128)));
                }
            }
            mir::ConstValue::Indirect { .. } => {
                m.push(("k".into(), J::s("indirect")));
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    m.push(("variant".into(), d.variant.map_or(J::Null, |v| J::I(v.as_u32() as i128))));
                    let mut fs = vec![];
                    for (fv, ft) in d.fields.iter() {
                        let tj = self.ty(*ft);
                        let j = self.constval(*fv, *ft, vec![("ty".into(), tj)]);
                        fs.push(j);
                    }
                    m.push(("fields".into(), J::A(fs)));
                }
            }
        }
        J::O(m)
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![J::s("use"), self.operand(o, body)]),
            Rvalue::Repeat(o, n) => { let o = self.operand(o, body); let n = self.tyconst(*n); J::A(vec![J::s("repeat"), o, n]) }
            Rvalue::Ref(_, bk, p) => J::A(vec![J::s("ref"), J::S(format!("{bk:?}")), self.place(p, body)]),
            Rvalue::RawPtr(k, p) => J::A(vec![J::s("ref"), J::S(format!("{k:?}")), self.place(p, body)]),
            Rvalue::ThreadLocalRef(_) => J::A(vec![J::s("other")]),
            Rvalue::Cast(k, o, t) => { let o = self.operand(o, body); let t = self.ty(*t); J::A(vec![J::s("cast"), J::S(format!("{k:?}")), o, t]) }
            Rvalue::BinaryOp(op, b) => { let x = self.operand(&b.0, body); let y = self.operand(&b.1, body); J::A(vec![J::s("bin"), J::S(format!("{op:?}")), x, y]) }
            Rvalue::UnaryOp(op, o) => J::A(vec![J::s("un"), J::S(format!("{op:?}")), self.operand(o, body)]),
            Rvalue::Discriminant(p) => J::A(vec![J::s("discr"), self.place(p, body)]),
            Rvalue::CopyForDeref(p) => J::A(vec![J::s("use"), J::A(vec![J::s("cp"), self.place(p, body)])]),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.operand(o, body)).collect();
                let kj = match &**k {
                    AggregateKind::Array(t) => J::A(vec![J::s("array"), self.ty(*t)]),
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, v, _, _, f) => J::A(vec![J::s("adt"), J::S(path(self.tcx, *d)), J::I(v.as_u32() as i128), f.map_or(J::Null, |f| J::I(f.as_u32() as i128))]),
                    AggregateKind::Closure(d, _) => J::A(vec![J::s("closure"), J::S(path(self.tcx, *d))]),
                    AggregateKind::RawPtr(t, _) => J::A(vec![J::s("rawptr"), self.ty(*t)]),
                    _ => J::A(vec![J::s("other")]),
                };
                J::A(vec![J::s("agg"), kj, J::A(ops)])
            }
            Rvalue::Reborrow(..) => J::A(vec![J::s("other")]),
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![J::s("use"), self.operand(o, body)]),
        }
    }

    fn stmt(&mut self, s: &Statement<'tcx>, body: &Body<'tcx>) -> Option<J> {
        Some(match &s.kind {
            StatementKind::Assign(b) => {
                let p = self.place(&b.0, body);
                let r = self.rvalue(&b.1, body);
                J::A(vec![J::s("="), p, r])
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                J::A(vec![J::s("sd"), self.place(place, body), J::I(variant_index.as_u32() as i128)])
            }
            StatementKind::StorageDead(l) => J::A(vec![J::s("dead"), J::I(l.as_u32() as i128)]),
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(o) => J::A(vec![J::s("assume"), self.operand(o, body)]),
                NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                    let a = self.operand(&c.src, body);
                    let b = self.operand(&c.dst, body);
                    let n = self.operand(&c.count, body);
                    let t = c.src.ty(&body.local_decls, self.tcx);
                    let tj = self.ty(t);
                    J::A(vec![J::s("cno"), a, b, n, tj])
                }
            },
            _ => return None,
        })
    }

    fn term(&mut self, t: &Terminator<'tcx>, body: &Body<'tcx>, _inst: Instance<'tcx>) -> J {
        let bb = |b: BasicBlock| J::I(b.as_u32() as i128);
        let uw = |u: &UnwindAction| match u {
            UnwindAction::Continue => J::s("continue"),
            UnwindAction::Unreachable => J::s("unreachable"),
            UnwindAction::Terminate(_) => J::s("terminate"),
            UnwindAction::Cleanup(b) => J::I(b.as_u32() as i128),
        };
        let sp = J::S(span_str(self.tcx, t.source_info.span));
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::A(vec![J::s("goto"), bb(*target)]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let o = self.operand(discr, body);
                let dt = discr.ty(&body.local_decls, self.tcx);
                let dtj = self.ty(dt);
                let ts: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![J::I(v as i128), bb(b)])).collect();
                J::A(vec![J::s("switch"), o, J::A(ts), bb(targets.otherwise()), dtj])
            }
            TerminatorKind::UnwindResume => J::A(vec![J::s("resume")]),
            TerminatorKind::UnwindTerminate(_) => J::A(vec![J::s("abort")]),
            TerminatorKind::Return => J::A(vec![J::s("return")]),
            TerminatorKind::Unreachable => J::A(vec![J::s("unreachable")]),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let p = self.place(place, body);
                J::A(vec![J::s("drop"), p, bb(*target), uw(unwind), sp])
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let fty = func.ty(&body.local_decls, self.tcx);
                let f = match *self.norm(fty).kind() {
                    ty::FnDef(d, a) => { let a = a.no_bound_vars().unwrap_or_else(|| self.tcx.mk_args(&[])); self.callee(d, a) }
                    _ => J::O(vec![("indirect".into(), self.operand(func, body))]),
                };
                let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, body)).collect();
                let d = self.place(destination, body);
                J::A(vec![J::s("call"), f, J::A(a), d, target.map_or(J::Null, bb), uw(unwind), sp])
            }
            TerminatorKind::TailCall { .. } => J::A(vec![J::s("unsupported"), J::s("tailcall")]),
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let c = self.operand(cond, body);
                J::A(vec![J::s("assert"), c, J::B(*expected), bb(*target), uw(unwind), J::S(format!("{:?}", std::mem::discriminant(&**msg))), sp])
            }
            TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![J::s("goto"), bb(*real_target)]),
            TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![J::s("goto"), bb(*real_target)]),
            k => J::A(vec![J::s("unsupported"), J::S(format!("{k:?}"))]),
        }
    }
}

fn kind_str(k: InstanceKind<'_>) -> String {
    match k {
        InstanceKind::Item(_) => "item".into(),
        InstanceKind::Intrinsic(_) => "intrinsic".into(),
        InstanceKind::Virtual(..) => "virtual".into(),
        InstanceKind::LlvmIntrinsic(..) => "llvm".into(),
        InstanceKind::Shim(s) => {
            let d = format!("shim:{s:?}");
            d.split('(').next().unwrap().split(' ').next().unwrap().to_string()
        }
    }
}

fn inst_key<'tcx>(tcx: TyCtxt<'tcx>, i: Instance<'tcx>, p: Option<Promoted>) -> String {
    let args: Vec<String> = i.args.iter().filter(|a| a.as_region().is_none()).map(|a| {
        rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(format!("{a}")))
    }).collect();
    let mut k = format!("{}<{}>", path(tcx, i.def_id()), args.join(", "));
    match i.def {
        InstanceKind::Item(_) => {}
        InstanceKind::Shim(s) => k = format!("{k}#{s:?}"),
        other => k = format!("{k}#{}", kind_str(other)),
    }
    if let Some(p) = p {
        k = format!("{k}#promoted{}", p.as_u32());
    }
    k
}

fn dump_crate(tcx: TyCtxt<'_>) -> J {
    let mut roots: Vec<(String, J)> = vec![];
    let mut scopes: Vec<(String, J)> = vec![];
    let mut by_env: HashMap<String, usize> = HashMap::new();
    let mut open: Vec<Scope> = vec![];
    for ld in tcx.mir_keys(()) {
        let did = ld.to_def_id();
        if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) { continue; }
        let nm = tcx.item_name(did).to_string();
        if !nm.starts_with("h_") { continue; }
        let env = TypingEnv::post_analysis(tcx, did);
        let ek = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{:?}", env.param_env.caller_bounds().map(|c| format!("{c}")).collect::<Vec<_>>()));
        let si = *by_env.entry(ek).or_insert_with(|| {
            open.push(Scope { tcx, env, types: Default::default(), tyqueue: Default::default(), insts: Default::default(), queue: Default::default(), seen: Default::default() });
            open.len() - 1
        });
        let s = &mut open[si];
        let args = ty::GenericArgs::identity_for_item(tcx, did);
        let inst = Instance::new_raw(did, tcx.erase_and_anonymize_regions(args));
        let k = s.enqueue(inst, None);
        s.drain();
        roots.push((path(tcx, did), J::O(vec![
            ("scope".into(), J::I(si as i128)),
            ("inst".into(), k),
            ("span".into(), J::S(span_str(tcx, tcx.def_span(did)))),
        ])));
    }
    for (i, s) in open.into_iter().enumerate() {
        let types = s.types.into_iter().map(|(k, v)| (k, v.unwrap_or(J::Null))).collect();
        let insts = s.insts.into_iter().collect();
        scopes.push((i.to_string(), J::O(vec![("types".into(), J::O(types)), ("insts".into(), J::O(insts))])));
    }
    J::O(vec![
        ("crate".into(), J::S(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("roots".into(), J::O(roots)),
        ("scopes".into(), J::O(scopes)),
        ("api".into(), api::dump(tcx)),
    ])
}

mod api;
