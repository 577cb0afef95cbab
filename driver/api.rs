// The item-level view of a crate: signatures, visibility, unsafety, implementations, fields.
use crate::json::J;
use crate::{path, span_str, tystr};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt, TypingEnv};

fn has_unpin<'tcx>(tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>, t: Ty<'tcx>) -> bool {
    let t = tcx.erase_and_anonymize_regions(t);
    if t.has_escaping_bound_vars() {
        return true;
    }
    t.is_unpin(tcx, env)
}

fn varlen_trait(tcx: TyCtxt<'_>) -> Option<DefId> {
    tcx.all_traits_including_private().find(|d| path(tcx, *d) == "varlen::VarLen")
}

fn is_varlen<'tcx>(tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>, t: Ty<'tcx>) -> bool {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let t = tcx.erase_and_anonymize_regions(t);
    let Some(tr) = varlen_trait(tcx) else { return false };
    if t.has_escaping_bound_vars() || !t.is_sized(tcx, env) {
        return false;
    }
    let (icx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
    icx.type_implements_trait(tr, [t], penv).may_apply()
}

// Every `&mut X` reachable by walking the type, not below a Pin, together with "X is Unpin".
fn muts<'tcx>(tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>, t: Ty<'tcx>, out: &mut Vec<J>) {
    match *t.kind() {
        ty::Ref(_, x, m) => {
            if m.is_mut() {
                out.push(J::O(vec![
                    ("to".into(), J::S(tystr(x))),
                    ("unpin".into(), J::B(has_unpin(tcx, env, x))),
                    ("varlen".into(), J::B(is_varlen(tcx, env, x))),
                ]));
            }
            muts(tcx, env, x, out);
        }
        ty::Adt(def, args) => {
            if path(tcx, def.did()) == "core::pin::Pin" {
                if let Some(a) = args.types().next() {
                    if let ty::Ref(_, x, _) = *a.kind() {
                        muts(tcx, env, x, out);
                        return;
                    }
                }
            }
            for a in args.types() {
                muts(tcx, env, a, out);
            }
            // Fields of local structures that are visible from outside.
            if def.did().is_local() && def.is_struct() {
                for f in def.all_fields() {
                    if f.vis.is_public() {
                        let ft = f.ty(tcx, args).skip_norm_wip();
                        if !matches!(ft.kind(), ty::Adt(..)) {
                            muts(tcx, env, ft, out);
                        }
                    }
                }
            }
        }
        ty::Tuple(ts) => ts.iter().for_each(|x| muts(tcx, env, x, out)),
        ty::Slice(x) | ty::Array(x, _) => muts(tcx, env, x, out),
        ty::Alias(..) => {
            // An opaque or projected type: its item bounds name what it yields.
        }
        _ => {}
    }
}

fn func<'tcx>(tcx: TyCtxt<'tcx>, did: DefId) -> J {
    let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
    // Lifetimes by name, before they are erased.
    let raw = sig.skip_binder();
    let names = |t: Ty<'tcx>| -> Vec<String> {
        let mut v = vec![];
        for a in t.walk() {
            if let ty::GenericArgKind::Lifetime(r) = a.kind() {
                v.push(match r.kind() {
                    ty::ReEarlyParam(p) => format!("early {}", p.name),
                    ty::ReStatic => "static".to_string(),
                    ty::ReBound(_, b) => format!("bound {:?}", b.var),
                    _ => "other".to_string(),
                });
            }
        }
        v
    };
    let out_regions: Vec<J> = names(raw.output()).into_iter().map(J::S).collect();
    let in_regions: Vec<J> = raw.inputs().iter().map(|t| J::A(names(*t).into_iter().map(J::S).collect())).collect();
    let env = TypingEnv::post_analysis(tcx, did);
    let sig = tcx.instantiate_bound_regions_with_erased(sig);
    let sig = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(sig)).unwrap_or(sig);
    let mut out = vec![];
    muts(tcx, env, sig.output(), &mut out);
    let exported = did.as_local().map_or(true, |l| tcx.effective_visibilities(()).is_exported(l));
    let mut m = vec![
        ("path".to_string(), J::S(path(tcx, did))),
        ("safe".into(), J::B(sig.safety().is_safe())),
        ("const".into(), J::B(tcx.is_const_fn(did))),
        ("pub".into(), J::B(exported)),
        ("vis".into(), J::S(format!("{:?}", tcx.visibility(did)))),
        ("inputs".into(), J::A(sig.inputs().iter().map(|t| J::S(tystr(*t))).collect())),
        ("output".into(), J::S(tystr(sig.output()))),
        ("out_muts".into(), J::A(out)),
        ("in_regions".into(), J::A(in_regions)),
        ("out_regions".into(), J::A(out_regions)),
        ("span".into(), J::S(span_str(tcx, tcx.def_span(did)))),
    ];
    if let Some(i) = tcx.impl_of_assoc(did) {
        if let Some(tr) = tcx.impl_opt_trait_ref(i) {
            m.push(("trait".into(), J::S(path(tcx, tr.skip_binder().def_id))));
        }
        m.push(("self".into(), J::S(tystr(tcx.type_of(i).instantiate_identity().skip_norm_wip()))));
    }
    if let Some(t) = tcx.trait_of_assoc(did) {
        m.push(("in_trait".into(), J::S(path(tcx, t))));
    }
    J::O(m)
}

pub fn dump(tcx: TyCtxt<'_>) -> J {
    let crates = tcx.crates(()).iter().map(|c| J::S(tcx.crate_name(*c).to_string())).collect();
    let mut fns = vec![];
    let mut adts = vec![];
    let mut traits = vec![];
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn => fns.push(func(tcx, did)),
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let def = tcx.adt_def(did);
                let fs = def.all_fields().map(|f| J::O(vec![
                    ("name".into(), J::S(f.name.to_string())),
                    ("pub".into(), J::B(f.vis.is_public())),
                    ("vis".into(), J::S(format!("{:?}", f.vis))),
                    ("ty".into(), J::S(tystr(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))),
                ])).collect();
                adts.push(J::O(vec![
                    ("path".into(), J::S(path(tcx, did))),
                    ("pub".into(), J::B(tcx.effective_visibilities(()).is_exported(id))),
                    ("fields".into(), J::A(fs)),
                ]));
            }
            DefKind::Trait => {
                let td = tcx.trait_def(did);
                traits.push(J::O(vec![
                    ("path".into(), J::S(path(tcx, did))),
                    ("safe".into(), J::B(td.safety.is_safe())),
                    ("pub".into(), J::B(tcx.effective_visibilities(()).is_exported(id))),
                ]));
            }
            DefKind::Impl { of_trait: true } => {
                let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                let preds = tcx.clauses_of(did).clauses.iter().map(|(p, _)| {
                    J::S(rustc_middle::ty::print::with_no_trimmed_paths!(format!("{p}")))
                }).collect();
                impls.push(J::O(vec![
                    ("trait".into(), J::S(path(tcx, tr.def_id))),
                    ("self".into(), J::S(tystr(tr.self_ty()))),
                    ("args".into(), J::A(tr.args.types().skip(1).map(|t| J::S(tystr(t))).collect())),
                    ("negative".into(), J::B(tcx.impl_polarity(did) == ty::ImplPolarity::Negative)),
                    ("unsafe".into(), J::B(!tcx.impl_trait_header(did).safety.is_safe())),
                    ("preds".into(), J::A(preds)),
                    ("span".into(), J::S(span_str(tcx, tcx.def_span(did)))),
                ]));
            }
            _ => {}
        }
    }
    J::O(vec![
        ("crates".into(), J::A(crates)),
        ("fns".into(), J::A(fns)),
        ("adts".into(), J::A(adts)),
        ("traits".into(), J::A(traits)),
        ("impls".into(), J::A(impls)),
    ])
}
