//! API facts of the analysed crate itself: what its public signatures let a caller do with stored items.
use crate::json::J;
use rustc_hir::def::DefKind;
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};

/// `&mut X` / `*mut X` inside `t` where X mentions a type parameter and is not a map or iterator of the crate
fn mut_leaks<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Vec<String> {
    let mut out = vec![];
    for a in t.walk() {
        let Some(x) = a.as_type() else { continue };
        let inner = match x.kind() {
            ty::Ref(_, y, m) if m.is_mut() => *y,
            ty::RawPtr(y, m) if m.is_mut() => *y,
            _ => continue,
        };
        if let ty::Adt(d, _) = inner.kind() {
            // a map or iterator of this crate can only be used through its own interface
            if d.did().is_local() && d.is_struct() {
                continue;
            }
        }
        if inner.has_param() || inner.has_aliases() {
            out.push(format!("{x}"));
        }
    }
    let _ = tcx;
    out
}

/// lifetimes of `t` that are not among the lifetimes of `from`: what `t` borrows from nowhere
fn loose_regions<'tcx>(t: Ty<'tcx>, from: &[Ty<'tcx>]) -> Vec<String> {
    let mut own = vec![];
    for f in from {
        for a in f.walk() {
            if let Some(r) = a.as_region() {
                own.push(r);
            }
        }
    }
    let mut out = vec![];
    let mut w = t.walk();
    while let Some(a) = w.next() {
        if let Some(x) = a.as_type() {
            if let ty::Alias(..) = x.kind() {
                w.skip_current_subtree();
            }
        }
        if let Some(r) = a.as_region() {
            if !own.contains(&r) {
                out.push(format!("{r:?}"));
            }
        }
    }
    out
}

/// raw table parts in an interface type
fn raw_leaks<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Vec<String> {
    let mut out = vec![];
    for a in t.walk() {
        if let Some(x) = a.as_type() {
            match x.kind() {
                ty::Adt(d, _) => {
                    let p = tcx.def_path_str(d.did());
                    if p.contains("hashbrown::raw") || p.contains("NonNull") {
                        out.push(format!("{x}"));
                    }
                }
                ty::RawPtr(..) => out.push(format!("{x}")),
                _ => {}
            }
        }
    }
    out
}

pub fn dump_api(tcx: TyCtxt<'_>) -> J {
    let mut fns = vec![];
    let mut types = vec![];
    let mut impls = vec![];
    let vis = tcx.effective_visibilities(());
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn => {
                let parent = tcx.parent(did);
                let trait_impl = matches!(tcx.def_kind(parent), DefKind::Impl { of_trait: true });
                if !trait_impl && !vis.is_reachable(id) {
                    continue;
                }
                if trait_impl {
                    let tr = tcx.impl_trait_ref(parent);
                    let st = tr.instantiate_identity().skip_norm_wip().self_ty();
                    // `fn clone(&self)`, `fn next(&mut self)` ... of private types do not matter
                    if let ty::Adt(d, _) = st.peel_refs().kind() {
                        if let Some(l) = d.did().as_local() {
                            if !vis.is_reachable(l) {
                                continue;
                            }
                        }
                    }
                }
                let sig = tcx.liberate_late_bound_regions(did, tcx.fn_sig(did).instantiate_identity().skip_norm_wip());
                let mut leaks = vec![];
                leaks.extend(mut_leaks(tcx, sig.output()));
                leaks.extend(raw_leaks(tcx, sig.output()));
                // a method's result borrows from its receiver; a function's from its arguments
                let method = tcx.opt_associated_item(did).map_or(false, |i| i.is_method());
                let from: Vec<Ty<'_>> = if method { vec![sig.inputs()[0]] } else { sig.inputs().to_vec() };
                let loose = loose_regions(sig.output(), &from);
                // what the caller's closures are handed
                let mut preds = vec![];
                for p in tcx.param_env(did).caller_bounds() {
                    let s = format!("{p}");
                    if let ty::ClauseKind::Trait(tp) = p.kind().skip_binder() {
                        for a in tp.trait_ref.args.iter().skip(1) {
                            if let Some(t) = a.as_type() {
                                leaks.extend(mut_leaks(tcx, t));
                            }
                        }
                    }
                    if let ty::ClauseKind::Projection(pp) = p.kind().skip_binder() {
                        for a in pp.projection_term.args.iter().skip(1) {
                            if let Some(t) = a.as_type() {
                                leaks.extend(mut_leaks(tcx, t));
                            }
                        }
                    }
                    preds.push(J::s(s));
                }
                let mut o = J::obj();
                o.put("path", J::s(tcx.def_path_str(did)));
                o.put("trait_impl", J::s(if trait_impl { "yes" } else { "no" }));
                o.put("unsafe", J::s(if sig.safety().is_safe() { "no" } else { "yes" }));
                o.put("sig", J::s(format!("{sig}")));
                o.put("leaks", J::A(leaks.into_iter().map(J::s).collect()));
                o.put("loose", J::A(loose.into_iter().map(J::s).collect()));
                o.put("bounds", J::A(preds));
                fns.push(o);
            }
            DefKind::AssocTy => {
                let parent = tcx.parent(did);
                if !matches!(tcx.def_kind(parent), DefKind::Impl { of_trait: true }) {
                    continue;
                }
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let st = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip().self_ty();
                if let ty::Adt(d, _) = st.peel_refs().kind() {
                    if let Some(l) = d.did().as_local() {
                        if !vis.is_reachable(l) {
                            continue;
                        }
                    }
                }
                let mut o = J::obj();
                o.put("path", J::s(tcx.def_path_str(did)));
                o.put("trait_impl", J::s("type"));
                o.put("unsafe", J::s("no"));
                o.put("sig", J::s(format!("{t}")));
                o.put("leaks", J::A(mut_leaks(tcx, t).into_iter().map(J::s).collect()));
                let mut l = raw_leaks(tcx, t);
                l.extend(loose_regions(t, &[st]));
                o.put("loose", J::A(l.into_iter().map(J::s).collect()));
                o.put("bounds", J::A(vec![]));
                fns.push(o);
            }
            DefKind::Struct | DefKind::Union => {
                if !vis.is_reachable(id) {
                    continue;
                }
                let mut fs = vec![];
                for f in tcx.adt_def(did).all_fields() {
                    if f.vis.is_public() {
                        fs.push(J::s(f.name.to_string()));
                    }
                }
                let mut o = J::obj();
                o.put("path", J::s(tcx.def_path_str(did)));
                o.put("public_fields", J::A(fs));
                types.push(o);
            }
            DefKind::Impl { of_trait: true } => {
                let h = tcx.impl_trait_header(did);
                let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                if !h.safety.is_safe() {
                    let mut o = J::obj();
                    o.put("impl", J::s(format!("{tr}")));
                    impls.push(o);
                }
            }
            _ => {}
        }
    }
    let mut j = J::obj();
    j.put("functions", J::A(fns));
    j.put("types", J::A(types));
    j.put("unsafe_impls", J::A(impls));
    j
}
