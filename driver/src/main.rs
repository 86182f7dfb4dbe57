//! mirdump: a rustc driver that dumps the *resolved, monomorphic* MIR reachable from the roots of
//! the probe crate (all `pub fn` in `probe::h`), plus type-table and API facts about the analysed
//! crate, as JSON.  The static analyses in /verif/analysis consume it.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod api;
mod json;
use json::J;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Ok(out) = std::env::var("MIRDUMP_OUT") {
            let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
            if name.as_str() == "probe" {
                dump(tcx, &out);
            } else if name.as_str() == "cycle_map" {
                if let Ok(api_out) = std::env::var("MIRDUMP_API_OUT") {
                    let j = api::dump_api(tcx);
                    std::fs::write(api_out, j.render()).unwrap();
                }
            }
        }
        Compilation::Continue
    }
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    inst: HashMap<Instance<'tcx>, usize>,
    queue: Vec<Instance<'tcx>>,
    tys: HashMap<Ty<'tcx>, usize>,
    tyout: Vec<J>,
}

fn span_str(tcx: TyCtxt<'_>, sp: rustc_span::Span) -> String {
    let sm = tcx.sess.source_map();
    let sp = sp.source_callsite();
    let lo = sm.lookup_char_pos(sp.lo());
    format!(
        "{}:{}",
        lo.file.name.prefer_local_unconditionally().to_string_lossy(),
        lo.line
    )
}

impl<'tcx> D<'tcx> {
    fn norm<T: ty::TypeFoldable<TyCtxt<'tcx>> + Clone>(&self, i: Instance<'tcx>, v: T) -> T {
        i.instantiate_mir_and_normalize_erasing_regions(self.tcx, self.env, ty::EarlyBinder::bind(self.tcx, v))
    }

    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(&n) = self.inst.get(&i) {
            return n;
        }
        let n = self.inst.len();
        self.inst.insert(i, n);
        self.queue.push(i);
        n
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t));
        if let Some(&n) = self.tys.get(&t) {
            return n;
        }
        let n = self.tyout.len();
        self.tys.insert(t, n);
        self.tyout.push(J::Null);
        let tcx = self.tcx;
        let mut o = J::obj();
        o.put("name", J::s(with_no_trimmed_paths!(t.to_string())));
        match *t.kind() {
            ty::Adt(def, args) => {
                o.put("kind", J::s("adt"));
                o.put("path", J::s(with_no_trimmed_paths!(tcx.def_path_str(def.did()))));
                o.put("krate", J::s(tcx.crate_name(def.did().krate).as_str()));
                o.put("is_enum", J::B(def.is_enum()));
                let targs: Vec<J> = args.types().map(|a| J::N(self.ty(a) as i128)).collect();
                o.put("args", J::A(targs));
                let krate = tcx.crate_name(def.did().krate);
                let deep = !matches!(krate.as_str(), "hashbrown" | "alloc" | "std" | "ahash");
                let mut vs = vec![];
                if !def.is_union() {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut vo = J::obj();
                        vo.put("name", J::s(v.name.as_str()));
                        if def.is_enum() {
                            vo.put("discr", J::N(def.discriminant_for_variant(tcx, vi).val as i128));
                        }
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let mut fo = J::obj();
                            fo.put("name", J::s(f.name.as_str()));
                            if deep {
                                let ft = f.ty(tcx, args).skip_norm_wip();
                                fo.put("ty", J::N(self.ty(ft) as i128));
                            }
                            fs.push(fo);
                        }
                        vo.put("fields", J::A(fs));
                        vs.push(vo);
                    }
                }
                o.put("variants", J::A(vs));
                // explicit Drop impl
                if deep {
                    if let Some(d) = tcx.adt_destructor(def.did()) {
                        if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, d.did, args) {
                            let n = self.inst(i);
                            o.put("drop", J::N(n as i128));
                        }
                    }
                }
            }
            ty::Closure(did, args) => {
                o.put("kind", J::s("closure"));
                o.put("path", J::s(with_no_trimmed_paths!(tcx.def_path_str(did))));
                let up: Vec<J> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|a| J::N(self.ty(a) as i128))
                    .collect();
                o.put("upvars", J::A(up));
                // the closure's own body
                let i = Instance::new_raw(did, args);
                let n = self.inst(i);
                o.put("body", J::N(n as i128));
            }
            ty::Ref(_, t2, m) => {
                o.put("kind", J::s("ref"));
                o.put("mut", J::B(m.is_mut()));
                o.put("to", J::N(self.ty(t2) as i128));
            }
            ty::RawPtr(t2, m) => {
                o.put("kind", J::s("ptr"));
                o.put("mut", J::B(m.is_mut()));
                o.put("to", J::N(self.ty(t2) as i128));
            }
            ty::Tuple(ts) => {
                o.put("kind", J::s("tuple"));
                let e: Vec<J> = ts.iter().map(|a| J::N(self.ty(a) as i128)).collect();
                o.put("elems", J::A(e));
            }
            ty::FnDef(did, args) => {
                o.put("kind", J::s("fndef"));
                o.put("path", J::s(with_no_trimmed_paths!(tcx.def_path_str(did))));
                let args = args.skip_binder();
                if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, did, args) {
                    let n = self.inst(i);
                    o.put("inst", J::N(n as i128));
                }
            }
            ty::Array(e, _) | ty::Slice(e) => {
                o.put("kind", J::s("array"));
                o.put("to", J::N(self.ty(e) as i128));
            }
            ty::Int(_) | ty::Uint(_) => {
                o.put("kind", J::s("int"));
            }
            ty::Bool => {
                o.put("kind", J::s("bool"));
            }
            _ => {
                o.put("kind", J::s("other"));
            }
        }
        self.tyout[n] = o;
        n
    }

    fn place(&mut self, i: Instance<'tcx>, p: &Place<'tcx>) -> J {
        let mut a = vec![J::N(p.local.as_u32() as i128)];
        for e in p.projection.iter() {
            let mut o = vec![];
            match e {
                ProjectionElem::Deref => o.push(J::s("*")),
                ProjectionElem::Field(f, t) => {
                    let t = self.norm(i, t);
                    o.push(J::s("."));
                    o.push(J::N(f.as_u32() as i128));
                    o.push(J::N(self.ty(t) as i128));
                }
                ProjectionElem::Downcast(_, v) => {
                    o.push(J::s("@"));
                    o.push(J::N(v.as_u32() as i128));
                }
                ProjectionElem::Index(l) => {
                    o.push(J::s("[]"));
                    o.push(J::N(l.as_u32() as i128));
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    o.push(J::s("[c]"));
                    o.push(J::N(offset as i128));
                    o.push(J::B(from_end));
                }
                other => {
                    o.push(J::s("?"));
                    o.push(J::s(format!("{other:?}")));
                }
            }
            a.push(J::A(o));
        }
        J::A(a)
    }

    fn constant(&mut self, i: Instance<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let k = self.norm(i, c.const_);
        let t = k.ty();
        let mut o = J::obj();
        o.put("ty", J::N(self.ty(t) as i128));
        match *t.kind() {
            ty::FnDef(did, args) => {
                o.put("k", J::s("fn"));
                let args = args.skip_binder();
                self.fnref(&mut o, did, args);
            }
            _ => {
                if let Const::Unevaluated(uv, _) = k {
                    if let Some(p) = uv.promoted {
                        if let Ok(Some(pi)) = Instance::try_resolve(tcx, self.env, uv.def, uv.args) {
                            let bodies = tcx.promoted_mir(uv.def);
                            let b = self.body_of(pi, &bodies[p]);
                            o.put("k", J::s("promoted"));
                            o.put("id", J::s(format!("{}#{}", self.inst(pi), p.as_u32())));
                            o.put("body", b);
                            return o;
                        }
                    }
                }
                if let Some(b) = k.try_eval_bits(tcx, self.env) {
                    o.put("k", J::s("bits"));
                    o.put("v", J::N(b as i128));
                } else if let Ok(v) = k.eval(tcx, self.env, c.span) {
                    self.constval(&mut o, v, t, 0);
                } else {
                    o.put("k", J::s("opaque"));
                    o.put("txt", J::s(format!("{k:?}")));
                }
            }
        }
        o
    }

    fn constval(&mut self, o: &mut J, v: ConstValue, t: Ty<'tcx>, depth: usize) {
        let tcx = self.tcx;
        if let ConstValue::Scalar(s) = v {
            if let Ok(int) = s.try_to_scalar_int() {
                if matches!(t.kind(), ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char) {
                    o.put("k", J::s("bits"));
                    o.put("v", J::N(int.to_bits_unchecked() as i128));
                    return;
                }
            }
        }
        if matches!(t.kind(), ty::Adt(..) | ty::Tuple(..)) && depth < 4 {
            if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                o.put("k", J::s("agg"));
                o.put("variant", J::N(d.variant.map(|v| v.as_u32()).unwrap_or(0) as i128));
                let mut fs = vec![];
                for (fv, ft) in d.fields.iter() {
                    let mut fo = J::obj();
                    fo.put("ty", J::N(self.ty(*ft) as i128));
                    self.constval(&mut fo, *fv, *ft, depth + 1);
                    fs.push(fo);
                }
                o.put("fields", J::A(fs));
                return;
            }
        }
        match v {
            ConstValue::ZeroSized => o.put("k", J::s("zst")),
            ConstValue::Slice { .. } => {
                o.put("k", J::s("str"));
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    o.put("v", J::s(String::from_utf8_lossy(b).to_string()));
                }
            }
            _ => {
                o.put("k", J::s("opaque"));
                o.put("txt", J::s(format!("{v:?}")));
            }
        }
    }

    /// Iterator adaptors (fold, any, find ...) that a container of alloc or a slice reimplements for speed: use the
    /// default body, which only relies on `next`.
    fn provided(&self, i: Instance<'tcx>, did: DefId, args: ty::GenericArgsRef<'tcx>) -> Instance<'tcx> {
        let tcx = self.tcx;
        if i.def_id() == did || tcx.trait_of_assoc(did).is_none() || !tcx.defaultness(did).has_value() {
            return i;
        }
        let tp = with_no_trimmed_paths!(tcx.def_path_str(did));
        if !(tp.starts_with("std::iter::Iterator::") || tp.starts_with("core::iter::Iterator::") || tp.starts_with("std::iter::DoubleEndedIterator::")) {
            return i;
        }
        let name = tcx.item_name(did);
        if matches!(name.as_str(), "next" | "next_back" | "size_hint" | "count" | "len") {
            return i;
        }
        let krate = tcx.crate_name(i.def_id().krate);
        let ip = with_no_trimmed_paths!(tcx.def_path_str(i.def_id()));
        if cut(krate.as_str(), &ip) || ip.contains("slice::Iter") {
            return Instance::new_raw(did, args);
        }
        i
    }

    fn fnref(&mut self, o: &mut J, did: DefId, args: ty::GenericArgsRef<'tcx>) {
        let tcx = self.tcx;
        o.put("path", J::s(with_no_trimmed_paths!(tcx.def_path_str(did))));
        o.put("full", J::s(with_no_trimmed_paths!(tcx.def_path_str_with_args(did, args))));
        let targs: Vec<J> = args.types().map(|a| J::N(self.ty(a) as i128)).collect();
        o.put("targs", J::A(targs));
        let args = tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(args));
        match Instance::try_resolve(tcx, self.env, did, args) {
            Ok(Some(i)) => {
                let i = self.provided(i, did, args);
                let n = self.inst(i);
                o.put("inst", J::N(n as i128));
            }
            _ => o.put("unresolved", J::B(true)),
        }
    }

    fn operand(&mut self, i: Instance<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![J::s("c"), self.place(i, p)]),
            Operand::Move(p) => J::A(vec![J::s("m"), self.place(i, p)]),
            Operand::Constant(c) => J::A(vec![J::s("k"), self.constant(i, c)]),
            Operand::RuntimeChecks(_) => J::A(vec![J::s("rt")]),
        }
    }

    fn rvalue(&mut self, i: Instance<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(op, _) => J::A(vec![J::s("use"), self.operand(i, op)]),
            Rvalue::Repeat(op, _) => J::A(vec![J::s("repeat"), self.operand(i, op)]),
            Rvalue::Ref(_, bk, p) => J::A(vec![
                J::s("ref"),
                J::s(match bk {
                    BorrowKind::Mut { .. } => "mut",
                    _ => "shared",
                }),
                self.place(i, p),
            ]),
            Rvalue::RawPtr(_, p) => J::A(vec![J::s("ref"), J::s("raw"), self.place(i, p)]),
            Rvalue::Reborrow(_, _, p) => J::A(vec![J::s("use"), J::A(vec![J::s("c"), self.place(i, p)])]),
            Rvalue::Cast(k, op, t) => {
                let t = self.norm(i, *t);
                J::A(vec![
                    J::s("cast"),
                    J::s(format!("{k:?}")),
                    self.operand(i, op),
                    J::N(self.ty(t) as i128),
                ])
            }
            Rvalue::BinaryOp(b, ops) => J::A(vec![
                J::s("bin"),
                J::s(format!("{b:?}")),
                self.operand(i, &ops.0),
                self.operand(i, &ops.1),
            ]),
            Rvalue::UnaryOp(b, op) => {
                J::A(vec![J::s("un"), J::s(format!("{b:?}")), self.operand(i, op)])
            }
            Rvalue::Discriminant(p) => J::A(vec![J::s("discr"), self.place(i, p)]),
            Rvalue::CopyForDeref(p) => {
                J::A(vec![J::s("use"), J::A(vec![J::s("c"), self.place(i, p)])])
            }
            Rvalue::Aggregate(k, ops) => {
                let mut o = J::obj();
                match &**k {
                    AggregateKind::Array(_) => o.put("k", J::s("array")),
                    AggregateKind::Tuple => o.put("k", J::s("tuple")),
                    AggregateKind::Adt(did, v, args, _, _) => {
                        o.put("k", J::s("adt"));
                        let args = self.norm(i, *args);
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*did), args);
                        o.put("ty", J::N(self.ty(t) as i128));
                        o.put("variant", J::N(v.as_u32() as i128));
                    }
                    AggregateKind::Closure(did, args) => {
                        o.put("k", J::s("closure"));
                        let args = self.norm(i, *args);
                        let t = Ty::new_closure(self.tcx, *did, args);
                        o.put("ty", J::N(self.ty(t) as i128));
                    }
                    AggregateKind::RawPtr(..) => o.put("k", J::s("rawptr")),
                    _ => o.put("k", J::s("other")),
                }
                let a: Vec<J> = ops.iter().map(|op| self.operand(i, op)).collect();
                J::A(vec![J::s("agg"), o, J::A(a)])
            }
            other => J::A(vec![J::s("?"), J::s(format!("{other:?}"))]),
        }
    }

    fn body(&mut self, i: Instance<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        match i.def {
            InstanceKind::Item(d) => {
                if !tcx.is_mir_available(d) || tcx.is_foreign_item(d) {
                    return None;
                }
                if !matches!(
                    tcx.def_kind(d),
                    DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)
                ) {
                    return None;
                }
            }
            InstanceKind::Shim(_) => {}
            _ => return None,
        }
        let body: &mir::Body<'tcx> = tcx.instance_mir(i.def);
        Some(self.body_of(i, body))
    }

    fn body_of(&mut self, i: Instance<'tcx>, body: &mir::Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = J::obj();
        o.put("argc", J::N(body.arg_count as i128));
        o.put(
            "spread",
            match body.spread_arg {
                Some(l) => J::N(l.as_u32() as i128),
                None => J::Null,
            },
        );
        let mut ls = vec![];
        for l in body.local_decls.iter() {
            let t = self.norm(i, l.ty);
            ls.push(J::N(self.ty(t) as i128));
        }
        o.put("locals", J::A(ls));
        let mut bs = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                let ln = || J::s(span_str(tcx, s.source_info.span));
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let p = self.place(i, p);
                        let r = self.rvalue(i, r);
                        st.push(J::A(vec![J::s("="), p, r, ln()]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(i, place);
                        st.push(J::A(vec![
                            J::s("setd"),
                            p,
                            J::N(variant_index.as_u32() as i128),
                            ln(),
                        ]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![J::s("dead"), J::N(l.as_u32() as i128)]));
                    }
                    StatementKind::StorageLive(l) => {
                        st.push(J::A(vec![J::s("live"), J::N(l.as_u32() as i128)]));
                    }
                    StatementKind::Intrinsic(ni) => match &**ni {
                        NonDivergingIntrinsic::Assume(_) => {}
                        NonDivergingIntrinsic::CopyNonOverlapping(_) => {
                            st.push(J::A(vec![J::s("?"), J::s("copy_nonoverlapping"), ln()]))
                        }
                    },
                    _ => {}
                }
            }
            let term = bb.terminator();
            let mut t = J::obj();
            t.put("at", J::s(span_str(tcx, term.source_info.span)));
            match &term.kind {
                TerminatorKind::Goto { target, .. } => {
                    t.put("k", J::s("goto"));
                    t.put("to", J::N(target.as_u32() as i128));
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    t.put("k", J::s("goto"));
                    t.put("to", J::N(real_target.as_u32() as i128));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    t.put("k", J::s("goto"));
                    t.put("to", J::N(real_target.as_u32() as i128));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    t.put("k", J::s("switch"));
                    let d = self.operand(i, discr);
                    t.put("on", d);
                    let cs: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![J::N(v as i128), J::N(b.as_u32() as i128)]))
                        .collect();
                    t.put("cases", J::A(cs));
                    t.put("else", J::N(targets.otherwise().as_u32() as i128));
                }
                TerminatorKind::Return => t.put("k", J::s("return")),
                TerminatorKind::Unreachable => t.put("k", J::s("unreachable")),
                TerminatorKind::UnwindResume => t.put("k", J::s("resume")),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    t.put("k", J::s("drop"));
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let pt = self.norm(i, pt);
                    let pj = self.place(i, place);
                    t.put("place", pj);
                    t.put("ty", J::N(self.ty(pt) as i128));
                    t.put("to", J::N(target.as_u32() as i128));
                    if let UnwindAction::Cleanup(b) = unwind {
                        t.put("unwind", J::N(b.as_u32() as i128));
                    }
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    t.put("k", J::s("call"));
                    let f = self.operand(i, func);
                    t.put("f", f);
                    let a: Vec<J> = args.iter().map(|x| self.operand(i, &x.node)).collect();
                    t.put("args", J::A(a));
                    let d = self.place(i, destination);
                    t.put("dest", d);
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dt = self.norm(i, dt);
                    t.put("dty", J::N(self.ty(dt) as i128));
                    if let Some(b) = target {
                        t.put("to", J::N(b.as_u32() as i128));
                    }
                    if let UnwindAction::Cleanup(b) = unwind {
                        t.put("unwind", J::N(b.as_u32() as i128));
                    }
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    t.put("k", J::s("assert"));
                    let c = self.operand(i, cond);
                    t.put("cond", c);
                    t.put("expected", J::B(*expected));
                    t.put("msg", J::s(format!("{msg:?}").chars().take(60).collect::<String>()));
                    t.put("to", J::N(target.as_u32() as i128));
                }
                other => {
                    t.put("k", J::s("?"));
                    t.put("txt", J::s(format!("{other:?}")));
                }
            }
            let mut bo = J::obj();
            bo.put("s", J::A(st));
            bo.put("t", t);
            bo.put("cleanup", J::B(bb.is_cleanup));
            bs.push(bo);
        }
        o.put("blocks", J::A(bs));
        o
    }
}

fn type_impls<'tcx>(tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>, tr: DefId, args: &[ty::GenericArg<'tcx>]) -> bool {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
    infcx.type_implements_trait(tr, args.iter().copied(), penv).must_apply_modulo_regions()
}

fn cut(krate: &str, path: &str) -> bool {
    if matches!(krate, "hashbrown" | "alloc" | "std" | "ahash" | "getrandom") {
        return true;
    }
    if krate == "serde_core" || krate == "serde" {
        return !(path.contains("SeqAccess") || path.contains("collect_seq") || path.contains("iterator_len_hint") || path.contains("DeserializeSeed") || path.contains("PhantomData"));
    }
    if krate == "core" {
        // `entries` of the debug builders just calls `entry` for each element of an iterator
        if path.contains("fmt::") && path.contains("::Debug") && path.ends_with("::entries") {
            return false;
        }
        for p in ["core::fmt", "core::panicking", "core::num", "core::str", "core::slice", "core::unicode", "core::alloc", "core::intrinsics", "core::char", "core::array", "std::fmt", "std::intrinsics"] {
            if path.starts_with(p) || path.starts_with(&format!("<{p}")) {
                return true;
            }
        }
    }
    false
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut d = D {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        inst: HashMap::new(),
        queue: vec![],
        tys: HashMap::new(),
        tyout: vec![],
    };
    let mut roots = J::obj();
    for ld in tcx.hir_crate_items(()).definitions() {
        let did = ld.to_def_id();
        if tcx.def_kind(did) == DefKind::Fn {
            let p = tcx.def_path_str(did);
            if p.starts_with("h::") && tcx.generics_of(did).own_requires_monomorphization() == false {
                let i = Instance::mono(tcx, did);
                let n = d.inst(i);
                roots.put(&p, J::N(n as i128));
            }
        }
    }
    let mut traits: Vec<(&'static str, DefId, DefId)> = vec![];
    for (nm, tr) in [
        ("next", tcx.get_diagnostic_item(rustc_span::sym::Iterator)),
        ("clone", tcx.lang_items().clone_trait()),
        ("into_iter", tcx.get_diagnostic_item(rustc_span::sym::IntoIterator)),
        ("eq", tcx.lang_items().eq_trait()),
    ] {
        if let Some(tr) = tr {
            for it in tcx.associated_items(tr).in_definition_order() {
                if it.opt_name().map(|n| n.as_str() == nm) == Some(true) {
                    traits.push((nm, tr, it.def_id));
                }
            }
        }
    }
    let mut insts = J::obj();
    while let Some(i) = d.queue.pop() {
        let id = d.inst[&i];
        let did = i.def_id();
        let krate = tcx.crate_name(did.krate);
        let path = with_no_trimmed_paths!(tcx.def_path_str(did));
        let full = with_no_trimmed_paths!(format!("{i}"));
        let mut o = J::obj();
        o.put("path", J::s(path.clone()));
        o.put("full", J::s(full));
        o.put("krate", J::s(krate.as_str()));
        o.put("kind", J::s(format!("{:?}", i.def).split('(').next().unwrap_or("").to_string()));
        if let InstanceKind::Shim(s) = i.def {
            o.put("shim", J::s(format!("{s:?}").split('(').next().unwrap_or("").to_string()));
        }
        let sp = tcx.def_span(did);
        o.put("at", J::s(span_str(tcx, sp)));
        if let (InstanceKind::Item(c), DefKind::Ctor(..)) = (i.def, tcx.def_kind(i.def_id())) {
            let t = tcx.instantiate_bound_regions_with_erased(i.ty(tcx, d.env).fn_sig(tcx)).output();
            if let ty::Adt(a, _) = t.kind() {
                o.put("ctor", J::A(vec![J::N(d.ty(t) as i128), J::N(a.variant_index_with_ctor_id(c).as_u32() as i128)]));
            }
        }
        if tcx.def_kind(did) == DefKind::Closure {
            o.put("closure", J::B(true));
        }
        // `impl Trait for Ty` facts
        if let Some(ti) = tcx.trait_item_of(did) {
            o.put("trait_item", J::s(with_no_trimmed_paths!(tcx.def_path_str(ti))));
        }
        let targs: Vec<J> = i.args.types().map(|a| J::N(d.ty(a) as i128)).collect();
        o.put("targs", J::A(targs));
        let mut has = false;
        let is_count = krate.as_str() == "core" && path.ends_with("::count") && path.contains("Iterator");
        if !is_count && !cut(krate.as_str(), &path) {
            if let Some(b) = d.body(i) {
                o.put("body", b);
                has = true;
            }
        }
        if !has {
            // model aids: trait methods of the type arguments a model may have to call
            let mut aux = J::obj();
            let mut seen: Vec<Ty<'_>> = vec![];
            for ga in i.args.iter() {
                for t in ga.walk() {
                    if let Some(t) = t.as_type() {
                        if !seen.contains(&t) && !ty::TypeVisitableExt::has_escaping_bound_vars(&t) {
                            seen.push(t);
                        }
                    }
                }
            }
            // the Self type of an impl's method
            if let Some(imp) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(imp).instantiate(tcx, i.args);
                let st = tcx.normalize_erasing_regions(d.env, st);
                if !seen.contains(&st) && !ty::TypeVisitableExt::has_escaping_bound_vars(&st) {
                    seen.push(st);
                }
                o.put("self", J::N(d.ty(st) as i128));
            }
            for t in seen {
                if matches!(t.kind(), ty::Param(_) | ty::Dynamic(..)) {
                    continue;
                }
                let mut to = J::obj();
                for (nm, tr, m) in &traits {
                    let nargs = tcx.generics_of(*tr).own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).count();
                    // trait parameters beyond Self are instantiated with Self (PartialEq<T>)
                    let targs: Vec<ty::GenericArg<'_>> = (0..nargs.max(1)).map(|_| t.into()).collect();
                    if type_impls(tcx, d.env, *tr, &targs) {
                        let a = tcx.mk_args(&targs);
                        if let Ok(Some(mi)) = Instance::try_resolve(tcx, d.env, *m, a) {
                            to.put(nm, J::N(d.inst(mi) as i128));
                        }
                    }
                }
                let tid = d.ty(t);
                aux.put(&tid.to_string(), to);
            }
            o.put("aux", aux);
        }
        insts.put(&id.to_string(), o);
    }
    let mut top = J::obj();
    top.put("roots", roots);
    top.put("inst", insts);
    top.put("types", J::A(std::mem::take(&mut d.tyout)));
    std::fs::write(out, top.render()).unwrap();
}

fn main() {
    // cargo calls us as: mirdump <rustc> <args...>
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    rustc_driver::install_ice_hook("mirdump ICE", |_| ());
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
