//! `mirdump`: a rustc driver that dumps the monomorphised, type-checked MIR of one crate (and of
//! the small std combinators it calls) as JSON, for the analyses in /verif/sa.
//!
//! It is used as RUSTC_WORKSPACE_WRAPPER: argv = [mirdump, rustc, rustc-args...].
//! MIRDUMP_CRATE names the crate to dump, MIRDUMP_OUT the file to write.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::*;

use rustc_abi::{FieldIdx, Size, TagEncoding, VariantIdx, Variants};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{AllocId, Allocation, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgs, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};

const STD_INLINE: &[&str] = &[
    "core::option::",
    "core::result::",
    "core::ops::control_flow::",
    "core::ops::try_trait::",
    "core::ops::function::",
    "core::convert::",
    "core::bool::",
    "core::cmp::",
    "core::clone::",
    "core::default::",
    "core::tuple::",
    "core::num::",
    "core::time::",
    "core::array::equality",
];
const STD_DENY: &[&str] = &["core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed"];

struct Cb;

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    inst_ids: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>)>,
    fns: Vec<(String, J)>,
    env: TypingEnv<'tcx>,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
        if tcx.crate_name(LOCAL_CRATE).as_str() != want {
            return Compilation::Continue;
        }
        let out = match std::env::var("MIRDUMP_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let j = with_no_trimmed_paths!(dump(tcx));
        let mut s = String::new();
        j.write(&mut s);
        std::fs::write(out, s).expect("write dump");
        Compilation::Continue
    }
}

fn raw_path(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

fn dump(tcx: TyCtxt<'_>) -> J {
    let mut d = Dump {
        tcx,
        types: vec![],
        type_ids: HashMap::new(),
        inst_ids: HashMap::new(),
        queue: VecDeque::new(),
        fns: vec![],
        env: TypingEnv::fully_monomorphized(),
    };
    let mut roots = vec![];
    for def in tcx.mir_keys(()) {
        let did = def.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
            _ => continue,
        }
        if tcx.is_closure_like(did) {
            continue; // reached through their parents, with the right arguments
        }
        let env = TypingEnv::post_analysis(tcx, did);
        let args = GenericArgs::identity_for_item(tcx, did);
        let args = tcx.erase_and_anonymize_regions(args);
        let inst = Instance::new_raw(did, args);
        let id = d.inst(inst, env);
        roots.push(J::I(id as i128));
    }
    while let Some((inst, env)) = d.queue.pop_front() {
        d.env = env;
        let j = d.body(inst);
        d.fns.push((d.inst_ids[&inst].to_string(), j));
    }
    // associated consts / consts of the crate are evaluated where they are used
    let fns = J::O(std::mem::take(&mut d.fns));
    J::O(vec![
        ("crate".into(), J::s(tcx.crate_name(LOCAL_CRATE).as_str())),
        ("types".into(), J::A(std::mem::take(&mut d.types))),
        ("roots".into(), J::A(roots)),
        ("fns".into(), fns),
    ])
}

impl<'tcx> Dump<'tcx> {
    fn inst(&mut self, i: Instance<'tcx>, env: TypingEnv<'tcx>) -> usize {
        if let Some(&x) = self.inst_ids.get(&i) {
            return x;
        }
        let id = self.inst_ids.len();
        self.inst_ids.insert(i, id);
        self.queue.push_back((i, env));
        id
    }

    /// Whether the body of this instance is dumped.
    fn wanted(&self, i: &Instance<'tcx>) -> bool {
        match i.def {
            InstanceKind::Item(did) => {
                if did.is_local() {
                    return self.tcx.is_mir_available(did);
                }
                let p = raw_path(self.tcx, did);
                if STD_DENY.iter().any(|d| p.starts_with(d)) {
                    return false;
                }
                self.tcx.is_mir_available(did) && STD_INLINE.iter().any(|a| p.starts_with(a))
            }
            _ => false,
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        J::I(self.tid(t) as i128)
    }

    fn tid(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.type_ids.get(&t) {
            return i;
        }
        let id = self.types.len();
        self.type_ids.insert(t, id);
        self.types.push(J::Null);
        let j = self.type_json(t);
        self.types[id] = j;
        id
    }

    fn type_json(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let name = J::S(format!("{}", t));
        let mut o = vec![("name".to_string(), name)];
        let k = |o: &mut Vec<(String, J)>, s: &str| o.push(("k".into(), J::s(s)));
        match *t.kind() {
            ty::Bool => k(&mut o, "bool"),
            ty::Char => k(&mut o, "char"),
            ty::Int(i) => {
                k(&mut o, "int");
                o.push(("signed".into(), J::B(true)));
                o.push(("bits".into(), J::I(i.bit_width().unwrap_or(64) as i128)));
            }
            ty::Uint(i) => {
                k(&mut o, "int");
                o.push(("signed".into(), J::B(false)));
                o.push(("bits".into(), J::I(i.bit_width().unwrap_or(64) as i128)));
            }
            ty::Float(_) => k(&mut o, "float"),
            ty::Str => k(&mut o, "str"),
            ty::Never => k(&mut o, "never"),
            ty::Slice(e) => {
                k(&mut o, "slice");
                let e = self.ty(e);
                o.push(("elem".into(), e));
            }
            ty::Array(e, n) => {
                k(&mut o, "array");
                let e = self.ty(e);
                o.push(("elem".into(), e));
                o.push((
                    "len".into(),
                    n.try_to_target_usize(tcx).map_or(J::Null, |n| J::I(n as i128)),
                ));
            }
            ty::RawPtr(e, m) => {
                k(&mut o, "ptr");
                let e = self.ty(e);
                o.push(("to".into(), e));
                o.push(("mut".into(), J::B(m.is_mut())));
            }
            ty::Ref(_, e, m) => {
                k(&mut o, "ref");
                let e = self.ty(e);
                o.push(("to".into(), e));
                o.push(("mut".into(), J::B(m.is_mut())));
            }
            ty::Tuple(ts) => {
                k(&mut o, "tuple");
                let a = ts.iter().map(|t| self.ty(t)).collect();
                o.push(("elems".into(), J::A(a)));
            }
            ty::FnDef(did, args) => {
                k(&mut o, "fndef");
                let c = self.callee(did, args.skip_binder());
                o.push(("callee".into(), c));
            }
            ty::FnPtr(..) => k(&mut o, "fnptr"),
            ty::Closure(did, args) => {
                k(&mut o, "closure");
                let inst = Instance::new_raw(did, tcx.erase_and_anonymize_regions(args));
                let fid = if self.wanted(&inst) {
                    let env = self.env;
                    J::I(self.inst(inst, env) as i128)
                } else {
                    J::Null
                };
                o.push(("fn".into(), fid));
                let ups: Vec<_> = args.as_closure().upvar_tys().iter().collect();
                let ups = ups.into_iter().map(|t| self.ty(t)).collect();
                o.push(("upvars".into(), J::A(ups)));
            }
            ty::Adt(adt, args) => {
                k(&mut o, "adt");
                let path = tcx.def_path_str(adt.did());
                o.push(("path".into(), J::S(path)));
                o.push(("raw".into(), J::S(raw_path(tcx, adt.did()))));
                o.push(("local".into(), J::B(adt.did().is_local())));
                o.push((
                    "kind".into(),
                    J::s(if adt.is_enum() {
                        "enum"
                    } else if adt.is_union() {
                        "union"
                    } else {
                        "struct"
                    }),
                ));
                let targs = args.types().map(|t| self.ty(t)).collect();
                o.push(("args".into(), J::A(targs)));
                let raw = raw_path(tcx, adt.did());
                let expand = adt.did().is_local()
                    || [
                        "core::option::",
                        "core::result::",
                        "core::ops::",
                        "core::cmp::",
                        "core::convert::",
                        "std::io::",
                        "core::io::",
                        "alloc::borrow::Cow",
                        "alloc::boxed::",
                        "core::mem::",
                        "core::ptr::",
                        "core::time::",
                        "core::num::niche",
                    ]
                    .iter()
                    .any(|p| raw.starts_with(p))
                        && !raw.starts_with("std::io::error")
                        && !raw.starts_with("core::io::error")
                        && !raw.starts_with("std::io::buffered");
                if expand {
                    let mut vs = vec![];
                    for (vi, v) in adt.variants().iter_enumerated() {
                        let discr = if adt.is_enum() {
                            J::I(adt.discriminant_for_variant(tcx, vi).val as i128)
                        } else {
                            J::I(0)
                        };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args);
                            let ft = self.norm_unnormalized(ft);
                            let ftj = self.ty(ft);
                            fs.push(J::O(vec![
                                ("name".into(), J::s(f.name.as_str())),
                                ("ty".into(), ftj),
                            ]));
                        }
                        vs.push(J::O(vec![
                            ("name".into(), J::s(v.name.as_str())),
                            ("discr".into(), discr),
                            ("fields".into(), J::A(fs)),
                        ]));
                    }
                    o.push(("variants".into(), J::A(vs)));
                }
            }
            ty::Param(_) => k(&mut o, "param"),
            ty::Alias(..) => k(&mut o, "alias"),
            ty::Dynamic(..) => k(&mut o, "dyn"),
            _ => k(&mut o, "other"),
        }
        J::O(o)
    }

    fn norm_unnormalized(&self, t: ty::Unnormalized<'tcx, Ty<'tcx>>) -> Ty<'tcx> {
        let raw = t.skip_norm_wip();
        self.tcx
            .try_normalize_erasing_regions(self.env, ty::Unnormalized::new(raw))
            .unwrap_or_else(|_| self.tcx.erase_and_anonymize_regions(raw))
    }

    fn callee(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let mut o = vec![
            ("path".to_string(), J::S(tcx.def_path_str(did))),
            ("raw".to_string(), J::S(raw_path(tcx, did))),
        ];
        let targs = args.types().map(|t| self.ty(t)).collect();
        o.push(("args".into(), J::A(targs)));
        if let Some(tr) = tcx.trait_of_assoc(did) {
            o.push(("trait".into(), J::S(tcx.def_path_str(tr))));
            o.push(("self".into(), self.type_of_self(args)));
        }
        if let Some(imp) = tcx.impl_of_assoc(did) {
            let st = tcx.type_of(imp).instantiate_identity();
            let st = self.norm_unnormalized(st);
            o.push(("impl_self".into(), J::S(format!("{}", st))));
        }
        if tcx.is_closure_like(did) {
            return J::O(o);
        }
        if let DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..) = tcx.def_kind(did) {
            if let DefKind::Ctor(..) = tcx.def_kind(did) {
                o.push(("ctor".into(), J::B(true)));
                let sig = tcx.fn_sig(did).instantiate(tcx, args);
                let sig = self.norm_sig(sig);
                let rt = self.ty(sig);
                o.push(("ctor_ty".into(), rt));
                let v = tcx.parent(did);
                let vi = match tcx.def_kind(v) {
                    DefKind::Variant => {
                        let adt = tcx.adt_def(tcx.parent(v));
                        adt.variant_index_with_id(v).as_usize()
                    }
                    _ => 0,
                };
                o.push(("variant".into(), J::I(vi as i128)));
                return J::O(o);
            }
            match Instance::try_resolve(tcx, self.env, did, args) {
                Ok(Some(inst)) => {
                    let inst = Instance { def: inst.def, args: tcx.erase_and_anonymize_regions(inst.args) };
                    let kind = match inst.def {
                        InstanceKind::Item(_) => "item",
                        InstanceKind::Intrinsic(_) => "intrinsic",
                        InstanceKind::Virtual(..) => "virtual",
                        InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once",
                        InstanceKind::Shim(_) => "shim",
                        _ => "other",
                    };
                    o.push(("inst".into(), J::s(kind)));
                    let rd = inst.def_id();
                    if rd != did {
                        o.push(("rpath".into(), J::S(tcx.def_path_str(rd))));
                        o.push(("rraw".into(), J::S(raw_path(tcx, rd))));
                    }
                    if self.wanted(&inst) {
                        let env = self.env;
                        let id = self.inst(inst, env);
                        o.push(("fn".into(), J::I(id as i128)));
                    }
                }
                _ => {
                    o.push(("inst".into(), J::s("unresolved")));
                }
            }
        }
        J::O(o)
    }

    fn norm_sig(&self, t: ty::Unnormalized<'tcx, ty::PolyFnSig<'tcx>>) -> Ty<'tcx> {
        let sig = t.skip_norm_wip();
        let out = self.tcx.instantiate_bound_regions_with_erased(sig).output();
        self.norm_unnormalized(ty::Unnormalized::new(out))
    }

    fn type_of_self(&mut self, args: ty::GenericArgsRef<'tcx>) -> J {
        match args.types().next() {
            Some(t) => self.ty(t),
            None => J::Null,
        }
    }

    fn span(&self, s: Span) -> J {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        J::S(format!(
            "{}:{}:{}",
            lo.file.name.prefer_local_unconditionally(),
            lo.line,
            lo.col.0 + 1
        ))
    }

    fn body(&mut self, inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let did = inst.def_id();
        let src = tcx.instance_mir(inst.def);
        let body: Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env,
            ty::EarlyBinder::bind(tcx, src.clone()),
        ) {
            Ok(b) => b,
            Err(e) => {
                return J::O(vec![
                    ("path".into(), J::S(tcx.def_path_str(did))),
                    ("error".into(), J::S(format!("{:?}", e))),
                ])
            }
        };
        let mut o = vec![];
        o.push(("path".to_string(), J::S(tcx.def_path_str(did))));
        o.push(("raw".to_string(), J::S(raw_path(tcx, did))));
        o.push(("inst_name".to_string(), J::S(format!("{}", inst))));
        o.push(("local".to_string(), J::B(did.is_local())));
        o.push(("closure".to_string(), J::B(tcx.is_closure_like(did))));
        let targs = inst.args.types().map(|t| self.ty(t)).collect();
        o.push(("args".to_string(), J::A(targs)));
        if let Some(tr) = tcx.trait_of_assoc(did) {
            o.push(("trait".into(), J::S(tcx.def_path_str(tr))));
        }
        if !tcx.is_closure_like(did) {
            if let Some(imp) = tcx.impl_of_assoc(did) {
                if let Some(tr) = tcx.impl_opt_trait_id(imp) {
                    o.push(("impl_trait".into(), J::S(tcx.def_path_str(tr))));
                }
                let st = tcx.type_of(imp).instantiate_identity();
                let st = self.norm_unnormalized(st);
                o.push(("impl_self".into(), J::S(format!("{}", st))));
            }
        }
        if let Some(l) = did.as_local() {
            let ev = tcx.effective_visibilities(());
            o.push(("exported".into(), J::B(ev.is_exported(l) || ev.is_reachable(l) && ev.is_exported(l))));
        }
        // the item types of iterator parameters
        if !tcx.is_closure_like(did) {
            let mut items = vec![];
            for c in tcx.param_env(did).caller_bounds() {
                if let Some(p) = c.as_projection_clause() {
                    let p = p.skip_binder();
                    if format!("{:?}", p.projection_term.kind).contains("Item") {
                        if let Some(t) = p.term.as_type() {
                            let a = self.ty(p.projection_term.self_ty());
                            let b = self.ty(t);
                            items.push(J::A(vec![a, b]));
                        }
                    }
                }
            }
            o.push(("items".into(), J::A(items)));
        }
        o.push(("span".into(), self.span(body.span)));
        o.push(("argc".into(), J::I(body.arg_count as i128)));
        let spread = body.spread_arg.map_or(J::Null, |l| J::I(l.as_usize() as i128));
        o.push(("spread".into(), spread));
        let locals = body.local_decls.iter().map(|l| l.ty).collect::<Vec<_>>();
        let locals = locals.into_iter().map(|t| self.ty(t)).collect();
        o.push(("locals".into(), J::A(locals)));
        let mut dbg = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    dbg.push((p.local.as_usize().to_string(), J::s(v.name.as_str())));
                }
            }
        }
        o.push(("names".into(), J::O(dbg)));
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut stmts = vec![];
            for s in bb.statements.iter() {
                if let Some(j) = self.stmt(&body, s) {
                    stmts.push(j);
                }
            }
            let t = self.term(&body, bb.terminator());
            blocks.push(J::O(vec![
                ("s".into(), J::A(stmts)),
                ("t".into(), t),
                ("cleanup".into(), J::B(bb.is_cleanup)),
            ]));
        }
        o.push(("blocks".into(), J::A(blocks)));
        J::O(o)
    }

    fn stmt(&mut self, body: &Body<'tcx>, s: &Statement<'tcx>) -> Option<J> {
        let sp = self.span(s.source_info.span);
        match &s.kind {
            StatementKind::Assign(b) => {
                let p = self.place(&b.0);
                let r = self.rvalue(body, &b.1);
                Some(J::A(vec![J::s("="), p, r, sp]))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let p = self.place(place);
                Some(J::A(vec![J::s("setdiscr"), p, J::I(variant_index.as_usize() as i128), sp]))
            }
            StatementKind::StorageDead(l) => {
                Some(J::A(vec![J::s("dead"), J::I(l.as_usize() as i128), J::Null, J::Null]))
            }
            StatementKind::StorageLive(l) => {
                Some(J::A(vec![J::s("live"), J::I(l.as_usize() as i128), J::Null, J::Null]))
            }
            StatementKind::Intrinsic(i) => Some(J::A(vec![
                J::s("intrinsic"),
                J::S(format!("{:?}", i)),
                J::Null,
                sp,
            ])),
            _ => None,
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => J::A(vec![J::s("d")]),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![J::s("f"), J::I(f.as_usize() as i128), t])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    J::s("ci"),
                    J::I(offset as i128),
                    J::I(min_length as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![
                    J::s("ss"),
                    J::I(from as i128),
                    J::I(to as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Downcast(_, v) => J::A(vec![J::s("v"), J::I(v.as_usize() as i128)]),
                _ => J::A(vec![J::s("?")]),
            });
        }
        J::A(vec![J::I(p.local.as_usize() as i128), J::A(pr)])
    }

    fn operand(&mut self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => {
                let p = self.place(p);
                J::A(vec![J::s("cp"), p])
            }
            Operand::Move(p) => {
                let p = self.place(p);
                J::A(vec![J::s("mv"), p])
            }
            Operand::Constant(c) => {
                let v = self.constant(&c.const_, c.span);
                let t = self.ty(c.const_.ty());
                J::A(vec![J::s("c"), v, t])
            }
            Operand::RuntimeChecks(_) => J::A(vec![J::s("rc")]),
        }
    }

    fn constant(&mut self, c: &Const<'tcx>, span: Span) -> J {
        let ty = c.ty();
        match ty.kind() {
            ty::FnDef(did, args) => {
                let cj = self.callee(*did, args.skip_binder());
                return J::O(vec![("fn".into(), cj)]);
            }
            _ => {}
        }
        match c.eval(self.tcx, self.env, span) {
            Ok(v) => self.const_value(v, ty),
            Err(_) => J::O(vec![("unk".into(), J::S(format!("{}", c)))]),
        }
    }

    fn const_value(&mut self, v: ConstValue, ty: Ty<'tcx>) -> J {
        match v {
            ConstValue::ZeroSized => self.decode_bytes(&[], &[], ty),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let size = i.size().bytes_usize();
                let bits = i.to_bits(i.size());
                let bytes = bits.to_le_bytes()[..size].to_vec();
                self.decode_bytes(&bytes, &[], ty)
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let bytes = (off.bytes()).to_le_bytes().to_vec();
                self.decode_bytes(&bytes, &[(0, prov.alloc_id())], ty)
            }
            ConstValue::Slice { alloc_id, meta } => {
                let mut bytes = 0u64.to_le_bytes().to_vec();
                bytes.extend(meta.to_le_bytes());
                self.decode_bytes(&bytes, &[(0, alloc_id)], ty)
            }
            ConstValue::Indirect { alloc_id, offset } => match self.tcx.global_alloc(alloc_id) {
                GlobalAlloc::Memory(a) => {
                    let (b, p) = alloc_parts(a.inner());
                    self.decode(&b, &p, offset.bytes_usize(), ty, 0)
                }
                _ => unk("indirect"),
            },
        }
    }

    fn decode_bytes(&mut self, b: &[u8], p: &[(usize, AllocId)], ty: Ty<'tcx>) -> J {
        self.decode(b, p, 0, ty, 0)
    }

    fn decode(&mut self, b: &[u8], p: &[(usize, AllocId)], off: usize, ty: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 {
            return unk("deep");
        }
        let layout = match tcx.layout_of(self.env.as_query_input(ty)) {
            Ok(l) => l,
            Err(_) => return unk("layout"),
        };
        let rd = |o: usize, n: usize| -> Option<u128> {
            if o + n > b.len() {
                return None;
            }
            let mut x = [0u8; 16];
            x[..n].copy_from_slice(&b[o..o + n]);
            Some(u128::from_le_bytes(x))
        };
        match *ty.kind() {
            ty::Bool | ty::Char | ty::Uint(_) => match rd(off, layout.size.bytes_usize()) {
                Some(v) => J::O(vec![("int".into(), J::U(v))]),
                None => unk("short"),
            },
            ty::Int(_) => match rd(off, layout.size.bytes_usize()) {
                Some(v) => {
                    let n = layout.size.bits();
                    let v = if n < 128 && (v >> (n - 1)) & 1 == 1 {
                        v as i128 - (1i128 << n)
                    } else {
                        v as i128
                    };
                    J::O(vec![("int".into(), J::I(v))])
                }
                None => unk("short"),
            },
            ty::FnDef(did, args) => {
                let c = self.callee(did, args.skip_binder());
                J::O(vec![("fn".into(), c)])
            }
            ty::Closure(..) => {
                let t = self.ty(ty);
                J::O(vec![("closure".into(), t)])
            }
            ty::FnPtr(..) => {
                if let Some(&(_, id)) = p.iter().find(|x| x.0 == off) {
                    if let GlobalAlloc::Function { instance } = tcx.global_alloc(id) {
                        let c = self.callee(instance.def_id(), instance.args);
                        return J::O(vec![("fn".into(), c)]);
                    }
                }
                unk("fnptr")
            }
            ty::Tuple(ts) => {
                let ts: Vec<_> = ts.iter().collect();
                let mut v = vec![];
                for (i, t) in ts.into_iter().enumerate() {
                    let o = layout.fields.offset(i).bytes_usize();
                    v.push(self.decode(b, p, off + o, t, depth + 1));
                }
                J::O(vec![("fields".into(), J::A(v))])
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0) as usize;
                let es = match tcx.layout_of(self.env.as_query_input(e)) {
                    Ok(l) => l.size.bytes_usize(),
                    Err(_) => return unk("layout"),
                };
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.decode(b, p, off + i * es, e, depth + 1));
                }
                J::O(vec![("array".into(), J::A(v))])
            }
            ty::Ref(_, t, _) | ty::RawPtr(t, _) => {
                let Some(&(_, id)) = p.iter().find(|x| x.0 == off) else {
                    if let ty::Slice(_) | ty::Str = t.kind() {
                        if rd(off + 8, 8) == Some(0) {
                            return J::O(vec![("ref".into(), J::O(vec![("array".into(), J::A(vec![]))]))]);
                        }
                    }
                    return J::O(vec![("ref".into(), self.zst_or_unk(t, depth))]);
                };
                let tgt = rd(off, 8).unwrap_or(0) as usize;
                let GlobalAlloc::Memory(a) = tcx.global_alloc(id) else { return unk("ptr") };
                let (ab, ap) = alloc_parts(a.inner());
                let inner = match *t.kind() {
                    ty::Str => {
                        let n = rd(off + 8, 8).unwrap_or(0) as usize;
                        let s: String = ab[tgt..tgt + n].iter().map(|b| format!("{:02x}", b)).collect();
                        J::O(vec![("str".into(), J::S(s))])
                    }
                    ty::Slice(e) => {
                        let n = rd(off + 8, 8).unwrap_or(0) as usize;
                        let es = match tcx.layout_of(self.env.as_query_input(e)) {
                            Ok(l) => l.size.bytes_usize(),
                            Err(_) => return unk("layout"),
                        };
                        let mut v = vec![];
                        for i in 0..n {
                            v.push(self.decode(&ab, &ap, tgt + i * es, e, depth + 1));
                        }
                        J::O(vec![("array".into(), J::A(v))])
                    }
                    _ => self.decode(&ab, &ap, tgt, t, depth + 1),
                };
                J::O(vec![("ref".into(), inner)])
            }
            ty::Adt(adt, args) => {
                if adt.is_union() {
                    return unk("union");
                }
                let (vidx, vlayout) = if adt.is_enum() {
                    match &layout.variants {
                        Variants::Empty => return unk("empty"),
                        Variants::Single { index } => (*index, layout),
                        Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                            let to = layout.fields.offset(tag_field.as_usize()).bytes_usize();
                            let ts = tag.size(&tcx).bytes_usize();
                            let isptr = p.iter().any(|x| x.0 == off + to);
                            let Some(tagv) = rd(off + to, ts) else { return unk("tag") };
                            let vi = match tag_encoding {
                                TagEncoding::Direct => {
                                    let mut f = None;
                                    for (vi, d) in adt.discriminants(tcx) {
                                        let mask = if ts == 16 { u128::MAX } else { (1u128 << (ts * 8)) - 1 };
                                        if d.val & mask == tagv {
                                            f = Some(vi);
                                        }
                                    }
                                    match f {
                                        Some(v) => v,
                                        None => return unk("discr"),
                                    }
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    if isptr {
                                        *untagged_variant
                                    } else {
                                        let mask = if ts == 16 { u128::MAX } else { (1u128 << (ts * 8)) - 1 };
                                        let rel = tagv.wrapping_sub(*niche_start) & mask;
                                        let n = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                                        if rel <= n {
                                            VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32)
                                        } else {
                                            *untagged_variant
                                        }
                                    }
                                }
                            };
                            let cx = ty::layout::LayoutCx::new(tcx, self.env);
                            (vi, layout.for_variant(&cx, vi))
                        }
                    }
                } else {
                    (VariantIdx::from_u32(0), layout)
                };
                let nf = adt.variant(vidx).fields.len();
                let mut fs = vec![];
                for i in 0..nf {
                    let ft = adt.variant(vidx).fields[FieldIdx::from_usize(i)].ty(tcx, args);
                    let ft = self.norm_unnormalized(ft);
                    let o = vlayout.fields.offset(i).bytes_usize();
                    fs.push(self.decode(b, p, off + o, ft, depth + 1));
                }
                let t = self.ty(ty);
                J::O(vec![
                    ("adt".into(), t),
                    ("variant".into(), J::I(vidx.as_usize() as i128)),
                    ("fields".into(), J::A(fs)),
                ])
            }
            _ => unk("type"),
        }
    }

    fn zst_or_unk(&mut self, t: Ty<'tcx>, depth: usize) -> J {
        match self.tcx.layout_of(self.env.as_query_input(t)) {
            Ok(l) if l.is_zst() => self.decode(&[], &[], 0, t, depth + 1),
            _ => unk("noprov"),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => {
                let o = self.operand(o);
                J::A(vec![J::s("use"), o])
            }
            Rvalue::Repeat(o, n) => {
                let o = self.operand(o);
                J::A(vec![
                    J::s("rep"),
                    o,
                    n.try_to_target_usize(tcx).map_or(J::Null, |n| J::I(n as i128)),
                ])
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                let p = self.place(p);
                J::A(vec![J::s("ref"), J::B(m), p])
            }
            Rvalue::RawPtr(_, p) => {
                let p = self.place(p);
                J::A(vec![J::s("ref"), J::B(true), p])
            }
            Rvalue::Reborrow(_, _, p) => {
                let p = self.place(p);
                J::A(vec![J::s("use"), J::A(vec![J::s("cp"), p])])
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, tcx);
                let from = self.ty(from);
                let oj = self.operand(o);
                let t = self.ty(*t);
                let ks = match k {
                    CastKind::PointerCoercion(c, _) => format!("coerce:{:?}", c),
                    k => format!("{:?}", k),
                };
                J::A(vec![J::s("cast"), J::S(ks), oj, from, t])
            }
            Rvalue::BinaryOp(op, b) => {
                let lt = b.0.ty(&body.local_decls, tcx);
                let lt = self.ty(lt);
                let x = self.operand(&b.0);
                let y = self.operand(&b.1);
                J::A(vec![J::s("bin"), J::S(format!("{:?}", op)), x, y, lt])
            }
            Rvalue::UnaryOp(op, o) => {
                let lt = o.ty(&body.local_decls, tcx);
                let lt = self.ty(lt);
                let x = self.operand(o);
                J::A(vec![J::s("un"), J::S(format!("{:?}", op)), x, lt])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let t = self.ty(t);
                let p = self.place(p);
                J::A(vec![J::s("discr"), p, t])
            }
            Rvalue::Aggregate(k, ops) => {
                let kj = match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        J::A(vec![J::s("array"), t])
                    }
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(did, vi, args, _, _) => {
                        let t = Ty::new_adt(tcx, tcx.adt_def(*did), args);
                        let t = self.ty(t);
                        J::A(vec![J::s("adt"), t, J::I(vi.as_usize() as i128)])
                    }
                    AggregateKind::Closure(did, args) => {
                        let t = Ty::new_closure(tcx, *did, args);
                        let t = self.ty(t);
                        J::A(vec![J::s("closure"), t])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![J::s("rawptr")]),
                    _ => J::A(vec![J::s("?")]),
                };
                let v = ops.iter().map(|o| self.operand(o)).collect();
                J::A(vec![J::s("agg"), kj, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                J::A(vec![J::s("use"), J::A(vec![J::s("cp"), p])])
            }
            _ => J::A(vec![J::s("?"), J::S(format!("{:?}", r))]),
        }
    }

    fn term(&mut self, body: &Body<'tcx>, t: &Terminator<'tcx>) -> J {
        let tcx = self.tcx;
        let sp = self.span(t.source_info.span);
        let bb = |b: BasicBlock| J::I(b.as_usize() as i128);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::A(vec![J::s("goto"), bb(*target), sp]),
            TerminatorKind::FalseEdge { real_target, .. } => {
                J::A(vec![J::s("goto"), bb(*real_target), sp])
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                J::A(vec![J::s("goto"), bb(*real_target), sp])
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let dt = discr.ty(&body.local_decls, tcx);
                let dt = self.ty(dt);
                let d = self.operand(discr);
                let ts = targets
                    .iter()
                    .map(|(v, b)| J::A(vec![J::U(v), bb(b)]))
                    .collect();
                J::A(vec![J::s("switch"), d, J::A(ts), bb(targets.otherwise()), dt, sp])
            }
            TerminatorKind::Return => J::A(vec![J::s("return"), sp]),
            TerminatorKind::Unreachable => J::A(vec![J::s("unreachable"), sp]),
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(&body.local_decls, tcx).ty;
                let ty = self.ty(ty);
                let p = self.place(place);
                J::A(vec![J::s("drop"), p, bb(*target), ty, sp])
            }
            TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                let f = self.operand(func);
                let a = args.iter().map(|a| self.operand(&a.node)).collect();
                let atys = args
                    .iter()
                    .map(|a| a.node.ty(&body.local_decls, tcx))
                    .collect::<Vec<_>>();
                let atys = atys.into_iter().map(|t| self.ty(t)).collect();
                let dt = destination.ty(&body.local_decls, tcx).ty;
                let dt = self.ty(dt);
                let d = self.place(destination);
                let fsp = self.span(*fn_span);
                J::A(vec![
                    J::s("call"),
                    f,
                    J::A(a),
                    d,
                    target.map_or(J::Null, bb),
                    fsp,
                    J::A(atys),
                    dt,
                ])
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let c = self.operand(cond);
                let kind = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                    AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                    AssertKind::OverflowNeg(_) => "overflow:Neg".into(),
                    AssertKind::DivisionByZero(_) => "divzero".into(),
                    AssertKind::RemainderByZero(_) => "remzero".into(),
                    k => format!("other:{:?}", std::mem::discriminant(k)),
                };
                let ops = match &**msg {
                    AssertKind::BoundsCheck { len, index } => vec![self.operand(len), self.operand(index)],
                    AssertKind::Overflow(_, a, b) => vec![self.operand(a), self.operand(b)],
                    AssertKind::OverflowNeg(a)
                    | AssertKind::DivisionByZero(a)
                    | AssertKind::RemainderByZero(a) => vec![self.operand(a)],
                    _ => vec![],
                };
                J::A(vec![J::s("assert"), c, J::B(*expected), J::S(kind), bb(*target), J::A(ops), sp])
            }
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                J::A(vec![J::s("resume"), sp])
            }
            k => J::A(vec![J::s("?"), J::S(format!("{:?}", k)), sp]),
        }
    }
}

fn unk(s: &str) -> J {
    J::O(vec![("unk".into(), J::s(s))])
}

fn alloc_parts(a: &Allocation) -> (Vec<u8>, Vec<(usize, AllocId)>) {
    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len()).to_vec();
    let p = a
        .provenance()
        .ptrs()
        .iter()
        .map(|(o, p)| (o.bytes_usize(), p.alloc_id()))
        .collect();
    let _ = Size::ZERO;
    (b, p)
}

fn main() -> std::process::ExitCode {
    rustc_driver::catch_with_exit_code(|| {
        let args: Vec<String> = std::env::args().collect();
        rustc_driver::compiler_entrypoint(&args[1..], &mut Cb)
    })
}
