//! mirfacts: a rustc driver (used as RUSTC_WORKSPACE_WRAPPER) that type-checks the crate with the
//! real compiler and writes, as JSON, the monomorphic MIR of every function reachable from the
//! crate's own functions, plus types, trait impls, unsafe blocks and visibility.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::def_id::{DefId, LOCAL_CRATE};
use std::collections::{HashMap, VecDeque};

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Ok(dir) = std::env::var("MIRFACTS_OUT") {
            let name = tcx.crate_name(LOCAL_CRATE).to_string();
            let want = std::env::var("MIRFACTS_CRATES").unwrap_or_default();
            if want.split(',').any(|w| w == name) {
                let j = Dump::new(tcx).run(&name);
                let path = format!("{dir}/{name}.json");
                std::fs::write(&path, j.to_string()).unwrap();
            }
        }
        Compilation::Continue
    }
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_list: Vec<J>,
    inst: HashMap<Instance<'tcx>, usize>,
    inst_list: Vec<Instance<'tcx>>,
    queue: VecDeque<usize>,
}

fn s<T: ToString>(x: T) -> J {
    J::S(x.to_string())
}
fn n(x: usize) -> J {
    J::I(x as i128)
}

impl<'tcx> Dump<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Dump {
            tcx,
            types: HashMap::new(),
            type_list: vec![],
            inst: HashMap::new(),
            inst_list: vec![],
            queue: VecDeque::new(),
        }
    }
    fn env(&self) -> TypingEnv<'tcx> {
        TypingEnv::fully_monomorphized()
    }

    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(
            rustc_middle::ty::print::with_crate_prefix!(self.tcx.def_path_str(d))
        ))
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(
            rustc_middle::ty::print::with_crate_prefix!(t.to_string())
        ))
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(sp.lo());
        let f = format!("{:?}", loc.file.name);
        let f = if let Some(i) = f.find('"') {
            let r = &f[i + 1..];
            r[..r.find('"').unwrap_or(r.len())].to_string()
        } else {
            f
        };
        s(format!("{}:{}", f, loc.line))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let i = self.type_list.len();
        self.types.insert(t, i);
        self.type_list.push(J::Null);
        let mut o: Vec<(&'static str, J)> = vec![("s", s(self.tystr(t)))];
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Int(it) => {
                o.push(("k", s("int")));
                o.push(("bits", n(it.bit_width().unwrap_or(64) as usize)));
            }
            ty::Uint(it) => {
                o.push(("k", s("uint")));
                o.push(("bits", n(it.bit_width().unwrap_or(64) as usize)));
            }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(self.path(def.did()))));
                o.push((
                    "akind",
                    s(if def.is_enum() {
                        "enum"
                    } else if def.is_union() {
                        "union"
                    } else {
                        "struct"
                    }),
                ));
                let targs: Vec<J> =
                    args.iter().filter_map(|a| a.as_type()).map(|t| n(self.ty(t))).collect();
                o.push(("args", J::A(targs)));
                let mut vs = vec![];
                if !def.is_union() {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() {
                            J::S(def.discriminant_for_variant(self.tcx, vi).val.to_string())
                        } else {
                            J::Null
                        };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(self.tcx, args);
                            let ft = self.tcx.try_normalize_erasing_regions(self.env(), ft);
                            let fti = match ft {
                                Ok(ft) => n(self.ty(ft)),
                                Err(_) => J::Null,
                            };
                            fs.push(J::O(vec![
                                ("n", s(f.name)),
                                ("t", fti),
                                ("pub", J::B(f.vis.is_public())),
                            ]));
                        }
                        vs.push(J::O(vec![("n", s(v.name)), ("d", discr), ("f", J::A(fs))]));
                    }
                }
                o.push(("vs", J::A(vs)));
                o.push(("local", J::B(def.did().is_local())));
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let i = self.ty(*inner);
                o.push(("t", n(i)));
            }
            ty::RawPtr(inner, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                let i = self.ty(*inner);
                o.push(("t", n(i)));
            }
            ty::Array(e, len) => {
                o.push(("k", s("array")));
                let i = self.ty(*e);
                o.push(("t", n(i)));
                o.push((
                    "len",
                    match len.try_to_target_usize(self.tcx) {
                        Some(l) => n(l as usize),
                        None => J::Null,
                    },
                ));
            }
            ty::Slice(e) => {
                o.push(("k", s("slice")));
                let i = self.ty(*e);
                o.push(("t", n(i)));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|t| n(self.ty(t))).collect();
                o.push(("ts", J::A(v)));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("path", s(self.path(*d))));
                let ups: Vec<J> =
                    args.as_closure().upvar_tys().iter().map(|t| n(self.ty(t))).collect();
                o.push(("ups", J::A(ups)));
                let kind = args.as_closure().kind();
                let i = Instance::resolve_closure(self.tcx, *d, args, kind);
                let k = self.instance(i);
                o.push(("fn", n(k)));
                o.push(("ckind", s(format!("{kind:?}"))));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                let args = args.no_bound_vars().unwrap_or_else(|| {
                    self.tcx.erase_and_anonymize_regions(args.skip_binder())
                });
                let c = self.callee(*d, args);
                o.push(("callee", c));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            _ => o.push(("k", s("other"))),
        }
        self.type_list[i] = J::O(o);
        i
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("p", s(self.path(d)))];
        let targs: Vec<J> = args.iter().filter_map(|a| a.as_type()).map(|t| n(self.ty(t))).collect();
        o.push(("a", J::A(targs)));
        if !args.has_param() {
            match Instance::try_resolve(tcx, self.env(), d, args) {
                Ok(Some(i)) => match i.def {
                    ty::InstanceKind::Virtual(..) => o.push(("virt", J::B(true))),
                    ty::InstanceKind::Intrinsic(_) => {
                        o.push(("intr", s(tcx.item_name(i.def_id()))));
                    }
                    _ => {
                        let k = self.instance(i);
                        o.push(("i", n(k)));
                    }
                },
                _ => {}
            }
        }
        J::O(o)
    }

    fn instance(&mut self, i: Instance<'tcx>) -> usize {
        let i = self.tcx.erase_and_anonymize_regions(i);
        if let Some(&k) = self.inst.get(&i) {
            return k;
        }
        let k = self.inst_list.len();
        self.inst.insert(i, k);
        self.inst_list.push(i);
        self.queue.push_back(k);
        k
    }

    fn want_body(&self, i: Instance<'tcx>) -> bool {
        let d = i.def_id();
        match i.def {
            ty::InstanceKind::Item(_) => {}
            ty::InstanceKind::Shim(
                ty::ShimKind::ClosureOnce { .. } | ty::ShimKind::FnPtr(..) | ty::ShimKind::Clone(..),
            ) => {
                return true;
            }
            _ => return false,
        }
        if !self.tcx.is_mir_available(d) {
            return false;
        }
        if d.is_local() {
            return true;
        }
        let c = self.tcx.crate_name(d.krate).to_string();
        if c == "cesride" {
            return true;
        }
        if c != "core" && c != "alloc" {
            return false;
        }
        let p = self.tcx.def_path(d).to_string_no_crate_verbose();
        const OK: &[&str] = &[
            "::option", "::result", "::iter", "::cmp", "::ops", "::convert", "::bool", "::clone",
            "::default", "::tuple", "::array", "::char", "::borrow", "::slice", "::str", "::num",
            "::internal_macros", "::mem",
        ];
        OK.iter().any(|k| p.starts_with(k))
    }

    fn scalar(&self, sc: Scalar, t: Ty<'tcx>) -> J {
        match sc {
            Scalar::Int(i) => {
                let bits = i.size().bits();
                let u = i.to_bits(i.size());
                match t.kind() {
                    ty::Int(_) => {
                        let sh = 128 - bits;
                        J::S((((u << sh) as i128) >> sh).to_string())
                    }
                    _ => J::S(u.to_string()),
                }
            }
            Scalar::Ptr(..) => J::Null,
        }
    }

    fn read_ptr(
        &self,
        alloc_id: mir::interpret::AllocId,
        off: rustc_abi::Size,
    ) -> Option<(mir::interpret::AllocId, rustc_abi::Size)> {
        let GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) else { return None };
        let sz = self.tcx.data_layout.pointer_size();
        let sc = a
            .inner()
            .read_scalar(&self.tcx, mir::interpret::alloc_range(off, sz), true)
            .ok()?;
        if let Scalar::Ptr(p, _) = sc {
            let (prov, o) = p.prov_and_relative_offset();
            Some((prov.alloc_id(), o))
        } else {
            None
        }
    }
    fn read_usize(&self, alloc_id: mir::interpret::AllocId, off: rustc_abi::Size) -> Option<u64> {
        let GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) else { return None };
        let sz = self.tcx.data_layout.pointer_size();
        let sc = a
            .inner()
            .read_scalar(&self.tcx, mir::interpret::alloc_range(off, sz), false)
            .ok()?;
        sc.to_target_usize(&self.tcx).discard_err()
    }

    fn pointee(
        &mut self,
        id: mir::interpret::AllocId,
        off: rustc_abi::Size,
        meta: Option<u64>,
        inner: Ty<'tcx>,
        depth: usize,
    ) -> J {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Static(d) => {
                if d.is_local() {
                    return J::O(vec![("static", s(self.path(d)))]);
                }
                J::O(vec![("static", s(self.path(d)))])
            }
            GlobalAlloc::Function { instance } => {
                let k = self.instance(instance);
                J::O(vec![("fnptr", n(k))])
            }
            GlobalAlloc::Memory(a) => match (inner.kind(), meta) {
                (ty::Str, Some(l)) => {
                    let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                        off.bytes_usize()..off.bytes_usize() + l as usize,
                    );
                    J::O(vec![("str", s(String::from_utf8_lossy(b)))])
                }
                (ty::Slice(e), Some(l)) => {
                    if l > 100_000 {
                        return J::Null;
                    }
                    let Ok(lay) = self.tcx.layout_of(self.env().as_query_input(*e)) else {
                        return J::Null;
                    };
                    let mut v = vec![];
                    for i in 0..l {
                        let val =
                            ConstValue::Indirect { alloc_id: id, offset: off + lay.size * i };
                        v.push(self.cval(val, *e, depth + 1));
                    }
                    J::O(vec![("slice", J::A(v))])
                }
                (_, None) => {
                    let val = ConstValue::Indirect { alloc_id: id, offset: off };
                    let v = self.cval(val, inner, depth + 1);
                    J::O(vec![("ref", v)])
                }
                _ => J::Null,
            },
            _ => J::Null,
        }
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 {
            return J::Null;
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => match v {
                ConstValue::Scalar(sc) => J::O(vec![("int", self.scalar(sc, t))]),
                ConstValue::Indirect { alloc_id, offset } => {
                    let Ok(lay) = tcx.layout_of(self.env().as_query_input(t)) else {
                        return J::Null;
                    };
                    let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else {
                        return J::Null;
                    };
                    match a.inner().read_scalar(
                        &tcx,
                        mir::interpret::alloc_range(offset, lay.size),
                        false,
                    ) {
                        Ok(sc) => J::O(vec![("int", self.scalar(sc, t))]),
                        Err(_) => J::Null,
                    }
                }
                _ => J::Null,
            },
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => match v {
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, o) = p.prov_and_relative_offset();
                    self.pointee(prov.alloc_id(), o, None, *inner, depth)
                }
                ConstValue::Slice { alloc_id, meta } => {
                    self.pointee(alloc_id, rustc_abi::Size::ZERO, Some(meta), *inner, depth)
                }
                ConstValue::Indirect { alloc_id, offset } => {
                    let Some((id, o)) = self.read_ptr(alloc_id, offset) else { return J::Null };
                    let meta = match inner.kind() {
                        ty::Str | ty::Slice(_) => {
                            self.read_usize(alloc_id, offset + tcx.data_layout.pointer_size())
                        }
                        _ => None,
                    };
                    self.pointee(id, o, meta, *inner, depth)
                }
                _ => J::Null,
            },
            ty::FnPtr(..) => match v {
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, o) = p.prov_and_relative_offset();
                    let _ = o;
                    match tcx.global_alloc(prov.alloc_id()) {
                        GlobalAlloc::Function { instance } => {
                            let k = self.instance(instance);
                            J::O(vec![("fnptr", n(k))])
                        }
                        _ => J::Null,
                    }
                }
                _ => J::Null,
            },
            ty::Tuple(ts) if ts.is_empty() => J::O(vec![("agg", J::A(vec![]))]),
            ty::FnDef(..) | ty::Closure(..) => J::O(vec![("zst", J::B(true))]),
            ty::Array(..) | ty::Tuple(_) => {
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(d) => {
                        let f: Vec<J> =
                            d.fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                        J::O(vec![("agg", J::A(f))])
                    }
                    None => J::Null,
                }
            }
            ty::Adt(def, _) => {
                if def.is_union() || def.variants().is_empty() {
                    return J::Null;
                }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(d) => {
                        let f: Vec<J> =
                            d.fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                        J::O(vec![
                            ("adt", n(d.variant.map(|v| v.as_usize()).unwrap_or(0))),
                            ("f", J::A(f)),
                        ])
                    }
                    None => J::Null,
                }
            }
            _ => J::Null,
        }
    }

    fn const_op(&mut self, c: &mir::ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut o = vec![("c", n(ti))];
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                o.push(("cn", s(self.path(u.def))));
            }
        }
        let v = match c.const_.eval(self.tcx, self.env(), c.span) {
            Ok(v) => self.cval(v, t, 0),
            Err(_) => J::Null,
        };
        o.push(("v", v));
        J::O(o)
    }

    fn place(&mut self, p: &mir::Place<'tcx>) -> J {
        let mut v = vec![n(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                mir::ProjectionElem::Deref => s("*"),
                mir::ProjectionElem::Field(f, t) => {
                    let ti = self.ty(t);
                    J::A(vec![s("f"), n(f.as_usize()), n(ti)])
                }
                mir::ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                mir::ProjectionElem::ConstantIndex { offset, min_length: _, from_end } => {
                    J::A(vec![s("ci"), n(offset as usize), J::B(from_end)])
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), n(from as usize), n(to as usize), J::B(from_end)])
                }
                mir::ProjectionElem::Downcast(_, v) => J::A(vec![s("d"), n(v.as_usize())]),
                mir::ProjectionElem::OpaqueCast(_) => s("o"),
                _ => s("?"),
            });
        }
        J::A(v)
    }

    fn operand(&mut self, op: &mir::Operand<'tcx>) -> J {
        match op {
            mir::Operand::Copy(p) => J::O(vec![("p", self.place(p))]),
            mir::Operand::Move(p) => J::O(vec![("m", self.place(p))]),
            mir::Operand::Constant(c) => self.const_op(c),
            mir::Operand::RuntimeChecks(_) => J::O(vec![("rt", J::B(true))]),
        }
    }

    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>, body: &mir::Body<'tcx>) -> J {
        use mir::Rvalue::*;
        match r {
            Use(o, _) => J::A(vec![s("use"), self.operand(o)]),
            Repeat(o, c) => J::A(vec![
                s("rep"),
                self.operand(o),
                match c.try_to_target_usize(self.tcx) {
                    Some(l) => n(l as usize),
                    None => J::Null,
                },
            ]),
            Ref(_, bk, p) => J::A(vec![
                s("ref"),
                self.place(p),
                J::B(matches!(bk, mir::BorrowKind::Mut { .. })),
            ]),
            RawPtr(_, p) => J::A(vec![s("ptr"), self.place(p)]),
            Reborrow(_, _, p) => J::A(vec![s("reborrow"), self.place(p)]),
            ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Cast(k, o, t) => {
                let ti = self.ty(*t);
                let from = o.ty(&body.local_decls, self.tcx);
                let fi = self.ty(from);
                J::A(vec![s("cast"), s(format!("{k:?}")), self.operand(o), n(ti), n(fi)])
            }
            BinaryOp(b, ops) => {
                let t = ops.0.ty(&body.local_decls, self.tcx);
                let ti = self.ty(t);
                J::A(vec![
                    s("bin"),
                    s(format!("{b:?}")),
                    self.operand(&ops.0),
                    self.operand(&ops.1),
                    n(ti),
                ])
            }
            UnaryOp(u, o) => {
                let t = o.ty(&body.local_decls, self.tcx);
                let ti = self.ty(t);
                J::A(vec![s("un"), s(format!("{u:?}")), self.operand(o), n(ti)])
            }
            Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let ti = self.ty(t);
                J::A(vec![s("discr"), self.place(p), n(ti)])
            }
            Aggregate(k, ops) => {
                let f: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                match &**k {
                    mir::AggregateKind::Array(t) => {
                        let ti = self.ty(*t);
                        J::A(vec![s("arr"), n(ti), J::A(f)])
                    }
                    mir::AggregateKind::Tuple => J::A(vec![s("tup"), J::A(f)]),
                    mir::AggregateKind::Adt(d, v, args, _, uf) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), args);
                        let ti = self.ty(t);
                        J::A(vec![
                            s("adt"),
                            n(ti),
                            n(v.as_usize()),
                            J::A(f),
                            match uf {
                                Some(u) => n(u.as_usize()),
                                None => J::Null,
                            },
                        ])
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let ti = self.ty(t);
                        J::A(vec![s("clo"), n(ti), J::A(f)])
                    }
                    _ => J::A(vec![s("agg?"), J::A(f)]),
                }
            }
            CopyForDeref(p) => J::A(vec![s("use"), J::O(vec![("p", self.place(p))])]),
            _ => J::A(vec![s("?")]),
        }
    }

    fn body(&mut self, i: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let b = tcx.instance_mir(i.def).clone();
        let body = i.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env(),
            ty::EarlyBinder::bind(tcx, b),
        );
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            locals.push(n(self.ty(l.ty)));
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                let p = self.place(p);
                names.push(J::A(vec![s(v.name), p]));
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    mir::StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1, &body);
                        st.push(J::A(vec![s("="), p, r, self.span(x.source_info.span)]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![s("sd"), p, n(variant_index.as_usize())]));
                    }
                    mir::StatementKind::Intrinsic(x) => {
                        if !matches!(**x, mir::NonDivergingIntrinsic::Assume(_)) {
                            st.push(J::A(vec![s("intr")]));
                        }
                    }
                    mir::StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![s("dead"), n(l.as_usize())]));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = self.span(term.source_info.span);
            let uw = |u: &mir::UnwindAction| match u {
                mir::UnwindAction::Cleanup(b) => n(b.as_usize()),
                _ => J::Null,
            };
            use mir::TerminatorKind::*;
            let t = match &term.kind {
                Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
                SwitchInt { discr, targets } => {
                    let t = discr.ty(&body.local_decls, tcx);
                    let ti = self.ty(t);
                    let tv: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![J::S(v.to_string()), n(b.as_usize())]))
                        .collect();
                    J::A(vec![
                        s("switch"),
                        self.operand(discr),
                        J::A(tv),
                        n(targets.otherwise().as_usize()),
                        n(ti),
                    ])
                }
                UnwindResume | UnwindTerminate(_) => J::A(vec![s("resume")]),
                Return => J::A(vec![s("ret")]),
                Unreachable => J::A(vec![s("unreachable")]),
                Drop { place, target, unwind, .. } => {
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let t = self.ty(t);
                    J::A(vec![s("drop"), self.place(place), n(target.as_usize()), n(t), uw(unwind)])
                }
                Call { func, args, destination, target, unwind, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let f = if let ty::FnDef(d, a) = ft.kind() {
                        let a = a.no_bound_vars().unwrap_or_else(|| {
                            tcx.erase_and_anonymize_regions(a.skip_binder())
                        });
                        self.callee(*d, a)
                    } else {
                        J::O(vec![("dyn", self.operand(func))])
                    };
                    let a: Vec<J> = args.iter().map(|a| self.operand(&a.node)).collect();
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        self.place(destination),
                        match target {
                            Some(t) => n(t.as_usize()),
                            None => J::Null,
                        },
                        sp.clone(),
                        uw(unwind),
                    ])
                }
                Assert { cond, expected, msg, target, unwind } => J::A(vec![
                    s("assert"),
                    self.operand(cond),
                    J::B(*expected),
                    n(target.as_usize()),
                    s(match &**msg {
                        mir::AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        mir::AssertKind::Overflow(op, ..) => format!("overflow {op:?}"),
                        mir::AssertKind::OverflowNeg(_) => "overflow Neg".to_string(),
                        mir::AssertKind::DivisionByZero(_) => "div by zero".to_string(),
                        mir::AssertKind::RemainderByZero(_) => "rem by zero".to_string(),
                        _ => "other".to_string(),
                    }),
                    sp.clone(),
                    uw(unwind),
                ]),
                _ => J::A(vec![s("?")]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", t),
                ("sp", sp),
                ("cl", J::B(bb.is_cleanup)),
            ]));
        }
        J::O(vec![
            ("argc", n(body.arg_count)),
            ("spread", body.spread_arg.map(|l| n(l.as_usize())).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn run(mut self, name: &str) -> J {
        let tcx = self.tcx;
        let mut roots = vec![];
        let mut statics = vec![];
        let mut consts = vec![];
        for &ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if matches!(tcx.def_kind(d), DefKind::Closure) {
                        continue;
                    }
                    let g = tcx.generics_of(d);
                    if g.requires_monomorphization(tcx) {
                        continue;
                    }
                    let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                        _ => unreachable!(),
                    });
                    let i = Instance::new_raw(d, args);
                    roots.push(n(self.instance(i)));
                }
                DefKind::Static { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let ti = self.ty(t);
                    let mt = tcx.static_mutability(d).map(|m| m.is_mut()).unwrap_or(false);
                    let frozen = t.is_freeze(tcx, self.env());
                    let v = if !mt && frozen {
                        match tcx.eval_static_initializer(d) {
                            Ok(a) => {
                                let id = tcx.reserve_and_set_memory_alloc(a);
                                let at = ConstValue::Indirect {
                                    alloc_id: id,
                                    offset: rustc_abi::Size::ZERO,
                                };
                                self.cval(at, t, 0)
                            }
                            Err(_) => J::Null,
                        }
                    } else {
                        J::Null
                    };
                    statics.push(J::O(vec![
                        ("v", v),
                        ("path", s(self.path(d))),
                        ("t", n(ti)),
                        ("mut", J::B(mt)),
                        ("sp", self.span(tcx.def_span(d))),
                    ]));
                }
                _ => {}
            }
        }
        // constants
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            let k = tcx.def_kind(d);
            if matches!(k, DefKind::Const { .. } | DefKind::AssocConst { .. }) {
                if tcx.generics_of(d).requires_monomorphization(tcx) {
                    continue;
                }
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let t = tcx.erase_and_anonymize_regions(t);
                if let Ok(v) = tcx.const_eval_poly(d) {
                    let jv = self.cval(v, t, 0);
                    let ti = self.ty(t);
                    consts.push(J::O(vec![
                        ("path", s(self.path(d))),
                        ("t", n(ti)),
                        ("v", jv),
                        ("pub", J::B(tcx.visibility(d).is_public())),
                        ("sp", self.span(tcx.def_span(d))),
                    ]));
                }
            }
        }
        // trait impls, default methods
        let mut impls = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Impl { .. }) {
                continue;
            }
            let self_ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let generic = tcx.generics_of(d).requires_monomorphization(tcx);
            let mut fns = vec![];
            for it in tcx.associated_items(d).in_definition_order() {
                fns.push(s(it.name()));
            }
            let mut o = vec![
                ("self", s(self.tystr(self_ty))),
                ("fns", J::A(fns)),
                ("sp", self.span(tcx.def_span(d))),
                ("generic", J::B(generic)),
                ("path", s(self.path(d))),
                ("derived", J::B(tcx.is_builtin_derived(d))),
            ];
            if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let tr = tcx.erase_and_anonymize_regions(tr);
                o.push(("trait", s(self.path(tr.def_id))));
                let ta: Vec<J> = tr.args.iter().filter_map(|a| a.as_type()).map(|t| s(self.tystr(t))).collect();
                o.push(("trait_args", J::A(ta)));
                let mut ms = vec![];
                if !generic {
                    for it in tcx.associated_items(tr.def_id).in_definition_order() {
                        if !matches!(it.kind, ty::AssocKind::Fn { .. }) {
                            continue;
                        }
                        if tcx.generics_of(it.def_id).own_requires_monomorphization() {
                            continue;
                        }
                        if !tr.def_id.is_local()
                            && !tcx
                                .associated_items(d)
                                .in_definition_order()
                                .any(|x| x.name() == it.name())
                        {
                            continue;
                        }
                        let args = ty::GenericArgs::for_item(tcx, it.def_id, |p, _| {
                            if (p.index as usize) < tr.args.len() {
                                tr.args[p.index as usize]
                            } else {
                                tcx.lifetimes.re_erased.into()
                            }
                        });
                        if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env(), it.def_id, args) {
                            let k = self.instance(i);
                            ms.push(J::A(vec![s(it.name()), n(k)]));
                        }
                    }
                }
                o.push(("methods", J::A(ms)));
            }
            impls.push(J::O(o));
        }
        // unsafe blocks in HIR
        let mut unsafes = vec![];
        for ld in tcx.hir_body_owners() {
            let body = tcx.hir_body_owned_by(ld);
            let mut v = UnsafeFinder { found: vec![] };
            rustc_hir::intravisit::Visitor::visit_body(&mut v, body);
            for sp in v.found {
                unsafes.push(J::A(vec![
                    s(self.path(ld.to_def_id())),
                    self.span(sp),
                    J::B(sp.from_expansion()),
                ]));
            }
        }
        let mut adts = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                let g = tcx.generics_of(d).requires_monomorphization(tcx);
                let mut o = vec![
                    ("path", s(self.path(d))),
                    ("pub", J::B(tcx.visibility(d).is_public())),
                    ("reach", J::B(tcx.effective_visibilities(()).is_reachable(ld))),
                ];
                if !g {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let ti = self.ty(t);
                    o.push(("t", n(ti)));
                    let t = tcx.erase_and_anonymize_regions(t);
                    for (k, tn) in [("send", rustc_span::sym::Send), ("sync", rustc_span::sym::Sync)] {
                        if let Some(td) = tcx.get_diagnostic_item(tn).or_else(|| {
                            if k == "sync" { tcx.lang_items().sync_trait() } else { None }
                        }) {
                            use rustc_middle::ty::Upcast;
                            let _ = td;
                            let tr = ty::TraitRef::new(tcx, td, [t]);
                            let pred: ty::Predicate<'tcx> = tr.upcast(tcx);
                            let _ = pred;
                            o.push((k, J::B(type_implements(tcx, tr))));
                        }
                    }
                }
                adts.push(J::O(o));
            }
        }

        let mut fns = vec![];
        let mut done = 0usize;
        while done < self.inst_list.len() {
            let i = self.inst_list[done];
            done += 1;
            let d = i.def_id();
            let mut o: Vec<(&'static str, J)> = vec![
                ("p", s(self.path(d))),
                ("kr", s(tcx.crate_name(d.krate))),
                ("local", J::B(d.is_local())),
                ("shim", J::B(!matches!(i.def, ty::InstanceKind::Item(_)))),
            ];
            let targs: Vec<J> =
                i.args.iter().filter_map(|a| a.as_type()).map(|t| n(self.ty(t))).collect();
            o.push(("a", J::A(targs)));
            if let ty::InstanceKind::Shim(ty::ShimKind::DropGlue(_, Some(t))) = i.def {
                let ti = self.ty(t);
                o.push(("drop", n(ti)));
            }
            if d.is_local() {
                o.push(("sp", self.span(tcx.def_span(d))));
                let k = tcx.def_kind(d);
                if matches!(k, DefKind::Fn | DefKind::AssocFn) {
                    o.push(("pub", J::B(tcx.visibility(d).is_public())));
                    o.push((
                        "reach",
                        J::B(tcx.effective_visibilities(()).is_reachable(d.expect_local())),
                    ));
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                    o.push(("unsafe", J::B(!sig.safety().is_safe())));
                }
                if let Some(imp) = tcx.impl_of_assoc(d) {
                    let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                    o.push(("impl_self", s(self.tystr(st))));
                    if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                        o.push(("impl_trait", s(self.path(tr.skip_binder().def_id))));
                    }
                    o.push(("derived", J::B(tcx.is_builtin_derived(imp))));
                }
                if let Some(tr) = tcx.trait_of_assoc(d) {
                    o.push(("trait", s(self.path(tr))));
                }
                o.push(("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
            }
            if self.want_body(i) {
                let b = self.body(i);
                o.push(("body", b));
            } else if matches!(i.def, ty::InstanceKind::Item(_))
                && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
            {
                // the argument types, so that what a callee could write through is known
                let sig = tcx.fn_sig(d).instantiate(tcx, i.args).skip_norm_wip();
                let sig = tcx.instantiate_bound_regions_with_erased(sig);
                let mut ts = vec![];
                for t in sig.inputs() {
                    let t = tcx.erase_and_anonymize_regions(*t);
                    ts.push(J::B(matches!(t.kind(), ty::Ref(_, _, m) if m.is_mut())));
                }
                o.push(("mut", J::A(ts)));
            }
            fns.push(J::O(o));
        }

        J::O(vec![
            ("crate", s(name)),
            ("fns", J::A(fns)),
            ("roots", J::A(roots)),
            ("types", J::A(std::mem::take(&mut self.type_list))),
            ("impls", J::A(impls)),
            ("consts", J::A(consts)),
            ("statics", J::A(statics)),
            ("unsafes", J::A(unsafes)),
            ("adts", J::A(adts)),
        ])
    }
}

fn type_implements<'tcx>(tcx: TyCtxt<'tcx>, tr: ty::TraitRef<'tcx>) -> bool {
    // conservative: does the trait selection succeed with no obligations left?
    tcx.codegen_select_candidate(
        TypingEnv::fully_monomorphized().as_query_input(tr),
    )
    .is_ok()
}

struct UnsafeFinder {
    found: Vec<rustc_span::Span>,
}
impl<'v> rustc_hir::intravisit::Visitor<'v> for UnsafeFinder {
    fn visit_block(&mut self, b: &'v rustc_hir::Block<'v>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
            self.found.push(b.span);
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path
    args.remove(0);
    let sysroot_given = args.iter().any(|a| a == "--sysroot");
    if !sysroot_given {
        if let Ok(sr) = std::env::var("MIRFACTS_SYSROOT") {
            args.push("--sysroot".into());
            args.push(sr);
        }
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir".into());
    args.push("--cap-lints=allow".into());
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
