//! mirdump: a rustc driver used as RUSTC_WORKSPACE_WRAPPER.  It type-checks the crate with the
//! real build's flags and writes, as JSON, the MIR (before the coroutine transform and drop
//! elaboration) of every function instance reachable from the crate's own functions, with
//! callees, types and constants resolved.  It decides nothing; /verif/engine does.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE, LocalDefId};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON
#[derive(Clone, Debug)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn i(x: impl TryInto<i128>) -> J {
    J::I(x.try_into().ok().expect("int"))
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(n) => write!(o, "{n}").unwrap(),
            J::S(t) => jstr(t, o),
            J::A(v) => {
                o.push('[');
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']')
            }
            J::O(v) => {
                o.push('{');
                for (k, (n, x)) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',')
                    }
                    jstr(n, o);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
        }
    }
}
fn jstr(t: &str, o: &mut String) {
    o.push('"');
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
}

// ---------------------------------------------------------------- collection
struct Cb {
    bodies: HashMap<LocalDefId, (Body<'static>, Vec<Body<'static>>)>,
    out: Option<String>,
}

/// Crates/paths of external generic code whose (optimized) MIR is exported so that the analysis
/// can look through it instead of modelling it.
const WHITELIST: &[&str] = &[
    "core::option::",
    "core::result::",
    "core::bool::",
    "core::convert::",
    "core::ops::function",
    "core::cmp::",
    "core::mem::",
    "core::default::",
    "core::clone::",
    "core::ops::try_trait",
    "core::borrow::",
    "core::task::poll::",
    "core::ops::control_flow::",
    "core::ops::range::",
    "core::array::",
];

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<Option<J>>,
    tyid: HashMap<Ty<'tcx>, usize>,
    queue: VecDeque<Item<'tcx>>,
    seen: HashSet<String>,
    out: Vec<(String, J)>,
    local: HashMap<LocalDefId, (Body<'tcx>, Vec<Body<'tcx>>)>,
    env: TypingEnv<'tcx>,
}
#[derive(Clone, Copy)]
struct Item<'tcx> {
    inst: Instance<'tcx>,
    promoted: Option<usize>,
    env: TypingEnv<'tcx>,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d)))
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        s(format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&n) = self.tyid.get(&t) {
            return n;
        }
        let n = self.types.len();
        self.types.push(None);
        self.tyid.insert(t, n);
        let mut o: Vec<(&'static str, J)> =
            vec![("s", s(with_no_visible_paths!(with_no_trimmed_paths!(format!("{t}")))))];
        let tcx = self.tcx;
        match *t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(x) => {
                o.push(("k", s("int")));
                o.push(("name", s(x.name_str())))
            }
            ty::Uint(x) => {
                o.push(("k", s("uint")));
                o.push(("name", s(x.name_str())))
            }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Slice(e) => {
                o.push(("k", s("slice")));
                let e = self.ty(e);
                o.push(("elem", i(e as i64)));
            }
            ty::Array(e, l) => {
                o.push(("k", s("array")));
                let e = self.ty(e);
                o.push(("elem", i(e as i64)));
                if let Some(l) = l.try_to_target_usize(tcx) {
                    o.push(("len", i(l)));
                }
            }
            ty::Ref(_, e, m) => {
                o.push(("k", s("ref")));
                let e = self.ty(e);
                o.push(("elem", i(e as i64)));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::RawPtr(e, m) => {
                o.push(("k", s("ptr")));
                let e = self.ty(e);
                o.push(("elem", i(e as i64)));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|t| i(self.ty(t) as i64)).collect();
                o.push(("fields", J::A(v)));
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(self.path(def.did()))));
                o.push(("local", J::B(def.did().is_local())));
                let v = args.types().map(|t| i(self.ty(t) as i64)).collect();
                o.push(("args", J::A(v)));
                o.push((
                    "kind",
                    s(if def.is_enum() {
                        "enum"
                    } else if def.is_union() {
                        "union"
                    } else {
                        "struct"
                    }),
                ));
                o.push(("box", J::B(def.is_box())));
                let p = self.path(def.did());
                let expand = def.did().is_local()
                    || def.is_enum()
                    || p.starts_with("core::ops::range")
                    || p.starts_with("core::pin::Pin")
                    || p.starts_with("core::mem::")
                    || p.starts_with("nom::");
                if expand {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args);
                            let ft = tcx
                                .try_normalize_erasing_regions(self.env, ft)
                                .unwrap_or(ft.skip_norm_wip());
                            fs.push(J::O(vec![
                                ("n", s(f.name.as_str())),
                                ("t", i(self.ty(ft) as i64)),
                                ("pub", J::B(f.vis.is_public())),
                            ]));
                        }
                        let d = if def.is_enum() {
                            def.discriminant_for_variant(tcx, vi).val
                        } else {
                            0
                        };
                        vs.push(J::O(vec![
                            ("n", s(v.name.as_str())),
                            ("d", i(d as i128)),
                            ("f", J::A(fs)),
                        ]));
                    }
                    o.push(("variants", J::A(vs)));
                }
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                let inst = Instance::new_raw(d, args);
                o.push(("body", self.enqueue(inst)));
                let v = args.as_closure().upvar_tys().iter().map(|t| i(self.ty(t) as i64)).collect();
                o.push(("fields", J::A(v)));
            }
            ty::Coroutine(d, args) => {
                o.push(("k", s("coroutine")));
                let inst = Instance::new_raw(d, args);
                o.push(("body", self.enqueue(inst)));
                let v =
                    args.as_coroutine().upvar_tys().iter().map(|t| i(self.ty(t) as i64)).collect();
                o.push(("fields", J::A(v)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                let c = self.callee(d.into(), args.skip_binder());
                o.push(("callee", c));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Param(_) => o.push(("k", s("param"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        self.types[n] = Some(J::O(o));
        n
    }

    fn key(&self, inst: Instance<'tcx>, promoted: Option<usize>) -> String {
        let mut k = with_no_visible_paths!(with_no_trimmed_paths!(format!("{inst}")));
        if let InstanceKind::Item(d) = inst.def {
            if !matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                write!(k, "#{:?}", self.tcx.def_path_hash(d).0.to_hex()).unwrap();
                write!(k, "{:?}", inst.args).unwrap();
            }
        }
        if let Some(p) = promoted {
            write!(k, "::promoted[{p}]").unwrap();
        }
        k
    }
    fn avail(&self, inst: Instance<'tcx>) -> bool {
        match inst.def {
            InstanceKind::Item(d) => {
                if d.is_local() {
                    return self.local.contains_key(&d.expect_local());
                }
                let p = self.path(d);
                let p2 = p.trim_start_matches('<');
                let w = WHITELIST.iter().any(|x| p2.starts_with(x) || p.contains(&format!("<impl {x}")))
                    || p.contains(" as core::convert::Into<")
                    || p.contains(" as core::convert::TryInto<");
                w && self.tcx.is_mir_available(d)
            }
            _ => false,
        }
    }
    fn enqueue(&mut self, inst: Instance<'tcx>) -> J {
        if !self.avail(inst) {
            return J::Null;
        }
        let k = self.key(inst, None);
        if self.seen.insert(k.clone()) {
            self.queue.push_back(Item { inst, promoted: None, env: self.env });
        }
        s(k)
    }
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("path", s(self.path(d))), ("name", s(tcx.item_name(d).as_str().to_string()))];
        o.push(("local", J::B(d.is_local())));
        o.push(("crate", s(tcx.crate_name(d.krate).as_str())));
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(t))));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            o.push(("ctor", J::B(true)));
            let variant = tcx.parent(d);
            o.push(("ctor_of", s(self.path(variant))));
            let rt = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip().output().skip_binder();
            let vi = match *rt.kind() {
                ty::Adt(def, _) => {
                    if def.is_enum() {
                        def.variant_index_with_ctor_id(d).as_usize()
                    } else {
                        0
                    }
                }
                _ => 0,
            };
            let t = self.ty(rt);
            o.push(("ctor_ty", i(t as i64)));
            o.push(("ctor_variant", i(vi as i64)));
            return J::O(o);
        }
        if tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
            o.push(("unsafe", J::B(true)));
        }
        let targs: Vec<J> = args.types().map(|t| i(self.ty(t) as i64)).collect();
        o.push(("args", J::A(targs)));
        let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip());
        if let Ok(t) = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(sig.output())) {
            let t = self.ty(t);
            o.push(("out", i(t as i64)));
        }
        if tcx.is_intrinsic(d, rustc_span::Symbol::intern("discriminant_value")) {
            return J::O(o);
        }
        // resolve
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, args) {
            let rd = inst.def_id();
            o.push(("rpath", s(self.path(rd))));
            o.push(("kind", s(format!("{:?}", std::mem::discriminant(&inst.def)))));
            if matches!(inst.def, InstanceKind::Item(_)) {
                let k = self.enqueue(inst);
                o.push(("inst", k));
            } else {
                o.push(("shim", s(format!("{:?}", inst.def))));
            }
        }
        // formatting entry points: resolve the trait implementation they will call
        let p = self.path(d);
        let tr = if p.starts_with("core::fmt::rt::Argument::") {
            match tcx.item_name(d).as_str() {
                "new_display" => Some("Display"),
                "new_debug" => Some("Debug"),
                "new_upper_hex" => Some("UpperHex"),
                "new_lower_hex" => Some("LowerHex"),
                "new_octal" => Some("Octal"),
                "new_binary" => Some("Binary"),
                _ => None,
            }
        } else if p == "alloc::string::ToString::to_string" {
            Some("Display")
        } else {
            None
        };
        if let Some(tr) = tr {
            let f = self.fmt_impl(args.type_at(args.len() - args.types().count()), tr);
            o.push(("fmt", f));
            o.push(("fmt_trait", s(tr)));
        }
        // a generic library function that will parse through FromStr / convert through From etc.
        if p == "core::str::<impl str>::parse" {
            if let Some(t) = args.types().next() {
                if let Some(f) = self.trait_fn("core::str::traits::FromStr", "from_str", &[t]) {
                    let j = self.enqueue(f);
                    o.push(("via", j));
                }
            }
        }
        J::O(o)
    }
    fn trait_fn(&mut self, tr: &str, m: &str, tys: &[Ty<'tcx>]) -> Option<Instance<'tcx>> {
        let tcx = self.tcx;
        for t in tcx.all_traits_including_private() {
            if self.path(t) == tr {
                for it in tcx.associated_items(t).in_definition_order() {
                    if it.opt_name().map(|n| n.as_str() == m).unwrap_or(false) {
                        let v: Vec<ty::GenericArg<'tcx>> = tys.iter().map(|t| (*t).into()).collect();
                        let args = tcx.mk_args(&v);
                        return Instance::try_resolve(tcx, self.env, it.def_id, args).ok().flatten();
                    }
                }
            }
        }
        None
    }
    fn fmt_impl(&mut self, mut t: Ty<'tcx>, tr: &str) -> J {
        while let ty::Ref(_, e, _) = *t.kind() {
            t = e;
        }
        if let ty::Adt(d, a) = *t.kind() {
            if d.is_box() {
                t = a.type_at(0);
            }
        }
        let tid = self.ty(t);
        let tcx = self.tcx;
        let mut o = vec![("ty", i(tid as i64))];
        let name = rustc_span::Symbol::intern(tr);
        let want = format!("core::fmt::{tr}");
        let found = tcx
            .all_traits_including_private()
            .find(|d| tcx.item_name(*d) == name && self.path(*d) == want);
        if let Some(trd) = found {
            let m = tcx.associated_item_def_ids(trd)[0];
            let args = tcx.mk_args(&[t.into()]);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, m, args) {
                o.push(("rpath", s(self.path(inst.def_id()))));
                if matches!(inst.def, InstanceKind::Item(_)) {
                    let k = self.enqueue(inst);
                    o.push(("inst", k));
                }
            }
        }
        J::O(o)
    }

    // ------------------------------------------------------------ bodies
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, t) => {
                    J::A(vec![s("f"), i(f.as_usize() as i64), i(self.ty(t) as i64)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.as_usize() as i64)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("ci"),
                    i(offset),
                    i(min_length),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), i(from), i(to), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("d"), i(v.as_usize() as i64)]),
                _ => J::A(vec![s("o")]),
            });
        }
        J::A(vec![i(p.local.as_usize() as i64), J::A(pr)])
    }
    fn operand(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.constant(c)]),
            _ => J::A(vec![s("rc")]),
        }
    }
    fn bytes_of(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(m) => {
                let r = off as usize..(off + len) as usize;
                if r.end > m.inner().len() {
                    return None;
                }
                Some(m.inner().inspect_with_uninit_and_ptr_outside_interpreter(r).to_vec())
            }
            _ => None,
        }
    }
    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<J> {
        let tid = self.ty(t);
        let bytes = |b: Vec<u8>| J::A(b.into_iter().map(|x| i(x as i64)).collect());
        match v {
            ConstValue::ZeroSized => {
                if matches!(t.kind(), ty::FnDef(..)) {
                    return Some(J::O(vec![("k", s("fn")), ("ty", i(tid as i64))]));
                }
                Some(J::O(vec![("k", s("zst")), ("ty", i(tid as i64))]))
            }
            ConstValue::Scalar(Scalar::Int(n)) => {
                if matches!(t.kind(), ty::Adt(..)) {
                    return None;
                }
                let signed = matches!(t.kind(), ty::Int(_));
                let v: i128 =
                    if signed { n.to_int(n.size()) } else { n.to_uint(n.size()) as i128 };
                Some(J::O(vec![("k", s("int")), ("ty", i(tid as i64)), ("v", J::I(v))]))
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                if let ty::Ref(_, e, _) = *t.kind() {
                    if let ty::Array(el, l) = *e.kind() {
                        if el == self.tcx.types.u8 {
                            let (prov, off) = p.into_raw_parts();
                            let len = l.try_to_target_usize(self.tcx)?;
                            let b = self.bytes_of(prov.alloc_id(), off.bytes(), len)?;
                            return Some(J::O(vec![
                                ("k", s("bytes")),
                                ("ty", i(tid as i64)),
                                ("v", bytes(b)),
                            ]));
                        }
                    }
                }
                None
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let ty::Ref(_, e, _) = *t.kind() {
                    let b = self.bytes_of(alloc_id, 0, meta)?;
                    if e.is_str() {
                        return Some(J::O(vec![
                            ("k", s("str")),
                            ("ty", i(tid as i64)),
                            ("v", s(String::from_utf8_lossy(&b).into_owned())),
                        ]));
                    }
                    if let ty::Slice(el) = *e.kind() {
                        if el == self.tcx.types.u8 {
                            return Some(J::O(vec![
                                ("k", s("bytes")),
                                ("ty", i(tid as i64)),
                                ("v", bytes(b)),
                            ]));
                        }
                    }
                }
                None
            }
            ConstValue::Indirect { .. } => None,
        }
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let tid = self.ty(t);
        if let Const::Unevaluated(uv, _) = c.const_ {
            let inst = Instance::new_raw(uv.def, uv.args);
            if let Some(p) = uv.promoted {
                let k = self.key(inst, Some(p.as_usize()));
                if self.seen.insert(k.clone()) {
                    self.queue.push_back(Item { inst, promoted: Some(p.as_usize()), env: self.env });
                }
                return J::O(vec![("k", s("body")), ("key", s(k)), ("ty", i(tid as i64))]);
            }
        }
        let name = match c.const_ {
            Const::Unevaluated(uv, _) => s(self.path(uv.def)),
            _ => J::Null,
        };
        if let Ok(v) = c.const_.eval(self.tcx, self.env, c.span) {
            if let Some(j) = self.constval(v, t) {
                return j;
            }
        }
        if let Const::Unevaluated(uv, _) = c.const_ {
            // resolve trait consts
            let (d, a) = match Instance::try_resolve(self.tcx, self.env, uv.def, uv.args) {
                Ok(Some(x)) => (x.def_id(), x.args),
                _ => (uv.def, uv.args),
            };
            let inst = Instance::new_raw(d, a);
            if d.is_local() && self.local.contains_key(&d.expect_local()) {
                let k = self.enqueue(inst);
                return J::O(vec![("k", s("body")), ("key", k), ("ty", i(tid as i64))]);
            }
        }
        J::O(vec![
            ("k", s("opaque")),
            ("ty", i(tid as i64)),
            ("name", name),
            ("s", s(with_no_trimmed_paths!(format!("{}", c.const_)))),
        ])
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(o)]),
            Rvalue::Repeat(o, c) => J::A(vec![
                s("repeat"),
                self.operand(o),
                c.try_to_target_usize(self.tcx).map(|n| i(n)).unwrap_or(J::Null),
            ]),
            Rvalue::Ref(_, bk, p) => {
                let k = match bk {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Shared => "shared",
                    _ => "shared",
                };
                J::A(vec![s("ref"), s(k), self.place(p)])
            }
            Rvalue::RawPtr(k, p) => J::A(vec![
                s("rawptr"),
                s(if matches!(k, RawPtrKind::Mut) { "mut" } else { "shared" }),
                self.place(p),
            ]),
            Rvalue::Cast(k, o, t) => {
                J::A(vec![s("cast"), s(format!("{k:?}")), self.operand(o), i(self.ty(*t) as i64)])
            }
            Rvalue::BinaryOp(b, x) => {
                J::A(vec![s("bin"), s(format!("{b:?}")), self.operand(&x.0), self.operand(&x.1)])
            }
            Rvalue::UnaryOp(u, x) => J::A(vec![s("un"), s(format!("{u:?}")), self.operand(x)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Aggregate(k, fs) => {
                let f: Vec<J> = fs.iter().map(|x| self.operand(x)).collect();
                let kind = match **k {
                    AggregateKind::Array(t) => vec![s("array"), i(self.ty(t) as i64)],
                    AggregateKind::Tuple => vec![s("tuple")],
                    AggregateKind::Adt(d, v, a, _, af) => {
                        let t = self.tcx.type_of(d).instantiate(self.tcx, a).skip_norm_wip();
                        vec![
                            s("adt"),
                            i(self.ty(t) as i64),
                            i(v.as_usize() as i64),
                            af.map(|x| i(x.as_usize() as i64)).unwrap_or(J::Null),
                        ]
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(self.tcx, d, a);
                        vec![s("closure"), i(self.ty(t) as i64)]
                    }
                    AggregateKind::Coroutine(d, a) => {
                        let t = Ty::new_coroutine(self.tcx, d, a);
                        vec![s("coroutine"), i(self.ty(t) as i64)]
                    }
                    _ => vec![s("other")],
                };
                J::A(vec![s("agg"), J::A(kind), J::A(f)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p)])]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![
                s("reborrow"),
                s(if m.is_mut() { "mut" } else { "shared" }),
                self.place(p),
            ]),
            _ => J::A(vec![s("other"), s(format!("{r:?}"))]),
        }
    }
    fn body(&mut self, key: String, b: &Body<'tcx>, inst: Instance<'tcx>) -> J {
        let mut blocks = vec![];
        for (_bb, data) in b.basic_blocks.iter_enumerated() {
            if data.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut st = vec![];
            for x in &data.statements {
                let j = match &x.kind {
                    StatementKind::Assign(a) => {
                        if matches!(a.1, Rvalue::Ref(_, BorrowKind::Fake(_), _)) {
                            continue;
                        }
                        J::A(vec![s("="), self.place(&a.0), self.rvalue(&a.1), self.span(x.source_info.span)])
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => J::A(vec![
                        s("sd"),
                        self.place(place),
                        i(variant_index.as_usize() as i64),
                    ]),
                    StatementKind::StorageLive(l) => J::A(vec![s("live"), i(l.as_usize() as i64)]),
                    StatementKind::StorageDead(l) => J::A(vec![s("dead"), i(l.as_usize() as i64)]),
                    _ => continue,
                };
                st.push(j);
            }
            let t = data.terminator();
            let bb = |b: BasicBlock| i(b.as_usize() as i64);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![s("goto"), bb(*target)],
                TerminatorKind::FalseEdge { real_target, .. } => vec![s("goto"), bb(*real_target)],
                TerminatorKind::FalseUnwind { real_target, .. } => vec![s("goto"), bb(*real_target)],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let tt = discr.ty(&b.local_decls, self.tcx);
                    let v = targets
                        .iter()
                        .map(|(v, t)| J::A(vec![i(v as i128), bb(t)]))
                        .collect();
                    vec![
                        s("switch"),
                        self.operand(discr),
                        i(self.ty(tt) as i64),
                        J::A(v),
                        bb(targets.otherwise()),
                    ]
                }
                TerminatorKind::Return => vec![s("return")],
                TerminatorKind::Unreachable => vec![s("unreachable")],
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => vec![s("resume")],
                TerminatorKind::Drop { target, place, .. } => {
                    vec![s("drop"), bb(*target), self.place(place)]
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a = args.iter().map(|x| self.operand(&x.node)).collect();
                    let dt = destination.ty(&b.local_decls, self.tcx).ty;
                    vec![
                        s("call"),
                        f,
                        J::A(a),
                        self.place(destination),
                        target.map(bb).unwrap_or(J::Null),
                        i(self.ty(dt) as i64),
                    ]
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            J::A(vec![s("bounds"), self.operand(len), self.operand(index)])
                        }
                        AssertKind::Overflow(op, x, y) => J::A(vec![
                            s("overflow"),
                            s(format!("{op:?}")),
                            self.operand(x),
                            self.operand(y),
                        ]),
                        AssertKind::DivisionByZero(_) | AssertKind::RemainderByZero(_) => {
                            J::A(vec![s("divzero")])
                        }
                        AssertKind::OverflowNeg(_) => J::A(vec![s("negoverflow")]),
                        _ => J::A(vec![s("otherassert")]),
                    };
                    vec![s("assert"), self.operand(cond), J::B(*expected), m, bb(*target)]
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    vec![s("yield"), self.operand(value), bb(*resume), self.place(resume_arg)]
                }
                other => vec![s("otherterm"), s(format!("{other:?}"))],
            };
            let mut tj = tj;
            tj.push(self.span(t.source_info.span));
            blocks.push(J::O(vec![("s", J::A(st)), ("t", J::A(tj))]));
        }
        let locals = b.local_decls.iter().map(|l| i(self.ty(l.ty) as i64)).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(J::A(vec![s(v.name.as_str()), self.place(&p)]));
            }
        }
        let d = inst.def_id();
        let kind = with_no_trimmed_paths!(format!("{:?}", self.tcx.def_kind(d)));
        let mut o = vec![
            ("key", s(key)),
            ("path", s(self.path(d))),
            ("local", J::B(d.is_local())),
            ("kind", s(kind)),
            ("argc", i(b.arg_count as i64)),
            ("spread", b.spread_arg.map(|l| i(l.as_usize() as i64)).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
            ("span", self.span(b.span)),
            ("phase", s(format!("{:?}", b.phase))),
        ];
        let parent = self.tcx.typeck_root_def_id(d);
        o.push(("root", s(self.path(parent))));
        J::O(o)
    }
    fn run(&mut self) {
        while let Some(it) = self.queue.pop_front() {
            self.env = it.env;
            let inst = it.inst;
            let d = inst.def_id();
            let key = self.key(inst, it.promoted);
            let raw: Body<'tcx> = if d.is_local() {
                let (b, pr) = self.local.get(&d.expect_local()).unwrap();
                match it.promoted {
                    Some(p) => pr[p].clone(),
                    None => b.clone(),
                }
            } else {
                match it.promoted {
                    Some(p) => {
                        let pm = self.tcx.promoted_mir(d);
                        pm[rustc_middle::mir::Promoted::from_usize(p)].clone()
                    }
                    None => self.tcx.instance_mir(inst.def).clone(),
                }
            };
            let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(
                self.tcx,
                self.env,
                EarlyBinder::bind(self.tcx, raw),
            ) {
                Ok(b) => b,
                Err(e) => {
                    eprintln!("mirdump: cannot normalize {key}: {e:?}");
                    continue;
                }
            };
            let j = self.body(key.clone(), &body, inst);
            self.out.push((key, j));
        }
    }
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if self.out.is_none() {
            return Compilation::Continue;
        }
        for d in tcx.hir_body_owners() {
            if tcx.is_constructor(d.to_def_id()) {
                continue;
            }
            let (b, p) = tcx.mir_promoted(d);
            let b = b.borrow().clone();
            let p: Vec<Body<'tcx>> = p.borrow().iter().cloned().collect();
            // SAFETY: kept only until after_analysis of the same session.
            let v: (Body<'static>, Vec<Body<'static>>) = unsafe { std::mem::transmute((b, p)) };
            self.bodies.insert(d, v);
        }
        Compilation::Continue
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Some(out) = self.out.clone() else { return Compilation::Continue };
        let bodies = std::mem::take(&mut self.bodies);
        // SAFETY: as above.
        let local: HashMap<LocalDefId, (Body<'tcx>, Vec<Body<'tcx>>)> = unsafe { std::mem::transmute(bodies) };
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        let mut d = D {
            tcx,
            types: vec![],
            tyid: HashMap::new(),
            queue: VecDeque::new(),
            seen: HashSet::new(),
            out: vec![],
            local,
            env: TypingEnv::fully_monomorphized(),
        };
        let mut roots = vec![];
        for o in owners {
            let dk = tcx.def_kind(o);
            if !matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Const | DefKind::AssocConst | DefKind::Static { .. }) && !format!("{dk:?}").starts_with("Const") {
                continue;
            }
            let did = o.to_def_id();
            d.env = TypingEnv::post_analysis(tcx, did);
            let args = ty::GenericArgs::identity_for_item(tcx, did);
            let inst = Instance::new_raw(did, args);
            let k = d.enqueue(inst);
            let mut o: Vec<(&'static str, J)> = vec![
                ("path", s(d.path(did))),
                ("key", k),
                ("kind", s(format!("{dk:?}"))),
                ("public", J::B(tcx.effective_visibilities(()).is_reachable(did.expect_local()))),
                ("span", d.span(tcx.def_span(did))),
            ];
            if let Some(imp) = tcx.impl_of_assoc(did) {
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(d.path(tr.def_id))));
                }
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let t = d.ty(st);
                o.push(("self_ty", i(t as i64)));
            }
            if tcx.def_kind(did) == DefKind::Fn || tcx.def_kind(did) == DefKind::AssocFn {
                o.push(("name", s(tcx.item_name(did).as_str())));
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                let sig = tcx.instantiate_bound_regions_with_erased(sig);
                let ins: Vec<J> = sig.inputs().iter().map(|t| i(d.ty(*t) as i64)).collect();
                let out = d.ty(sig.output());
                o.push(("inputs", J::A(ins)));
                o.push(("output", i(out as i64)));
                o.push(("unsafe", J::B(sig.safety().is_unsafe())));
                o.push(("async", J::B(tcx.asyncness(did).is_async())));
            }
            if let DefKind::Static { .. } = dk {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let n = d.ty(t);
                o.push(("ty", i(n as i64)));
                o.push(("freeze", J::B(t.is_freeze(tcx, d.env))));
                o.push(("mutable", J::B(tcx.is_mutable_static(did))));
            }
            roots.push(J::O(o));
        }
        d.run();
        // local ADTs with visibility
        let mut adts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                d.env = TypingEnv::post_analysis(tcx, id.to_def_id());
                let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                let n = d.ty(t);
                adts.push(J::O(vec![
                    ("path", s(d.path(id.to_def_id()))),
                    ("ty", i(n as i64)),
                    ("public", J::B(tcx.effective_visibilities(()).is_reachable(id))),
                ]));
            }
        }
        d.run();
        // trait implementations the compiler does not check
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Impl { of_trait: true }) {
                let h = tcx.impl_trait_header(id.to_def_id());
                let tr = h.trait_ref.instantiate_identity().skip_norm_wip();
                let unsf = h.safety.is_unsafe();
                d.env = TypingEnv::post_analysis(tcx, id.to_def_id());
                let st = tr.self_ty();
                let n = d.ty(st);
                impls.push(J::O(vec![
                    ("trait", s(d.path(tr.def_id))),
                    ("ty", i(n as i64)),
                    ("unsafe", J::B(unsf)),
                    ("negative", J::B(format!("{:?}", h.polarity) == "Negative")),
                    ("span", d.span(tcx.def_span(id.to_def_id()))),
                ]));
            }
        }
        d.run();
        let types = d.types.iter().map(|t| t.clone().unwrap_or(J::Null)).collect();
        let b = d.out.iter().map(|(_, j)| j.clone()).collect();
        let j = J::O(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE).as_str())),
            ("roots", J::A(roots)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("types", J::A(types)),
            ("bodies", J::A(b)),
        ]);
        let mut o = String::new();
        j.w(&mut o);
        std::fs::write(&out, o).expect("write dump");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let name = args.windows(2).find(|w| w[0] == "--crate-name").map(|w| w[1].clone());
    let test = args.iter().any(|a| a == "--test");
    let out = match (name.as_deref(), test) {
        (Some("async_smtp"), false) => std::env::var("MIRDUMP_OUT").ok(),
        _ => None,
    };
    let mut cb = Cb { bodies: HashMap::new(), out };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
