// MIR extraction driver: runs as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check` and writes
// the type-checked program (MIR before borrowck, resolved callees, types, constants) as JSON.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_index::IndexVec;
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_middle::util::Providers;
use rustc_span::Span;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn i(x: usize) -> J {
    J::I(x as i128)
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(n) => write!(o, "{}", n).unwrap(),
            J::S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (k, (n, x)) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    write!(o, "\"{}\":", n).unwrap();
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

// ---------------------------------------------------------------- capture of pre-borrowck MIR
use rustc_data_structures::steal::Steal;
type Saved = (Body<'static>, IndexVec<Promoted, Body<'static>>);
thread_local! {
    static BODIES: RefCell<HashMap<LocalDefId, Saved>> = RefCell::new(HashMap::new());
}
type PromFn = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> (&'tcx Steal<Body<'tcx>>, &'tcx Steal<IndexVec<Promoted, Body<'tcx>>>);
static ORIG: std::sync::OnceLock<PromFn> = std::sync::OnceLock::new();

fn my_mir_promoted<'tcx>(tcx: TyCtxt<'tcx>, d: LocalDefId) -> (&'tcx Steal<Body<'tcx>>, &'tcx Steal<IndexVec<Promoted, Body<'tcx>>>) {
    let r = (ORIG.get().unwrap())(tcx, d);
    let b: Body<'tcx> = r.0.borrow().clone();
    let p: IndexVec<Promoted, Body<'tcx>> = r.1.borrow().clone();
    // The clones are only used in after_analysis, while the arenas of this session are alive.
    let saved: Saved = unsafe { std::mem::transmute((b, p)) };
    BODIES.with(|m| m.borrow_mut().insert(d, saved));
    r
}

// ---------------------------------------------------------------- extraction
struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tyid: HashMap<Ty<'tcx>, usize>,
    inst: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<(Instance<'tcx>, DefId, usize)>,
    bodies: BTreeMap<usize, J>,
    opaque: Vec<String>,
}

fn p(tcx: TyCtxt<'_>, d: DefId) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_resolve_crate_name!(tcx.def_path_str(d)))
}

const EXPAND: &[&str] = &[
    "core::", "std::option::", "std::result::", "std::ops::", "std::net::", "std::task::Poll", "std::pin::Pin", "std::cmp::", "std::num::Wrapping",
    "std::io::Cursor", "std::array::", "std::convert::", "std::ops::control_flow", "std::mem::ManuallyDrop", "std::iter::",
];
// external bodies that are inlined by the analysis
const INLINE: &[&str] = &[
    "std::option::", "std::result::", "std::ops::", "std::convert::", "std::cmp::", "std::clone::", "std::mem::", "std::net::", "std::pin::", "std::bool::",
    "std::future::", "std::task::", "std::array::", "std::num::", "std::iter::", "std::default::", "std::tuple::", "std::borrow::", "std::primitive", "std::slice::", "std::vec::",
    "std::io::", "std::str::", "std::string::", "std::boxed::", "core::", "<", "alloc::", "bitflags::", "snafu::", "byteorder::",
];

impl<'tcx> Cx<'tcx> {
    fn env(&self, root: DefId) -> TypingEnv<'tcx> {
        TypingEnv::post_analysis(self.tcx, root)
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }
    fn enqueue(&mut self, inst: Instance<'tcx>, root: DefId) -> usize {
        if let Some(k) = self.inst.get(&inst) {
            return *k;
        }
        let k = self.inst.len();
        self.inst.insert(inst, k);
        self.queue.push_back((inst, root, k));
        k
    }
    fn callee(&mut self, def: DefId, args: GenericArgsRef<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let path = p(tcx, def);
        let mut o: Vec<(&'static str, J)> = vec![("path", s(path.clone())), ("local", J::B(def.is_local()))];
        let targs: Vec<J> = args.types().collect::<Vec<_>>().into_iter().map(|t| i(self.ty(t, root))).collect();
        o.push(("targs", J::A(targs)));
        let cargs: Vec<J> = args
            .consts()
            .map(|c| match c.try_to_target_usize(tcx) {
                Some(n) => J::I(n as i128),
                None => J::N,
            })
            .collect();
        o.push(("cargs", J::A(cargs)));
        if let DefKind::Ctor(..) = tcx.def_kind(def) {
            o.push(("ctor", J::B(true)));
            let parent = tcx.parent(def);
            let (adt, vidx) = if let DefKind::Variant = tcx.def_kind(parent) {
                let adt = tcx.adt_def(tcx.parent(parent));
                (adt, adt.variant_index_with_id(parent).as_usize())
            } else {
                (tcx.adt_def(parent), 0)
            };
            let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(def).instantiate(tcx, args).skip_norm_wip()).output();
            let _ = adt;
            o.push(("variant", i(vidx)));
            o.push(("out", i(self.ty(sig, root))));
            return J::O(o);
        }
        let assoc = tcx.opt_associated_item(def);
        if let Some(a) = assoc {
            if let Some(tr) = tcx.trait_of_assoc(def) {
                o.push(("trait", s(p(tcx, tr))));
                o.push(("self", i(self.ty(args.type_at(0), root))));
            } else if let Some(im) = tcx.impl_of_assoc(def) {
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate(tcx, args).skip_norm_wip();
                    o.push(("trait", s(p(tcx, tr.def_id))));
                    o.push(("self", i(self.ty(tr.self_ty(), root))));
                } else {
                    let st = tcx.type_of(im).instantiate(tcx, args).skip_norm_wip();
                    o.push(("self", i(self.ty(st, root))));
                }
            }
            o.push(("name", s(a.name().to_string())));
        } else if let Some(n) = tcx.opt_item_name(def) {
            o.push(("name", s(n.to_string())));
        }
        let env = self.env(root);
        let nargs = tcx.try_normalize_erasing_regions(env, rustc_middle::ty::Unnormalized::new_wip(args)).unwrap_or(args);
        match Instance::try_resolve(tcx, env, def, nargs) {
            Ok(Some(inst)) => {
                o.push(("rpath", s(p(tcx, inst.def_id()))));
                match inst.def {
                    InstanceKind::Item(d) => {
                        if self.wanted(d) {
                            let k = self.enqueue(inst, root);
                            o.push(("body", i(k)));
                        }
                    }
                    InstanceKind::Intrinsic(d) => {
                        o.push(("intrinsic", s(tcx.item_name(d).to_string())));
                    }
                    other => {
                        o.push(("shim", s(format!("{:?}", other).split('(').next().unwrap().to_string())));
                        // clone shims, closures through FnOnce, ... are handled by the analysis
                    }
                }
            }
            _ => o.push(("unresolved", J::B(true))),
        }
        J::O(o)
    }
    fn wanted(&self, d: DefId) -> bool {
        if d.is_local() {
            return true;
        }
        if !self.tcx.is_mir_available(d) {
            return false;
        }
        let path = p(self.tcx, d);
        let kr = self.tcx.crate_name(d.krate).to_string();
        if !matches!(kr.as_str(), "core" | "alloc" | "std" | "bitflags" | "snafu" | "byteorder") {
            return false;
        }
        if self.opaque.iter().any(|o| path.contains(o.as_str())) {
            return false;
        }
        INLINE.iter().any(|x| path.starts_with(x))
    }
    fn ty(&mut self, t: Ty<'tcx>, root: DefId) -> usize {
        let tcx = self.tcx;
        let env = self.env(root);
        let t = tcx.erase_and_anonymize_regions(t);
        let t = match tcx.try_normalize_erasing_regions(env, rustc_middle::ty::Unnormalized::new_wip(t)) {
            Ok(t) => t,
            Err(_) => t,
        };
        if let Some(k) = self.tyid.get(&t) {
            return *k;
        }
        let k = self.types.len();
        self.types.push(J::N);
        self.tyid.insert(t, k);
        let mut o: Vec<(&'static str, J)> = vec![("s", s(rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string())))];
        match t.kind() {
            TyKind::Bool => o.push(("k", s("bool"))),
            TyKind::Char => o.push(("k", s("char"))),
            TyKind::Int(x) => {
                o.push(("k", s("int")));
                o.push(("bits", J::I(x.bit_width().unwrap_or(64) as i128)));
                o.push(("signed", J::B(true)));
            }
            TyKind::Uint(x) => {
                o.push(("k", s("int")));
                o.push(("bits", J::I(x.bit_width().unwrap_or(64) as i128)));
                o.push(("signed", J::B(false)));
            }
            TyKind::Float(x) => {
                o.push(("k", s("float")));
                o.push(("bits", J::I(x.bit_width() as i128)));
            }
            TyKind::Str => o.push(("k", s("str"))),
            TyKind::Never => o.push(("k", s("never"))),
            TyKind::Array(e, n) => {
                o.push(("k", s("array")));
                let e = self.ty(*e, root);
                o.push(("elem", i(e)));
                o.push(("len", n.try_to_target_usize(tcx).map(|n| J::I(n as i128)).unwrap_or(J::N)));
            }
            TyKind::Slice(e) => {
                o.push(("k", s("slice")));
                let e = self.ty(*e, root);
                o.push(("elem", i(e)));
            }
            TyKind::Ref(_, e, m) => {
                o.push(("k", s("ref")));
                let e = self.ty(*e, root);
                o.push(("to", i(e)));
                o.push(("mut", J::B(m.is_mut())));
            }
            TyKind::RawPtr(e, m) => {
                o.push(("k", s("ptr")));
                let e = self.ty(*e, root);
                o.push(("to", i(e)));
                o.push(("mut", J::B(m.is_mut())));
            }
            TyKind::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|t| i(self.ty(t, root))).collect();
                o.push(("elems", J::A(v)));
            }
            TyKind::Adt(def, args) => {
                o.push(("k", s("adt")));
                let path = p(tcx, def.did());
                let local = def.did().is_local();
                let expand = local || EXPAND.iter().any(|x| path.starts_with(x));
                o.push(("path", s(path)));
                o.push(("local", J::B(local)));
                o.push(("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                o.push(("box", J::B(def.is_box())));
                let v = args.types().map(|t| i(self.ty(t, root))).collect();
                o.push(("args", J::A(v)));
                if expand && !def.is_union() {
                    let mut vs = vec![];
                    for (vi, var) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() { J::I(def.discriminant_for_variant(tcx, vi).val as i128) } else { J::I(0) };
                        let mut fs = vec![];
                        for f in var.fields.iter() {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let ft = self.ty(ft, root);
                            fs.push(J::O(vec![
                                ("name", s(f.name.to_string())),
                                ("ty", i(ft)),
                                ("pub", J::B(f.vis.is_public())),
                            ]));
                        }
                        vs.push(J::O(vec![("name", s(var.name.to_string())), ("discr", discr), ("fields", J::A(fs))]));
                    }
                    o.push(("variants", J::A(vs)));
                }
            }
            TyKind::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                let args = tcx.instantiate_bound_regions_with_erased(*args);
                let c = self.callee((*d).into(), args, root);
                o.push(("callee", c));
            }
            TyKind::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("def", s(p(tcx, *d))));
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().collect::<Vec<_>>().into_iter().map(|t| i(self.ty(t, root))).collect();
                o.push(("upvars", J::A(ups)));
                let inst = Instance::new_raw(*d, args);
                if self.wanted(*d) {
                    let b = self.enqueue(inst, root);
                    o.push(("body", i(b)));
                }
            }
            TyKind::Coroutine(d, args) => {
                o.push(("k", s("coroutine")));
                o.push(("def", s(p(tcx, *d))));
                let ups: Vec<J> = args.as_coroutine().upvar_tys().iter().collect::<Vec<_>>().into_iter().map(|t| i(self.ty(t, root))).collect();
                o.push(("upvars", J::A(ups)));
                let rt = self.ty(args.as_coroutine().return_ty(), root);
                o.push(("ret", i(rt)));
                let inst = Instance::new_raw(*d, args);
                if d.is_local() {
                    let b = self.enqueue(inst, root);
                    o.push(("body", i(b)));
                }
            }
            TyKind::FnPtr(..) => o.push(("k", s("fnptr"))),
            TyKind::Dynamic(..) => o.push(("k", s("dyn"))),
            TyKind::Param(x) => {
                o.push(("k", s("param")));
                o.push(("name", s(x.name.to_string())));
            }
            TyKind::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        self.types[k] = J::O(o);
        k
    }
    fn place(&mut self, pl: &Place<'tcx>, root: DefId) -> J {
        let mut v = vec![i(pl.local.as_usize())];
        for e in pl.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => J::A(vec![s("f"), i(f.as_usize()), i(self.ty(t, root))]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("c"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("s"), J::I(from as i128), J::I(to as i128), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => J::A(vec![s("d"), i(v.as_usize())]),
                _ => J::A(vec![s("o")]),
            });
        }
        J::A(v)
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, root: DefId, depth: usize) -> J {
        let tcx = self.tcx;
        let tid = self.ty(t, root);
        if depth > 8 {
            return J::O(vec![("ty", i(tid)), ("opaque", J::B(true))]);
        }
        match t.kind() {
            TyKind::Pat(inner, _) => return self.cval(v, *inner, root, depth + 1),
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) => {
                if let Some(si) = v.try_to_scalar_int() {
                    let n = match t.kind() {
                        TyKind::Int(_) => si.to_int(si.size()),
                        _ => si.to_uint(si.size()) as i128,
                    };
                    return J::O(vec![("ty", i(tid)), ("i", J::I(n))]);
                }
            }
            TyKind::Float(_) => {
                if let Some(si) = v.try_to_scalar_int() {
                    return J::O(vec![("ty", i(tid)), ("fbits", J::I(si.to_uint(si.size()) as i128))]);
                }
            }
            TyKind::Ref(_, inner, _) => {
                if inner.is_str() {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return J::O(vec![("ty", i(tid)), ("str", s(String::from_utf8_lossy(b).to_string()))]);
                    }
                }
                if let TyKind::Slice(e) = inner.kind() {
                    if *e == tcx.types.u8 {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            let v: Vec<J> = b.iter().map(|x| J::I(*x as i128)).collect();
                            return J::O(vec![("ty", i(tid)), ("bytes", J::A(v))]);
                        }
                    }
                }
                // reference to a sized constant
                if let ConstValue::Scalar(sc) = v {
                    { let ptr = sc.to_pointer(&tcx);
                        if let Some(prov) = ptr.provenance {
                            let mut aid = prov.alloc_id();
                            if let Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(aid) {
                                if !tcx.is_mutable_static(d) && !tcx.is_foreign_item(d) && inner.is_freeze(tcx, self.env(root)) {
                                    if let Ok(al) = tcx.eval_static_initializer(d) {
                                        aid = tcx.reserve_and_set_memory_alloc(al);
                                    }
                                }
                            }
                            if inner.is_sized(tcx, self.env(root)) && matches!(tcx.try_get_global_alloc(aid), Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(_))) {
                                let off = ptr.into_raw_parts().1;
                                let x = self.cval(ConstValue::Indirect { alloc_id: aid, offset: off }, *inner, root, depth + 1);
                                return J::O(vec![("ty", i(tid)), ("ref", x)]);
                            }
                        }
                    }
                }
            }
            TyKind::Adt(def, _) if !def.is_union() => {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let vi = d.variant.map(|v| v.as_usize()).unwrap_or(0);
                    let fs: Vec<J> = d.fields.iter().map(|(fv, ft)| self.cval(*fv, *ft, root, depth + 1)).collect();
                    return J::O(vec![("ty", i(tid)), ("v", i(vi)), ("fields", J::A(fs))]);
                }
            }
            TyKind::Tuple(_) | TyKind::Array(..) => {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs: Vec<J> = d.fields.iter().map(|(fv, ft)| self.cval(*fv, *ft, root, depth + 1)).collect();
                    return J::O(vec![("ty", i(tid)), ("fields", J::A(fs))]);
                }
            }
            TyKind::FnDef(..) | TyKind::Closure(..) => return J::O(vec![("ty", i(tid)), ("zst", J::B(true))]),
            _ => {}
        }
        if matches!(v, ConstValue::ZeroSized) {
            return J::O(vec![("ty", i(tid)), ("zst", J::B(true))]);
        }
        J::O(vec![("ty", i(tid)), ("opaque", J::B(true))])
    }
    fn konst(&mut self, c: &Const<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        if let Const::Unevaluated(uv, _) = c {
            if let Some(pr) = uv.promoted {
                let tid = self.ty(t, root);
                return J::O(vec![("ty", i(tid)), ("promoted", i(pr.as_usize()))]);
            }
        }
        let env = self.env(root);
        match c.eval(tcx, env, rustc_span::DUMMY_SP) {
            Ok(v) => self.cval(v, t, root, 0),
            Err(_) => {
                let tid = self.ty(t, root);
                J::O(vec![("ty", i(tid)), ("opaque", J::B(true))])
            }
        }
    }
    fn op(&mut self, o: &Operand<'tcx>, root: DefId) -> J {
        match o {
            Operand::Copy(pl) => J::A(vec![s("c"), self.place(pl, root)]),
            Operand::Move(pl) => J::A(vec![s("m"), self.place(pl, root)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(&c.const_, root)]),
            _ => J::A(vec![s("rc")]),
        }
    }
    fn rv(&mut self, r: &Rvalue<'tcx>, root: DefId) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.op(o, root)]),
            Rvalue::Repeat(o, n) => J::A(vec![
                s("repeat"),
                self.op(o, root),
                n.try_to_target_usize(self.tcx).map(|n| J::I(n as i128)).unwrap_or(J::N),
            ]),
            Rvalue::Ref(_, bk, pl) => J::A(vec![s("ref"), self.place(pl, root), J::B(matches!(bk, BorrowKind::Mut { .. })), J::B(matches!(bk, BorrowKind::Fake(_)))]),
            Rvalue::RawPtr(_, pl) => J::A(vec![s("raw"), self.place(pl, root)]),
            Rvalue::Cast(k, o, t) => {
                let kn = format!("{:?}", k);
                let kn = kn.split(',').next().unwrap().trim_end_matches(')').to_string();
                J::A(vec![s("cast"), s(kn), self.op(o, root), i(self.ty(*t, root))])
            }
            Rvalue::BinaryOp(b, x) => J::A(vec![s("bin"), s(format!("{:?}", b)), self.op(&x.0, root), self.op(&x.1, root)]),
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{:?}", u)), self.op(o, root)]),
            Rvalue::Discriminant(pl) => J::A(vec![s("discr"), self.place(pl, root)]),
            Rvalue::CopyForDeref(pl) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(pl, root)])]),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.op(o, root)).collect();
                let k = match &**k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), i(self.ty(*t, root))]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, fi) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, *args).skip_norm_wip();
                        let t = self.ty(t, root);
                        J::A(vec![s("adt"), i(t), i(vi.as_usize()), fi.map(|f| i(f.as_usize())).unwrap_or(J::N)])
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = self.ty(Ty::new_closure(self.tcx, *d, *args), root);
                        J::A(vec![s("closure"), i(t)])
                    }
                    AggregateKind::Coroutine(d, args) => {
                        let t = self.ty(Ty::new_coroutine(self.tcx, *d, *args), root);
                        J::A(vec![s("coroutine"), i(t)])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), k, J::A(v)])
            }
            other => J::A(vec![s("other"), s(format!("{:?}", other))]),
        }
    }
    fn body(&mut self, b: &Body<'tcx>, root: DefId) -> Vec<(&'static str, J)> {
        let mut locals = vec![];
        for d in b.local_decls.iter() {
            locals.push(i(self.ty(d.ty, root)));
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(pl) = &v.value {
                names.push(J::A(vec![s(v.name.to_string()), self.place(pl, root)]));
            }
        }
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let pl = self.place(&a.0, root);
                        let r = self.rv(&a.1, root);
                        st.push(J::A(vec![s("="), pl, r]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(place, root);
                        st.push(J::A(vec![s("sd"), pl, i(variant_index.as_usize())]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), i(l.as_usize())])),
                    StatementKind::StorageLive(l) => st.push(J::A(vec![s("live"), i(l.as_usize())])),
                    StatementKind::Intrinsic(n) => {
                        if let NonDivergingIntrinsic::Assume(o) = &**n {
                            let o = self.op(o, root);
                            st.push(J::A(vec![s("assume"), o]));
                        } else {
                            st.push(J::A(vec![s("copy")]));
                        }
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), i(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.op(discr, root);
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let dt = self.ty(dt, root);
                    let v: Vec<J> = targets.iter().map(|(v, t)| J::A(vec![J::I(v as i128), i(t.as_usize())])).collect();
                    J::A(vec![s("switch"), o, J::A(v), i(targets.otherwise().as_usize()), i(dt)])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&b.local_decls, self.tcx).ty;
                    let pt = self.ty(pt, root);
                    J::A(vec![s("drop"), self.place(place, root), i(target.as_usize()), i(pt)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func, root);
                    let a: Vec<J> = args.iter().map(|x| self.op(&x.node, root)).collect();
                    let at: Vec<J> = args.iter().map(|x| x.node.ty(&b.local_decls, self.tcx)).collect::<Vec<_>>().into_iter().map(|t| i(self.ty(t, root))).collect();
                    let d = self.place(destination, root);
                    let dt = destination.ty(&b.local_decls, self.tcx).ty;
                    let dt = self.ty(dt, root);
                    J::A(vec![s("call"), f, J::A(a), d, target.map(|t| i(t.as_usize())).unwrap_or(J::N), i(dt), J::A(at)])
                }
                TerminatorKind::TailCall { .. } => J::A(vec![s("tailcall")]),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond, root);
                    let (m, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.op(len, root), self.op(index, root)]),
                        AssertKind::Overflow(b, x, y) => (format!("overflow:{:?}", b), vec![self.op(x, root), self.op(y, root)]),
                        AssertKind::OverflowNeg(x) => ("overflow:Neg".into(), vec![self.op(x, root)]),
                        AssertKind::DivisionByZero(x) => ("divzero".into(), vec![self.op(x, root)]),
                        AssertKind::RemainderByZero(x) => ("remzero".into(), vec![self.op(x, root)]),
                        _ => ("other".into(), vec![]),
                    };
                    J::A(vec![s("assert"), c, J::B(*expected), s(m), J::A(ops), i(target.as_usize())])
                }
                TerminatorKind::Yield { value, resume, .. } => {
                    let v = self.op(value, root);
                    J::A(vec![s("yield"), v, i(resume.as_usize())])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), i(real_target.as_usize())]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), i(real_target.as_usize())]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) | TerminatorKind::CoroutineDrop => J::A(vec![s("unwind")]),
                _ => J::A(vec![s("other")]),
            };
            blocks.push(J::O(vec![("cleanup", J::B(bb.is_cleanup)), ("s", J::A(st)), ("t", tj), ("sp", sp)]));
        }
        vec![("argc", i(b.arg_count)), ("locals", J::A(locals)), ("names", J::A(names)), ("blocks", J::A(blocks)), ("spread", b.spread_arg.map(|l| i(l.as_usize())).unwrap_or(J::N))]
    }
    fn run(&mut self) {
        let tcx = self.tcx;
        while let Some((inst, root, k)) = self.queue.pop_front() {
            let d = inst.def_id();
            let env = self.env(root);
            let name = rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str_with_args(d, inst.args));
            let mut o: Vec<(&'static str, J)> = vec![("name", s(name)), ("path", s(p(tcx, d))), ("local", J::B(d.is_local())), ("span", self.span(tcx.def_span(d)))];
            if let Some(l) = d.as_local() {
                let saved = BODIES.with(|m| m.borrow().get(&l).map(|(b, p)| (b.clone(), p.clone())));
                if let Some((b, pr)) = saved {
                    let b: Body<'tcx> = unsafe { std::mem::transmute(b) };
                    let pr: IndexVec<Promoted, Body<'tcx>> = unsafe { std::mem::transmute(pr) };
                    let b = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, b));
                    o.extend(self.body(&b, root));
                    let mut ps = vec![];
                    for x in pr.iter() {
                        let x = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, x.clone()));
                        ps.push(J::O(self.body(&x, root)));
                    }
                    o.push(("promoted", J::A(ps)));
                }
                let ev = tcx.effective_visibilities(());
                o.push(("pub", J::B(ev.is_reachable(l))));
            } else {
                let b = tcx.instance_mir(inst.def).clone();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, b))
                }));
                if let Ok(b) = r {
                    o.extend(self.body(&b, root));
                    let mut ps = vec![];
                    for x in tcx.promoted_mir(d).iter() {
                        let x = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, x.clone()));
                        ps.push(J::O(self.body(&x, root)));
                    }
                    o.push(("promoted", J::A(ps)));
                }
            }
            self.bodies.insert(k, J::O(o));
        }
    }
}

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.override_queries = Some(|_s, pr| {
            let _ = ORIG.set(pr.queries.mir_promoted);
            pr.queries.mir_promoted = my_mir_promoted;
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("KNXV_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let kr = tcx.crate_name(LOCAL_CRATE).to_string();
        if tcx.crate_types().iter().any(|t| format!("{:?}", t) == "Executable") {
            return Compilation::Continue;
        }
        let opaque = std::env::var("KNXV_OPAQUE").unwrap_or_default().split(';').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
        let mut cx = Cx { tcx, types: vec![], tyid: HashMap::new(), inst: HashMap::new(), queue: VecDeque::new(), bodies: BTreeMap::new(), opaque };
        let mut fns = vec![];
        let ev = tcx.effective_visibilities(());
        for l in tcx.mir_keys(()).iter() {
            let d = l.to_def_id();
            let dk = tcx.def_kind(d);
            if !matches!(dk, DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let inst = Instance::new_raw(d, args);
            let k = cx.enqueue(inst, d);
            let mut o: Vec<(&'static str, J)> = vec![("path", s(p(tcx, d))), ("key", i(k)), ("pub", J::B(ev.is_reachable(*l))), ("async", J::B(tcx.asyncness(d).is_async())), ("span", cx.span(tcx.def_span(d)))];
            let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(d).instantiate_identity().skip_norm_wip());
            let ins: Vec<J> = sig.inputs().iter().map(|t| i(cx.ty(*t, d))).collect();
            o.push(("inputs", J::A(ins)));
            let ot = cx.ty(sig.output(), d);
            o.push(("output", i(ot)));
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                o.push(("self", i(cx.ty(st, d))));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(p(tcx, tr.def_id))));
                    let ta: Vec<J> = tr.args.types().skip(1).collect::<Vec<_>>().into_iter().map(|t| i(cx.ty(t, d))).collect();
                    o.push(("trait_args", J::A(ta)));
                }
                o.push(("derived", J::B(tcx.is_builtin_derived(im))));
            } else if let Some(tr) = tcx.trait_of_assoc(d) {
                o.push(("in_trait", s(p(tcx, tr))));
            }
            if let Some(n) = tcx.opt_item_name(d) {
                o.push(("name", s(n.to_string())));
            }
            fns.push(J::O(o));
        }
        cx.run();
        let Cx { types, bodies, .. } = cx;
        let mut bs = vec![];
        for (k, b) in bodies {
            assert_eq!(k, bs.len());
            bs.push(b);
        }
        let doc = J::O(vec![("crate", s(kr)), ("fns", J::A(fns)), ("types", J::A(types)), ("bodies", J::A(bs))]);
        let mut txt = String::new();
        doc.w(&mut txt);
        std::fs::write(&out, txt).expect("write dump");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let mut cb = Cb;
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
