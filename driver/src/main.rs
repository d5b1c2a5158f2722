//! Dumps the resolved, instantiated MIR of the crate under analysis as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER under `cargo check`: it compiles the crate
//! like rustc does and, after analysis, writes every function body reachable
//! from the crate's own items: the crate's bodies in the phase before coroutine
//! lowering, and the bodies of generic standard library combinators. Nothing
//! of the crate is executed.
#![feature(rustc_private)]
extern crate rustc_data_structures;
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;

use json::J;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::{CtorKind, DefKind};
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{
    self, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv,
};
use rustc_span::Span;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, VecDeque};

type Early = (Body<'static>, Vec<Body<'static>>);
type Provider = for<'tcx> fn(
    TyCtxt<'tcx>,
    LocalDefId,
) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>;

thread_local! {
    // Bodies cloned right before they are lowered further.
    static EARLY: RefCell<HashMap<LocalDefId, Early>> = RefCell::new(HashMap::new());
}
static DEFAULT: std::sync::OnceLock<Provider> = std::sync::OnceLock::new();

fn capturing<'tcx>(
    tcx: TyCtxt<'tcx>,
    def: LocalDefId,
) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>> {
    let (b, p) = tcx.mir_promoted(def);
    let body = b.borrow().clone();
    let proms: Vec<Body<'tcx>> = p.borrow().iter().cloned().collect();
    // SAFETY: only used while `tcx` is alive (in `after_analysis` of the same
    // session, on the same thread).
    let e: Early = unsafe { std::mem::transmute::<(Body<'tcx>, Vec<Body<'tcx>>), Early>((body, proms)) };
    EARLY.with(|m| m.borrow_mut().insert(def, e));
    DEFAULT.get().unwrap()(tcx, def)
}

struct Dump;

impl Callbacks for Dump {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_s, providers| {
            let _ = DEFAULT.set(providers.queries.mir_drops_elaborated_and_const_checked);
            providers.queries.mir_drops_elaborated_and_const_checked = capturing;
        });
    }

    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Ok(path) = std::env::var("MIRDUMP_OUT") {
            let name = tcx.crate_name(LOCAL_CRATE).to_string();
            let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
            if want.is_empty() || want == name {
                dump(tcx, &path);
            }
        }
        Compilation::Continue
    }
}

#[derive(Clone, Copy)]
struct Job<'tcx> {
    inst: Instance<'tcx>,
    promoted: Option<usize>,
    konst: bool,
    env: TypingEnv<'tcx>,
    root: DefId,
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    type_ix: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    adt_queue: Vec<DefId>,
    queue: VecDeque<(String, Job<'tcx>)>,
    seen: HashMap<String, ()>,
    out: Vec<(String, J)>,
    descend: Vec<String>,
    stop: Vec<String>,
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As a wrapper, the real rustc's path is the first argument.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("clippy-driver")) {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Dump);
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, path: &str) {
    let list = |v: &str| -> Vec<String> {
        std::env::var(v)
            .unwrap_or_default()
            .split(',')
            .map(|s| s.trim().to_string())
            .filter(|s| !s.is_empty())
            .collect()
    };
    let mut cx = Cx {
        tcx,
        types: vec![],
        type_ix: HashMap::new(),
        adts: BTreeMap::new(),
        adt_queue: vec![],
        queue: VecDeque::new(),
        seen: HashMap::new(),
        out: vec![],
        descend: list("MIRDUMP_DESCEND"),
        stop: list("MIRDUMP_STOP"),
    };

    let mut items = vec![];
    for &def in tcx.mir_keys(()) {
        let kind = tcx.def_kind(def);
        if tcx.is_constructor(def.to_def_id()) {
            continue;
        }
        match kind {
            DefKind::Fn | DefKind::AssocFn => {
                let _ = tcx.ensure_done().mir_drops_elaborated_and_const_checked(def);
                let did = def.to_def_id();
                let args = ty::GenericArgs::identity_for_item(tcx, did);
                let env = TypingEnv::post_analysis(tcx, did);
                let inst = Instance::new_raw(did, args);
                let job = Job { inst, promoted: None, konst: false, env, root: did };
                let key = cx.enqueue(job);
                items.push(cx.item(did, &key));
            }
            DefKind::Closure => {
                let _ = tcx.ensure_done().mir_drops_elaborated_and_const_checked(def);
            }
            _ => {}
        }
    }

    // All definitions of the crate: ADTs, impls, statics, consts.
    let mut statics = vec![];
    let mut consts = vec![];
    let mut impls = vec![];
    let mut unsafes = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => cx.adt(did),
            DefKind::Static { mutability, .. } => statics.push(J::Obj(vec![
                ("path", J::s(tcx.def_path_str(did))),
                ("mut", J::Bool(mutability.is_mut())),
                ("ty", {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    J::s(with_no_trimmed_paths!(t.to_string()))
                }),
                ("freeze", {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    J::Bool(t.is_freeze(tcx, TypingEnv::post_analysis(tcx, did)))
                }),
                ("span", cx.span(tcx.def_span(did))),
            ])),
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                let args = ty::GenericArgs::identity_for_item(tcx, did);
                if args.has_param() {
                    continue;
                }
                let env = TypingEnv::post_analysis(tcx, did);
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let c = mir::Const::Unevaluated(mir::UnevaluatedConst::new(did, args), t);
                let job = Job {
                    inst: Instance::new_raw(did, args),
                    promoted: None,
                    konst: true,
                    env,
                    root: did,
                };
                let v = cx.konst(c, &job);
                consts.push(J::Obj(vec![
                    ("path", J::s(tcx.def_path_str(did))),
                    ("value", v),
                    ("span", cx.span(tcx.def_span(did))),
                ]));
            }
            DefKind::Impl { .. } => {
                let self_ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let tr = tcx.impl_opt_trait_ref(did).map(|t| {
                    let t = t.instantiate_identity().skip_norm_wip();
                    with_no_trimmed_paths!(t.to_string())
                });
                let fns = tcx
                    .associated_item_def_ids(did)
                    .iter()
                    .map(|d| J::s(cx.path(*d)))
                    .collect();
                impls.push(J::Obj(vec![
                    ("self", J::s(with_no_trimmed_paths!(self_ty.to_string()))),
                    ("trait", tr.map_or(J::Null, J::s)),
                    ("trait_path", tcx.impl_opt_trait_ref(did).map_or(J::Null, |t| {
                        J::s(tcx.def_path_str(t.skip_binder().def_id))
                    })),
                    ("items", J::Arr(fns)),
                    ("derived", J::Bool(tcx.is_builtin_derived(did))),
                    ("span", cx.span(tcx.def_span(did))),
                ]));
            }
            _ => {}
        }
    }
    // Unsafe blocks and functions in the source (HIR).
    {
        use rustc_hir::intravisit::{self, Visitor};
        struct V<'a, 'tcx> {
            tcx: TyCtxt<'tcx>,
            found: &'a mut Vec<Span>,
        }
        impl<'a, 'tcx> Visitor<'tcx> for V<'a, 'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::All;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
                self.tcx
            }
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(
                    rustc_hir::UnsafeSource::UserProvided,
                ) = b.rules
                {
                    self.found.push(b.span);
                }
                intravisit::walk_block(self, b);
            }
        }
        let mut found = vec![];
        let mut v = V { tcx, found: &mut found };
        tcx.hir_walk_toplevel_module(&mut v);
        for s in found {
            unsafes.push(J::Obj(vec![
                ("span", cx.span(s)),
                ("expansion", J::Bool(s.from_expansion())),
            ]));
        }
    }

    while let Some((key, job)) = cx.queue.pop_front() {
        let j = cx.body(&key, job);
        cx.out.push((key, j));
    }
    while let Some(d) = cx.adt_queue.pop() {
        cx.adt(d);
        while let Some((key, job)) = cx.queue.pop_front() {
            let j = cx.body(&key, job);
            cx.out.push((key, j));
        }
    }

    let out = J::Obj(vec![
        ("crate", J::s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("items", J::Arr(items)),
        ("impls", J::Arr(impls)),
        ("statics", J::Arr(statics)),
        ("consts", J::Arr(consts)),
        ("unsafe", J::Arr(unsafes)),
        ("adts", J::Map(std::mem::take(&mut cx.adts).into_iter().collect())),
        ("types", J::Arr(std::mem::take(&mut cx.types))),
        ("fns", J::Map(std::mem::take(&mut cx.out))),
    ]);
    let mut s = String::new();
    out.write(&mut s);
    std::fs::write(path, s).expect("cannot write dump");
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        // Canonical path, independent of re-exports.
        let tcx = self.tcx;
        let krate = tcx.crate_name(d.krate);
        let p = tcx.def_path(d).to_string_no_crate_verbose();
        format!("{krate}{p}")
    }

    /// A readable path: for methods `<Self as Trait>::name` in terms of types.
    fn pretty(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn span(&self, s: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let loc = sm.lookup_char_pos(s.lo());
        J::s(format!(
            "{}:{}:{}",
            loc.file.name.prefer_local_unconditionally(),
            loc.line,
            loc.col.0 + 1
        ))
    }

    fn item(&mut self, did: DefId, key: &str) -> J {
        let tcx = self.tcx;
        let vis = tcx.visibility(did);
        let reach = did
            .as_local()
            .map(|l| tcx.effective_visibilities(()).is_reachable(l))
            .unwrap_or(false);
        let assoc = tcx.opt_associated_item(did);
        let imp = assoc.and_then(|a| a.impl_container(tcx));
        let (self_ty, trait_path) = match imp {
            Some(i) => {
                let t = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                let tr = tcx
                    .impl_opt_trait_ref(i)
                    .map(|t| tcx.def_path_str(t.skip_binder().def_id));
                (Some(with_no_trimmed_paths!(t.to_string())), tr)
            }
            None => (None, None),
        };
        let derived = imp.is_some_and(|i| tcx.is_builtin_derived(i));
        let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
        let inputs: Vec<J> = sig.inputs().iter().map(|t| J::Num(self.ty(*t) as i128)).collect();
        let output = self.ty(sig.output());
        J::Obj(vec![
            ("key", J::s(key)),
            ("path", J::s(self.path(did))),
            ("pretty", J::s(self.pretty(did))),
            ("name", J::s(tcx.item_name(did).to_string())),
            ("vis", J::s(format!("{vis:?}"))),
            ("public", J::Bool(vis.is_public())),
            ("reachable", J::Bool(reach)),
            ("self", self_ty.map_or(J::Null, J::s)),
            ("trait", trait_path.map_or(J::Null, J::s)),
            ("derived", J::Bool(derived)),
            ("async", J::Bool(tcx.asyncness(did).is_async())),
            ("inputs", J::Arr(inputs)),
            ("output", J::Num(output as i128)),
            ("unsafe", J::Bool(sig.safety().is_unsafe())),
            ("span", self.span(tcx.def_span(did))),
        ])
    }

    fn adt(&mut self, did: DefId) {
        let tcx = self.tcx;
        let p = self.pretty(did);
        if self.adts.contains_key(&p) {
            return;
        }
        self.adts.insert(p.clone(), J::Null);
        let def = tcx.adt_def(did);
        let args = ty::GenericArgs::identity_for_item(tcx, did);
        let mut variants = vec![];
        let discrs: Vec<(rustc_abi::VariantIdx, u128)> = if def.is_enum() {
            def.discriminants(tcx).map(|(i, d)| (i, d.val)).collect()
        } else {
            vec![]
        };
        for (i, v) in def.variants().iter_enumerated() {
            let fields: Vec<J> = v
                .fields
                .iter()
                .map(|f| {
                    let t = f.ty(tcx, args).skip_norm_wip();
                    J::Obj(vec![
                        ("name", J::s(f.name.to_string())),
                        ("vis", J::s(format!("{:?}", f.vis))),
                        ("public", J::Bool(f.vis.is_public())),
                        ("ty", if did.is_local() {
                            J::Num(self.ty(t) as i128)
                        } else {
                            J::Null
                        }),
                        ("tys", J::s(with_no_trimmed_paths!(t.to_string()))),
                    ])
                })
                .collect();
            let d = discrs.iter().find(|(j, _)| *j == i).map(|(_, d)| *d);
            variants.push(J::Obj(vec![
                ("name", J::s(v.name.to_string())),
                ("discr", d.map_or(J::Null, |d| J::s(d.to_string()))),
                ("fields", J::Arr(fields)),
            ]));
        }
        let reach = did
            .as_local()
            .map(|l| tcx.effective_visibilities(()).is_reachable(l))
            .unwrap_or(true);
        let j = J::Obj(vec![
            ("path", J::s(self.path(did))),
            ("kind", J::s(if def.is_enum() {
                "enum"
            } else if def.is_union() {
                "union"
            } else {
                "struct"
            })),
            ("local", J::Bool(did.is_local())),
            ("public", J::Bool(tcx.visibility(did).is_public())),
            ("reachable", J::Bool(reach)),
            ("variants", J::Arr(variants)),
            ("span", if did.is_local() { self.span(tcx.def_span(did)) } else { J::Null }),
        ]);
        self.adts.insert(p, j);
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.type_ix.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.type_ix.insert(t, i);
        self.types.push(J::Null);
        let s = with_no_trimmed_paths!(t.to_string());
        let mut o = vec![("s", J::s(s))];
        match t.kind() {
            ty::Adt(d, args) => {
                o.push(("k", J::s("adt")));
                o.push(("path", J::s(self.pretty(d.did()))));
                let a = args.types().map(|t| J::Num(self.ty(t) as i128)).collect();
                o.push(("args", J::Arr(a)));
                self.adt_queue.push(d.did());
            }
            ty::Ref(_, t, m) => {
                o.push(("k", J::s("ref")));
                o.push(("mut", J::Bool(m.is_mut())));
                o.push(("args", J::Arr(vec![J::Num(self.ty(*t) as i128)])));
            }
            ty::RawPtr(t, m) => {
                o.push(("k", J::s("ptr")));
                o.push(("mut", J::Bool(m.is_mut())));
                o.push(("args", J::Arr(vec![J::Num(self.ty(*t) as i128)])));
            }
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let a = ts.iter().map(|t| J::Num(self.ty(t) as i128)).collect();
                o.push(("args", J::Arr(a)));
            }
            ty::Slice(t) => {
                o.push(("k", J::s("slice")));
                o.push(("args", J::Arr(vec![J::Num(self.ty(*t) as i128)])));
            }
            ty::Array(t, n) => {
                o.push(("k", J::s("array")));
                o.push(("args", J::Arr(vec![J::Num(self.ty(*t) as i128)])));
                if let Some(n) = n.try_to_target_usize(self.tcx) {
                    o.push(("len", J::Num(n as i128)));
                }
            }
            ty::Int(i) => {
                o.push(("k", J::s("int")));
                o.push(("bits", J::Num(i.bit_width().unwrap_or(64) as i128)));
            }
            ty::Uint(i) => {
                o.push(("k", J::s("uint")));
                o.push(("bits", J::Num(i.bit_width().unwrap_or(64) as i128)));
            }
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::FnDef(d, _) => {
                o.push(("k", J::s("fndef")));
                o.push(("path", J::s(self.pretty(*d))));
            }
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::Closure(d, _) => {
                o.push(("k", J::s("closure")));
                o.push(("path", J::s(self.pretty(*d))));
            }
            ty::Coroutine(d, _) => {
                o.push(("k", J::s("coroutine")));
                o.push(("path", J::s(self.pretty(*d))));
            }
            ty::Dynamic(..) => o.push(("k", J::s("dyn"))),
            ty::Param(_) => o.push(("k", J::s("param"))),
            ty::Alias(..) => o.push(("k", J::s("alias"))),
            _ => o.push(("k", J::s("other"))),
        }
        self.types[i] = J::Obj(o);
        i
    }

    fn key(&self, job: &Job<'tcx>) -> String {
        let i = job.inst;
        let mut s = with_no_trimmed_paths!(match i.def {
            InstanceKind::Item(d) => {
                if i.args.is_empty() {
                    self.path(d)
                } else {
                    format!("{}{:?}", self.path(d), i.args)
                }
            }
            _ => format!("{:?}{:?}", i.def, i.args),
        });
        if i.args.has_param() || i.args.has_aliases() {
            s.push_str(&format!("@{}", self.path(job.root)));
        }
        if let Some(p) = job.promoted {
            s.push_str(&format!("#promoted{p}"));
        }
        if job.konst {
            s.push_str("#const");
        }
        s
    }

    fn enqueue(&mut self, job: Job<'tcx>) -> String {
        let key = self.key(&job);
        if self.seen.insert(key.clone(), ()).is_none() {
            self.queue.push_back((key.clone(), job));
        }
        key
    }

    fn may_descend(&self, inst: &Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        match inst.def {
            InstanceKind::Item(d) => {
                if !tcx.is_mir_available(d) && !d.is_local() {
                    return false;
                }
                if d.is_local() {
                    return true;
                }
                if tcx.is_closure_like(d) {
                    // closures of foreign functions we descended into
                    return tcx.is_mir_available(d);
                }
                let p = self.path(d);
                let q = self.pretty(d);
                self.descend.iter().any(|x| p.starts_with(x))
                    && !self.stop.iter().any(|x| p.starts_with(x) || q.starts_with(x))
            }
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => true,
            InstanceKind::Shim(ShimKind::FnPtr(..)) => true,
            _ => false,
        }
    }

    /// Describes a callee: its definition and, if resolved, the instance.
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, job: &Job<'tcx>) -> J {
        let tcx = self.tcx;
        let targs: Vec<J> = args.types().map(|t| J::Num(self.ty(t) as i128)).collect();
        let mut o = vec![
            ("path", J::s(self.pretty(d))),
            ("krate", J::s(tcx.crate_name(d.krate).to_string())),
            ("targs", J::Arr(targs)),
        ];
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::s(self.pretty(t))));
        }
        o.push(("name", tcx.opt_item_name(d).map_or(J::Null, |n| J::s(n.to_string()))));
        if tcx.is_constructor(d) {
            let ctor_kind = match tcx.def_kind(d) {
                DefKind::Ctor(_, CtorKind::Fn) => "ctor",
                _ => "ctor?",
            };
            o.push(("ctor", J::s(ctor_kind)));
            let parent = tcx.parent(d);
            let (adt, variant) = match tcx.def_kind(parent) {
                DefKind::Variant => (tcx.parent(parent), tcx.item_name(parent).to_string()),
                _ => (parent, tcx.item_name(parent).to_string()),
            };
            o.push(("adt", J::s(self.pretty(adt))));
            self.adt_queue.push(adt);
            o.push(("variant", J::s(variant)));
            return J::Obj(o);
        }
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {}
            _ => return J::Obj(o),
        }
        match Instance::try_resolve(tcx, job.env, d, args) {
            Ok(Some(inst)) => {
                let rd = inst.def_id();
                o.push(("rpath", J::s(self.pretty(rd))));
                o.push(("rcanon", J::s(self.path(rd))));
                o.push(("rkrate", J::s(tcx.crate_name(rd.krate).to_string())));
                o.push(("local", J::Bool(rd.is_local())));
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(s) => match s {
                        ShimKind::ClosureOnce { .. } => "closureonce",
                        ShimKind::Clone(..) => "cloneshim",
                        ShimKind::DropGlue(..) => "dropglue",
                        ShimKind::FnPtr(..) => "fnptrshim",
                        _ => "shim",
                    },
                    _ => "other",
                };
                o.push(("ikind", J::s(kind)));
                if tcx.is_constructor(rd) {
                    // e.g. FnOnce::call_once resolved to a constructor
                    return J::Obj(o);
                }
                if self.may_descend(&inst) {
                    let key = self.enqueue(Job { inst, promoted: None, konst: false, ..*job });
                    o.push(("key", J::s(key)));
                }
            }
            _ => o.push(("unresolved", J::Bool(true))),
        }
        J::Obj(o)
    }

    fn konst(&mut self, c: mir::Const<'tcx>, job: &Job<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let args = tcx.normalize_erasing_regions(
                job.env,
                ty::Unnormalized::new_wip(args.skip_binder()),
            );
            let f = self.callee(*d, args, job);
            return J::Obj(vec![("fn", f), ("ty", J::Num(ti as i128))]);
        }
        let mut name = J::Null;
        if let mir::Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() {
                name = J::s(self.pretty(u.def));
            }
        }
        let val = c.eval(tcx, job.env, rustc_span::DUMMY_SP).ok();
        let mut j = match val {
            Some(v) => self.value(v, t),
            None => None,
        };
        if j.is_none() {
            if let mir::Const::Unevaluated(u, _) = c {
                let is_local = u.def.is_local();
                let inst = Instance::new_raw(u.def, u.args);
                let nj = Job {
                    inst,
                    promoted: u.promoted.map(|p| p.as_usize()),
                    konst: u.promoted.is_none(),
                    ..*job
                };
                if is_local || tcx.is_mir_available(u.def) || u.promoted.is_some() {
                    let key = self.enqueue(nj);
                    j = Some(vec![("body", J::s(key))]);
                }
            }
        }
        if j.is_none() {
            if let Some(v) = val {
                j = self.parts(v, t);
            }
        }
        let mut o = match j {
            Some(o) => o,
            None => vec![(
                "opaque",
                J::s(with_no_trimmed_paths!(format!("{c:?}"))),
            )],
        };
        o.push(("ty", J::Num(ti as i128)));
        o.push(("name", name));
        J::Obj(o)
    }

    /// The parts of a constant of an aggregate type whose fields have a meaning
    /// of their own: of this crate, or one of a few plain library types.
    fn parts(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<Vec<(&'static str, J)>> {
        let tcx = self.tcx;
        match t.kind() {
            ty::Tuple(_) | ty::Array(..) => {}
            ty::Adt(d, _) => {
                let p = self.pretty(d.did());
                let plain = ["std::option::Option", "std::result::Result", "std::ops::ControlFlow", "std::cmp::Ordering"];
                if !(d.did().is_local() || plain.contains(&&p[..])) || d.is_union() {
                    return None;
                }
                self.adt_queue.push(d.did());
            }
            _ => return None,
        }
        let c = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
        let mut fields = vec![];
        for &(v, t) in c.fields {
            let mut o = match self.value(v, t) {
                Some(o) => o,
                None => match self.parts(v, t) {
                    Some(o) => o,
                    None => vec![("opaque", J::s(format!("a {t}")))],
                },
            };
            o.push(("ty", J::Num(self.ty(t) as i128)));
            fields.push(J::Obj(o));
        }
        let mut o = vec![("fields", J::Arr(fields))];
        if let (ty::Adt(d, _), Some(i)) = (t.kind(), c.variant) {
            o.push(("of", J::s(d.variant(i).name.to_string())));
        }
        Some(o)
    }

    fn bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, n: u64) -> Option<Vec<u8>> {
        use rustc_middle::mir::interpret::GlobalAlloc;
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(m) => {
                let m = m.inner();
                if m.provenance().ptrs().iter().any(|(o, _)| {
                    o.bytes() >= off && o.bytes() < off + n
                }) {
                    return None;
                }
                if off + n > m.len() as u64 {
                    return None;
                }
                Some(
                    m.inspect_with_uninit_and_ptr_outside_interpreter(
                        off as usize..(off + n) as usize,
                    )
                    .to_vec(),
                )
            }
            _ => None,
        }
    }

    fn scalar_elem(&self, t: Ty<'tcx>) -> Option<u64> {
        match t.kind() {
            ty::Uint(u) => Some(u.bit_width().unwrap_or(64) / 8),
            ty::Int(u) => Some(u.bit_width().unwrap_or(64) / 8),
            ty::Char => Some(4),
            ty::Bool => Some(1),
            _ => None,
        }
    }

    fn value(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<Vec<(&'static str, J)>> {
        use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => Some(vec![("zst", J::Bool(true))]),
            ConstValue::Scalar(Scalar::Int(i)) => match t.kind() {
                ty::Bool | ty::Char | ty::Uint(_) => {
                    Some(vec![("int", J::s(i.to_bits(i.size()).to_string()))])
                }
                ty::Int(_) => Some(vec![("int", J::s(i.to_int(i.size()).to_string()))]),
                ty::Adt(d, _) if d.is_enum() => {
                    // field-less enum constant
                    let bits = i.to_bits(i.size());
                    if d.variants().iter().all(|v| v.fields.is_empty()) {
                        for (vi, dv) in d.discriminants(tcx) {
                            let mask = if i.size().bits() >= 128 {
                                u128::MAX
                            } else {
                                (1u128 << i.size().bits()) - 1
                            };
                            if dv.val & mask == bits {
                                let n = d.variant(vi).name.to_string();
                                self.adt_queue.push(d.did());
                                return Some(vec![("variant", J::s(n))]);
                            }
                        }
                    }
                    None
                }
                _ => None,
            },
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let id = prov.alloc_id();
                if let Some(GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(id) {
                    let mut o = vec![("static", J::s(self.pretty(d)))];
                    let env = TypingEnv::fully_monomorphized();
                    if d.is_local()
                        && !tcx.is_mutable_static(d)
                        && tcx.type_of(d).instantiate_identity().skip_norm_wip().is_freeze(tcx, env)
                    {
                        // an unchanging value: its initializer
                        let inst = Instance::mono(tcx, d);
                        let job = Job { inst, promoted: None, konst: true, env, root: d };
                        o.push(("init", J::s(self.enqueue(job))));
                    }
                    return Some(o);
                }
                if let ty::Ref(_, inner, _) = t.kind() {
                    if let ty::Array(e, n) = inner.kind() {
                        if let (ty::Uint(ty::UintTy::U8), Some(n)) =
                            (e.kind(), n.try_to_target_usize(tcx))
                        {
                            let b = self.bytes(id, off.bytes(), n)?;
                            return Some(vec![(
                                "bytes",
                                J::Arr(b.into_iter().map(|b| J::Num(b as i128)).collect()),
                            )]);
                        }
                    }
                    if let Some(sz) = self.scalar_elem(*inner) {
                        let b = self.bytes(id, off.bytes(), sz)?;
                        let mut x: u128 = 0;
                        for (i, v) in b.iter().enumerate() {
                            x |= (*v as u128) << (8 * i);
                        }
                        if matches!(inner.kind(), ty::Int(_)) {
                            return None;
                        }
                        return Some(vec![("int", J::s(x.to_string()))]);
                    }
                    // reference to a reference to a string
                    if let ty::Ref(_, i2, _) = inner.kind() {
                        if i2.is_str() {
                            return self.fat_str(id, off.bytes());
                        }
                    }
                }
                None
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() {
                        let b = self.bytes(alloc_id, 0, meta)?;
                        return Some(vec![("str", J::s(String::from_utf8(b).ok()?))]);
                    }
                    if let ty::Slice(e) = inner.kind() {
                        if let ty::Uint(ty::UintTy::U8) = e.kind() {
                            let b = self.bytes(alloc_id, 0, meta)?;
                            return Some(vec![(
                                "bytes",
                                J::Arr(b.into_iter().map(|b| J::Num(b as i128)).collect()),
                            )]);
                        }
                    }
                }
                None
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let ty::Array(e, n) = t.kind() {
                    let n = n.try_to_target_usize(tcx)?;
                    if let Some(sz) = self.scalar_elem(*e) {
                        let b = self.bytes(alloc_id, offset.bytes(), n * sz)?;
                        let mut v = vec![];
                        for i in 0..n as usize {
                            let mut x: u128 = 0;
                            for k in 0..sz as usize {
                                x |= (b[i * sz as usize + k] as u128) << (8 * k);
                            }
                            v.push(J::s(x.to_string()));
                        }
                        return Some(vec![("ints", J::Arr(v))]);
                    }
                    if let ty::Ref(_, i2, _) = e.kind() {
                        if i2.is_str() {
                            let mut v = vec![];
                            for k in 0..n {
                                let s = self.fat_str(alloc_id, offset.bytes() + 16 * k)?;
                                v.push(J::Obj(s));
                            }
                            return Some(vec![("strs", J::Arr(v))]);
                        }
                    }
                }
                if let ty::Ref(_, i2, _) = t.kind() {
                    if i2.is_str() {
                        return self.fat_str(alloc_id, offset.bytes());
                    }
                }
                None
            }
        }
    }

    fn fat_str(
        &self,
        id: rustc_middle::mir::interpret::AllocId,
        off: u64,
    ) -> Option<Vec<(&'static str, J)>> {
        use rustc_middle::mir::interpret::GlobalAlloc;
        let GlobalAlloc::Memory(m) = self.tcx.try_get_global_alloc(id)? else { return None };
        let m = m.inner();
        let (_, prov) = m.provenance().ptrs().iter().find(|(o, _)| o.bytes() == off)?;
        let raw = m.inspect_with_uninit_and_ptr_outside_interpreter(
            off as usize..(off + 16) as usize,
        );
        let o = u64::from_le_bytes(raw[..8].try_into().ok()?);
        let n = u64::from_le_bytes(raw[8..].try_into().ok()?);
        let b = self.bytes(prov.alloc_id(), o, n)?;
        Some(vec![("str", J::s(String::from_utf8(b).ok()?))])
    }

    fn place(&mut self, p: Place<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v = vec![J::Num(p.local.as_u32() as i128)];
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, fty) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(d, _) => {
                            let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if d.is_enum() || d.is_struct() || d.is_union() {
                                d.variant(vi)
                                    .fields
                                    .get(f)
                                    .map(|f| f.name.to_string())
                                    .unwrap_or_else(|| f.as_u32().to_string())
                            } else {
                                f.as_u32().to_string()
                            }
                        }
                        _ => f.as_u32().to_string(),
                    };
                    let _ = fty;
                    J::Arr(vec![J::s("f"), J::s(name), J::Num(f.as_u32() as i128)])
                }
                ProjectionElem::Index(l) => {
                    J::Arr(vec![J::s("i"), J::Num(l.as_u32() as i128)])
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::Arr(vec![
                    J::s("ci"),
                    J::Num(offset as i128),
                    J::Num(min_length as i128),
                    J::Bool(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::Arr(vec![
                    J::s("ss"),
                    J::Num(from as i128),
                    J::Num(to as i128),
                    J::Bool(from_end),
                ]),
                ProjectionElem::Downcast(_, vi) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(d, _) => d.variant(vi).name.to_string(),
                        _ => vi.as_u32().to_string(),
                    };
                    J::Arr(vec![J::s("v"), J::s(name)])
                }
                _ => J::s("?"),
            };
            v.push(j);
            pty = pty.projection_ty(tcx, e);
        }
        J::Arr(v)
    }

    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, job: &Job<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::Arr(vec![J::s("cp"), self.place(*p, body)]),
            Operand::Move(p) => J::Arr(vec![J::s("mv"), self.place(*p, body)]),
            Operand::Constant(c) => J::Arr(vec![J::s("c"), self.konst(c.const_, job)]),
            Operand::RuntimeChecks(c) => {
                J::Arr(vec![J::s("rc"), J::s(format!("{c:?}"))])
            }
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, job: &Job<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => J::Arr(vec![J::s("use"), self.operand(o, body, job)]),
            Rvalue::CopyForDeref(p) => J::Arr(vec![
                J::s("use"),
                J::Arr(vec![J::s("cp"), self.place(*p, body)]),
            ]),
            Rvalue::Repeat(o, n) => J::Arr(vec![
                J::s("repeat"),
                self.operand(o, body, job),
                n.try_to_target_usize(tcx).map_or(J::Null, |n| J::Num(n as i128)),
            ]),
            Rvalue::Ref(_, k, p) => J::Arr(vec![
                J::s("ref"),
                J::s(match k {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                }),
                self.place(*p, body),
            ]),
            Rvalue::Reborrow(_, m, p) => J::Arr(vec![
                J::s("ref"),
                J::s(if m.is_mut() { "mut" } else { "shared" }),
                self.place(*p, body),
            ]),
            Rvalue::RawPtr(k, p) => J::Arr(vec![
                J::s("raw"),
                J::s(format!("{k:?}")),
                self.place(*p, body),
            ]),
            Rvalue::ThreadLocalRef(d) => J::Arr(vec![J::s("tls"), J::s(self.pretty(*d))]),
            Rvalue::Cast(k, o, t) => {
                let o2 = self.operand(o, body, job);
                let ti = self.ty(*t);
                J::Arr(vec![J::s("cast"), J::s(format!("{k:?}")), o2, J::Num(ti as i128)])
            }
            Rvalue::BinaryOp(op, b) => J::Arr(vec![
                J::s("bin"),
                J::s(format!("{op:?}")),
                self.operand(&b.0, body, job),
                self.operand(&b.1, body, job),
                {
                    let t = b.0.ty(&body.local_decls, tcx);
                    J::Num(self.ty(t) as i128)
                },
            ]),
            Rvalue::UnaryOp(op, o) => J::Arr(vec![
                J::s("un"),
                J::s(format!("{op:?}")),
                self.operand(o, body, job),
            ]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let ti = self.ty(t);
                J::Arr(vec![J::s("discr"), self.place(*p, body), J::Num(ti as i128)])
            }
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.operand(o, body, job)).collect();
                let kind = match &**k {
                    AggregateKind::Array(_) => J::Arr(vec![J::s("array")]),
                    AggregateKind::Tuple => J::Arr(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        let def = tcx.adt_def(*d);
                        self.adt_queue.push(*d);
                        let v = def.variant(*vi);
                        let fields: Vec<J> = match active {
                            Some(f) => vec![J::s(v.fields[*f].name.to_string())],
                            None => v.fields.iter().map(|f| J::s(f.name.to_string())).collect(),
                        };
                        J::Arr(vec![
                            J::s("adt"),
                            J::s(self.pretty(*d)),
                            J::s(v.name.to_string()),
                            J::Arr(fields),
                        ])
                    }
                    AggregateKind::Closure(d, args) | AggregateKind::Coroutine(d, args) => {
                        let inst = Instance::new_raw(*d, args);
                        let is_co = matches!(&**k, AggregateKind::Coroutine(..));
                        let key = if d.is_local() || tcx.is_mir_available(*d) {
                            J::s(self.enqueue(Job { inst, promoted: None, konst: false, ..*job }))
                        } else {
                            J::Null
                        };
                        let ups: Vec<J> = d
                            .as_local()
                            .map(|l| {
                                tcx.closure_captures(l)
                                    .iter()
                                    .map(|c| J::s(c.to_symbol().to_string()))
                                    .collect()
                            })
                            .unwrap_or_default();
                        J::Arr(vec![
                            J::s(if is_co { "coroutine" } else { "closure" }),
                            J::s(self.pretty(*d)),
                            key,
                            J::Arr(ups),
                        ])
                    }
                    _ => J::Arr(vec![J::s("other")]),
                };
                J::Arr(vec![J::s("agg"), kind, J::Arr(ops)])
            }
            r => J::Arr(vec![J::s("other"), J::s(format!("{r:?}"))]),
        }
    }

    fn body(&mut self, key: &str, job: Job<'tcx>) -> J {
        let tcx = self.tcx;
        let did = job.inst.def_id();
        let mut early = false;
        let raw: Body<'tcx> = match job.inst.def {
            InstanceKind::Item(d) if d.is_local() => {
                let l = d.expect_local();
                let _ = if !job.konst && !tcx.is_constructor(d) {
                    tcx.ensure_done().mir_drops_elaborated_and_const_checked(l);
                };
                let e = EARLY.with(|m| {
                    m.borrow().get(&l).map(|(b, p)| match job.promoted {
                        None => Some(b.clone()),
                        Some(i) => p.get(i).cloned(),
                    })
                });
                match e.flatten() {
                    Some(b) => {
                        early = true;
                        // SAFETY: see `capturing`.
                        unsafe { std::mem::transmute::<Body<'static>, Body<'tcx>>(b) }
                    }
                    None => match job.promoted {
                        Some(i) => tcx.promoted_mir(d)[mir::Promoted::from_usize(i)].clone(),
                        None => tcx.instance_mir(job.inst.def).clone(),
                    },
                }
            }
            InstanceKind::Item(d) => match job.promoted {
                Some(i) => tcx.promoted_mir(d)[mir::Promoted::from_usize(i)].clone(),
                None => tcx.instance_mir(job.inst.def).clone(),
            },
            _ => tcx.instance_mir(job.inst.def).clone(),
        };
        let body: Body<'tcx> = match job.inst.try_instantiate_mir_and_normalize_erasing_regions(
            tcx,
            job.env,
            EarlyBinder::bind(tcx, raw.clone()),
        ) {
            Ok(b) => b,
            Err(_) => raw,
        };
        let locals: Vec<J> = body
            .local_decls
            .iter()
            .map(|d| J::Num(self.ty(d.ty) as i128))
            .collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(J::Arr(vec![J::s(v.name.to_string()), self.place(p, &body)]));
            }
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pj = self.place(*p, &body);
                        let rj = self.rvalue(r, &body, &job);
                        st.push(J::Arr(vec![J::s("="), pj, rj, self.line(s.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(&body.local_decls, tcx).ty;
                        let n = match t.kind() {
                            ty::Adt(d, _) => d.variant(*variant_index).name.to_string(),
                            _ => variant_index.as_u32().to_string(),
                        };
                        let pj = self.place(**place, &body);
                        st.push(J::Arr(vec![J::s("setd"), pj, J::s(n)]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let exp = J::Bool(t.source_info.span.from_expansion());
            let bbn = |b: &BasicBlock| J::Num(b.as_u32() as i128);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::Arr(vec![J::s("goto"), bbn(target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dty = discr.ty(&body.local_decls, tcx);
                    let tv = targets
                        .iter()
                        .map(|(v, b)| J::Arr(vec![J::s(v.to_string()), bbn(&b)]))
                        .collect();
                    let d = self.operand(discr, &body, &job);
                    let ti = self.ty(dty);
                    J::Arr(vec![
                        J::s("switch"),
                        d,
                        J::Arr(tv),
                        bbn(&targets.otherwise()),
                        J::Num(ti as i128),
                    ])
                }
                TerminatorKind::Return => J::Arr(vec![J::s("return")]),
                TerminatorKind::Unreachable => J::Arr(vec![J::s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    J::Arr(vec![J::s("unwind")])
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let pj = self.place(*place, &body);
                    J::Arr(vec![J::s("drop"), pj, bbn(target)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, &body, &job);
                    let a = args
                        .iter()
                        .map(|a| self.operand(&a.node, &body, &job))
                        .collect();
                    let d = self.place(*destination, &body);
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dti = self.ty(dt);
                    J::Arr(vec![
                        J::s("call"),
                        f,
                        J::Arr(a),
                        d,
                        target.as_ref().map_or(J::Null, |b| bbn(b)),
                        sp,
                        exp,
                        J::Num(dti as i128),
                    ])
                }
                TerminatorKind::TailCall { .. } => J::Arr(vec![J::s("tailcall")]),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, &body, &job);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "BoundsCheck".to_string(),
                        AssertKind::Overflow(op, ..) => format!("Overflow({op:?})"),
                        AssertKind::OverflowNeg(_) => "OverflowNeg".to_string(),
                        AssertKind::DivisionByZero(_) => "DivisionByZero".to_string(),
                        AssertKind::RemainderByZero(_) => "RemainderByZero".to_string(),
                        _ => "Other".to_string(),
                    };
                    J::Arr(vec![
                        J::s("assert"),
                        c,
                        J::Bool(*expected),
                        J::s(m),
                        bbn(target),
                        sp,
                    ])
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    let v = self.operand(value, &body, &job);
                    let ra = self.place(*resume_arg, &body);
                    J::Arr(vec![J::s("yield"), v, bbn(resume), ra])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::Arr(vec![J::s("goto"), bbn(real_target)])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::Arr(vec![J::s("goto"), bbn(real_target)])
                }
                TerminatorKind::CoroutineDrop => J::Arr(vec![J::s("unwind")]),
                TerminatorKind::InlineAsm { .. } => J::Arr(vec![J::s("asm")]),
            };
            blocks.push(J::Arr(vec![
                J::Arr(st),
                tj,
                J::Bool(bb.is_cleanup),
            ]));
        }
        let _ = key;
        let kind = match job.inst.def {
            InstanceKind::Item(d) => format!("{:?}", tcx.def_kind(d)),
            _ => "Shim".to_string(),
        };
        let parent = if tcx.is_closure_like(did) {
            J::s(self.path(tcx.typeck_root_def_id(did)))
        } else {
            J::Null
        };
        J::Obj(vec![
            ("path", J::s(self.path(did))),
            ("pretty", J::s(self.pretty(did))),
            ("kind", J::s(kind)),
            ("coroutine", J::Bool(tcx.is_coroutine(did))),
            ("parent", parent),
            ("early", J::Bool(early)),
            ("local", J::Bool(did.is_local())),
            ("promoted", J::Bool(job.promoted.is_some())),
            ("argc", J::Num(body.arg_count as i128)),
            ("spread", body.spread_arg.map_or(J::Null, |l| J::Num(l.as_u32() as i128))),
            ("locals", J::Arr(locals)),
            ("names", J::Arr(names)),
            ("blocks", J::Arr(blocks)),
            ("span", self.span(body.span)),
        ])
    }

    fn line(&self, s: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        J::Num(sm.lookup_char_pos(s.lo()).line as i128)
    }
}
