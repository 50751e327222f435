//! MIR extraction driver.  Injected with RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
//! Dumps, as JSON, the type-checked and monomorphised MIR of the crate being compiled: every local body, and
//! every instance reachable from them through the crates named in VDRIVER_DESCEND.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON
fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jarr(v: impl IntoIterator<Item = String>) -> String {
    let mut o = String::from("[");
    for (i, x) in v.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&x);
    }
    o.push(']');
    o
}
fn jopt(v: Option<String>) -> String {
    v.unwrap_or_else(|| "null".into())
}

// ---------------------------------------------------------------- context
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum BodyRef<'tcx> {
    Inst(Instance<'tcx>, bool),           // (instance, polymorphic env of its own def)
    Promoted(Instance<'tcx>, Promoted, bool),
    Const(DefId, GenericArgsRef<'tcx>),
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    descend: Vec<String>,
    types: Vec<String>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, String>,
    queue: VecDeque<(BodyRef<'tcx>, String, TypingEnv<'tcx>)>,
    keys: HashMap<BodyRef<'tcx>, String>,
    used_keys: HashMap<String, usize>,
    bodies: Vec<(String, String)>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        // raw definition path with impls named after what they implement
        let tcx = self.tcx;
        let krate = tcx.crate_name(d.krate).to_string();
        if let Some(parent) = tcx.opt_parent(d) {
            let key = tcx.def_key(d);
            use rustc_hir::definitions::DefPathData as D;
            let me = match key.disambiguated_data.data {
                D::Closure => format!("{{closure#{}}}", key.disambiguated_data.disambiguator),
                D::Ctor => "{ctor}".into(),
                D::AnonConst => format!("{{const#{}}}", key.disambiguated_data.disambiguator),
                D::Impl => {
                    return self.impl_path(d);
                }
                _ => match tcx.opt_item_name(d) {
                    Some(n) => n.to_string(),
                    None => format!("{:?}#{}", key.disambiguated_data.data, key.disambiguated_data.disambiguator),
                },
            };
            return format!("{}::{}", self.path(parent), me);
        }
        krate
    }
    fn impl_path(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        if let Some(tr) = tcx.impl_opt_trait_ref(d) {
            let tr = tr.instantiate_identity().skip_norm_wip();
            let mut t = self.path(tr.def_id);
            let targs: Vec<String> = tr.args.types().skip(1).map(|t| self.tstr(t)).collect();
            if !targs.is_empty() {
                t = format!("{}<{}>", t, targs.join(","));
            }
            format!("<{} as {}>", self.tstr(st), t)
        } else {
            self.tstr_head(st)
        }
    }
    fn tstr_head(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.path(a.did()),
            _ => self.tstr(t),
        }
    }
    fn tstr(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, args) => {
                let mut s = self.path(a.did());
                let ts: Vec<String> = args
                    .iter()
                    .filter_map(|g| match g.kind() {
                        ty::GenericArgKind::Type(t) => Some(self.tstr(t)),
                        ty::GenericArgKind::Const(c) => Some(format!("{c:?}")),
                        _ => None,
                    })
                    .collect();
                if !ts.is_empty() {
                    s = format!("{}<{}>", s, ts.join(","));
                }
                s
            }
            ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.tstr(*t)),
            ty::RawPtr(t, m) => format!("*{} {}", if m.is_mut() { "mut" } else { "const" }, self.tstr(*t)),
            ty::Slice(t) => format!("[{}]", self.tstr(*t)),
            ty::Array(t, n) => format!("[{};{:?}]", self.tstr(*t), n),
            ty::Tuple(ts) => format!("({})", ts.iter().map(|t| self.tstr(t)).collect::<Vec<_>>().join(",")),
            ty::Closure(d, _) => format!("closure:{}", self.path(*d)),
            ty::FnDef(d, _) => format!("fn:{}", self.path(*d)),
            ty::Dynamic(preds, ..) => {
                let mut s = String::from("dyn ");
                if let Some(p) = preds.principal_def_id() {
                    s += &self.path(p);
                }
                s
            }
            _ => format!("{t}"),
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.type_ids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.type_ids.insert(t, id);
        self.types.push(String::new());
        let disp = self.tstr(t);
        let body = match t.kind() {
            ty::Adt(a, args) => {
                self.adt(*a);
                let args: Vec<String> = args
                    .iter()
                    .filter_map(|g| match g.kind() {
                        ty::GenericArgKind::Type(t) => Some(self.ty(t).to_string()),
                        _ => None,
                    })
                    .collect();
                format!("\"k\":\"adt\",\"name\":{},\"args\":{}", js(&self.path(a.did())), jarr(args))
            }
            ty::Ref(_, t, m) => format!("\"k\":\"ref\",\"mut\":{},\"to\":{}", m.is_mut(), self.ty(*t)),
            ty::RawPtr(t, m) => format!("\"k\":\"ptr\",\"mut\":{},\"to\":{}", m.is_mut(), self.ty(*t)),
            ty::Slice(t) => format!("\"k\":\"slice\",\"to\":{}", self.ty(*t)),
            ty::Array(t, n) => {
                let n = n.try_to_target_usize(self.tcx);
                format!("\"k\":\"array\",\"to\":{},\"len\":{}", self.ty(*t), jopt(n.map(|n| n.to_string())))
            }
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"tuple\",\"args\":{}", jarr(a))
            }
            ty::Str => "\"k\":\"str\"".into(),
            ty::Bool => "\"k\":\"bool\"".into(),
            ty::Char => "\"k\":\"char\"".into(),
            ty::Int(_) | ty::Uint(_) => "\"k\":\"int\"".into(),
            ty::Float(_) => "\"k\":\"float\"".into(),
            ty::Never => "\"k\":\"never\"".into(),
            ty::Param(_) => "\"k\":\"param\"".into(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".into(),
            ty::Closure(d, args) => {
                let inst = Instance::new_raw(*d, args);
                let env = TypingEnv::post_analysis(self.tcx, self.tcx.typeck_root_def_id(*d));
                let mono = !args.as_closure().parent_args().iter().any(|a| has_param(*a));
                let env = if mono { TypingEnv::fully_monomorphized() } else { env };
                let k = self.request(BodyRef::Inst(inst, !mono), env);
                let kind = args.as_closure().kind();
                format!("\"k\":\"closure\",\"key\":{},\"kind\":{}", jopt(k.map(|k| js(&k))), js(&format!("{kind:?}")))
            }
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let env = if args.iter().any(|a| has_param(a)) {
                    None
                } else {
                    Some(TypingEnv::fully_monomorphized())
                };
                let f = self.callee(*d, args, env);
                format!("\"k\":\"fndef\",\"fn\":{}", f)
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".into(),
            ty::Alias(..) => "\"k\":\"alias\"".into(),
            _ => "\"k\":\"other\"".into(),
        };
        self.types[id] = format!("{{{},\"d\":{}}}", body, js(&disp));
        id
    }

    fn adt(&mut self, a: ty::AdtDef<'tcx>) {
        let name = self.path(a.did());
        if self.adts.contains_key(&name) {
            return;
        }
        self.adts.insert(name.clone(), String::new());
        let tcx = self.tcx;
        let mut vs = vec![];
        for (i, v) in a.variants().iter_enumerated() {
            let discr = if a.is_enum() { a.discriminant_for_variant(tcx, i).to_string() } else { "0".into() };
            let fields: Vec<String> = v.fields.iter().map(|f| js(f.name.as_str())).collect();
            let ftys: Vec<String> = v
                .fields
                .iter()
                .map(|f| js(&self.tstr(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())))
                .collect();
            vs.push(format!(
                "{{\"name\":{},\"discr\":{},\"fields\":{},\"ftys\":{}}}",
                js(v.name.as_str()),
                js(&discr),
                jarr(fields),
                jarr(ftys)
            ));
        }
        let kind = if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" };
        let local = a.did().is_local();
        self.adts.insert(name, format!("{{\"kind\":\"{}\",\"local\":{},\"variants\":{}}}", kind, local, jarr(vs)));
        // The types of the fields too (the rules follow paths into values the code itself may not look at).
        let krate = tcx.crate_name(a.did().krate);
        if !matches!(krate.as_str(), "core" | "std" | "alloc" | "hashbrown") {
            let nested: Vec<ty::AdtDef<'tcx>> = a
                .all_fields()
                .flat_map(|f| tcx.type_of(f.did).instantiate_identity().skip_norm_wip().walk())
                .filter_map(|g| match g.kind() {
                    ty::GenericArgKind::Type(t) => t.ty_adt_def(),
                    _ => None,
                })
                .collect();
            for n in nested {
                self.adt(n);
            }
        }
    }

    /// May the engine look into the body of this definition?
    fn may_descend(&self, d: DefId) -> bool {
        if d.is_local() {
            return true;
        }
        let p = self.path(d);
        let p = p.trim_start_matches('<').trim_start_matches('&');
        let modpath = self.modpath(d);
        self.descend.iter().any(|x| p.starts_with(x.as_str()) || modpath.starts_with(x.as_str()))
    }
    fn modpath(&self, d: DefId) -> String {
        // raw module path of the definition site, e.g. core::option
        let tcx = self.tcx;
        format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
    }

    fn request(&mut self, b: BodyRef<'tcx>, env: TypingEnv<'tcx>) -> Option<String> {
        if let Some(k) = self.keys.get(&b) {
            return Some(k.clone());
        }
        let tcx = self.tcx;
        let name = match b {
            BodyRef::Inst(i, _) => {
                match i.def {
                    InstanceKind::Item(d) => {
                        if !self.may_descend(d) || !tcx.is_mir_available(d) || tcx.is_foreign_item(d) {
                            return None;
                        }
                        if tcx.intrinsic(d).is_some_and(|x| x.must_be_overridden) {
                            return None;
                        }
                        self.path(d)
                    }
                    InstanceKind::Shim(ty::ShimKind::ClosureOnce { call_once: _, .. }) => return None,
                    InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => return None,
                    _ => return None,
                }
            }
            BodyRef::Promoted(i, p, _) => format!("{}::{{promoted#{}}}", self.path(i.def_id()), p.index()),
            BodyRef::Const(d, _) => self.path(d),
        };
        let n = self.used_keys.entry(name.clone()).or_insert(0);
        let key = if *n == 0 { name.clone() } else { format!("{}@{}", name, n) };
        *n += 1;
        self.keys.insert(b, key.clone());
        self.queue.push_back((b, key.clone(), env));
        Some(key)
    }

    /// JSON of a callee, resolving trait methods where possible.
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: Option<TypingEnv<'tcx>>) -> String {
        let tcx = self.tcx;
        let targs: Vec<String> = args
            .iter()
            .filter_map(|g| match g.kind() {
                ty::GenericArgKind::Type(t) => Some(self.ty(t).to_string()),
                _ => None,
            })
            .collect();
        let raw = self.path(d);
        let is_trait = tcx.trait_of_assoc(d).is_some();
        let mut name = raw.clone();
        let mut key = None;
        let mut virt = false;
        let mut closure_call = false;
        let mut rargs = None;
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            name = self.path(d);
        } else if let Some(env) = env {
            match Instance::try_resolve(tcx, env, d, args) {
                Ok(Some(i)) => {
                    name = self.path(i.def_id());
                    match i.def {
                        InstanceKind::Virtual(..) => virt = true,
                        InstanceKind::Item(_) => {
                            let poly = i.args.iter().any(has_param);
                            let e = if poly { env } else { TypingEnv::fully_monomorphized() };
                            key = self.request(BodyRef::Inst(i, poly), e);
                            rargs = Some(i.args);
                        }
                        InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => closure_call = true,
                        _ => {}
                    }
                }
                _ => {}
            }
        }
        let rt: Option<String> = rargs.map(|a| {
            let v: Vec<String> = a
                .iter()
                .filter_map(|g| match g.kind() {
                    ty::GenericArgKind::Type(t) => Some(self.ty(t).to_string()),
                    _ => None,
                })
                .collect();
            jarr(v)
        });
        let ctor = if let DefKind::Ctor(of, _) = tcx.def_kind(d) {
            let variant = match of {
                rustc_hir::def::CtorOf::Variant => tcx.parent(d),
                rustc_hir::def::CtorOf::Struct => tcx.parent(d),
            };
            let adt_did = match of {
                rustc_hir::def::CtorOf::Variant => tcx.parent(variant),
                rustc_hir::def::CtorOf::Struct => variant,
            };
            let adt = tcx.adt_def(adt_did);
            self.adt(adt);
            let idx = match of {
                rustc_hir::def::CtorOf::Variant => adt.variant_index_with_id(variant).index(),
                rustc_hir::def::CtorOf::Struct => 0,
            };
            format!("{{\"adt\":{},\"v\":{}}}", js(&self.path(adt_did)), idx)
        } else {
            "null".into()
        };
        format!(
            "{{\"name\":{},\"raw\":{},\"trait\":{},\"key\":{},\"targs\":{},\"rargs\":{},\"virt\":{},\"cc\":{},\"ctor\":{},\"krate\":{}}}",
            js(&name),
            js(&raw),
            is_trait,
            jopt(key.map(|k| js(&k))),
            jarr(targs),
            jopt(rt),
            virt,
            closure_call,
            ctor,
            js(tcx.crate_name(d.krate).as_str())
        )
    }

    // ------------------------------------------------------------ bodies
    fn dump(&mut self, b: BodyRef<'tcx>, key: String, env: TypingEnv<'tcx>) {
        let tcx = self.tcx;
        let (body, args): (&Body<'tcx>, Option<GenericArgsRef<'tcx>>) = match b {
            BodyRef::Inst(i, _) => (tcx.instance_mir(i.def), Some(i.args)),
            BodyRef::Promoted(i, p, _) => (&tcx.promoted_mir(i.def_id())[p], Some(i.args)),
            BodyRef::Const(d, a) => (tcx.mir_for_ctfe(d), Some(a)),
        };
        let owner = match b {
            BodyRef::Inst(i, _) => i,
            BodyRef::Promoted(i, _, _) => i,
            BodyRef::Const(d, a) => Instance::new_raw(d, a),
        };
        let body: Body<'tcx> = match args {
            Some(args) => tcx.instantiate_and_normalize_erasing_regions(
                args,
                env,
                ty::EarlyBinder::bind(tcx, body.clone()),
            ),
            None => body.clone(),
        };
        let mut d = D { cx: self, body: &body, env, owner, b };
        let s = d.body();
        self.bodies.push((key, s));
    }
}

fn has_param(a: ty::GenericArg<'_>) -> bool {
    use rustc_middle::ty::TypeVisitableExt;
    a.has_param()
}

struct D<'a, 'tcx> {
    cx: &'a mut Cx<'tcx>,
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
    owner: Instance<'tcx>,
    b: BodyRef<'tcx>,
}

impl<'a, 'tcx> D<'a, 'tcx> {
    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.cx.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        use rustc_span::RemapPathScopeComponents as R;
        format!("{}:{}", lo.file.name.display(R::DIAGNOSTICS), lo.line)
    }
    fn body(&mut self) -> String {
        let locals: Vec<String> = self.body.local_decls.iter().map(|l| self.cx.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for bb in self.body.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push("null".to_string());
                continue;
            }
            let mut st = vec![];
            for s in &bb.statements {
                if let Some(x) = self.stmt(s) {
                    st.push(x);
                }
            }
            let t = self.term(bb.terminator());
            blocks.push(format!("{{\"s\":{},\"t\":{}}}", jarr(st), t));
        }
        let names: Vec<String> = self
            .body
            .var_debug_info
            .iter()
            .filter_map(|v| match v.value {
                VarDebugInfoContents::Place(p) if p.projection.is_empty() => {
                    Some(format!("[{},{}]", p.local.index(), js(v.name.as_str())))
                }
                _ => None,
            })
            .collect();
        format!(
            "{{\"argc\":{},\"locals\":{},\"blocks\":{},\"names\":{},\"spread\":{},\"span\":{},\"def\":{},\"poly\":{}}}",
            self.body.arg_count,
            jarr(locals),
            jarr(blocks),
            jarr(names),
            jopt(self.body.spread_arg.map(|l| l.index().to_string())),
            js(&self.span(self.body.span)),
            js(&self.cx.path(self.owner.def_id())),
            matches!(self.b, BodyRef::Inst(_, true) | BodyRef::Promoted(_, _, true)),
        )
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut proj = vec![];
        for e in p.projection.iter() {
            proj.push(match e {
                ProjectionElem::Deref => "\"*\"".into(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.index(), self.cx.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => {
                    format!("[\"c\",{},{},{}]", offset, from_end, min_length)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.index()),
                _ => "[\"o\"]".into(),
            });
        }
        format!("[{},{}]", p.local.index(), jarr(proj))
    }
    fn bytes_of(&self, alloc: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.cx.tcx.try_get_global_alloc(alloc)? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                if (a.len() as u64) < off + len {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize).to_vec())
            }
            _ => None,
        }
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<String> {
        let tcx = self.cx.tcx;
        match v {
            ConstValue::ZeroSized => Some("{\"zst\":true}".into()),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let size = i.size();
                let raw = i.to_bits(size);
                let s = if t.is_signed() {
                    size.sign_extend(raw).to_string()
                } else {
                    raw.to_string()
                };
                Some(format!("{{\"int\":{}}}", js(&s)))
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                if let ty::Ref(_, inner, _) = t.kind() {
                    match inner.kind() {
                        ty::Array(e, n) if *e == tcx.types.u8 => {
                            let n = n.try_to_target_usize(tcx)?;
                            let b = self.bytes_of(id, off.bytes(), n)?;
                            return Some(format!("{{\"bytes\":{}}}", jarr(b.iter().map(|x| x.to_string()))));
                        }
                        ty::Array(e, n) if matches!(e.kind(), ty::Ref(_, s, _) if s.is_str()) => {
                            // &[&str; n]
                            let n = n.try_to_target_usize(tcx)?;
                            let GlobalAlloc::Memory(a) = tcx.try_get_global_alloc(id)? else { return None };
                            let a = a.inner();
                            let mut out = vec![];
                            for i in 0..n {
                                let o = off.bytes() + i * 16;
                                let prov = a.provenance().ptrs().get(&rustc_abi::Size::from_bytes(o))?;
                                let inner_id = prov.alloc_id();
                                let hdr = self.bytes_of(id, o, 16)?;
                                let o2 = u64::from_le_bytes(hdr[0..8].try_into().ok()?);
                                let len = u64::from_le_bytes(hdr[8..16].try_into().ok()?);
                                let b = self.bytes_of(inner_id, o2, len)?;
                                out.push(js(&String::from_utf8_lossy(&b)));
                            }
                            return Some(format!("{{\"strs\":{}}}", jarr(out)));
                        }
                        _ => {}
                    }
                }
                None
            }
            ConstValue::Slice { alloc_id, meta } => {
                let b = self.bytes_of(alloc_id, 0, meta);
                if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() {
                        return Some(format!("{{\"str\":{}}}", js(&String::from_utf8_lossy(&b?))));
                    }
                    if let ty::Slice(e) = inner.kind() {
                        if *e == tcx.types.u8 {
                            return Some(format!("{{\"bytes\":{}}}", jarr(b?.iter().map(|x| x.to_string()))));
                        }
                    }
                }
                None
            }
            ConstValue::Indirect { alloc_id, offset } => {
                // a &str or &[u8] stored in memory
                if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() {
                        let hdr = self.bytes_of(alloc_id, offset.bytes(), 16)?;
                        let GlobalAlloc::Memory(a) = tcx.try_get_global_alloc(alloc_id)? else { return None };
                        let prov = a.inner().provenance().ptrs().get(&offset)?;
                        let o2 = u64::from_le_bytes(hdr[0..8].try_into().ok()?);
                        let len = u64::from_le_bytes(hdr[8..16].try_into().ok()?);
                        let b = self.bytes_of(prov.alloc_id(), o2, len)?;
                        return Some(format!("{{\"str\":{}}}", js(&String::from_utf8_lossy(&b))));
                    }
                }
                None
            }
        }
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let t = c.const_.ty();
        let tid = self.cx.ty(t);
        let mut def = None;
        let mut key = None;
        let mut val = None;
        match c.const_ {
            Const::Unevaluated(uv, _) => {
                if let Some(p) = uv.promoted {
                    let inst = Instance::new_raw(uv.def, uv.args);
                    let poly = uv.args.iter().any(has_param);
                    key = self.cx.request(BodyRef::Promoted(inst, p, poly), self.env);
                } else {
                    def = Some(self.cx.path(uv.def));
                    use rustc_middle::ty::TypeVisitableExt;
                    let mut d = uv.def;
                    let mut a = uv.args;
                    if tcx.trait_of_assoc(d).is_some() {
                        if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, d, a) {
                            d = i.def_id();
                            a = i.args;
                        }
                    }
                    if !uv.has_param() {
                        if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
                            val = self.cval(v, t);
                        }
                    }
                    if val.is_none()
                        && matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. })
                        && tcx.trait_of_assoc(d).is_none()
                        && !a.has_param()
                    {
                        key = self.cx.request(BodyRef::Const(d, a), self.env);
                    }
                }
            }
            Const::Val(v, _) => val = self.cval(v, t),
            Const::Ty(..) => {
                use rustc_middle::ty::TypeVisitableExt;
                if !c.const_.has_param() {
                    if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
                        val = self.cval(v, t);
                    }
                }
            }
        }
        let mut fnj = String::from("null");
        if let ty::FnDef(d, args) = t.kind() {
            fnj = self.cx.callee(*d, args.skip_binder(), Some(self.env));
        }
        let disp = format!("{}", c.const_);
        format!(
            "[\"k\",{{\"ty\":{},\"def\":{},\"key\":{},\"val\":{},\"fn\":{},\"d\":{}}}]",
            tid,
            jopt(def.map(|d| js(&d))),
            jopt(key.map(|d| js(&d))),
            jopt(val),
            fnj,
            js(&disp)
        )
    }
    fn op(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(c),
            _ => "[\"rt\"]".into(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.cx.tcx);
                format!("[\"repeat\",{},{}]", self.op(o), jopt(n.map(|n| n.to_string())))
            }
            Rvalue::Ref(_, bk, p) => {
                format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }), self.place(p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                format!("[\"cast\",{},{},{}]", js(&format!("{k:?}")), self.op(o), self.cx.ty(*t))
            }
            Rvalue::BinaryOp(b, ops) => {
                let (x, y) = (&ops.0, &ops.1);
                format!("[\"bin\",{},{},{}]", js(&format!("{b:?}")), self.op(x), self.op(y))
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", js(&format!("{u:?}")), self.op(o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, fs) => {
                let f: Vec<String> = fs.iter().map(|o| self.op(o)).collect();
                let f = jarr(f);
                match &**k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",{}]", f),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",{}]", f),
                    AggregateKind::Adt(d, v, ..) => {
                        let a = self.cx.tcx.adt_def(*d);
                        self.cx.adt(a);
                        format!("[\"agg\",\"adt\",{},{},{}]", f, js(&self.cx.path(*d)), v.index())
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.cx.tcx, *d, args);
                        format!("[\"agg\",\"closure\",{},{}]", f, self.cx.ty(t))
                    }
                    _ => format!("[\"agg\",\"other\",{}]", f),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"reborrow\",{},{}]", m.is_mut(), self.place(p)),
            _ => format!("[\"other\",{}]", js(&format!("{r:?}"))),
        }
    }
    fn stmt(&mut self, s: &Statement<'tcx>) -> Option<String> {
        match &s.kind {
            StatementKind::Assign(a) => {
                let (p, r) = &**a;
                let r = self.rvalue(r);
                Some(format!("[\"a\",{},{}]", self.place(p), r))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                Some(format!("[\"sd\",{},{}]", self.place(place), variant_index.index()))
            }
            _ => None,
        }
    }
    fn term(&mut self, t: &Terminator<'tcx>) -> String {
        let sp = js(&self.span(t.source_info.span));
        match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(&self.body.local_decls, self.cx.tcx);
                let signed = ty.is_signed();
                let size = self
                    .cx
                    .tcx
                    .layout_of(self.env.as_query_input(ty))
                    .ok()
                    .map(|l| l.size);
                let ts: Vec<String> = targets
                    .iter()
                    .map(|(v, b)| {
                        let vs = match (signed, size) {
                            (true, Some(sz)) => sz.sign_extend(v).to_string(),
                            _ => v.to_string(),
                        };
                        format!("[{},{}]", js(&vs), b.index())
                    })
                    .collect();
                format!("[\"switch\",{},{},{},{}]", self.op(discr), jarr(ts), targets.otherwise().index(), sp)
            }
            TerminatorKind::Return => "[\"ret\"]".into(),
            TerminatorKind::Unreachable => "[\"unreach\"]".into(),
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(&self.body.local_decls, self.cx.tcx).ty;
                if ty.needs_drop(self.cx.tcx, self.env) {
                    format!("[\"drop\",{},{},{}]", self.place(place), target.index(), sp)
                } else {
                    format!("[\"goto\",{}]", target.index())
                }
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let f = match func.constant() {
                    Some(c) if matches!(c.const_.ty().kind(), ty::FnDef(..)) => {
                        let ty::FnDef(d, a) = c.const_.ty().kind() else { unreachable!() };
                        format!("[\"fn\",{}]", self.cx.callee(*d, a.skip_binder(), Some(self.env)))
                    }
                    _ => format!("[\"op\",{}]", self.op(func)),
                };
                let a: Vec<String> = args.iter().map(|o| self.op(&o.node)).collect();
                let at: Vec<String> = args
                    .iter()
                    .map(|o| {
                        let t = o.node.ty(&self.body.local_decls, self.cx.tcx);
                        self.cx.ty(t).to_string()
                    })
                    .collect();
                let dt = destination.ty(&self.body.local_decls, self.cx.tcx).ty;
                let dt = self.cx.ty(dt);
                format!(
                    "[\"call\",{},{},{},{},{},{},{}]",
                    f,
                    jarr(a),
                    self.place(destination),
                    jopt(target.map(|t| t.index().to_string())),
                    sp,
                    jarr(at),
                    dt
                )
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                    AssertKind::Overflow(b, ..) => format!("overflow {b:?}"),
                    m => format!("{m:?}"),
                };
                format!("[\"assert\",{},{},{},{},{}]", self.op(cond), expected, target.index(), js(&m), sp)
            }
            TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
            TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
            k => format!("[\"other\",{}]", js(&format!("{k:?}"))),
        }
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(out) = std::env::var("VDRIVER_OUT") {
            dump(tcx, &out);
        }
        Compilation::Continue
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let descend = std::env::var("VDRIVER_DESCEND").unwrap_or_default();
    let mut cx = Cx {
        tcx,
        descend: descend.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
        types: vec![],
        type_ids: HashMap::new(),
        adts: BTreeMap::new(),
        queue: VecDeque::new(),
        keys: HashMap::new(),
        used_keys: HashMap::new(),
        bodies: vec![],
    };
    let mut items = vec![];
    for d in tcx.mir_keys(()).iter() {
        let did = d.to_def_id();
        let kind = tcx.def_kind(did);
        let path = cx.path(did);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if tcx.is_coroutine(did) {
                    continue;
                }
                let args = ty::GenericArgs::identity_for_item(tcx, did);
                let poly = args.iter().any(has_param);
                let env = if poly { TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(did)) } else { TypingEnv::fully_monomorphized() };
                if kind == DefKind::Closure {
                    continue; // dumped through their type
                }
                let k = cx.request(BodyRef::Inst(Instance::new_raw(did, args), poly), env);
                let vis = tcx.visibility(did).is_public();
                let exported = tcx.effective_visibilities(()).is_reachable(*d);
                let names: Vec<String> = tcx.fn_arg_idents(did).iter().map(|n| js(&n.map(|n| n.to_string()).unwrap_or_default())).collect();
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
                let ins: Vec<String> = sig.inputs().iter().map(|t| js(&cx.tstr(*t))).collect();
                let outp = js(&cx.tstr(sig.output()));
                let from_macro = tcx.def_span(did).from_expansion();
                items.push(format!(
                    "{{\"path\":{},\"kind\":\"fn\",\"key\":{},\"pub\":{},\"exported\":{},\"args\":{},\"in\":{},\"out\":{},\"expn\":{}}}",
                    js(&path),
                    jopt(k.map(|k| js(&k))),
                    vis,
                    exported,
                    jarr(names),
                    jarr(ins),
                    outp,
                    from_macro
                ));
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                let args = ty::GenericArgs::identity_for_item(tcx, did);
                if args.iter().any(has_param) {
                    continue;
                }
                let k = cx.request(BodyRef::Const(did, args), TypingEnv::fully_monomorphized());
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let ts = cx.tstr(t);
                items.push(format!(
                    "{{\"path\":{},\"kind\":\"const\",\"key\":{},\"ty\":{}}}",
                    js(&path),
                    jopt(k.map(|k| js(&k))),
                    js(&ts)
                ));
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let frozen = t.is_freeze(tcx, TypingEnv::fully_monomorphized());
                let m = mutability.is_mut() || !frozen;
                let ts = cx.tstr(t);
                items.push(format!("{{\"path\":{},\"kind\":\"static\",\"key\":null,\"mut\":{},\"ty\":{}}}", js(&path), m, js(&ts)));
            }
            _ => {}
        }
    }
    // local ADTs
    for d in tcx.hir_crate_items(()).definitions() {
        if matches!(tcx.def_kind(d.to_def_id()), DefKind::Struct | DefKind::Enum) {
            let a = tcx.adt_def(d.to_def_id());
            cx.adt(a);
        }
    }
    while let Some((b, k, env)) = cx.queue.pop_front() {
        cx.dump(b, k, env);
    }
    let stripped: Vec<String> = tcx
        .stripped_cfg_items(LOCAL_CRATE)
        .iter()
        .map(|s| format!("[{},{},{}]", js(&cx.path(s.parent_scope)), js(s.ident.name.as_str()), js(&format!("{:?}", s.cfg.0))))
        .collect();
    let mut o = String::new();
    let _ = write!(o, "{{\"crate\":{},\"types\":{},", js(tcx.crate_name(LOCAL_CRATE).as_str()), jarr(cx.types.clone()));
    o.push_str("\"adts\":{");
    o.push_str(&cx.adts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    o.push_str("},\"items\":");
    o.push_str(&jarr(items));
    o.push_str(",\"stripped\":");
    o.push_str(&jarr(stripped));
    o.push_str(",\"bodies\":{\n");
    o.push_str(&cx.bodies.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",\n"));
    o.push_str("}}\n");
    std::fs::write(out, o).expect("write VDRIVER_OUT");
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let want = std::env::var("VDRIVER_CRATE").unwrap_or_default();
    let is = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want);
    if !is {
        unsafe { std::env::remove_var("VDRIVER_OUT") };
    }
    rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    })
}
