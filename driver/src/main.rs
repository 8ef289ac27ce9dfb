// mirfacts: a rustc driver that dumps the resolved program (MIR) of the crate being
// compiled as JSON. It is injected with RUSTC_WORKSPACE_WRAPPER under `cargo check`, so it
// sees exactly the flags, features and generated sources of the real build. It runs no code
// of the crate under analysis.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_type_ir;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::mir::interpret::Scalar;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, BTreeSet, HashSet, VecDeque};
use std::fmt::Write as _;

// ---------- tiny JSON writer ----------
fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    queue: VecDeque<(Instance<'tcx>, DefId, usize)>,
    seen: HashSet<String>,
    adts: BTreeMap<String, String>,
    out: BTreeMap<String, String>,
    workspace: BTreeSet<String>,
    statics_seen: HashSet<DefId>,
    const_queue: VecDeque<(DefId, Option<Promoted>)>,
}

// Non-workspace functions whose bodies are plain combinators: they are dumped (monomorphised at
// the call) so that the analyses see through `?`, Option/Result combinators and iterator adapters.
fn inline_external(path: &str) -> bool {
    const PFX: &[&str] = &[
        "core::option::", "std::option::", "core::result::", "std::result::",
        "core::ops::try_trait", "core::ops::control_flow", "core::ops::function", "core::bool::",
        "std::ops::", "core::ops::",
        "core::convert::", "std::convert::",
        "core::cmp::", "std::cmp::",
        "core::iter::", "std::iter::",
        "core::mem::replace", "core::mem::take", "std::mem::replace", "std::mem::take",
        "anyhow::context::", "anyhow::Context",
        "core::ops::bit", "core::num::", "std::bool", "core::str::traits",
        "core::array::", "core::tuple::", "core::clone", "std::clone",
    ];
    if path.contains("::sources::once") || path.contains("::sources::empty") {
        return true;
    }
    PFX.iter().any(|p| path.starts_with(p))
        || path.starts_with('<')
            && ["Option<", "Result<", "ControlFlow<", "std::iter::", "core::iter::", "std::option::", "std::result::", "core::ops::", "std::ops::"]
                .iter()
                .any(|p| path[1..].starts_with(p) || path.contains(&format!(" as {}", p)))
        || path.contains("as anyhow::Context")
}

impl<'tcx> Cx<'tcx> {
    fn crate_of(&self, d: DefId) -> String {
        self.tcx.crate_name(d.krate).to_string()
    }
    fn in_workspace(&self, d: DefId) -> bool {
        d.is_local() || self.workspace.contains(&self.crate_of(d))
    }
    // Stable identity of a definition: crate plus definition path (no line numbers).
    fn key(&self, d: DefId) -> String {
        let mut s = self.crate_of(d);
        for seg in self.tcx.def_path(d).data {
            s.push_str("::");
            let t = seg.as_sym(true).to_string();
            s.push_str(&t);
        }
        s
    }
    fn path(&self, d: DefId) -> String {
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.is_local() {
            // def_path_str omits the local crate name
            if s.starts_with('<') { s } else { format!("{}::{}", self.crate_of(d), s) }
        } else {
            s
        }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> String {
        self.note_adt(t, 0);
        rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string())
    }
    fn note_adt(&mut self, t: Ty<'tcx>, depth: usize) {
        if depth > 3 {
            return;
        }
        match t.kind() {
            ty::Adt(def, args) => {
                let k = self.key(def.did());
                if !self.adts.contains_key(&k) {
                    self.adts.insert(k.clone(), String::new());
                    let mut vs = Vec::new();
                    if def.is_enum() || def.is_struct() {
                        let discrs: Vec<u128> = if def.is_enum() {
                            def.discriminants(self.tcx).map(|(_, d)| d.val).collect()
                        } else {
                            vec![0]
                        };
                        for (i, v) in def.variants().iter().enumerate() {
                            let fs: Vec<String> = v
                                .fields
                                .iter()
                                .map(|f| {
                                    let fty = rustc_middle::ty::print::with_no_trimmed_paths!(self
                                        .tcx
                                        .type_of(f.did)
                                        .instantiate_identity()
                                        .skip_norm_wip()
                                        .to_string());
                                    format!("[{},{}]", js(f.name.as_str()), js(&fty))
                                })
                                .collect();
                            vs.push(format!(
                                "{{\"n\":{},\"d\":{},\"f\":{}}}",
                                js(v.name.as_str()),
                                discrs.get(i).copied().unwrap_or(0),
                                arr(fs)
                            ));
                        }
                    }
                    let kind = if def.is_enum() { "enum" } else if def.is_struct() { "struct" } else { "union" };
                    let s = format!(
                        "{{\"path\":{},\"kind\":\"{}\",\"variants\":{}}}",
                        js(&self.path(def.did())),
                        kind,
                        arr(vs)
                    );
                    self.adts.insert(k, s);
                }
                for a in args.types() {
                    self.note_adt(a, depth + 1);
                }
            }
            ty::Ref(_, t, _) => self.note_adt(*t, depth + 1),
            ty::Tuple(ts) => {
                for t in ts.iter() {
                    self.note_adt(t, depth + 1)
                }
            }
            _ => {}
        }
    }
    fn adt_key_of(&mut self, t: Ty<'tcx>) -> Option<String> {
        match t.kind() {
            ty::Adt(d, _) => Some(self.key(d.did())),
            ty::Closure(d, _) => Some(self.key(*d)),
            _ => None,
        }
    }
    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("{}:{}", f, lo.line)
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut pr = Vec::new();
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, _) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(def, _) if !def.is_union() => {
                            let v = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variants()
                                .get(v)
                                .and_then(|v| v.fields.get(i))
                                .map(|f| f.name.to_string())
                        }
                        _ => None,
                    };
                    let owner = self.adt_key_of(pty.ty);
                    format!(
                        "{{\"f\":{},\"n\":{},\"o\":{}}}",
                        i.as_usize(),
                        name.map(|n| js(&n)).unwrap_or("null".into()),
                        owner.map(|n| js(&n)).unwrap_or("null".into())
                    )
                }
                ProjectionElem::Index(l) => format!("{{\"i\":{}}}", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("{{\"ci\":{},\"ml\":{},\"fe\":{}}}", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("{{\"ss\":[{},{}],\"fe\":{}}}", from, to, from_end)
                }
                ProjectionElem::Downcast(n, v) => format!(
                    "{{\"d\":{},\"n\":{}}}",
                    v.as_usize(),
                    n.map(|n| js(n.as_str())).unwrap_or("null".into())
                ),
                _ => "\"?\"".to_string(),
            };
            pr.push(s);
            pty = pty.projection_ty(tcx, e);
        }
        format!("{{\"l\":{},\"p\":{}}}", p.local.as_usize(), arr(pr))
    }

    fn alloc_str(&self, id: interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        let a = match self.tcx.try_get_global_alloc(id)? {
            interpret::GlobalAlloc::Memory(a) => a,
            _ => return None,
        };
        let a = a.inner();
        let end = off.checked_add(len)?;
        if end > a.size().bytes() {
            return None;
        }
        Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..end as usize).to_vec())
    }
    fn bytes_json(b: &[u8], is_str: bool) -> String {
        if is_str {
            if let Ok(s) = std::str::from_utf8(b) {
                return format!("{{\"str\":{}}}", js(s));
            }
        }
        format!("{{\"bytes\":{}}}", arr(b.iter().map(|x| x.to_string()).collect()))
    }

    fn fn_operand(&mut self, env: TypingEnv<'tcx>, root: DefId, depth: usize, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let decl = self.path(d);
        let declkey = self.key(d);
        let targs: Vec<String> = args
            .types()
            .map(|t| {
                let s = self.ty(t);
                js(&s)
            })
            .collect();
        let mut closures = Vec::new();
        for t in args.types() {
            if let ty::Closure(c, _) = t.kind() {
                closures.push(js(&self.key(*c)));
            }
        }
        let selfadt = args.types().next().and_then(|t| {
            let t = t.peel_refs();
            self.adt_key_of(t)
        });
        let mut s = format!(
            "{{\"decl\":{},\"dk\":{},\"targs\":{},\"clos\":{},\"selfadt\":{}",
            js(&decl),
            js(&declkey),
            arr(targs),
            arr(closures),
            selfadt.map(|x| js(&x)).unwrap_or("null".into())
        );
        let args = tcx.erase_and_anonymize_regions(args);
        let args = tcx
            .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args))
            .unwrap_or(args);
        let inst = match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => Instance::try_resolve(tcx, env, d, args).ok().flatten(),
            _ => None,
        };
        match inst {
            Some(inst) => {
                let did = inst.def_id();
                let _ = write!(s, ",\"path\":{},\"key\":{}", js(&self.path(did)), js(&self.key(did)));
                match inst.def {
                    InstanceKind::Item(did) => {
                        if self.in_workspace(did) {
                            let _ = write!(s, ",\"kind\":\"ws\",\"body\":{}", js(&self.key(did)));
                        } else {
                            let p = self.path(did);
                            let mono = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", inst));
                            let mono = format!("{}#{}", self.key(did), mono);
                            if depth < 10 && inline_external(&p) && tcx.is_mir_available(did) && !matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
                                let _ = write!(s, ",\"kind\":\"ext\",\"body\":{}", js(&mono));
                                if self.seen.insert(mono) {
                                    self.queue.push_back((inst, root, depth + 1));
                                }
                            } else {
                                let _ = write!(s, ",\"kind\":\"ext\"");
                            }
                        }
                    }
                    InstanceKind::Virtual(..) => {
                        let _ = write!(s, ",\"kind\":\"virtual\"");
                    }
                    InstanceKind::Intrinsic(..) | InstanceKind::LlvmIntrinsic(..) => {
                        let _ = write!(s, ",\"kind\":\"intrinsic\"");
                    }
                    _ => {
                        let _ = write!(s, ",\"kind\":\"shim\",\"shim\":{}", js(&format!("{:?}", inst.def).chars().take(60).collect::<String>()));
                    }
                }
            }
            None => {
                let k = if matches!(tcx.def_kind(d), DefKind::Ctor(..)) { "ctor" } else { "unresolved" };
                let _ = write!(s, ",\"kind\":\"{}\"", k);
                if k == "ctor" {
                    // variant/struct constructor used as a function
                    let parent = tcx.parent(d);
                    let (adt, vidx) = match tcx.def_kind(parent) {
                        DefKind::Variant => {
                            let adt = tcx.parent(parent);
                            (adt, tcx.adt_def(adt).variant_index_with_id(parent).as_usize())
                        }
                        _ => (parent, 0),
                    };
                    let _ = write!(s, ",\"adt\":{},\"v\":{}", js(&self.key(adt)), vidx);
                }
            }
        }
        s.push('}');
        s
    }

    fn constant(&mut self, env: TypingEnv<'tcx>, root: DefId, depth: usize, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tstr = self.ty(t);
        // function items
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            let f = self.fn_operand(env, root, depth, *d, args);
            return format!("{{\"c\":{{\"ty\":{},\"fn\":{}}}}}", js(&tstr), f);
        }
        if let ty::Closure(d, _) = t.kind() {
            return format!("{{\"c\":{{\"ty\":{},\"closure\":{}}}}}", js(&tstr), js(&self.key(*d)));
        }
        let mut extra = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            let _ = write!(extra, ",\"def\":{}", js(&self.key(u.def)));
            if let Some(p) = u.promoted {
                let _ = write!(extra, ",\"promoted\":{}", p.as_usize());
            } else if u.def.is_local() {
                self.const_queue.push_back((u.def, None));
            }
        }
        if let Some(d) = c.check_static_ptr(tcx) {
            let _ = write!(extra, ",\"static\":{}", js(&self.key(d)));
            let sty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let a = self.adt_key_of(sty);
            if let Some(a) = a {
                let _ = write!(extra, ",\"sadt\":{}", js(&a));
            }
            if d.is_local() && self.statics_seen.insert(d) {
                self.const_queue.push_back((d, None));
            }
        }
        let v = self.const_val(env, c.const_, t);
        format!("{{\"c\":{{\"ty\":{}{}{}}}}}", js(&tstr), extra, v)
    }

    fn const_val(&mut self, env: TypingEnv<'tcx>, k: Const<'tcx>, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        if let ty::Adt(def, _) = t.kind() {
            if def.is_struct() && def.non_enum_variant().fields.is_empty() {
                let k = self.key(def.did());
                return format!(",\"unit\":{}", js(&k));
            }
        }
        let val = match k {
            Const::Val(v, _) => Some(v),
            _ => k.eval(tcx, env, rustc_span::DUMMY_SP).ok(),
        };
        let Some(val) = val else { return String::new() };
        match t.kind() {
            ty::Bool => {
                if let Some(b) = val.try_to_bool() {
                    return format!(",\"v\":{}", b);
                }
            }
            ty::Char => {
                if let Some(si) = val.try_to_scalar_int() {
                    return format!(",\"char\":{}", si.to_u32());
                }
            }
            ty::Int(_) | ty::Uint(_) => {
                if let Some(si) = val.try_to_scalar_int() {
                    let size = si.size();
                    if matches!(t.kind(), ty::Int(_)) {
                        return format!(",\"v\":{}", si.to_int(size));
                    }
                    return format!(",\"v\":{}", si.to_uint(size));
                }
            }
            ty::Float(ft) => {
                if let Some(si) = val.try_to_scalar_int() {
                    let f = match ft {
                        ty::FloatTy::F32 => f32::from_bits(si.to_u32()) as f64,
                        ty::FloatTy::F64 => f64::from_bits(si.to_u64()),
                        _ => f64::NAN,
                    };
                    return format!(",\"float\":{}", js(&format!("{:?}", f)));
                }
            }
            ty::Ref(_, inner, _) => match inner.kind() {
                ty::Str => {
                    if let ConstValue::Slice { alloc_id, meta } = val {
                        if let Some(b) = self.alloc_str(alloc_id, 0, meta) {
                            return format!(",\"v\":{}", Self::bytes_json(&b, true));
                        }
                    }
                }
                ty::Slice(e) if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) => {
                    if let ConstValue::Slice { alloc_id, meta } = val {
                        if let Some(b) = self.alloc_str(alloc_id, 0, meta) {
                            return format!(",\"v\":{}", Self::bytes_json(&b, false));
                        }
                    }
                }
                ty::Array(e, _) if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) => {
                    if let Some(Scalar::Ptr(p, _)) = val.try_to_scalar() {
                        let (prov, off) = p.into_raw_parts();
                        if let Some(interpret::GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                            let len = a.inner().size().bytes() - off.bytes();
                            if let Some(b) = self.alloc_str(prov.alloc_id(), off.bytes(), len) {
                                return format!(",\"v\":{}", Self::bytes_json(&b, false));
                            }
                        }
                    }
                }
                _ => {}
            },
            ty::Adt(def, _) => {
                // fieldless enum values
                if def.is_enum() {
                    if let Some(si) = val.try_to_scalar_int() {
                        let bits = si.to_bits(si.size());
                        for (vi, d) in def.discriminants(tcx) {
                            if d.val == bits {
                                let k = self.key(def.did());
                                return format!(",\"enum\":[{},{}]", js(&k), vi.as_usize());
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        if let ConstValue::ZeroSized = val {
            return ",\"zst\":true".into();
        }
        String::new()
    }

    fn operand(&mut self, env: TypingEnv<'tcx>, root: DefId, depth: usize, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"cp\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"mv\":{}}}", self.place(body, p)),
            Operand::Constant(c) => self.constant(env, root, depth, c),
            _ => "{\"rt\":true}".into(),
        }
    }

    fn body_json(&mut self, env: TypingEnv<'tcx>, root: DefId, depth: usize, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut s = String::new();
        let locals: Vec<String> = body
            .local_decls
            .iter()
            .map(|l| {
                let t = self.ty(l.ty);
                let a = self.adt_key_of(l.ty.peel_refs());
                format!("[{},{}]", js(&t), a.map(|x| js(&x)).unwrap_or("null".into()))
            })
            .collect();
        let mut names = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(format!("[{},{}]", js(v.name.as_str()), self.place(body, &p)));
            }
        }
        let mut gens = Vec::new();
        let mut g = Some(tcx.generics_of(root));
        let mut parts = Vec::new();
        while let Some(x) = g {
            parts.push(x);
            g = x.parent.map(|p| tcx.generics_of(p));
        }
        for x in parts.iter().rev() {
            for p in x.own_params.iter() {
                if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                    gens.push(js(p.name.as_str()));
                }
            }
        }
        let _ = write!(
            s,
            "\"gen\":{},\"argc\":{},\"span\":{},\"locals\":{},\"names\":{},\"blocks\":[",
            arr(gens),
            body.arg_count,
            js(&self.span(body.span)),
            arr(locals),
            arr(names)
        );
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                s.push(',');
            }
            let mut st = Vec::new();
            for x in &bb.statements {
                let sp = js(&self.span(x.source_info.span));
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pl = self.place(body, p);
                        let rv = match r {
                            Rvalue::Use(o, ..) => format!("{{\"k\":\"use\",\"o\":{}}}", self.operand(env, root, depth, body, o)),
                            Rvalue::Repeat(o, n) => format!(
                                "{{\"k\":\"repeat\",\"o\":{},\"n\":{}}}",
                                self.operand(env, root, depth, body, o),
                                js(&n.to_string())
                            ),
                            Rvalue::Ref(_, bk, p) => format!(
                                "{{\"k\":\"ref\",\"m\":{},\"p\":{}}}",
                                matches!(bk, BorrowKind::Mut { .. }),
                                self.place(body, p)
                            ),
                            Rvalue::RawPtr(_, p) => format!("{{\"k\":\"ref\",\"m\":true,\"raw\":true,\"p\":{}}}", self.place(body, p)),
                            Rvalue::Reborrow(_, m, p) => format!("{{\"k\":\"ref\",\"m\":{},\"p\":{}}}", m.is_mut(), self.place(body, p)),
                            Rvalue::CopyForDeref(p) => format!("{{\"k\":\"use\",\"o\":{{\"cp\":{}}}}}", self.place(body, p)),
                            Rvalue::Cast(k, o, t) => format!(
                                "{{\"k\":\"cast\",\"ck\":{},\"o\":{},\"t\":{}}}",
                                js(&format!("{:?}", k)),
                                self.operand(env, root, depth, body, o),
                                js(&{ let z = self.ty(*t); z })
                            ),
                            Rvalue::BinaryOp(op, b) => format!(
                                "{{\"k\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}",
                                op,
                                self.operand(env, root, depth, body, &b.0),
                                self.operand(env, root, depth, body, &b.1)
                            ),
                            Rvalue::UnaryOp(op, o) => format!(
                                "{{\"k\":\"un\",\"op\":\"{:?}\",\"a\":{}}}",
                                op,
                                self.operand(env, root, depth, body, o)
                            ),
                            Rvalue::Discriminant(p) => {
                                let t = p.ty(body, tcx).ty;
                                let a = self.adt_key_of(t);
                                self.ty(t);
                                format!(
                                    "{{\"k\":\"discr\",\"p\":{},\"adt\":{}}}",
                                    self.place(body, p),
                                    a.map(|x| js(&x)).unwrap_or("null".into())
                                )
                            }
                            Rvalue::Aggregate(k, ops) => {
                                let os: Vec<String> = ops.iter().map(|o| self.operand(env, root, depth, body, o)).collect();
                                let kk = match &**k {
                                    AggregateKind::Array(_) => "{\"t\":\"array\"}".to_string(),
                                    AggregateKind::Tuple => "{\"t\":\"tuple\"}".to_string(),
                                    AggregateKind::Adt(d, v, _, _, _) => {
                                        format!("{{\"t\":\"adt\",\"adt\":{},\"v\":{}}}", js(&self.key(*d)), v.as_usize())
                                    }
                                    AggregateKind::Closure(d, _) => format!("{{\"t\":\"closure\",\"def\":{}}}", js(&self.key(*d))),
                                    _ => "{\"t\":\"other\"}".to_string(),
                                };
                                format!("{{\"k\":\"agg\",\"a\":{},\"ops\":{}}}", kk, arr(os))
                            }
                            _ => "{\"k\":\"other\"}".to_string(),
                        };
                        st.push(format!("{{\"s\":\"=\",\"p\":{},\"r\":{},\"sp\":{}}}", pl, rv, sp));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        st.push(format!("{{\"s\":\"sd\",\"p\":{},\"v\":{},\"sp\":{}}}", p, variant_index.as_usize(), sp));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("{{\"s\":\"dead\",\"l\":{}}}", l.as_usize())),
                    StatementKind::StorageLive(l) => st.push(format!("{{\"s\":\"live\",\"l\":{}}}", l.as_usize())),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = js(&self.span(t.source_info.span));
            let exp = t.source_info.span.from_expansion();
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(env, root, depth, body, discr);
                    let ty = discr.ty(body, tcx);
                    let ts: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    format!(
                        "{{\"t\":\"switch\",\"o\":{},\"ty\":{},\"tg\":{},\"else\":{},\"sp\":{}}}",
                        o,
                        js(&{ let z = self.ty(ty); z }),
                        arr(ts),
                        targets.otherwise().as_usize(),
                        sp
                    )
                }
                TerminatorKind::Return => "{\"t\":\"return\"}".into(),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".into(),
                TerminatorKind::UnwindResume => "{\"t\":\"resume\"}".into(),
                TerminatorKind::UnwindTerminate(_) => "{\"t\":\"terminate\"}".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(body, tcx).ty;
                    let ts = self.ty(pt);
                    format!(
                        "{{\"t\":\"drop\",\"p\":{},\"ty\":{},\"to\":{},\"sp\":{}}}",
                        self.place(body, place),
                        js(&ts),
                        target.as_usize(),
                        sp
                    )
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(env, root, depth, body, func);
                    let a: Vec<String> = args.iter().map(|o| self.operand(env, root, depth, body, &o.node)).collect();
                    let at: Vec<String> = args.iter().map(|o| { let t = o.node.ty(body, tcx); let z = self.ty(t); js(&z) }).collect();
                    format!(
                        "{{\"t\":\"call\",\"f\":{},\"a\":{},\"at\":{},\"d\":{},\"to\":{},\"sp\":{},\"exp\":{}}}",
                        f,
                        arr(a),
                        arr(at),
                        self.place(body, destination),
                        target.map(|b| b.as_usize().to_string()).unwrap_or("null".into()),
                        sp,
                        exp
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(env, root, depth, body, cond);
                    let (k, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => (
                            "bounds".into(),
                            vec![self.operand(env, root, depth, body, len), self.operand(env, root, depth, body, index)],
                        ),
                        AssertKind::Overflow(op, a, b) => (
                            format!("overflow:{:?}", op),
                            vec![self.operand(env, root, depth, body, a), self.operand(env, root, depth, body, b)],
                        ),
                        AssertKind::OverflowNeg(a) => ("overflowneg".into(), vec![self.operand(env, root, depth, body, a)]),
                        AssertKind::DivisionByZero(a) => ("divzero".into(), vec![self.operand(env, root, depth, body, a)]),
                        AssertKind::RemainderByZero(a) => ("remzero".into(), vec![self.operand(env, root, depth, body, a)]),
                        AssertKind::MisalignedPointerDereference { .. } => ("misaligned".into(), vec![]),
                        AssertKind::NullPointerDereference => ("nullptr".into(), vec![]),
                        _ => ("other".into(), vec![]),
                    };
                    format!(
                        "{{\"t\":\"assert\",\"c\":{},\"e\":{},\"k\":{},\"ops\":{},\"to\":{},\"sp\":{}}}",
                        c,
                        expected,
                        js(&k),
                        arr(ops),
                        target.as_usize(),
                        sp
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_usize())
                }
                _ => "{\"t\":\"other\"}".into(),
            };
            let _ = write!(s, "{{\"c\":{},\"s\":{},\"t\":{}}}", bb.is_cleanup, arr(st), tj);
        }
        s.push(']');
        s
    }

    fn emit_local(&mut self, d: DefId) {
        let tcx = self.tcx;
        let key = self.key(d);
        if self.out.contains_key(&key) {
            return;
        }
        let kind = tcx.def_kind(d);
        let is_fnlike = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        let body = if is_fnlike { tcx.optimized_mir(d) } else { tcx.mir_for_ctfe(d) };
        let env = TypingEnv::post_analysis(tcx, d);
        let kd = match kind {
            DefKind::Fn => "fn",
            DefKind::AssocFn => "method",
            DefKind::Closure => "closure",
            DefKind::Static { .. } => "static",
            _ => "const",
        };
        let mut extra = String::new();
        let parent = tcx.opt_parent(d);
        if let Some(p) = parent {
            let _ = write!(extra, ",\"parent\":{}", js(&self.key(p)));
            if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                let z = self.ty(st);
                let _ = write!(extra, ",\"implself\":{}", js(&z));
                let a = self.adt_key_of(st);
                if let Some(a) = a {
                    let _ = write!(extra, ",\"implself_adt\":{}", js(&a));
                }
                if of_trait {
                    let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                    let _ = write!(extra, ",\"impltrait\":{}", js(&self.path(tr.def_id)));
                }
                let derived = tcx.is_automatically_derived(p);
                let _ = write!(extra, ",\"derived\":{}", derived);
            }
        }
        let vis = if matches!(kind, DefKind::Fn | DefKind::AssocFn) { tcx.visibility(d).is_public() } else { false };
        let _ = write!(extra, ",\"pub\":{}", vis);
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            let _ = write!(extra, ",\"unsafe\":{}", sig.safety().is_unsafe());
        }
        let exp = tcx.def_span(d).from_expansion();
        let _ = write!(extra, ",\"exp\":{}", exp);
        let b = self.body_json(env, d, 0, body);
        let pth = self.path(d);
        self.out.insert(
            key.clone(),
            format!("{{\"key\":{},\"path\":{},\"kind\":\"{}\",\"ext\":false{},{}}}", js(&key), js(&pth), kd, extra, b),
        );
        // promoteds
        let proms = if is_fnlike || true { tcx.promoted_mir(d) } else { unreachable!() };
        for (i, pb) in proms.iter_enumerated() {
            let k = format!("{}#promoted{}", key, i.as_usize());
            let b = self.body_json(env, d, 0, pb);
            self.out.insert(
                k.clone(),
                format!("{{\"key\":{},\"path\":{},\"kind\":\"promoted\",\"ext\":false,{}}}", js(&k), js(&k), b),
            );
        }
    }

    fn run(&mut self) {
        let tcx = self.tcx;
        for d in tcx.mir_keys(()) {
            let d = d.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if tcx.is_constructor(d) {
                        continue;
                    }
                    self.emit_local(d);
                }
                DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => {
                    self.const_queue.push_back((d, None));
                }
                _ => {}
            }
        }
        while let Some((d, _)) = self.const_queue.pop_front() {
            if d.is_local() {
                match tcx.def_kind(d) {
                    DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => self.emit_local(d),
                    _ => {}
                }
            }
        }
        while let Some((inst, root, depth)) = self.queue.pop_front() {
            let did = inst.def_id();
            let env = TypingEnv::post_analysis(tcx, root);
            let mono = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", inst));
            let key = format!("{}#{}", self.key(did), mono);
            let body = tcx.instance_mir(inst.def).clone();
            let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, body)) {
                Ok(b) => b,
                Err(_) => continue,
            };
            if body.basic_blocks.len() > 400 {
                continue;
            }
            let b = self.body_json(env, root, depth, &body);
            let pth = self.path(did);
            self.out.insert(
                key.clone(),
                format!("{{\"key\":{},\"path\":{},\"dk\":{},\"kind\":\"fn\",\"ext\":true,{}}}", js(&key), js(&pth), js(&self.key(did)), b),
            );
        }
    }
}

struct Cb {
    out: Option<String>,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.always_encode_mir = true;
        config.opts.debug_assertions = true;
        config.opts.cg.overflow_checks = Some(true);
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Some(dir) = &self.out else { return Compilation::Continue };
        let workspace: BTreeSet<String> = std::env::var("MIRFACTS_CRATES")
            .unwrap_or_default()
            .split(',')
            .map(|s| s.to_string())
            .collect();
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let kind = if tcx.crate_types().iter().any(|t| format!("{:?}", t) == "Executable") { "bin" } else { "lib" };
        let mut cx = Cx {
            tcx,
            queue: VecDeque::new(),
            seen: HashSet::new(),
            adts: BTreeMap::new(),
            out: BTreeMap::new(),
            workspace,
            statics_seen: HashSet::new(),
            const_queue: VecDeque::new(),
        };
        cx.run();
        let mut s = String::new();
        let _ = write!(s, "{{\"crate\":{},\"kind\":\"{}\",\"fns\":{{", js(&name), kind);
        let mut first = true;
        for (k, v) in &cx.out {
            if !first {
                s.push_str(",\n");
            }
            first = false;
            let _ = write!(s, "{}:{}", js(k), v);
        }
        s.push_str("},\"adts\":{");
        let mut first = true;
        for (k, v) in &cx.adts {
            if v.is_empty() {
                continue;
            }
            if !first {
                s.push_str(",\n");
            }
            first = false;
            let _ = write!(s, "{}:{}", js(k), v);
        }
        s.push_str("}}");
        let f = format!("{}/{}.{}.json", dir, name, kind);
        std::fs::write(&f, s).expect("write facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let is_probe = args.iter().any(|a| a == "-vV" || a == "--version" || a.starts_with("--print"));
    let build_script = args.iter().any(|a| a == "build_script_build" || a == "build_script_main");
    let out = if is_probe || build_script { None } else { std::env::var("MIRFACTS_OUT").ok() };
    let mut cb = Cb { out };
    std::process::exit(if rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb)) == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
