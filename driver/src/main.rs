//! mirdump: RUSTC_WORKSPACE_WRAPPER that writes the type-checked program (MIR after
//! borrow-check promotion, resolved callees, ADT tables) of each workspace crate as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_structures;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;

macro_rules! np {
    ($e:expr) => {
        with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!($e)))
    };
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, DefId>,
    adts_todo: Vec<DefId>,
    seen: HashSet<DefId>,
}

impl<'tcx> D<'tcx> {
    fn id(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn path(&self, d: DefId) -> String {
        np!(self.tcx.def_path_str(d))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> String {
        self.note(t);
        np!(t.to_string())
    }
    fn note(&mut self, t: Ty<'tcx>) {
        for a in t.walk() {
            if let Some(t) = a.as_type() {
                if let ty::Adt(def, _) = t.kind() {
                    if self.seen.insert(def.did()) {
                        let p = self.path(def.did());
                        self.adts.insert(p, def.did());
                        self.adts_todo.push(def.did());
                    }
                }
            }
        }
    }
    fn loc(&self, sp: Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        let f = l.file.name.prefer_local_unconditionally().to_string();
        (f, l.line)
    }
    fn scalar_bits(&self, s: Scalar) -> Option<(u128, u64)> {
        match s {
            Scalar::Int(i) => Some((i.to_bits(i.size()), i.size().bytes())),
            _ => None,
        }
    }
    fn bytes_json(&self, b: &[u8]) -> String {
        let mut o = String::from("[");
        for (i, x) in b.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(o, "{x}");
        }
        o.push(']');
        o
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = format!("{{\"k\":\"const\",\"ty\":{}", js(&self.ty(t)));
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let _ = write!(o, ",\"promoted\":{}", p.as_u32());
            } else {
                let _ = write!(o, ",\"name\":{}", js(&self.path(u.def)));
            }
        }
        match t.kind() {
            ty::FnDef(d, args) => {
                let _ = write!(o, ",\"fn\":{}", self.callee(*d, args.skip_binder(), env));
                o.push('}');
                return o;
            }
            ty::Closure(d, _) => {
                let _ = write!(o, ",\"closure\":{}", js(&self.id(*d)));
            }
            _ => {}
        }
        let has_param = {
            use rustc_middle::ty::TypeVisitableExt;
            c.const_.has_param()
        };
        let is_prom = matches!(c.const_, Const::Unevaluated(u, _) if u.promoted.is_some());
        if !has_param && !is_prom {
            if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                self.cval(&mut o, v, t);
            }
        }
        o.push('}');
        o
    }
    fn cval(&mut self, o: &mut String, v: ConstValue, t: Ty<'tcx>) {
        let tcx = self.tcx;
        match v {
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                match tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Memory(m) => {
                        let m = m.inner();
                        let n = m.len();
                        let o0 = off.bytes_usize();
                        if m.provenance().ptrs().is_empty() {
                            let b = m.inspect_with_uninit_and_ptr_outside_interpreter(o0..n);
                            let _ = write!(o, ",\"ptr_bytes\":{}", self.bytes_json(b));
                        } else {
                            // array/slice of &str: try to resolve the pointed-to strings
                            let mut strs: Vec<String> = Vec::new();
                            let all = m.inspect_with_uninit_and_ptr_outside_interpreter(0..n).to_vec();
                            for (po, pr) in m.provenance().ptrs().iter() {
                                let po = po.bytes_usize();
                                if po + 16 <= n {
                                    let len = u64::from_le_bytes(all[po + 8..po + 16].try_into().unwrap()) as usize;
                                    if let GlobalAlloc::Memory(mm) = tcx.global_alloc(pr.alloc_id()) {
                                        let mm = mm.inner();
                                        if len <= mm.len() {
                                            let b = mm.inspect_with_uninit_and_ptr_outside_interpreter(0..len);
                                            if let Ok(s) = std::str::from_utf8(b) {
                                                strs.push(s.to_string());
                                            }
                                        }
                                    }
                                }
                            }
                            let l: Vec<String> = strs.iter().map(|s| js(s)).collect();
                            let _ = write!(o, ",\"ptr_strs\":[{}]", l.join(","));
                        }
                    }
                    GlobalAlloc::Static(d) => {
                        let _ = write!(o, ",\"static\":{}", js(&self.path(d)));
                    }
                    GlobalAlloc::Function { instance } => {
                        let _ = write!(o, ",\"fnptr\":{}", js(&self.path(instance.def_id())));
                    }
                    _ => {}
                }
            }
            ConstValue::Scalar(s) => {
                if let Some((b, sz)) = self.scalar_bits(s) {
                    let val: i128 = match t.kind() {
                        ty::Int(_) => {
                            let sh = 128 - sz * 8;
                            ((b as i128) << sh) >> sh
                        }
                        _ => b as i128,
                    };
                    let _ = write!(o, ",\"int\":{val}");
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                    let m = m.inner();
                    let b = m.inspect_with_uninit_and_ptr_outside_interpreter(0..m.len().min(meta as usize));
                    let is_str = matches!(t.kind(), ty::Ref(_, i, _) if i.is_str());
                    if is_str {
                        let _ = write!(o, ",\"str\":{}", js(&String::from_utf8_lossy(b)));
                    } else {
                        let _ = write!(o, ",\"bytes\":{}", self.bytes_json(b));
                    }
                }
            }
            ConstValue::ZeroSized => {
                o.push_str(",\"zst\":true");
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                    let m = m.inner();
                    let n = m.len();
                    let o0 = offset.bytes_usize();
                    if m.provenance().ptrs().is_empty() {
                        // Plain data
                        let _ = AllocRange { start: offset, size: rustc_abi::Size::from_bytes((n - o0) as u64) };
                        let b = m.inspect_with_uninit_and_ptr_outside_interpreter(o0..n);
                        let _ = write!(o, ",\"mem\":{}", self.bytes_json(b));
                    } else {
                        // &str stored indirectly
                        let all = m.inspect_with_uninit_and_ptr_outside_interpreter(0..n).to_vec();
                        let mut l = Vec::new();
                        for (po, pr) in m.provenance().ptrs().iter() {
                            let po = po.bytes_usize();
                            if po + 16 <= n {
                                let len = u64::from_le_bytes(all[po + 8..po + 16].try_into().unwrap()) as usize;
                                if let GlobalAlloc::Memory(mm) = tcx.global_alloc(pr.alloc_id()) {
                                    let mm = mm.inner();
                                    if len <= mm.len() {
                                        let b = mm.inspect_with_uninit_and_ptr_outside_interpreter(0..len);
                                        if let Ok(s) = std::str::from_utf8(b) {
                                            l.push(js(s));
                                        }
                                    }
                                }
                            }
                        }
                        if l.len() == 1 && matches!(t.kind(), ty::Ref(_, i, _) if i.is_str()) {
                            let _ = write!(o, ",\"str\":{}", l[0]);
                        } else {
                            let _ = write!(o, ",\"ptr_strs\":[{}]", l.join(","));
                        }
                    }
                }
            }
        }
    }
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("{{\"path\":{}", js(&self.path(d)));
        let full = np!(tcx.def_path_str_with_args(d, args));
        let _ = write!(o, ",\"full\":{}", js(&full));
        let mut targs = Vec::new();
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                targs.push(js(&self.ty(t)));
            }
        }
        let _ = write!(o, ",\"targs\":[{}]", targs.join(","));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{}", js(&self.path(tr)));
        }
        let r = if tcx.def_kind(d) == DefKind::Fn || tcx.def_kind(d) == DefKind::AssocFn {
            let args2 = tcx.erase_and_anonymize_regions(args);
            Instance::try_resolve(tcx, env, d, args2).ok().flatten()
        } else {
            None
        };
        if let Some(i) = r {
            let id = i.def_id();
            let _ = write!(o, ",\"res\":{},\"rid\":{}", js(&self.path(id)), js(&self.id(id)));
            if id.is_local() {
                o.push_str(",\"local\":true");
            }
            let virt = matches!(i.def, ty::InstanceKind::Virtual(..));
            if virt {
                o.push_str(",\"virtual\":true");
            }
            // default trait methods: keep impl self type
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            o.push_str(",\"ctor\":true");
        }
        o.push('}');
        o
    }
    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("[{}", p.local.as_u32());
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            o.push(',');
            match e {
                ProjectionElem::Deref => o.push_str("[\"*\"]"),
                ProjectionElem::Field(f, _) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match pty.variant_index {
                                Some(v) => def.variant(v),
                                None if def.is_struct() || def.is_union() => def.non_enum_variant(),
                                None => def.variants().iter().next().unwrap(),
                            };
                            v.fields.get(f).map(|x| x.name.to_string()).unwrap_or_default()
                        }
                        _ => String::new(),
                    };
                    let own = match pty.ty.kind() {
                        ty::Adt(def, _) => self.path(def.did()),
                        ty::Closure(d, _) => self.path(*d),
                        ty::Coroutine(d, _) => self.path(*d),
                        _ => String::new(),
                    };
                    let _ = write!(o, "[\"f\",{},{},{}]", f.as_u32(), js(&name), js(&own));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_u32());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, "[\"ci\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"sub\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(n, v) => {
                    let name = n.map(|x| x.to_string()).unwrap_or_else(|| match pty.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => String::new(),
                    });
                    let _ = write!(o, "[\"dc\",{},{}]", v.as_u32(), js(&name));
                }
                _ => o.push_str("[\"?\"]"),
            }
            pty = pty.projection_ty(tcx, e);
        }
        o.push(']');
        o
    }
    fn operand(&mut self, x: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match x {
            Operand::Copy(p) => format!("{{\"k\":\"copy\",\"p\":{}}}", self.place(p, body)),
            Operand::Move(p) => format!("{{\"k\":\"move\",\"p\":{}}}", self.place(p, body)),
            Operand::Constant(c) => self.konst(c, env),
            _ => "{\"k\":\"other\"}".to_string(),
        }
    }
    fn ops<'a, I: Iterator<Item = &'a Operand<'tcx>>>(&mut self, it: I, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String
    where
        'tcx: 'a,
    {
        let v: Vec<String> = it.map(|x| self.operand(x, body, env)).collect();
        format!("[{}]", v.join(","))
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(x, ..) => format!("{{\"k\":\"use\",\"x\":{}}}", self.operand(x, body, env)),
            Rvalue::Ref(_, bk, p) => format!(
                "{{\"k\":\"ref\",\"mut\":{},\"p\":{}}}",
                matches!(bk, BorrowKind::Mut { .. }),
                self.place(p, body)
            ),
            Rvalue::RawPtr(k, p) => format!(
                "{{\"k\":\"rawptr\",\"mut\":{},\"p\":{}}}",
                matches!(k, RawPtrKind::Mut),
                self.place(p, body)
            ),
            Rvalue::BinaryOp(op, ab) => format!(
                "{{\"k\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}",
                op,
                self.operand(&ab.0, body, env),
                self.operand(&ab.1, body, env)
            ),
            Rvalue::UnaryOp(op, a) => {
                format!("{{\"k\":\"un\",\"op\":\"{:?}\",\"a\":{}}}", op, self.operand(a, body, env))
            }
            Rvalue::Cast(k, a, t) => {
                let from = a.ty(&body.local_decls, tcx);
                let ks = format!("{:?}", k);
                format!(
                    "{{\"k\":\"cast\",\"ck\":{},\"a\":{},\"from\":{},\"to\":{}}}",
                    js(&ks),
                    self.operand(a, body, env),
                    js(&self.ty(from)),
                    js(&self.ty(*t))
                )
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let mut o = format!("{{\"k\":\"discr\",\"p\":{},\"ty\":{}", self.place(p, body), js(&self.ty(t)));
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_enum() {
                        let _ = write!(o, ",\"adt\":{},\"vars\":{{", js(&self.path(def.did())));
                        let mut first = true;
                        for (vi, d) in def.discriminants(tcx) {
                            if !first {
                                o.push(',');
                            }
                            first = false;
                            let _ = write!(o, "\"{}\":{}", d.val as i128, js(def.variant(vi).name.as_str()));
                        }
                        o.push('}');
                    }
                }
                o.push('}');
                o
            }
            Rvalue::Aggregate(k, fs) => {
                let ks = match &**k {
                    AggregateKind::Array(_) => "\"ak\":\"array\"".to_string(),
                    AggregateKind::Tuple => "\"ak\":\"tuple\"".to_string(),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let def = tcx.adt_def(*d);
                        let v = def.variant(*vi);
                        let names: Vec<String> = v.fields.iter().map(|f| js(f.name.as_str())).collect();
                        let p = self.path(*d);
                        format!(
                            "\"ak\":\"adt\",\"adt\":{},\"variant\":{},\"vi\":{},\"fields\":[{}],\"enum\":{}",
                            js(&p),
                            js(v.name.as_str()),
                            vi.as_u32(),
                            names.join(","),
                            def.is_enum()
                        )
                    }
                    AggregateKind::Closure(d, _) => format!("\"ak\":\"closure\",\"closure\":{}", js(&self.id(*d))),
                    AggregateKind::Coroutine(d, _) => {
                        format!("\"ak\":\"coroutine\",\"closure\":{}", js(&self.id(*d)))
                    }
                    AggregateKind::CoroutineClosure(d, _) => {
                        format!("\"ak\":\"coroutine\",\"closure\":{}", js(&self.id(*d)))
                    }
                    AggregateKind::RawPtr(..) => "\"ak\":\"rawptr\"".to_string(),
                };
                format!("{{\"k\":\"agg\",{},\"xs\":{}}}", ks, self.ops(fs.iter(), body, env))
            }
            Rvalue::Repeat(x, n) => {
                let nn = n.try_to_target_usize(tcx).map(|v| v as i128).unwrap_or(-1);
                format!("{{\"k\":\"repeat\",\"x\":{},\"n\":{}}}", self.operand(x, body, env), nn)
            }
            Rvalue::CopyForDeref(p) => {
                format!("{{\"k\":\"use\",\"x\":{{\"k\":\"copy\",\"p\":{}}}}}", self.place(p, body))
            }
            other => format!("{{\"k\":\"other\",\"s\":{}}}", js(&format!("{:?}", other))),
        }
    }
    fn body(&mut self, def: DefId, label: &str, body: &Body<'tcx>, promoted: &[Body<'tcx>]) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, def);
        let mut o = String::new();
        let (f, l) = self.loc(body.span);
        let _ = write!(o, "{{\"path\":{},\"file\":{},\"line\":{}", js(label), js(&f), l);
        let dk = tcx.def_kind(def);
        let _ = write!(o, ",\"id\":{},\"kind\":{}", js(&self.id(def)), js(&format!("{:?}", dk)));
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(def).skip_binder();
            let _ = write!(o, ",\"abi\":{}", js(&format!("{:?}", sig.abi())));
            let _ = write!(o, ",\"unsafe\":{}", sig.safety().is_unsafe());
            let vis = tcx.visibility(def);
            let _ = write!(o, ",\"pub\":{}", vis.is_public());
            let reach = def.as_local().map(|d| tcx.effective_visibilities(()).is_exported(d)).unwrap_or(false);
            let _ = write!(o, ",\"exported\":{}", reach);
        }
        if matches!(dk, DefKind::Closure | DefKind::SyntheticCoroutineBody) {
            let par = tcx.typeck_root_def_id(def);
            let _ = write!(o, ",\"root\":{}", js(&self.id(par)));
            let _ = write!(o, ",\"parent\":{}", js(&self.id(tcx.parent(def))));
            if body.coroutine.is_some() {
                o.push_str(",\"coroutine\":true");
            }
        }
        if let Some(imp) = tcx.impl_of_assoc(def) {
            let st = tcx.type_of(imp).skip_binder();
            let _ = write!(o, ",\"self_ty\":{}", js(&self.ty(st)));
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.skip_binder();
                let _ = write!(o, ",\"impl_trait\":{}", js(&self.path(tr.def_id)));
                let s = np!(tr.to_string());
                let _ = write!(o, ",\"impl_trait_full\":{}", js(&s));
            }
        }
        let _ = write!(o, ",\"argc\":{}", body.arg_count);
        o.push_str(",\"locals\":[");
        let mut names: BTreeMap<u32, String> = BTreeMap::new();
        let mut upv = Vec::new();
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_u32()).or_insert(v.name.to_string());
                } else {
                    let pl = self.place(&p, body);
                    upv.push(format!("[{},{}]", js(v.name.as_str()), pl));
                }
            }
        }
        for (i, ld) in body.local_decls.iter_enumerated() {
            if i.as_u32() > 0 {
                o.push(',');
            }
            let t = self.ty(ld.ty);
            match names.get(&i.as_u32()) {
                Some(n) => {
                    let _ = write!(o, "[{},{}]", js(&t), js(n));
                }
                None => {
                    let _ = write!(o, "[{}]", js(&t));
                }
            }
        }
        let _ = write!(o, "],\"upvars\":[{}],\"blocks\":[", upv.join(","));
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_u32() > 0 {
                o.push(',');
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for s in &bb.statements {
                let line = self.loc(s.source_info.span).1;
                let t = match &s.kind {
                    StatementKind::Assign(pr) => {
                        let (p, r) = &**pr;
                        format!(
                            "{{\"k\":\"=\",\"p\":{},\"r\":{},\"n\":{}}}",
                            self.place(p, body),
                            self.rvalue(r, body, env),
                            line
                        )
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => format!(
                        "{{\"k\":\"setd\",\"p\":{},\"v\":{},\"n\":{}}}",
                        self.place(place, body),
                        variant_index.as_u32(),
                        line
                    ),
                    StatementKind::StorageDead(l) => format!("{{\"k\":\"dead\",\"l\":{}}}", l.as_u32()),
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&t);
            }
            o.push_str("],\"t\":");
            let term = bb.terminator();
            let (tf, line) = self.loc(term.source_info.span);
            let _ = tf;
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"to\":{}", target.as_u32()),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("{{\"k\":\"goto\",\"to\":{}", real_target.as_u32())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("{{\"k\":\"goto\",\"to\":{}", real_target.as_u32())
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(&body.local_decls, tcx);
                    let mut a = Vec::new();
                    for (v, b) in targets.iter() {
                        let v = match t.kind() {
                            ty::Int(it) => {
                                let bits = it.bit_width().unwrap_or(64) as u32;
                                let sh = 128 - bits;
                                ((v as i128) << sh) >> sh
                            }
                            _ => v as i128,
                        };
                        a.push(format!("[{},{}]", v, b.as_u32()));
                    }
                    format!(
                        "{{\"k\":\"switch\",\"x\":{},\"ty\":{},\"arms\":[{}],\"else\":{}",
                        self.operand(discr, body, env),
                        js(&self.ty(t)),
                        a.join(","),
                        targets.otherwise().as_u32()
                    )
                }
                TerminatorKind::Return => "{\"k\":\"ret\"".to_string(),
                TerminatorKind::UnwindResume => "{\"k\":\"resume\"".to_string(),
                TerminatorKind::Unreachable => "{\"k\":\"unreach\"".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let dty = place.ty(&body.local_decls, tcx).ty;
                    format!(
                        "{{\"k\":\"drop\",\"p\":{},\"ty\":{},\"to\":{}",
                        self.place(place, body),
                        js(&self.ty(dty)),
                        target.as_u32()
                    )
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fs = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            ty::FnDef(d, a) => self.callee(*d, a.skip_binder(), env),
                            _ => self.operand(func, body, env),
                        },
                        _ => format!("{{\"dyn\":{}}}", self.operand(func, body, env)),
                    };
                    let v: Vec<String> = args.iter().map(|x| self.operand(&x.node, body, env)).collect();
                    format!(
                        "{{\"k\":\"call\",\"f\":{},\"args\":[{}],\"d\":{},\"to\":{}",
                        fs,
                        v.join(","),
                        self.place(destination, body),
                        target.map(|t| t.as_u32() as i64).unwrap_or(-1)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (m, extra) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => (
                            "bounds".to_string(),
                            format!(
                                ",\"len\":{},\"index\":{}",
                                self.operand(len, body, env),
                                self.operand(index, body, env)
                            ),
                        ),
                        AssertKind::Overflow(op, a, b) => (
                            format!("overflow:{:?}", op),
                            format!(
                                ",\"a\":{},\"b\":{}",
                                self.operand(a, body, env),
                                self.operand(b, body, env)
                            ),
                        ),
                        AssertKind::OverflowNeg(_) => ("overflow:Neg".into(), String::new()),
                        AssertKind::DivisionByZero(_) => ("div0".into(), String::new()),
                        AssertKind::RemainderByZero(_) => ("rem0".into(), String::new()),
                        _ => ("other".into(), String::new()),
                    };
                    format!(
                        "{{\"k\":\"assert\",\"c\":{},\"exp\":{},\"msg\":{}{},\"to\":{}",
                        self.operand(cond, body, env),
                        expected,
                        js(&m),
                        extra,
                        target.as_u32()
                    )
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => format!(
                    "{{\"k\":\"yield\",\"x\":{},\"ra\":{},\"to\":{}",
                    self.operand(value, body, env),
                    self.place(resume_arg, body),
                    resume.as_u32()
                ),
                TerminatorKind::TailCall { .. } => "{\"k\":\"tailcall\"".to_string(),
                other => format!("{{\"k\":\"other\",\"s\":{}", js(&format!("{:?}", other))),
            };
            let mac = term.source_info.span.from_expansion();
            let _ = write!(
                o,
                "{},\"n\":{}{}}}{}}}",
                t,
                line,
                if mac { ",\"mac\":true" } else { "" },
                if bb.is_cleanup { ",\"cleanup\":true" } else { "" }
            );
        }
        o.push(']');
        if !promoted.is_empty() {
            o.push_str(",\"promoted\":[");
            for (i, p) in promoted.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                let s = self.body(def, &format!("{label}::promoted[{i}]"), p, &[]);
                o.push_str(&s);
            }
            o.push(']');
        }
        o.push('}');
        o
    }
    fn adt(&mut self, p: &str, d: DefId) -> String {
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let kind = if def.is_enum() {
            "enum"
        } else if def.is_union() {
            "union"
        } else {
            "struct"
        };
        let mut o = format!(
            "{{\"path\":{},\"kind\":\"{}\",\"local\":{},\"nonexhaustive\":{},\"variants\":[",
            js(p),
            kind,
            d.is_local(),
            def.is_variant_list_non_exhaustive()
        );
        let mut first = true;
        let ds: Vec<(rustc_abi::VariantIdx, i128)> = if def.is_enum() {
            def.discriminants(tcx).map(|(i, d)| (i, d.val as i128)).collect()
        } else {
            def.variants().indices().map(|i| (i, 0)).collect()
        };
        for (vi, dv) in ds {
            if !first {
                o.push(',');
            }
            first = false;
            let v = def.variant(vi);
            let fl: Vec<String> = v
                .fields
                .iter()
                .map(|f| {
                    let t = np!(tcx.type_of(f.did).skip_binder().to_string());
                    format!("[{},{}]", js(f.name.as_str()), js(&t))
                })
                .collect();
            let _ = write!(
                o,
                "{{\"name\":{},\"discr\":{},\"fields\":[{}]}}",
                js(v.name.as_str()),
                dv,
                fl.join(",")
            );
        }
        o.push_str("]}");
        o
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let _ = c;
        let mut bodies: Vec<(LocalDefId, Body<'tcx>, Vec<Body<'tcx>>)> = Vec::new();
        let mut stolen = Vec::new();
        for def in tcx.hir_body_owners() {
            let dk = tcx.def_kind(def);
            if matches!(dk, DefKind::AnonConst) {
                continue;
            }
            let (b, p) = tcx.mir_promoted(def);
            if b.is_stolen() || p.is_stolen() {
                stolen.push(def);
                continue;
            }
            let b = b.borrow().clone();
            let p: Vec<Body<'tcx>> = p.borrow().iter().cloned().collect();
            bodies.push((def, b, p));
        }
        let mut d = D { tcx, adts: BTreeMap::new(), adts_todo: Vec::new(), seen: HashSet::new() };
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let mut o = format!("{{\"crate\":{},\"fns\":[\n", js(&krate));
        let mut first = true;
        for (def, b, p) in &bodies {
            if !first {
                o.push_str(",\n");
            }
            first = false;
            let label = d.path(def.to_def_id());
            let s = d.body(def.to_def_id(), &label, b, p);
            o.push_str(&s);
        }
        o.push_str("\n],\"stolen\":[");
        let l: Vec<String> = stolen.iter().map(|s| js(&d.path(s.to_def_id()))).collect();
        o.push_str(&l.join(","));
        o.push_str("],\"adts\":[\n");
        // local ADTs, referenced or not
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                let did = id.to_def_id();
                if d.seen.insert(did) {
                    let p = d.path(did);
                    d.adts.insert(p, did);
                }
            }
        }
        let all: Vec<(String, DefId)> = d.adts.iter().map(|(a, b)| (a.clone(), *b)).collect();
        let mut first = true;
        for (p, id) in all {
            if !first {
                o.push_str(",\n");
            }
            first = false;
            let s = d.adt(&p, id);
            o.push_str(&s);
        }
        o.push_str("\n]}\n");
        let kind = if tcx.crate_types().iter().any(|t| matches!(t, rustc_structures::CrateType::Executable)) {
            "bin"
        } else {
            "lib"
        };
        // the hash cargo gives the unit tells apart builds of a crate with different features
        let path = format!("{}/{}.{}{}.json", self.out, krate, kind, tcx.sess.opts.cg.extra_filename);
        std::fs::write(&path, o).unwrap_or_else(|e| panic!("mirdump: cannot write {path}: {e}"));
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path to rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("rustc")) && !args[1].starts_with('-') {
        args.remove(1);
    }
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let dump = !out.is_empty()
        && args.iter().any(|a| a == "--crate-name")
        && !args.windows(2).any(|w| w[0] == "--crate-name" && w[1].starts_with("build_script"))
        && !args.iter().any(|a| a == "--print" || a.starts_with("--print="));
    struct Nop;
    impl Callbacks for Nop {}
    if dump {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
