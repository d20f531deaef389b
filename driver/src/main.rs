// hmath-facts: a rustc_private driver that dumps the resolved, type-checked
// program (monomorphic MIR, resolved callees, compiler-evaluated constants)
// as JSON.  It only *reads* the program; nothing of it is executed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_middle::ty::print::PrintTraitRefExt as _;
use rustc_span::def_id::DefId;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: Vec<String>,
    tyidx: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, String>,
    queue: VecDeque<(Instance<'tcx>, String)>,
    seen: HashSet<String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(self.tcx.def_path_str(d)))
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(t.to_string()))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tyidx.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.tyidx.insert(t, i);
        let s = esc(&self.tystr(t));
        let body = match *t.kind() {
            TyKind::Bool => "\"k\":\"bool\"".into(),
            TyKind::Char => "\"k\":\"char\"".into(),
            TyKind::Int(it) => format!("\"k\":\"int\",\"bits\":{}", it.bit_width().unwrap_or(64)),
            TyKind::Uint(it) => format!("\"k\":\"uint\",\"bits\":{}", it.bit_width().unwrap_or(64)),
            TyKind::Float(f) => format!("\"k\":\"float\",\"bits\":{}", f.bit_width()),
            TyKind::Str => "\"k\":\"str\"".into(),
            TyKind::Never => "\"k\":\"never\"".into(),
            TyKind::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(e)),
            TyKind::Array(e, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                format!("\"k\":\"array\",\"e\":{},\"n\":{}", self.ty(e), n)
            }
            TyKind::Ref(_, e, m) => format!("\"k\":\"ref\",\"mut\":{},\"e\":{}", m.is_mut(), self.ty(e)),
            TyKind::RawPtr(e, m) => format!("\"k\":\"ptr\",\"mut\":{},\"e\":{}", m.is_mut(), self.ty(e)),
            TyKind::Tuple(es) => {
                let v: Vec<String> = es.iter().map(|e| self.ty(e).to_string()).collect();
                format!("\"k\":\"tuple\",\"es\":[{}]", v.join(","))
            }
            TyKind::Adt(def, args) => {
                let p = self.path(def.did());
                let a: Vec<String> = args.types().map(|e| self.ty(e).to_string()).collect();
                let mut vs = vec![];
                if !def.is_union() {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let disc = if def.is_enum() {
                            def.discriminant_for_variant(self.tcx, vi).val.to_string()
                        } else {
                            "0".into()
                        };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let fty = f.ty(self.tcx, args);
                            let fty = self
                                .tcx
                                .try_normalize_erasing_regions(self.env, fty)
                                .unwrap_or(fty.skip_norm_wip());
                            let ti = if def.did().is_local() || def.is_enum() { self.ty(fty) as i64 } else { -1 };
                            fs.push(format!(
                                "{{\"n\":{},\"t\":{},\"pub\":{}}}",
                                esc(f.name.as_str()),
                                ti,
                                f.vis.is_public()
                            ));
                        }
                        vs.push(format!("{{\"n\":{},\"d\":\"{}\",\"f\":[{}]}}", esc(v.name.as_str()), disc, fs.join(",")));
                    }
                }
                format!("\"k\":\"adt\",\"p\":{},\"a\":[{}],\"enum\":{},\"local\":{},\"v\":[{}]", esc(&p), a.join(","), def.is_enum(), def.did().is_local(), vs.join(","))
            }
            TyKind::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap();
                let r = self.resolve(d, args);
                format!("\"k\":\"fndef\",\"f\":{}", r)
            }
            TyKind::Closure(d, args) => {
                let ups = args.as_closure().upvar_tys();
                let v: Vec<String> = ups.iter().map(|e| self.ty(e).to_string()).collect();
                let inst = Instance::new_raw(d, args);
                let key = self.enqueue(inst);
                format!("\"k\":\"closure\",\"f\":{},\"ups\":[{}]", esc(&key), v.join(","))
            }
            TyKind::FnPtr(..) => "\"k\":\"fnptr\"".into(),
            TyKind::Dynamic(..) => "\"k\":\"dyn\"".into(),
            TyKind::Param(_) => "\"k\":\"param\"".into(),
            _ => "\"k\":\"other\"".into(),
        };
        self.types[i] = format!("{{{},\"s\":{}}}", body, s);
        i
    }

    fn key(&self, inst: Instance<'tcx>) -> String {
        let d = inst.def_id();
        let a: Vec<String> = inst.args.types().map(|t| self.tystr(t)).collect();
        let shim = match inst.def {
            InstanceKind::Item(_) | InstanceKind::Intrinsic(_) | InstanceKind::Virtual(..) => "".to_string(),
            InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "#fnptr".into(),
            InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "#once".into(),
            InstanceKind::Shim(ty::ShimKind::Clone(_, t)) => format!("#clone {}", self.tystr(t)),
            InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => "#drop".into(),
            ref o => format!("#{:?}", std::mem::discriminant(o)),
        };
        if a.is_empty() {
            format!("{}{}", self.path(d), shim)
        } else {
            format!("{}::<{}>{}", self.path(d), a.join(", "), shim)
        }
    }

    fn wanted(&self, d: DefId) -> bool {
        if d.is_local() {
            return true;
        }
        let p = self.path(d);
        let p = p.trim_start_matches('<');
        const PRE: &[&str] = &[
            "std::option", "std::result", "std::cmp", "std::ops::function", "std::ops::control_flow",
            "std::ops::try_trait", "std::ops::range", "std::convert", "std::num", "std::tuple",
            "std::iter::adapters", "std::iter::traits", "std::mem::swap", "std::mem::replace", "std::mem::take", "std::clone", "std::bool",
            "core::option", "core::result", "core::cmp", "core::ops", "core::convert", "core::num", "core::tuple",
            "core::iter", "core::clone", "core::bool", "core::array", "core::char", "std::char", "std::array",
        ];
        let dp = self.tcx.crate_name(d.krate).to_string();
        if dp != "core" {
            return false;
        }
        let s = format!("core{}", self.tcx.def_path(d).to_string_no_crate_verbose());
        let _ = p;
        PRE.iter().any(|q| s.starts_with(&q.replace("std::", "core::")))
    }

    fn enqueue(&mut self, inst: Instance<'tcx>) -> String {
        let key = self.key(inst);
        if !self.seen.contains(&key) {
            self.seen.insert(key.clone());
            self.queue.push_back((inst, key.clone()));
        }
        key
    }

    fn resolve(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let mut key = String::new();
        let mut rd = d;
        let mut has = false;
        let mut rargs = args;
        let mut shim = "item";
        let erased = self.tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, self.env, d, erased) {
            rd = inst.def_id();
            rargs = inst.args;
            shim = match inst.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Intrinsic(_) => "intrinsic",
                InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "once",
                InstanceKind::Shim(ty::ShimKind::Clone(..)) => "clone",
                InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptr",
                InstanceKind::Virtual(..) => "virtual",
                _ => "other",
            };
            key = self.key(inst);
            has = matches!(inst.def, InstanceKind::Item(_) | InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }))
                && self.wanted(rd)
                && self.tcx.is_mir_available(rd);
            if has {
                self.enqueue(inst);
            }
        }
        let a: Vec<String> = rargs.types().map(|t| self.ty(t).to_string()).collect();
        let ta: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let unsafe_ = !self.tcx.is_closure_like(rd) && !self.tcx.fn_sig(rd).skip_binder().safety().is_safe();
        format!(
            "{{\"key\":{},\"path\":{},\"decl\":{},\"local\":{},\"has\":{},\"shim\":\"{}\",\"args\":[{}],\"dargs\":[{}],\"crate\":{},\"unsafe\":{}}}",
            esc(&key),
            esc(&self.path(rd)),
            esc(&self.path(d)),
            rd.is_local(),
            has,
            shim,
            a.join(","),
            ta.join(","),
            esc(self.tcx.crate_name(rd.krate).as_str()),
            unsafe_
        )
    }

    // ---- constants
    fn scalar(&mut self, s: Scalar, t: Ty<'tcx>) -> String {
        match s {
            Scalar::Int(i) => {
                let sz = i.size();
                let v = i.to_bits(sz);
                match t.kind() {
                    TyKind::Int(_) => {
                        let sv = sz.sign_extend(v);
                        format!("{{\"int\":\"{}\"}}", sv)
                    }
                    TyKind::Bool => format!("{{\"bool\":{}}}", v != 0),
                    TyKind::Char => format!("{{\"char\":{}}}", v),
                    TyKind::Float(_) => format!("{{\"float\":\"{}\"}}", v),
                    TyKind::Adt(d, _) if d.is_enum() => {
                        format!("{{\"enumbits\":\"{}\"}}", v)
                    }
                    _ => format!("{{\"int\":\"{}\"}}", v),
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                match t.builtin_deref(true) {
                    Some(inner) => {
                        if let GlobalAlloc::Static(d) = self.tcx.global_alloc(id) {
                            return format!("{{\"static\":{}}}", esc(&self.path(d)));
                        }
                        format!("{{\"ref\":{}}}", self.mem(id, off.bytes(), inner))
                    }
                    None => "{\"unk\":\"ptr\"}".into(),
                }
            }
        }
    }
    fn mem(&mut self, id: AllocId, off: u64, t: Ty<'tcx>) -> String {
        let alloc = match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => a,
            GlobalAlloc::Static(d) => match self.tcx.eval_static_initializer(d) {
                Ok(a) => a,
                Err(_) => return "{\"unk\":\"static\"}".into(),
            },
            _ => return "{\"unk\":\"alloc\"}".into(),
        };
        self.memty(alloc, off, t)
    }
    fn memty(&mut self, alloc: rustc_middle::mir::interpret::ConstAllocation<'tcx>, off: u64, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let lay = match tcx.layout_of(self.env.as_query_input(t)) {
            Ok(l) => l,
            Err(_) => return "{\"unk\":\"layout\"}".into(),
        };
        let rd = |o: u64, n: u64| -> Option<u128> {
            let b = alloc.inner().inspect_with_uninit_and_ptr_outside_interpreter(o as usize..(o + n) as usize);
            let mut v: u128 = 0;
            for (i, x) in b.iter().enumerate() {
                v |= (*x as u128) << (8 * i);
            }
            Some(v)
        };
        match *t.kind() {
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_) => {
                let n = lay.size.bytes();
                let v = rd(off, n).unwrap();
                match t.kind() {
                    TyKind::Int(_) => format!("{{\"int\":\"{}\"}}", lay.size.sign_extend(v)),
                    TyKind::Bool => format!("{{\"bool\":{}}}", v != 0),
                    TyKind::Char => format!("{{\"char\":{}}}", v),
                    TyKind::Float(_) => format!("{{\"float\":\"{}\"}}", v),
                    _ => format!("{{\"int\":\"{}\"}}", v),
                }
            }
            TyKind::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                let el = tcx.layout_of(self.env.as_query_input(e)).unwrap().size.bytes();
                let v: Vec<String> = (0..n).map(|i| self.memty(alloc, off + i * el, e)).collect();
                format!("{{\"arr\":[{}]}}", v.join(","))
            }
            TyKind::Tuple(es) => {
                let v: Vec<String> =
                    es.iter().enumerate().map(|(i, e)| self.memty(alloc, off + lay.fields.offset(i).bytes(), e)).collect();
                format!("{{\"tup\":[{}]}}", v.join(","))
            }
            TyKind::Adt(def, args) if def.is_struct() => {
                let mut v = vec![];
                for (i, f) in def.non_enum_variant().fields.iter().enumerate() {
                    let fty = f.ty(tcx, args);
                    let fty = tcx.try_normalize_erasing_regions(self.env, fty).unwrap_or(fty.skip_norm_wip());
                    v.push(self.memty(alloc, off + lay.fields.offset(i).bytes(), fty));
                }
                format!("{{\"struct\":[{}]}}", v.join(","))
            }
            TyKind::Adt(def, args) if def.is_enum() => {
                let idx = match &lay.variants {
                    rustc_abi::Variants::Single { index } => *index,
                    rustc_abi::Variants::Multiple { tag, tag_encoding: rustc_abi::TagEncoding::Direct, tag_field, .. } => {
                        let n = tag.size(&tcx).bytes();
                        let v = rd(off + lay.fields.offset(tag_field.as_usize()).bytes(), n).unwrap();
                        let m: u128 = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                        match def.discriminants(tcx).find(|(_, d)| d.val & m == v) {
                            Some((i, _)) => i,
                            None => return "{\"unk\":\"tag\"}".into(),
                        }
                    }
                    _ => return "{\"unk\":\"niche\"}".into(),
                };
                let cx = rustc_middle::ty::layout::LayoutCx::new(tcx, self.env);
                let vl = lay.for_variant(&cx, idx);
                let mut v = vec![];
                for (i, f) in def.variant(idx).fields.iter().enumerate() {
                    let fty = f.ty(tcx, args);
                    let fty = tcx.try_normalize_erasing_regions(self.env, fty).unwrap_or(fty.skip_norm_wip());
                    v.push(self.memty(alloc, off + vl.fields.offset(i).bytes(), fty));
                }
                format!("{{\"variant\":[{},[{}]]}}", idx.as_usize(), v.join(","))
            }
            TyKind::Ref(_, inner, _) | TyKind::RawPtr(inner, _) => {
                let po = rustc_abi::Size::from_bytes(off);
                let prov = match alloc.inner().provenance().ptrs().get(&po) {
                    Some(p) => *p,
                    None => return "{\"unk\":\"noprov\"}".into(),
                };
                let base = rd(off, 8).unwrap() as u64;
                let id = prov.alloc_id();
                match *inner.kind() {
                    TyKind::Str | TyKind::Slice(_) => {
                        let n = rd(off + 8, 8).unwrap() as u64;
                        self.slice(id, base, n, inner)
                    }
                    _ => {
                        if let GlobalAlloc::Static(d) = tcx.global_alloc(id) {
                            return format!("{{\"static\":{}}}", esc(&self.path(d)));
                        }
                        format!("{{\"ref\":{}}}", self.mem(id, base, inner))
                    }
                }
            }
            _ => format!("{{\"unk\":{}}}", esc(&self.tystr(t))),
        }
    }
    fn slice(&mut self, id: AllocId, base: u64, n: u64, inner: Ty<'tcx>) -> String {
        match *inner.kind() {
            TyKind::Str => {
                if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(id) {
                    let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(base as usize..(base + n) as usize);
                    return format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(b)));
                }
                "{\"unk\":\"str\"}".into()
            }
            TyKind::Slice(e) => {
                let el = self.tcx.layout_of(self.env.as_query_input(e)).unwrap().size.bytes();
                let v: Vec<String> = (0..n).map(|i| self.mem(id, base + i * el, e)).collect();
                format!("{{\"ref\":{{\"arr\":[{}]}}}}", v.join(","))
            }
            _ => "{\"unk\":\"slice\"}".into(),
        }
    }
    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>) -> String {
        match v {
            ConstValue::Scalar(s) => self.scalar(s, t),
            ConstValue::ZeroSized => "{\"zst\":1}".into(),
            ConstValue::Slice { alloc_id, meta } => match t.builtin_deref(true) {
                Some(inner) => self.slice(alloc_id, 0, meta, inner),
                None => "{\"unk\":\"slice\"}".into(),
            },
            ConstValue::Indirect { alloc_id, offset } => self.mem(alloc_id, offset.bytes(), t),
        }
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let ti = self.ty(t);
        if let TyKind::FnDef(..) = t.kind() {
            return format!("{{\"c\":{{\"fn\":{}}},\"t\":{}}}", ti, ti);
        }
        let mut name = "null".to_string();
        if let Const::Unevaluated(u, _) = c.const_ {
            name = match u.promoted {
                Some(p) => format!("\"promoted{}\"", p.as_usize()),
                None => esc(&self.path(u.def)),
            };
        }
        let v = match c.const_.eval(self.tcx, self.env, c.span) {
            Ok(v) => self.constval(v, t),
            Err(_) => "{\"unk\":\"eval\"}".into(),
        };
        format!("{{\"c\":{},\"t\":{},\"name\":{}}}", v, ti, name)
    }

    // ---- bodies
    fn place(&mut self, p: Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(f, _) => format!("[\"f\",{}]", f.as_usize()),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"ci\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, i) => format!("[\"v\",{}]", i.as_usize()),
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local.as_usize(), v.join(","))
    }
    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"p\":{}}}", self.place(*p)),
            Operand::Move(p) => format!("{{\"p\":{},\"mv\":1}}", self.place(*p)),
            Operand::Constant(c) => self.constant(c),
            _ => "{\"rtchk\":1}".into(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                format!("[\"repeat\",{},{}]", self.operand(o), n)
            }
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", self.place(*p), matches!(bk, BorrowKind::Mut { .. })),
            Rvalue::RawPtr(k, p) => format!("[\"rawptr\",{},{}]", self.place(*p), matches!(k, RawPtrKind::Mut)),
            Rvalue::Reborrow(_, _, p) => format!("[\"ref\",{},true]", self.place(*p)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                format!("[\"cast\",{},{},{}]", esc(&ks), self.operand(o), self.ty(*t))
            }
            Rvalue::BinaryOp(op, b) => {
                format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(&b.0), self.operand(&b.1))
            }
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(*p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"p\":{}}}]", self.place(*p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let ks = match **k {
                    AggregateKind::Array(_) => "\"array\"".to_string(),
                    AggregateKind::Tuple => "\"tuple\"".to_string(),
                    AggregateKind::Adt(d, vi, _, _, fi) => {
                        format!("[\"adt\",{},{},{}]", esc(&self.path(d)), vi.as_usize(), fi.map(|f| f.as_usize() as i64).unwrap_or(-1))
                    }
                    AggregateKind::Closure(d, args) => {
                        let inst = Instance::new_raw(d, args);
                        let key = self.enqueue(inst);
                        format!("[\"closure\",{}]", esc(&key))
                    }
                    _ => "\"other\"".to_string(),
                };
                format!("[\"agg\",{},[{}]]", ks, v.join(","))
            }
            o => format!("[\"other\",{}]", esc(&format!("{:?}", o))),
        }
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let s = s.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("[{},{}]", esc(&f), lo.line)
    }
    fn line(&self, s: rustc_span::Span) -> usize {
        let s = s.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(s.lo()).line
    }
    fn body(&mut self, inst: Instance<'tcx>, key: &str) -> String {
        let tcx = self.tcx;
        let raw = tcx.instance_mir(inst.def);
        let body: Body<'tcx> =
            inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, raw.clone()));
        self.dump_body(inst.def_id(), key, &body)
    }
    fn dump_body(&mut self, d: DefId, key: &str, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let kind = tcx.def_kind(d);
        let mut self_ty = "null".to_string();
        let mut trait_ = "null".to_string();
        let mut name = "null".to_string();
        if matches!(kind, DefKind::AssocFn | DefKind::AssocConst { .. }) {
            name = esc(tcx.item_name(d).as_str());
            let parent = tcx.parent(d);
            if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
                let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                self_ty = esc(&self.tystr(st));
                if of_trait {
                    let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                    trait_ = esc(&ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(tr.print_only_trait_path().to_string())));
                }
            }
        } else if matches!(kind, DefKind::Fn) {
            name = esc(tcx.item_name(d).as_str());
        }
        let vis = if matches!(kind, DefKind::Fn | DefKind::AssocFn) { tcx.visibility(d).is_public() } else { false };
        let reach = d.as_local().map(|l| tcx.effective_visibilities(()).is_reachable(l)).unwrap_or(false);
        let _ = write!(
            o,
            "{{\"key\":{},\"path\":{},\"self\":{},\"trait\":{},\"name\":{},\"pub\":{},\"reach\":{},\"local\":{},\"span\":{},\"argc\":{},",
            esc(key), esc(&self.path(d)), self_ty, trait_, name, vis, reach, d.is_local(), self.span(body.span), body.arg_count
        );
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let _ = write!(o, "\"const\":{},", tcx.is_const_fn(d));
        }
        let ls: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(o, "\"locals\":[{}],", ls.join(","));
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(p)));
            }
        }
        let _ = write!(o, "\"names\":[{}],\"blocks\":[", names.join(","));
        for (bi, bb) in body.basic_blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            let mut ss = vec![];
            for st in &bb.statements {
                match &st.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(b.0);
                        let r = self.rvalue(&b.1);
                        ss.push(format!("[\"=\",{},{},{}]", p, r, self.line(st.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(format!("[\"sd\",{},{}]", self.place(**place), variant_index.as_usize()));
                    }
                    StatementKind::Intrinsic(i) => {
                        ss.push(format!("[\"intr\",{}]", esc(&format!("{:?}", i))));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                    format!("[\"switch\",{},[{}],{},{}]", self.operand(discr), v.join(","), targets.otherwise().as_usize(), ln)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"unwind\"]".into(),
                TerminatorKind::Drop { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node)).collect();
                    let t = target.map(|b| b.as_usize() as i64).unwrap_or(-1);
                    format!("[\"call\",{},[{}],{},{},{}]", f, a.join(","), self.place(*destination), t, ln)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.operand(len), self.operand(index)),
                        AssertKind::Overflow(op, a, b) => format!("[\"overflow\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b)),
                        AssertKind::OverflowNeg(a) => format!("[\"overflow_neg\",{}]", self.operand(a)),
                        AssertKind::DivisionByZero(a) => format!("[\"div0\",{}]", self.operand(a)),
                        AssertKind::RemainderByZero(a) => format!("[\"rem0\",{}]", self.operand(a)),
                        _ => "[\"other\"]".into(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.operand(cond), expected, kind, target.as_usize(), ln)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
            };
            let _ = write!(o, "{{\"s\":[{}],\"t\":{},\"u\":{}}}", ss.join(","), ts, bb.is_cleanup);
        }
        o.push_str("]}");
        o
    }
}

struct Cb {
    out: String,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            types: vec![],
            tyidx: HashMap::new(),
            adts: BTreeMap::new(),
            queue: VecDeque::new(),
            seen: HashSet::new(),
        };
        let mut roots = vec![];
        let mut consts = vec![];
        let mut statics = vec![];
        let mut items = vec![];
        let mut generic_fns = vec![];
        let mut ratio_ty = None;
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    let generics = tcx.generics_of(d);
                    let generic = generics.requires_monomorphization(tcx);
                    items.push(format!("{{\"path\":{},\"generic\":{},\"span\":{}}}", esc(&cx.path(d)), generic, cx.span(tcx.def_span(d))));
                    if !generic && tcx.is_mir_available(d) {
                        let inst = Instance::mono(tcx, d);
                        roots.push(cx.enqueue(inst));
                    } else if generic && tcx.is_mir_available(d) {
                        generic_fns.push(d);
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    if tcx.generics_of(d).requires_monomorphization(tcx) {
                        continue;
                    }
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let v = match tcx.const_eval_poly(d) {
                        Ok(v) => cx.constval(v, t),
                        Err(_) => "{\"unk\":\"eval\"}".into(),
                    };
                    let ti = cx.ty(t);
                    consts.push(format!("{{\"path\":{},\"t\":{},\"v\":{},\"span\":{}}}", esc(&cx.path(d)), ti, v, cx.span(tcx.def_span(d))));
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let ti = cx.ty(t);
                    let v = match tcx.eval_static_initializer(d) {
                        Ok(a) => cx.memty(a, 0, t),
                        Err(_) => "{\"unk\":\"eval\"}".into(),
                    };
                    let freeze = t.is_freeze(tcx, cx.env);
                    statics.push(format!("{{\"path\":{},\"t\":{},\"mut\":{},\"freeze\":{},\"v\":{},\"span\":{}}}", esc(&cx.path(d)), ti, mutability.is_mut(), freeze, v, cx.span(tcx.def_span(d))));
                }
                DefKind::Struct | DefKind::Enum => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    if !tcx.generics_of(d).requires_monomorphization(tcx) {
                        cx.ty(t);
                        if cx.path(d).ends_with("ratio::Ratio") {
                            ratio_ty = Some(t);
                        }
                    }
                }
                _ => {}
            }
        }
        // public generic functions over "anything convertible to a number": the instance with the number itself
        if let Some(rt) = ratio_ty {
            for d in generic_fns {
                let g = tcx.generics_of(d);
                let mut ok = true;
                for i in 0..g.count() {
                    let p = g.param_at(i, tcx);
                    match p.kind {
                        ty::GenericParamDefKind::Type { .. } => {}
                        ty::GenericParamDefKind::Lifetime => {}
                        _ => ok = false,
                    }
                }
                if !ok {
                    continue;
                }
                let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    _ => rt.into(),
                });
                if tcx.instantiate_and_check_impossible_clauses((d, args)) {
                    continue;
                }
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, cx.env, d, args) {
                    roots.push(cx.enqueue(inst));
                }
            }
        }
        let mut fns = vec![];
        while let Some((inst, key)) = cx.queue.pop_front() {
            let b = cx.body(inst, &key);
            fns.push(b);
        }
        let _ = &cx.adts;
        let r: Vec<String> = roots.iter().map(|k| esc(k)).collect();
        let s = format!(
            "{{\"crate\":{},\"roots\":[{}],\n\"items\":[{}],\n\"types\":[\n{}],\n\"consts\":[\n{}],\n\"statics\":[\n{}],\n\"fns\":[\n{}]}}\n",
            esc(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str()),
            r.join(","),
            items.join(","),
            cx.types.join(",\n"),
            consts.join(",\n"),
            statics.join(",\n"),
            fns.join(",\n")
        );
        std::fs::write(&self.out, s).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc path as argv[1]
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("HMATH_FACTS_OUT").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "hmath");
    if !out.is_empty() && is_target {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("-Zalways-encode-mir".into());
        let mut cb = Cb { out };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        struct N;
        impl rustc_driver::Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}
