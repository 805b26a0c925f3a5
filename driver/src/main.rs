//! A `rustc_private` driver: dumps the monomorphised, type-checked MIR of one
//! crate (and of every library function reachable from it whose MIR is
//! available) as JSON.  It is used as RUSTC_WORKSPACE_WRAPPER; for every crate
//! but the one named in MIRDUMP_CRATE it behaves as plain rustc.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::process::Command;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    types_out: Vec<String>,
    insts: HashMap<Instance<'tcx>, usize>,
    queue: Vec<Instance<'tcx>>,
    insts_out: Vec<String>,
    signer: Option<Ty<'tcx>>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String { self.tcx.def_path_str(d) }

    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        if s.is_dummy() { return "null".into(); }
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("[{},{}]", esc(&f), lo.line)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.types.get(&t) { return i; }
        let i = self.types_out.len();
        self.types.insert(t, i);
        self.types_out.push(String::new());
        let name = esc(&format!("{}", t));
        let body = match t.kind() {
            TyKind::Bool => r#""k":"bool""#.to_string(),
            TyKind::Char => r#""k":"char""#.to_string(),
            TyKind::Int(it) => format!(r#""k":"int","bits":{},"signed":true"#, it.bit_width().unwrap_or(64)),
            TyKind::Uint(it) => format!(r#""k":"int","bits":{},"signed":false"#, it.bit_width().unwrap_or(64)),
            TyKind::Float(_) => r#""k":"float""#.to_string(),
            TyKind::Str => r#""k":"str""#.to_string(),
            TyKind::Never => r#""k":"never""#.to_string(),
            TyKind::Array(e, n) => {
                let e = self.ty(*e);
                let n = n.try_to_target_usize(self.tcx);
                format!(r#""k":"array","elem":{},"len":{}"#, e, n.map(|x| x.to_string()).unwrap_or("null".into()))
            }
            TyKind::Slice(e) => { let e = self.ty(*e); format!(r#""k":"slice","elem":{}"#, e) }
            TyKind::Ref(_, e, m) => { let e = self.ty(*e); format!(r#""k":"ref","to":{},"mut":{}"#, e, m.is_mut()) }
            TyKind::RawPtr(e, m) => { let e = self.ty(*e); format!(r#""k":"ptr","to":{},"mut":{}"#, e, m.is_mut()) }
            TyKind::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!(r#""k":"tuple","fields":[{}]"#, v.join(","))
            }
            TyKind::Adt(def, args) => {
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let mut vs = vec![];
                let big = def.variants().len() > 300;
                if !big {
                for (vi, v) in def.variants().iter_enumerated() {
                    let d = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val.to_string() } else { "0".into() };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(self.tcx, args);
                        let ft = self.tcx.try_normalize_erasing_regions(self.env, ft).unwrap_or(self.tcx.types.unit);
                        let id = self.ty(ft);
                        fs.push(format!("[{},{}]", esc(f.name.as_str()), id));
                    }
                    vs.push(format!(r#"{{"name":{},"disc":{},"fields":[{}]}}"#, esc(v.name.as_str()), d, fs.join(",")));
                }
                }
                let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                format!(r#""k":"adt","adt":{},"kind":"{}","variants":[{}],"targs":[{}],"local":{}"#,
                    esc(&self.path(def.did())), kind, vs.join(","), targs.join(","), def.did().is_local())
            }
            TyKind::Closure(d, args) => {
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                format!(r#""k":"closure","def":{},"fields":[{}]"#, esc(&self.path(*d)), ups.join(","))
            }
            TyKind::FnDef(d, args) => {
                let inst = self.resolve_fn((*d).into(), args.skip_binder());
                format!(r#""k":"fndef","callee":{}"#, inst)
            }
            TyKind::FnPtr(..) => r#""k":"fnptr""#.to_string(),
            TyKind::Dynamic(..) => r#""k":"dyn""#.to_string(),
            TyKind::Param(_) => r#""k":"param""#.to_string(),
            _ => r#""k":"other""#.to_string(),
        };
        let size = match self.tcx.layout_of(self.env.as_query_input(t)) {
            Ok(l) if l.is_sized() => l.size.bytes().to_string(),
            _ => "null".into(),
        };
        self.types_out[i] = format!(r#"{{"name":{},{},"size":{}}}"#, name, body, size);
        i
    }

    /// A callee description: {"path", "trait", "kind", "inst", "targs"}
    fn resolve_fn(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let tr = tcx.trait_of_assoc(d).map(|t| self.path(t));
        let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        let cargs: Vec<String> = args.consts().map(|c| c.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into())).collect();
        let name = tcx.item_name(d);
        let mut s = format!(r#"{{"path":{},"name":{},"trait":{},"targs":[{}],"cargs":[{}]"#,
            esc(&self.path(d)), esc(name.as_str()), tr.map(|t| esc(&t)).unwrap_or("null".into()), targs.join(","), cargs.join(","));
        match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(inst)) => {
                let (k, id, rp) = self.inst_ref(inst);
                let _ = write!(s, r#","kind":"{}","inst":{},"rpath":{}"#, k, id.map(|x| x.to_string()).unwrap_or("null".into()), esc(&rp));
            }
            _ => { s.push_str(r#","kind":"unresolved","inst":null,"rpath":"""#); }
        }
        s.push('}');
        s
    }

    fn inst_ref(&mut self, inst: Instance<'tcx>) -> (&'static str, Option<usize>, String) {
        let rp = self.path(inst.def_id());
        match inst.def {
            InstanceKind::Item(d) => {
                if self.tcx.is_foreign_item(d) { return ("foreign", None, rp); }
                if self.wants_body(inst) { ("item", Some(self.enqueue(inst)), rp) } else { ("external", None, rp) }
            }
            InstanceKind::Intrinsic(d) => {
                // intrinsics with a fallback body are recorded by name only
                ("intrinsic", None, self.tcx.item_name(d).to_string())
            }
            InstanceKind::LlvmIntrinsic(_) => ("llvm", None, rp),
            InstanceKind::Virtual(..) => ("virtual", None, rp),
            InstanceKind::Shim(k) => match k {
                ShimKind::ClosureOnce { .. } | ShimKind::FnPtr(..) | ShimKind::Clone(..) | ShimKind::Reify(..) | ShimKind::VTable(_) => {
                    ("shim", Some(self.enqueue(inst)), rp)
                }
                ShimKind::DropGlue(..) => ("drop", None, rp),
                _ => ("shimother", None, rp),
            },
        }
    }

    fn wants_body(&self, inst: Instance<'tcx>) -> bool {
        let d = inst.def_id();
        if d.is_local() { return self.tcx.is_mir_available(d) || matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure); }
        let krate = self.tcx.crate_name(d.krate);
        let k = krate.as_str();
        if !(k == "core" || k == "alloc" || k == "std" || k == "bitflags") { return false; }
        let p = self.path(d);
        for pre in ["core::panicking", "std::panicking", "core::fmt", "std::fmt", "std::rt", "core::option::expect_failed",
                    "core::option::unwrap_failed", "core::result::unwrap_failed", "std::option::unwrap_failed", "core::slice::index::slice_",
                    "core::str::slice_error", "alloc::", "core::slice::memchr", "core::str::pattern", "core::num::flt2dec", "core::num::dec2flt",
                    "std::io", "std::thread", "std::sys", "std::collections", "core::unicode"] {
            if p.starts_with(pre) { return false; }
        }
        if p.contains("fmt::") || p.contains("::fmt") { return false; }
        self.tcx.is_mir_available(d)
    }

    fn enqueue(&mut self, inst: Instance<'tcx>) -> usize {
        let inst = self.tcx.erase_and_anonymize_regions(inst);
        if let Some(&i) = self.insts.get(&inst) { return i; }
        let i = self.insts_out.len();
        self.insts.insert(inst, i);
        self.insts_out.push(String::new());
        self.queue.push(inst);
        i
    }

    // ---------------------------------------------------------------- constants
    fn ptr_val(&mut self, alloc_id: rustc_middle::mir::interpret::AllocId, off: u64, to: Ty<'tcx>, meta: Option<u64>, depth: u32) -> String {
        match self.tcx.global_alloc(alloc_id) {
            GlobalAlloc::Function { instance } => {
                let (k, id, rp) = self.inst_ref(instance);
                format!(r#"["fn","{}",{},{}]"#, k, id.map(|x| x.to_string()).unwrap_or("null".into()), esc(&rp))
            }
            GlobalAlloc::Static(d) => format!(r#"["static",{}]"#, esc(&self.path(d))),
            GlobalAlloc::Memory(_) => {
                let inner = match to.kind() {
                    TyKind::Slice(e) => self.seq(alloc_id, off, *e, meta.unwrap_or(0), depth + 1),
                    TyKind::Str => self.seq(alloc_id, off, self.tcx.types.u8, meta.unwrap_or(0), depth + 1),
                    _ => self.mem_val(alloc_id, off, to, depth + 1),
                };
                let m = meta.map(|m| m.to_string()).unwrap_or("null".into());
                format!(r#"["ref",{},{}]"#, inner, m)
            }
            _ => r#"["opaque","ptr"]"#.into(),
        }
    }

    fn seq(&mut self, a: rustc_middle::mir::interpret::AllocId, off: u64, e: Ty<'tcx>, n: u64, depth: u32) -> String {
        if let TyKind::Uint(ty::UintTy::U8) = e.kind() {
            if let GlobalAlloc::Memory(al) = self.tcx.global_alloc(a) {
                let r = AllocRange { start: rustc_abi::Size::from_bytes(off), size: rustc_abi::Size::from_bytes(n) };
                if let Ok(b) = al.inner().get_bytes_strip_provenance(&self.tcx, r) {
                    let mut h = String::new();
                    for x in b { let _ = write!(h, "{:02x}", x); }
                    return format!(r#"["bytes","{}"]"#, h);
                }
            }
            return r#"["opaque","bytes"]"#.into();
        }
        let sz = match self.tcx.layout_of(self.env.as_query_input(e)) { Ok(l) => l.size.bytes(), Err(_) => return r#"["opaque","layout"]"#.into() };
        if n > 4096 { return r#"["opaque","big"]"#.into(); }
        let v: Vec<String> = (0..n).map(|i| self.mem_val(a, off + i * sz, e, depth + 1)).collect();
        format!(r#"["seq",[{}]]"#, v.join(","))
    }

    fn mem_val(&mut self, a: rustc_middle::mir::interpret::AllocId, off: u64, t: Ty<'tcx>, depth: u32) -> String {
        self.const_val(ConstValue::Indirect { alloc_id: a, offset: rustc_abi::Size::from_bytes(off) }, t, depth)
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>, depth: u32) -> String {
        let tcx = self.tcx;
        if depth > 24 { return r#"["opaque","depth"]"#.into(); }
        if let TyKind::FnDef(..) = t.kind() { return r#"["zst"]"#.into(); }
        match v {
            ConstValue::ZeroSized => {
                match t.kind() {
                    TyKind::Adt(..) | TyKind::Tuple(_) => {}
                    TyKind::Array(..) => return r#"["seq",[]]"#.into(),
                    _ => return r#"["zst"]"#.into(),
                }
            }
            ConstValue::Scalar(s) => match (s, t.kind()) {
                (Scalar::Int(i), TyKind::Bool | TyKind::Char | TyKind::Uint(_)) => return format!(r#"["i",{}]"#, i.to_bits(i.size())),
                (Scalar::Int(i), TyKind::Int(_)) => return format!(r#"["i",{}]"#, i.to_int(i.size())),
                (Scalar::Ptr(p, _), TyKind::Ref(_, to, _) | TyKind::RawPtr(to, _)) => {
                    let (prov, off) = p.prov_and_relative_offset();
                    return self.ptr_val(prov.alloc_id(), off.bytes(), *to, None, depth);
                }
                (Scalar::Ptr(p, _), TyKind::FnPtr(..)) => {
                    let (prov, off) = p.prov_and_relative_offset();
                    return self.ptr_val(prov.alloc_id(), off.bytes(), tcx.types.unit, None, depth);
                }
                (Scalar::Int(i), TyKind::RawPtr(..)) => return format!(r#"["addr",{}]"#, i.to_bits(i.size())),
                _ => {}
            },
            ConstValue::Slice { alloc_id, meta } => {
                if let TyKind::Ref(_, to, _) = t.kind() { return self.ptr_val(alloc_id, 0, *to, Some(meta), depth); }
                return r#"["opaque","slice"]"#.into();
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let al = match tcx.global_alloc(alloc_id) { GlobalAlloc::Memory(m) => m, GlobalAlloc::Static(d) => return format!(r#"["static",{}]"#, esc(&self.path(d))), _ => return r#"["opaque","alloc"]"#.into() };
                let psz = tcx.data_layout.pointer_size();
                match t.kind() {
                    TyKind::Bool | TyKind::Char | TyKind::Uint(_) | TyKind::Int(_) => {
                        let sz = tcx.layout_of(self.env.as_query_input(t)).unwrap().size;
                        match al.inner().read_scalar(&tcx, AllocRange { start: offset, size: sz }, false) {
                            Ok(s) => return self.const_val(ConstValue::Scalar(s), t, depth + 1),
                            Err(_) => return r#"["undef"]"#.into(),
                        }
                    }
                    TyKind::Ref(_, to, _) | TyKind::RawPtr(to, _) => {
                        let to = *to;
                        let r = AllocRange { start: offset, size: psz };
                        let sc = match al.inner().read_scalar(&tcx, r, true) { Ok(s) => s, Err(_) => return r#"["undef"]"#.into() };
                        let unsized_ = matches!(to.kind(), TyKind::Slice(_) | TyKind::Str);
                        let meta = if unsized_ {
                            match al.inner().read_scalar(&tcx, AllocRange { start: offset + psz, size: psz }, false) {
                                Ok(s) => Some(s.to_target_usize(&tcx).unwrap()),
                                Err(_) => return r#"["undef"]"#.into(),
                            }
                        } else { None };
                        return match sc {
                            Scalar::Ptr(p, _) => { let (prov, off) = p.prov_and_relative_offset(); self.ptr_val(prov.alloc_id(), off.bytes(), to, meta, depth) }
                            Scalar::Int(i) => format!(r#"["addr",{}]"#, i.to_bits(i.size())),
                        };
                    }
                    TyKind::FnPtr(..) => {
                        let r = AllocRange { start: offset, size: psz };
                        if let Ok(Scalar::Ptr(p, _)) = al.inner().read_scalar(&tcx, r, true) {
                            let (prov, off) = p.prov_and_relative_offset();
                            return self.ptr_val(prov.alloc_id(), off.bytes(), tcx.types.unit, None, depth);
                        }
                        return r#"["opaque","fnptr"]"#.into();
                    }
                    TyKind::Array(e, n) => {
                        let n = n.try_to_target_usize(tcx).unwrap_or(0);
                        return self.seq(alloc_id, offset.bytes(), *e, n, depth);
                    }
                    _ => {}
                }
            }
        }
        match t.kind() {
            TyKind::Adt(d, _) if d.is_union() => return r#"["opaque","union"]"#.into(),
            TyKind::Adt(..) | TyKind::Tuple(_) | TyKind::Array(..) => {
                if let TyKind::Tuple(ts) = t.kind() { if ts.is_empty() { return r#"["agg",null,[]]"#.into(); } }
                if let Some(c) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs: Vec<String> = c.fields.iter().map(|(fv, ft)| self.const_val(*fv, *ft, depth + 1)).collect();
                    let var = c.variant.map(|x| x.as_u32().to_string()).unwrap_or("null".into());
                    if let TyKind::Array(..) = t.kind() { return format!(r#"["seq",[{}]]"#, fs.join(",")); }
                    return format!(r#"["agg",{},[{}]]"#, var, fs.join(","));
                }
                r#"["opaque","destructure"]"#.into()
            }
            _ => r#"["opaque","kind"]"#.into(),
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let tid = self.ty(t);
        if let TyKind::FnDef(..) = t.kind() { return format!(r#"["k",{},["zst"]]"#, tid); }
        let v = match c.const_.eval(self.tcx, self.env, c.span) {
            Ok(v) => self.const_val(v, t, 0),
            Err(_) => r#"["opaque","eval"]"#.into(),
        };
        let nm = match c.const_ { mir::Const::Unevaluated(u, _) if u.promoted.is_none() => esc(&self.path(u.def)), _ => "null".into() };
        format!(r#"["k",{},{},{}]"#, tid, v, nm)
    }

    // ---------------------------------------------------------------- MIR
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => r#"["*"]"#.to_string(),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); format!(r#"["f",{},{}]"#, f.as_u32(), t) }
                ProjectionElem::Index(l) => format!(r#"["i",{}]"#, l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!(r#"["ci",{},{},{}]"#, offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!(r#"["ss",{},{},{}]"#, from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!(r#"["v",{}]"#, v.as_u32()),
                _ => r#"["cast"]"#.to_string(),
            });
        }
        format!("[{},[{}]]", p.local.as_u32(), v.join(","))
    }

    fn op(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!(r#"["c",{}]"#, self.place(p)),
            Operand::Move(p) => format!(r#"["m",{}]"#, self.place(p)),
            Operand::Constant(c) => self.constant(c),
            Operand::RuntimeChecks(_) => { let b = self.ty(self.tcx.types.bool); format!(r#"["k",{},["i",0],"runtime_checks"]"#, b) }
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!(r#"["use",{}]"#, self.op(o)),
            Rvalue::Repeat(o, n) => { let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into()); format!(r#"["rep",{},{}]"#, self.op(o), n) }
            Rvalue::Ref(_, bk, p) => format!(r#"["ref",{},{}]"#, matches!(bk, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::RawPtr(_, p) => format!(r#"["raw",{}]"#, self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!(r#"["use",["c",{}]]"#, self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let from = self.ty(o.ty(&body.local_decls, self.tcx));
                let to = self.ty(*t);
                let extra = match k {
                    CastKind::PointerCoercion(pc, _) => format!("{:?}", pc).split('(').next().unwrap().to_string(),
                    k => format!("{:?}", k).split('(').next().unwrap().to_string(),
                };
                let mut callee = "null".to_string();
                if let CastKind::PointerCoercion(ty::adjustment::PointerCoercion::ClosureFnPointer(_), _) = k {
                    let ot = o.ty(&body.local_decls, self.tcx);
                    if let TyKind::Closure(d, args) = ot.kind() {
                        let inst = Instance::resolve_closure(self.tcx, (*d).into(), args, ty::ClosureKind::FnOnce);
                        let (kk, id, rp) = self.inst_ref(inst);
                        callee = format!(r#"["fn","{}",{},{}]"#, kk, id.map(|x| x.to_string()).unwrap_or("null".into()), esc(&rp));
                    }
                }
                format!(r#"["cast","{}",{},{},{},{}]"#, extra, self.op(o), from, to, callee)
            }
            Rvalue::BinaryOp(b, ops) => {
                let lt = self.ty(ops.0.ty(&body.local_decls, self.tcx));
                format!(r#"["bin","{:?}",{},{},{}]"#, b, self.op(&ops.0), self.op(&ops.1), lt)
            }
            Rvalue::UnaryOp(u, o) => { let lt = self.ty(o.ty(&body.local_decls, self.tcx)); format!(r#"["un","{:?}",{},{}]"#, u, self.op(o), lt) }
            Rvalue::Discriminant(p) => { let t = self.ty(p.ty(&body.local_decls, self.tcx).ty); format!(r#"["discr",{},{}]"#, self.place(p), t) }
            Rvalue::Aggregate(k, fs) => {
                let ops: Vec<String> = fs.iter().map(|o| self.op(o)).collect();
                let kk = match &**k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); format!(r#"["array",{}]"#, t) }
                    AggregateKind::Tuple => r#"["tuple"]"#.to_string(),
                    AggregateKind::Adt(_, v, _, _, f) => format!(r#"["adt",{},{}]"#, v.as_u32(), f.map(|x| x.as_u32().to_string()).unwrap_or("null".into())),
                    AggregateKind::Closure(..) => r#"["closure"]"#.to_string(),
                    AggregateKind::RawPtr(..) => r#"["rawptr"]"#.to_string(),
                    _ => r#"["other"]"#.to_string(),
                };
                format!(r#"["agg",{},[{}]]"#, kk, ops.join(","))
            }
            Rvalue::CopyForDeref(p) => format!(r#"["use",["c",{}]]"#, self.place(p)),
            Rvalue::ThreadLocalRef(_) | Rvalue::WrapUnsafeBinder(..) => r#"["unknown"]"#.to_string(),
        }
    }

    fn dump_inst(&mut self, inst: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        let body0 = tcx.instance_mir(inst.def);
        let body = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, body0.clone()));
        let body = &body;
        let did = inst.def_id();
        let locals: Vec<String> = body.local_decls.iter().map(|d| self.ty(d.ty).to_string()).collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut sts = vec![];
            for st in &bb.statements {
                match &st.kind {
                    StatementKind::Assign(b) => {
                        let dt = self.ty(b.0.ty(&body.local_decls, tcx).ty);
                        let pl = self.place(&b.0);
                        let rv = self.rvalue(&b.1, body);
                        let sp = self.span(st.source_info.span);
                        sts.push(format!(r#"["=",{},{},{},{}]"#, pl, rv, dt, sp));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(place);
                        sts.push(format!(r#"["setd",{},{}]"#, pl, variant_index.as_u32()));
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => { let o = self.op(o); sts.push(format!(r#"["assume",{}]"#, o)); }
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let (a, b, n) = (self.op(&c.src), self.op(&c.dst), self.op(&c.count));
                            sts.push(format!(r#"["copy",{},{},{}]"#, a, b, n));
                        }
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!(r#"["goto",{}]"#, target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let tid = self.ty(discr.ty(&body.local_decls, tcx));
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_u32())).collect();
                    format!(r#"["switch",{},{},[{}],{}]"#, self.op(discr), tid, v.join(","), targets.otherwise().as_u32())
                }
                TerminatorKind::Return => r#"["return"]"#.into(),
                TerminatorKind::Unreachable => r#"["unreachable"]"#.into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => r#"["resume"]"#.into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let needs = t.needs_drop(tcx, self.env);
                    let tid = self.ty(t);
                    format!(r#"["drop",{},{},{},{}]"#, self.place(place), target.as_u32(), needs, tid)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let callee = match ft.kind() {
                        TyKind::FnDef(d, a) => self.resolve_fn((*d).into(), a.skip_binder()),
                        _ => { let o = self.op(func); format!(r#"{{"kind":"indirect","op":{}}}"#, o) }
                    };
                    let a: Vec<String> = args.iter().map(|x| self.op(&x.node)).collect();
                    let at: Vec<String> = args.iter().map(|x| { let t = x.node.ty(&body.local_decls, tcx); self.ty(t).to_string() }).collect();
                    let dt = self.ty(destination.ty(&body.local_decls, tcx).ty);
                    format!(r#"["call",{},[{}],{},{},[{}],{}]"#, callee, a.join(","), self.place(destination),
                        target.map(|x| x.as_u32().to_string()).unwrap_or("null".into()), at.join(","), dt)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("BoundsCheck".into(), vec![self.op(len), self.op(index)]),
                        AssertKind::Overflow(b, x, y) => (format!("Overflow{:?}", b), vec![self.op(x), self.op(y)]),
                        AssertKind::OverflowNeg(x) => ("OverflowNeg".into(), vec![self.op(x)]),
                        AssertKind::DivisionByZero(x) => ("DivisionByZero".into(), vec![self.op(x)]),
                        AssertKind::RemainderByZero(x) => ("RemainderByZero".into(), vec![self.op(x)]),
                        AssertKind::InvalidEnumConstruction(x) => ("InvalidEnum".into(), vec![self.op(x)]),
                        AssertKind::MisalignedPointerDereference { .. } => ("Misaligned".into(), vec![]),
                        AssertKind::NullPointerDereference | AssertKind::NullReferenceConstructed => ("NullPtr".into(), vec![]),
                        _ => ("Other".into(), vec![]),
                    };
                    format!(r#"["assert",{},{},"{}",[{}],{}]"#, self.op(cond), expected, k, ops.join(","), target.as_u32())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!(r#"["goto",{}]"#, real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!(r#"["goto",{}]"#, real_target.as_u32()),
                _ => r#"["unknown"]"#.into(),
            };
            blocks.push(format!(r#"{{"s":[{}],"t":{},"sp":{},"cl":{}}}"#, sts.join(","), term, sp, bb.is_cleanup));
        }
        // user variable names (reports only)
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() { names.push(format!("[{},{}]", p.local.as_u32(), esc(v.name.as_str()))); }
            }
        }
        let kind = match inst.def { InstanceKind::Item(_) => "item", InstanceKind::Shim(_) => "shim", _ => "other" };
        let targs: Vec<String> = inst.args.types().map(|x| self.ty(x).to_string()).collect();
        let (tr, impl_self) = match tcx.impl_of_assoc(did) {
            Some(im) => {
                let tr = tcx.impl_opt_trait_ref(im).map(|t| self.path(t.skip_binder().def_id));
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                (tr, format!("{}", st))
            }
            None => (None, String::new()),
        };
        let is_pub = did.as_local().map(|l| tcx.effective_visibilities(()).is_reachable(l)).unwrap_or(false);
        let uns = matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(did).skip_binder().safety().is_unsafe();
        let _ = uns;
        let is_test = false;
        format!(r#"{{"path":{},"name":{},"impl_self":{},"impl_trait":{},"targs":[{}],"local":{},"kind":"{}","pub":{},"test":{},"argc":{},"spread":{},"locals":[{}],"names":[{}],"blocks":[{}],"span":{},"derived":{}}}"#,
            esc(&self.path(did)), esc(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default().as_str()), esc(&impl_self), tr.map(|t| esc(&t)).unwrap_or("null".into()),
            targs.join(","), did.is_local(), kind, is_pub, is_test, body.arg_count,
            body.spread_arg.map(|x| x.as_u32().to_string()).unwrap_or("null".into()),
            locals.join(","), names.join(","), blocks.join(","), self.span(tcx.def_span(did)),
            tcx.impl_of_assoc(did).map(|i| tcx.is_builtin_derived(i)).unwrap_or(false))
    }

    fn run(&mut self) {
        let tcx = self.tcx;
        // A concrete signer type, so that everything below is monomorphic.
        for want in ["RingSigner", "FakeSigner"] {
            for l in tcx.hir_crate_items(()).definitions() {
                if self.signer.is_none() && tcx.def_kind(l) == DefKind::Struct && tcx.item_name(l.to_def_id()).as_str() == want {
                    self.signer = Some(tcx.erase_and_anonymize_regions(tcx.type_of(l).instantiate_identity().skip_norm_wip()));
                }
            }
        }
        let mut roots = vec![];
        let mut skipped = vec![];
        let mut statics = vec![];
        let mut unsafes = vec![];
        for l in tcx.hir_crate_items(()).definitions() {
            let d = l.to_def_id();
            match tcx.def_kind(l) {
                DefKind::Fn | DefKind::AssocFn => {}
                DefKind::Static { mutability, .. } => { let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    statics.push(format!("[{},{},{},{}]", esc(&self.path(d)), mutability.is_mut(), t.is_freeze(tcx, self.env), self.span(tcx.def_span(d)))); continue; }
                _ => continue,
            }
            if !tcx.is_mir_available(d) { continue; }
            if tcx.fn_sig(d).skip_binder().safety().is_unsafe() { unsafes.push(esc(&self.path(d))); }
            let g = tcx.generics_of(d);
            let mut ok = true;
            let signer = self.signer;
            let u8slice = tcx.types.unit;
            let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                ty::GenericParamDefKind::Type { .. } => {
                    let mut is_signer = false;
                    for (c, _) in tcx.clauses_of(d).instantiate_identity(tcx).into_iter().map(|(c, s)| (c.skip_norm_wip(), s)) {
                        if let Some(tp) = c.as_trait_clause() {
                            let tp = tp.skip_binder();
                            if tp.self_ty().is_param(p.index) && tcx.item_name(tp.def_id()).as_str() == "Signer" { is_signer = true; }
                        }
                    }
                    if is_signer && signer.is_some() { signer.unwrap().into() } else { ok = false; u8slice.into() }
                }
                ty::GenericParamDefKind::Const { .. } => { ok = false; u8slice.into() }
            });
            let _ = g;
            if !ok { skipped.push(esc(&self.path(d))); continue; }
            match Instance::try_resolve(tcx, self.env, d, args) {
                Ok(Some(i)) => { if matches!(i.def, InstanceKind::Item(_)) { roots.push(self.enqueue(i)); } }
                _ => skipped.push(esc(&self.path(d))),
            }
        }
        while let Some(i) = self.queue.pop() {
            let id = self.insts[&i];
            let s = self.dump_inst(i);
            self.insts_out[id] = s;
        }
        // local constants (name -> value)
        let mut consts = vec![];
        let mut adts = vec![];
        for l in tcx.hir_crate_items(()).definitions() {
            let d = l.to_def_id();
            match tcx.def_kind(l) {
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    if tcx.generics_of(d).count() != 0 && tcx.generics_of(d).requires_monomorphization(tcx) { continue; }
                    if tcx.trait_of_assoc(d).is_some() && !tcx.defaultness(d).has_value() { continue; }
                    if let Ok(v) = tcx.const_eval_poly(d) {
                        let t = tcx.erase_and_anonymize_regions(tcx.type_of(d).instantiate_identity().skip_norm_wip());
                        let t = tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t));
                        let (tr, st) = match tcx.impl_of_assoc(d) { Some(im) => (
                                tcx.impl_opt_trait_ref(im).map(|t| esc(&self.path(t.skip_binder().def_id))).unwrap_or("null".into()),
                                esc(&format!("{}", tcx.type_of(im).instantiate_identity().skip_norm_wip()))), None => ("null".into(), "null".into()) };
                        let tid = self.ty(t);
                        let cv = self.const_val(v, t, 0);
                        consts.push(format!(r#"{{"path":{},"name":{},"trait":{},"self":{},"ty":{},"val":{}}}"#, esc(&self.path(d)), esc(tcx.item_name(d).as_str()), tr, st, tid, cv));
                    }
                }
                DefKind::Struct | DefKind::Enum => {
                    let is_pub = tcx.effective_visibilities(()).is_reachable(l);
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let mut ok = true;
                    let signer = self.signer;
                    let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                        _ => match signer { Some(s) => s.into(), None => { ok = false; tcx.types.unit.into() } },
                    });
                    let _ = t;
                    if ok {
                        let mt = tcx.type_of(d).instantiate(tcx, args);
                        let mt = tcx.normalize_erasing_regions(self.env, mt);
                        let tid = self.ty(mt);
                        let send = tcx.get_diagnostic_item(rustc_span::sym::Send).or_else(|| tcx.all_traits_including_private().find(|t| self.path(*t).ends_with("marker::Send")))
                            .map(|s| tcx.predicate_must_hold(self.env, mt, s)).unwrap_or(false);
                        adts.push(format!("[{},{},{},{}]", esc(&self.path(d)), is_pub, tid, send));
                    }
                }
                _ => {}
            }
        }
        while let Some(i) = self.queue.pop() {
            let id = self.insts[&i];
            let s = self.dump_inst(i);
            self.insts_out[id] = s;
        }
        let crates: Vec<String> = tcx.crates(()).iter().map(|c| {
            let direct = tcx.extern_crate(*c).map(|e| e.dependency_of == LOCAL_CRATE).unwrap_or(false);
            format!("[{},{}]", esc(tcx.crate_name(*c).as_str()), direct)
        }).collect();
        let mut uv = Uns { tcx, out: vec![] };
        tcx.hir_walk_toplevel_module(&mut uv);
        let unsafe_code: Vec<String> = uv.out.iter().map(|(k, s)| format!("[{},{}]", esc(k), self.span(*s))).collect();
        let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
        let mut f = String::new();
        let r: Vec<String> = roots.iter().map(|x| x.to_string()).collect();
        let _ = write!(f, "{{\"types\":[\n{}\n],\"insts\":[\n{}\n],\"roots\":[{}],\"skipped\":[{}],\"consts\":[\n{}\n],\"adts\":[{}],\"statics\":[{}],\"unsafe_fns\":[{}],\"crates\":[{}],\"unsafe_code\":[{}]}}",
            self.types_out.join(",\n"), self.insts_out.join(",\n"), r.join(","), skipped.join(","), consts.join(",\n"), adts.join(","), statics.join(","), unsafes.join(","), crates.join(","), unsafe_code.join(","));
        std::fs::write(out, f).expect("write");
    }
}

/// Finds unsafe blocks, functions, impls, traits and foreign items written in this crate.
struct Uns<'tcx> { tcx: TyCtxt<'tcx>, out: Vec<(String, Span)> }

impl<'tcx> Uns<'tcx> {
    fn note(&mut self, k: &str, s: Span) {
        if s.in_external_macro(self.tcx.sess.source_map()) { return; }
        self.out.push((k.to_string(), s));
    }
}

impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Uns<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules { self.note("unsafe block", b.span); }
        rustc_hir::intravisit::walk_block(self, b)
    }
    fn visit_item(&mut self, i: &'tcx rustc_hir::Item<'tcx>) {
        match &i.kind {
            rustc_hir::ItemKind::Impl(im) => if let Some(h) = im.of_trait { if h.safety.is_unsafe() { self.note("unsafe impl", i.span) } },
            rustc_hir::ItemKind::Trait { safety, .. } => if safety.is_unsafe() { self.note("unsafe trait", i.span) },
            rustc_hir::ItemKind::ForeignMod { .. } => self.note("foreign items", i.span),
            _ => {}
        }
        rustc_hir::intravisit::walk_item(self, i)
    }
    fn visit_fn(&mut self, k: rustc_hir::intravisit::FnKind<'tcx>, d: &'tcx rustc_hir::FnDecl<'tcx>, b: rustc_hir::BodyId, s: Span, id: rustc_hir::def_id::LocalDefId) {
        if let Some(h) = k.header() { if h.safety().is_unsafe() { self.note("unsafe fn", s) } }
        rustc_hir::intravisit::walk_fn(self, k, d, b, id)
    }
}

trait SendQ<'tcx> { fn predicate_must_hold(self, env: TypingEnv<'tcx>, t: Ty<'tcx>, tr: DefId) -> bool; }
impl<'tcx> SendQ<'tcx> for TyCtxt<'tcx> {
    fn predicate_must_hold(self, env: TypingEnv<'tcx>, t: Ty<'tcx>, tr: DefId) -> bool {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let (infcx, pe) = self.infer_ctxt().build_with_typing_env(env);
        infcx.type_implements_trait(tr, [t], pe).must_apply_modulo_regions()
    }
}
extern crate rustc_infer;
extern crate rustc_trait_selection;

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let _ = LOCAL_CRATE;
        let mut cx = Cx { tcx, env: TypingEnv::fully_monomorphized(), types: HashMap::new(), types_out: vec![], insts: HashMap::new(), queue: vec![], insts_out: vec![], signer: None };
        cx.run();
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    // invoked as: mirdump <rustc> <args...>
    let args: Vec<String> = std::env::args().collect();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "lib") || args.iter().any(|a| a == "--crate-type=lib");
    let is_test = args.iter().any(|a| a == "--test");
    if name == want && is_lib && !is_test {
        let mut a: Vec<String> = vec!["rustc".into()];
        a.extend(args[2..].iter().cloned());
        a.push("-Zmir-opt-level=0".into());
        a.push("-Zalways-encode-mir".into());
        a.push("-Awarnings".into());
        a.push("-Coverflow-checks=on".into());
        let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&a, &mut Cb));
        let _ = code;
        std::process::exit(if std::path::Path::new(&std::env::var("MIRDUMP_OUT").unwrap_or_default()).exists() { 0 } else { 1 });
    } else {
        let st = Command::new(&args[1]).args(&args[2..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
}
