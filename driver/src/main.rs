// Compiler driver that writes, as JSON, the typed MIR reachable from the client crate's functions and
// whole-crate facts (items, statics, unsafe operations, auto traits) of the analysed crate.
// It is used as RUSTC_WRAPPER. Only the crates named in MIRDUMP_CLIENT and MIRDUMP_CRATE are dumped;
// every other crate is compiled unchanged.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use std::rc::Rc;
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LOCAL_CRATE};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet, VecDeque};

struct Cb {
    out: String,
    mode: Mode,
}
#[derive(PartialEq, Clone, Copy)]
enum Mode {
    Client,
    Subject,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let v = match self.mode {
            Mode::Client => dump_client(tcx),
            Mode::Subject => dump_subject(tcx),
        };
        std::fs::write(&self.out, serde_json::to_vec(&v).unwrap()).unwrap();
        Compilation::Continue
    }
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: Vec<Value>,
    ty_ids: HashMap<Ty<'tcx>, usize>,
    ty_objs: Vec<Ty<'tcx>>,
    insts: Vec<Option<Value>>,
    inst_ids: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<(usize, Instance<'tcx>)>,
    allocs: usize,
    cur: Option<Rc<mir::Body<'tcx>>>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(tcx.def_path_str(d)))
}
fn show_ty(t: Ty<'_>) -> String {
    ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(format!("{t}")))
}

impl<'tcx> Dumper<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Dumper {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            tys: vec![],
            ty_ids: HashMap::new(),
            ty_objs: vec![],
            insts: vec![],
            inst_ids: HashMap::new(),
            queue: VecDeque::new(),
            allocs: 0,
            cur: None,
        }
    }
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx
            .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t))
            .unwrap_or(t)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.ty_ids.get(&t) {
            return i;
        }
        let id = self.tys.len();
        self.ty_ids.insert(t, id);
        self.tys.push(Value::Null);
        self.ty_objs.push(t);
        let tcx = self.tcx;
        let s = show_ty(t);
        let v = match *t.kind() {
            ty::Bool => json!({"k":"bool"}),
            ty::Char => json!({"k":"char"}),
            ty::Int(i) => json!({"k":"int","signed":true,"bits":i.bit_width().unwrap_or(64)}),
            ty::Uint(i) => json!({"k":"int","signed":false,"bits":i.bit_width().unwrap_or(64)}),
            ty::Float(f) => json!({"k":"float","bits":f.bit_width()}),
            ty::Str => json!({"k":"str"}),
            ty::Never => json!({"k":"never"}),
            ty::Slice(e) => {
                let e = self.ty(e);
                json!({"k":"slice","e":e})
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx);
                let e = self.ty(e);
                json!({"k":"array","e":e,"n":n})
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(e);
                json!({"k":"ref","e":e,"mut":m.is_mut()})
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(e);
                json!({"k":"ptr","e":e,"mut":m.is_mut()})
            }
            ty::Tuple(es) => {
                let es: Vec<usize> = es.iter().map(|e| self.ty(e)).collect();
                json!({"k":"tuple","es":es})
            }
            ty::FnDef(d, args) => {
                let inst = Instance::try_resolve(tcx, self.env, d, args.no_bound_vars().unwrap()).ok().flatten();
                let c = inst.map(|i| self.inst(i));
                json!({"k":"fndef","path":path(tcx,d),"inst":c})
            }
            ty::Closure(d, args) => {
                let ups: Vec<usize> = args.as_closure().upvar_tys().iter().map(|e| self.ty(e)).collect();
                let kind = args.as_closure().kind();
                let i = Instance::resolve_closure(tcx, d, args, kind);
                let i = self.inst(i);
                json!({"k":"closure","path":path(tcx,d),"es":ups,"inst":i,"kind":format!("{kind:?}")})
            }
            ty::FnPtr(..) => json!({"k":"fnptr"}),
            ty::Dynamic(..) => json!({"k":"dyn"}),
            ty::Adt(def, args) => {
                let p = path(tcx, def.did());
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() {
                        Some(def.discriminant_for_variant(tcx, vi).val.to_string())
                    } else {
                        None
                    };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args);
                        let ft = self
                            .tcx
                            .try_normalize_erasing_regions(self.env, ft)
                            .unwrap_or_else(|_| f.ty(tcx, args).skip_norm_wip());
                        let fid = self.ty(ft);
                        fs.push(json!([f.name.to_string(), fid]));
                    }
                    vs.push(json!({"name":v.name.to_string(),"discr":discr,"fields":fs}));
                }
                let targs: Vec<usize> = args.types().map(|x| self.ty(x)).collect();
                json!({"k":"adt","path":p,"adt": if def.is_enum() {"enum"} else if def.is_union() {"union"} else {"struct"},
                  "variants":vs,"args":targs,"crate":tcx.crate_name(def.did().krate).to_string()})
            }
            _ => json!({"k":"other"}),
        };
        let mut v = v;
        v["s"] = Value::String(s);
        self.tys[id] = v;
        id
    }
    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(&x) = self.inst_ids.get(&i) {
            return x;
        }
        let id = self.insts.len();
        self.inst_ids.insert(i, id);
        self.insts.push(None);
        self.queue.push_back((id, i));
        id
    }
    fn mentions_subject(&self, i: Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        i.args.types().any(|t| {
            t.walk().any(|g| match g.as_type().map(|t| t.kind()) {
                Some(ty::Adt(d, _)) => is_own(tcx, d.did()),
                Some(ty::Closure(d, _)) | Some(ty::FnDef(d, _)) => is_own(tcx, *d),
                _ => false,
            })
        })
    }
    fn follow(&self, i: Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        let d = i.def_id();
        if is_own(tcx, d) {
            return true;
        }
        let k = tcx.crate_name(d.krate);
        let p = path(tcx, d);
        if k.as_str() == "core" {
            // to reach the Display implementations of shown values
            if p.starts_with("core::fmt::rt::Argument") && self.mentions_subject(i) {
                return true;
            }
            const STOP: &[&str] = &[
                "core::fmt", "core::panicking", "core::num::imp", "core::num::dec2flt", "core::num::flt2dec", "core::unicode",
                "core::str::lossy", "core::char", "core::escape", "core::ascii", "core::slice::sort",
                "core::slice::memchr", "core::str::count", "core::str::validations",
            ];
            return !STOP.iter().any(|s| p.starts_with(s));
        }
        if k.as_str() == "num_traits" || k.as_str() == "alloc" {
            return true;
        }
        if p.starts_with("serde_json::value::Value::as_") || p.starts_with("serde_json::value::Value::is_") {
            return true;
        }
        (k.as_str() == "serde" || k.as_str() == "serde_core" || k.as_str() == "serde_json") && self.mentions_subject(i)
    }
    fn loc(&self, sp: rustc_span::Span) -> Value {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let name = format!("{}", l.file.name.prefer_local_unconditionally());
        json!([name, l.line])
    }
    fn run(&mut self) {
        while let Some((id, i)) = self.queue.pop_front() {
            let v = self.dump_inst(i);
            self.insts[id] = Some(v);
        }
    }
    fn dump_inst(&mut self, i: Instance<'tcx>) -> Value {
        let tcx = self.tcx;
        let d = i.def_id();
        let kind = match i.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(_) => "shim",
            _ => "other",
        };
        let shim = match i.def {
            InstanceKind::Shim(s) => format!("{s:?}").split('(').next().unwrap().split(' ').next().unwrap().to_string(),
            _ => String::new(),
        };
        let targs: Vec<usize> = i.args.types().map(|t| self.ty(t)).collect();
        let mut v = json!({
            "path": path(tcx, d),
            "name": ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(format!("{i}"))),
            "crate": tcx.crate_name(d.krate).to_string(),
            "item": tcx.opt_item_name(d).map(|s| s.to_string()),
            "kind": kind, "shim": shim, "targs": targs,
            "own": is_own(tcx, d),
        });
        if let Some(imp) = tcx.trait_impl_of_assoc(d) {
            let tr = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
            v["trait"] = json!(path(tcx, tr.def_id));
            v["self"] = json!(show_ty(tr.self_ty()));
        } else if let Some(tr) = tcx.trait_of_assoc(d) {
            v["trait"] = json!(path(tcx, tr));
        } else if let Some(imp) = tcx.inherent_impl_of_assoc(d) {
            v["self"] = json!(show_ty(tcx.type_of(imp).instantiate_identity().skip_norm_wip()));
        }
        let has_body = match i.def {
            InstanceKind::Item(_) => {
                self.follow(i)
                    && tcx.is_mir_available(d)
                    && !matches!(tcx.def_kind(d), DefKind::Static { .. })
            }
            InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => false,
            InstanceKind::Shim(_) => true,
            _ => false,
        };
        if has_body {
            let body = tcx.instance_mir(i.def).clone();
            let body = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, body));
            v["loc"] = self.loc(body.span);
            v["body"] = self.body(body);
        }
        v
    }
    fn place(&mut self, p: &mir::Place<'tcx>) -> Value {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                mir::ProjectionElem::Deref => json!("*"),
                mir::ProjectionElem::Field(f, t) => json!(["f", f.as_usize(), self.ty(t)]),
                mir::ProjectionElem::Index(l) => json!(["i", l.as_usize()]),
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    json!(["ci", offset, min_length, from_end])
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => json!(["sub", from, to, from_end]),
                mir::ProjectionElem::Downcast(_, v) => json!(["v", v.as_usize()]),
                _ => json!(["?"]),
            });
        }
        json!([p.local.as_usize(), pr])
    }
    fn operand(&mut self, o: &mir::Operand<'tcx>) -> Value {
        match o {
            mir::Operand::Copy(p) => json!(["cp", self.place(p)]),
            mir::Operand::Move(p) => json!(["mv", self.place(p)]),
            mir::Operand::Constant(c) => {
                let v = self.konst(&c.const_);
                let t = self.ty(c.const_.ty());
                json!(["c", v, t])
            }
            mir::Operand::RuntimeChecks(r) => json!(["rt", format!("{r:?}")]),
        }
    }
    fn konst(&mut self, c: &mir::Const<'tcx>) -> Value {
        let t = self.norm(c.ty());
        if let ty::FnDef(d, args) = *t.kind() {
            let inst = Instance::try_resolve(self.tcx, self.env, d, args.no_bound_vars().unwrap()).ok().flatten();
            let id = inst.map(|i| self.inst(i));
            return json!({"fn": id, "path": path(self.tcx, d)});
        }
        let named = match c {
            mir::Const::Unevaluated(u, _) if u.promoted.is_none() => Some(path(self.tcx, u.def)),
            _ => None,
        };
        let v = match c.eval(self.tcx, self.env, rustc_span::DUMMY_SP) {
            Ok(v) => self.constval(v, t),
            Err(_) => json!({"u": "eval"}),
        };
        match named {
            Some(n) => {
                let mut v = v;
                v["named"] = json!(n);
                v
            }
            None => v,
        }
    }
    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>) -> Value {
        match v {
            ConstValue::ZeroSized => self.zst(t),
            ConstValue::Scalar(s) => self.scalar(s, t, 0),
            ConstValue::Slice { alloc_id, meta } => {
                // a reference to a slice-tail type
                let inner = match *t.kind() {
                    ty::Ref(_, e, _) | ty::RawPtr(e, _) => e,
                    _ => return json!({"u":"slice"}),
                };
                self.pointee(alloc_id, 0, inner, Some(meta), 0)
            }
            ConstValue::Indirect { alloc_id, offset } => self.mem(alloc_id, offset.bytes(), t, 0),
        }
    }
    fn zst(&mut self, t: Ty<'tcx>) -> Value {
        match *t.kind() {
            ty::FnDef(d, args) => {
                let inst = Instance::try_resolve(self.tcx, self.env, d, args.no_bound_vars().unwrap()).ok().flatten();
                let id = inst.map(|i| self.inst(i));
                json!({"fn": id, "path": path(self.tcx, d)})
            }
            ty::Tuple(ts) => {
                let fs: Vec<Value> = ts.iter().map(|t| self.zst(t)).collect();
                json!({"a": fs})
            }
            ty::Adt(def, args) if def.is_struct() => {
                let tys: Vec<Ty<'tcx>> =
                    def.non_enum_variant().fields.iter().map(|f| self.norm(f.ty(self.tcx, args).skip_norm_wip())).collect();
                let fs: Vec<Value> = tys.into_iter().map(|t| self.zst(t)).collect();
                json!({"a": fs, "v": 0})
            }
            ty::Array(..) => json!({"a": []}),
            ty::Closure(..) => json!({"a": []}),
            _ => json!({"z": 1}),
        }
    }
    fn scalar(&mut self, s: Scalar, t: Ty<'tcx>, depth: usize) -> Value {
        match s {
            Scalar::Int(i) => match *t.kind() {
                ty::Int(_) => {
                    let sz = i.size();
                    json!({"i": i.to_int(sz).to_string()})
                }
                ty::Float(_) => json!({"f": i.to_bits_unchecked().to_string()}),
                ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                    let bits = i.to_bits_unchecked();
                    self.scalar_adt(bits, i.size().bytes(), t)
                }
                _ => json!({"i": i.to_bits_unchecked().to_string()}),
            },
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.prov_and_relative_offset();
                match *t.kind() {
                    ty::Ref(_, e, _) | ty::RawPtr(e, _) => self.pointee(prov.alloc_id(), off.bytes(), e, None, depth),
                    _ => json!({"u": "ptr"}),
                }
            }
        }
    }
    // a by-value scalar constant of aggregate type: only single-scalar wrappers and field-less enums occur
    fn scalar_adt(&mut self, bits: u128, size: u64, t: Ty<'tcx>) -> Value {
        let bytes = bits.to_le_bytes()[..size as usize].to_vec();
        self.bytes(&bytes, &HashMap::new(), 0, t, 0)
    }
    fn pointee(&mut self, id: mir::interpret::AllocId, off: u64, t: Ty<'tcx>, meta: Option<u64>, depth: usize) -> Value {
        let tcx = self.tcx;
        match tcx.try_get_global_alloc(id) {
            Some(GlobalAlloc::Memory(_)) => {
                if depth > 8 {
                    return json!({"u":"deep"});
                }
                match *t.kind() {
                    ty::Str => {
                        let n = meta.unwrap_or(0);
                        let b = self.raw(id, off, n);
                        json!({"s": String::from_utf8_lossy(&b), "bytes": b})
                    }
                    ty::Slice(e) => {
                        let n = meta.unwrap_or(0);
                        let sz = self.size_of(e);
                        let mut vs = vec![];
                        for k in 0..n {
                            vs.push(self.mem(id, off + k * sz, e, depth + 1));
                        }
                        json!({"sl": vs})
                    }
                    ty::Dynamic(..) => json!({"u":"dyn"}),
                    _ => {
                        let v = self.mem(id, off, t, depth + 1);
                        json!({"r": v})
                    }
                }
            }
            Some(GlobalAlloc::Static(d)) => json!({"static": path(tcx, d), "mutable": tcx.is_mutable_static(d)}),
            Some(GlobalAlloc::Function { instance }) => {
                let i = self.inst(instance);
                json!({"fn": i, "path": path(tcx, instance.def_id())})
            }
            _ => json!({"u":"alloc"}),
        }
    }
    fn raw(&self, id: mir::interpret::AllocId, off: u64, n: u64) -> Vec<u8> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => a
                .inner()
                .inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + n) as usize)
                .to_vec(),
            _ => vec![],
        }
    }
    fn size_of(&self, t: Ty<'tcx>) -> u64 {
        self.tcx.layout_of(self.env.as_query_input(t)).map(|l| l.size.bytes()).unwrap_or(0)
    }
    fn mem(&mut self, id: mir::interpret::AllocId, off: u64, t: Ty<'tcx>, depth: usize) -> Value {
        self.allocs += 1;
        let n = self.size_of(t);
        match self.tcx.try_get_global_alloc(id) {
            Some(GlobalAlloc::Memory(a)) => {
                let a = a.inner();
                let all = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len()).to_vec();
                let _ = AllocRange { start: rustc_abi::Size::ZERO, size: rustc_abi::Size::from_bytes(n) };
                let mut ptrs = HashMap::new();
                for &(o, p) in a.provenance().ptrs().iter() {
                    ptrs.insert(o.bytes(), p.alloc_id());
                }
                self.bytes(&all, &ptrs, off, t, depth)
            }
            _ => json!({"u":"mem"}),
        }
    }
    fn bytes(
        &mut self,
        b: &[u8],
        ptrs: &HashMap<u64, mir::interpret::AllocId>,
        off: u64,
        t: Ty<'tcx>,
        depth: usize,
    ) -> Value {
        let tcx = self.tcx;
        let rd = |o: u64, n: u64| -> u128 {
            let mut x = 0u128;
            for k in (0..n).rev() {
                x = (x << 8) | b[(o + k) as usize] as u128;
            }
            x
        };
        let n = self.size_of(t);
        match *t.kind() {
            ty::Bool | ty::Char | ty::Uint(_) => json!({"i": rd(off, n).to_string()}),
            ty::Int(_) => {
                let x = rd(off, n);
                let sh = 128 - 8 * n as u32;
                json!({"i": (((x << sh) as i128) >> sh).to_string()})
            }
            ty::Float(_) => json!({"f": rd(off, n).to_string()}),
            ty::Ref(_, e, _) | ty::RawPtr(e, _) => {
                let fat = matches!(e.kind(), ty::Str | ty::Slice(_) | ty::Dynamic(..));
                match ptrs.get(&off) {
                    Some(&id) => {
                        let o = rd(off, 8) as u64;
                        let meta = if fat { Some(rd(off + 8, 8) as u64) } else { None };
                        self.pointee(id, o, e, meta, depth + 1)
                    }
                    None => match *e.kind() {
                        ty::Slice(_) => json!({"sl": []}),
                        ty::Str => json!({"s": "", "bytes": []}),
                        _ => json!({"u":"nullptr"}),
                    },
                }
            }
            ty::FnPtr(..) => match ptrs.get(&off) {
                Some(&id) => self.pointee(id, 0, t, None, depth),
                None => json!({"u":"fnptr"}),
            },
            ty::Array(e, k) => {
                let k = k.try_to_target_usize(tcx).unwrap_or(0);
                let sz = self.size_of(e);
                let vs: Vec<Value> = (0..k).map(|j| self.bytes(b, ptrs, off + j * sz, e, depth)).collect();
                json!({"a": vs})
            }
            ty::Tuple(ts) => {
                let l = tcx.layout_of(self.env.as_query_input(t)).unwrap();
                let vs: Vec<Value> = ts
                    .iter()
                    .enumerate()
                    .map(|(j, ft)| self.bytes(b, ptrs, off + l.fields.offset(j).bytes(), ft, depth))
                    .collect();
                json!({"a": vs})
            }
            ty::FnDef(..) | ty::Closure(..) => self.zst(t),
            ty::Adt(def, args) => {
                let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) else { return json!({"u":"layout"}) };
                if def.is_union() {
                    return json!({"u":"union"});
                }
                // which variant?
                let vi = match &l.variants {
                    rustc_abi::Variants::Single { index } => *index,
                    rustc_abi::Variants::Empty => return json!({"u":"empty"}),
                    rustc_abi::Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let to = off + l.fields.offset(tag_field.as_usize()).bytes();
                        let tsz = tag.size(&tcx).bytes();
                        let raw = rd(to, tsz);
                        match tag_encoding {
                            rustc_abi::TagEncoding::Direct => {
                                let mask = if tsz == 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                match def.discriminants(tcx).find(|(_, d)| d.val & mask == raw) {
                                    Some((i, _)) => i,
                                    None => return json!({"u":"tag"}),
                                }
                            }
                            rustc_abi::TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if ptrs.contains_key(&to) {
                                    *untagged_variant
                                } else {
                                    let mask = if tsz == 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    let rel = raw.wrapping_sub(*niche_start) & mask;
                                    let cnt = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                                    if rel <= cnt {
                                        rustc_abi::VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32)
                                    } else {
                                        *untagged_variant
                                    }
                                }
                            }
                        }
                    }
                };
                let cx = ty::layout::LayoutCx::new(tcx, self.env);
                let lv = ty::layout::TyAndLayout { ty: l.ty, layout: l.layout };
                let lv = lv.for_variant(&cx, vi);
                let ftys: Vec<Ty<'tcx>> = def
                    .variant(vi)
                    .fields
                    .iter()
                    .map(|f| self.norm(f.ty(tcx, args).skip_norm_wip()))
                    .collect();
                let vs: Vec<Value> = ftys
                    .into_iter()
                    .enumerate()
                    .map(|(j, ft)| self.bytes(b, ptrs, off + lv.fields.offset(j).bytes(), ft, depth))
                    .collect();
                json!({"a": vs, "v": vi.as_usize()})
            }
            _ => json!({"u": show_ty(t)}),
        }
    }
    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>) -> Value {
        use mir::Rvalue::*;
        match r {
            Use(o, ..) => json!(["use", self.operand(o)]),
            Repeat(o, n) => json!(["repeat", self.operand(o), n.try_to_target_usize(self.tcx)]),
            Ref(_, k, p) => json!(["ref", self.place(p), matches!(k, mir::BorrowKind::Mut { .. })]),
            RawPtr(k, p) => json!(["rawptr", self.place(p), format!("{k:?}")]),
            Cast(k, o, t) => {
                let ks = match k {
                    mir::CastKind::PointerCoercion(c, _) => format!("PointerCoercion:{c:?}"),
                    _ => format!("{k:?}"),
                };
                let from = self.operand_ty(o);
                json!(["cast", ks, self.operand(o), self.ty(*t), from])
            }
            BinaryOp(op, b) => {
                let t = self.operand_ty(&b.0);
                json!(["bin", format!("{op:?}"), self.operand(&b.0), self.operand(&b.1), t])
            }
            UnaryOp(op, o) => {
                let t = self.operand_ty(o);
                json!(["un", format!("{op:?}"), self.operand(o), t])
            }
            Discriminant(p) => {
                let t = p.ty(&self.cur.clone().unwrap().local_decls, self.tcx).ty;
                let t = self.ty(t);
                json!(["discr", self.place(p), t])
            }
            Aggregate(k, os) => {
                let os: Vec<Value> = os.iter().map(|o| self.operand(o)).collect();
                let k = match **k {
                    mir::AggregateKind::Array(t) => json!({"k":"array","ty":self.ty(t)}),
                    mir::AggregateKind::Tuple => json!({"k":"tuple"}),
                    mir::AggregateKind::Adt(d, v, args, _, active) => {
                        let t = self.tcx.type_of(d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.norm(t);
                        json!({"k":"adt","path":path(self.tcx,d),"v":v.as_usize(),"ty":self.ty(t),"active":active.map(|a| a.as_usize())})
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, d, args);
                        json!({"k":"closure","ty":self.ty(t)})
                    }
                    mir::AggregateKind::RawPtr(t, m) => json!({"k":"rawptr","ty":self.ty(t),"mut":m.is_mut()}),
                    _ => json!({"k":"other"}),
                };
                json!(["agg", k, os])
            }
            CopyForDeref(p) => json!(["use", ["cp", self.place(p)]]),
            Reborrow(_, _, p) => json!(["use", ["cp", self.place(p)]]),
            ThreadLocalRef(d) => json!(["tls", path(self.tcx, *d)]),
            _ => json!(["other", format!("{r:?}")]),
        }
    }
    fn operand_ty(&mut self, o: &mir::Operand<'tcx>) -> usize {
        let t = o.ty(&self.cur.clone().unwrap().local_decls, self.tcx);
        self.ty(t)
    }
    fn body(&mut self, body: mir::Body<'tcx>) -> Value {
        let body = Rc::new(body);
        self.cur = Some(body.clone());
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            locals.push(self.ty(l.ty));
        }
        let mut names = serde_json::Map::new();
        for v in body.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize().to_string(), json!(v.name.to_string()));
                }
            }
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                let line = self.loc(s.source_info.span)[1].clone();
                match &s.kind {
                    mir::StatementKind::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rvalue(&b.1);
                        st.push(json!(["=", p, r, line]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(json!(["setd", self.place(place), variant_index.as_usize(), line]));
                    }
                    mir::StatementKind::Intrinsic(i) => match &**i {
                        mir::NonDivergingIntrinsic::Assume(o) => st.push(json!(["assume", self.operand(o), line])),
                        mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => st.push(json!([
                            "copy", self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count), line
                        ])),
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let line = self.loc(t.source_info.span);
            use mir::TerminatorKind::*;
            let tj = match &t.kind {
                Goto { target, .. } => json!({"k":"goto","t":target.as_usize()}),
                SwitchInt { discr, targets } => {
                    let vs: Vec<Value> = targets.iter().map(|(v, b)| json!([v.to_string(), b.as_usize()])).collect();
                    let ty = self.operand_ty(discr);
                    json!({"k":"switch","op":self.operand(discr),"ty":ty,"vs":vs,"else":targets.otherwise().as_usize()})
                }
                Return => json!({"k":"ret"}),
                Unreachable => json!({"k":"unreach"}),
                UnwindResume => json!({"k":"resume"}),
                UnwindTerminate(_) => json!({"k":"abort"}),
                Drop { place, target, .. } => {
                    let ty = place.ty(&body.local_decls, self.tcx).ty;
                    json!({"k":"drop","p":self.place(place),"t":target.as_usize(),"ty":self.ty(ty)})
                }
                Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a: Vec<Value> = args.iter().map(|a| self.operand(&a.node)).collect();
                    let at: Vec<usize> = args.iter().map(|a| self.operand_ty(&a.node)).collect();
                    let dt = destination.ty(&body.local_decls, self.tcx).ty;
                    json!({"k":"call","f":f,"args":a,"at":at,"d":self.place(destination),"dt":self.ty(dt),"t":target.map(|t| t.as_usize())})
                }
                Assert { cond, expected, msg, target, .. } => {
                    let (m, ops): (String, Vec<Value>) = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![self.operand(len), self.operand(index)])
                        }
                        mir::AssertKind::Overflow(op, a, b) => {
                            (format!("overflow:{op:?}"), vec![self.operand(a), self.operand(b)])
                        }
                        mir::AssertKind::OverflowNeg(a) => ("overflowneg".into(), vec![self.operand(a)]),
                        mir::AssertKind::DivisionByZero(a) => ("divzero".into(), vec![self.operand(a)]),
                        mir::AssertKind::RemainderByZero(a) => ("remzero".into(), vec![self.operand(a)]),
                        x => (format!("{x:?}").split(['(', ' ', '{']).next().unwrap().to_string(), vec![]),
                    };
                    json!({"k":"assert","c":self.operand(cond),"e":expected,"m":m,"ops":ops,"t":target.as_usize()})
                }
                x => json!({"k":"other","s":format!("{x:?}")}),
            };
            let mut tj = tj;
            tj["l"] = line;
            blocks.push(json!({"s":st,"t":tj,"c":bb.is_cleanup}));
        }
        json!({"argc":body.arg_count,"locals":locals,"names":names,"blocks":blocks,"spread":body.spread_arg.map(|l| l.as_usize())})
    }
}

fn is_own(tcx: TyCtxt<'_>, d: DefId) -> bool {
    let k = tcx.crate_name(d.krate);
    let subject = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    d.krate == LOCAL_CRATE || k.as_str() == subject
}

fn dump_client(tcx: TyCtxt<'_>) -> Value {
    let mut d = Dumper::new(tcx);
    let mut roots = serde_json::Map::new();
    for def in tcx.hir_body_owners() {
        let did = def.to_def_id();
        if tcx.def_kind(did) == DefKind::Fn
            && !tcx.generics_of(did).requires_monomorphization(tcx)
        {
            let i = Instance::mono(tcx, did);
            let id = d.inst(i);
            roots.insert(tcx.item_name(did).to_string(), json!(id));
        }
    }
    // every inherent or free function of the subject crate that is visible without generics
    d.run();
    let _ = &d.ty_objs;
    json!({"roots": roots, "types": d.tys, "insts": d.insts})
}

fn dump_subject(tcx: TyCtxt<'_>) -> Value {
    let mut d = Dumper::new(tcx);
    let mut items = vec![];
    let mut seen = HashSet::new();
    let bodies: Vec<_> = tcx.hir_body_owners().collect();
    for def in tcx.hir_crate_items(()).definitions().chain(bodies) {
        let did = def.to_def_id();
        if !seen.insert(did) {
            continue;
        }
        let kind = tcx.def_kind(did);
        let mut v = json!({"path": path(tcx, did), "kind": format!("{kind:?}"), "loc": d.loc(tcx.def_span(did)),
            "pub": matches!(kind, DefKind::Fn|DefKind::AssocFn|DefKind::Struct|DefKind::Enum|DefKind::Static{..}|DefKind::Const{..}|DefKind::Mod) && tcx.effective_visibilities(()).is_reachable(def)});
        match kind {
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                v["mutable"] = json!(mutability.is_mut());
                v["ty"] = json!(show_ty(t));
                v["freeze"] = json!(t.is_freeze(tcx, TypingEnv::fully_monomorphized()));
                v["tls"] = json!(tcx.is_thread_local_static(did));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                if !tcx.generics_of(did).requires_monomorphization(tcx) {
                    let env = TypingEnv::fully_monomorphized();
                    v["ty"] = json!(show_ty(t));
                    v["freeze"] = json!(t.is_freeze(tcx, env));
                }
            }
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..) => {
                if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                    let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                    v["sig"] = json!(format!("{sig:?}"));
                    v["unsafe"] = json!(sig.safety().is_unsafe());
                    v["inputs"] = json!(sig.skip_binder().inputs().iter().map(|t| show_ty(*t)).collect::<Vec<_>>());
                    if let Some(imp) = tcx.impl_of_assoc(did) {
                        v["impl_self"] = json!(show_ty(tcx.type_of(imp).instantiate_identity().skip_norm_wip()));
                    }
                }
                if tcx.is_mir_available(did) && !matches!(kind, DefKind::Ctor(..)) {
                    v["mir"] = subject_body(tcx, &mut d, did);
                }
            }
            DefKind::Impl { of_trait: true } => {
                let h = tcx.impl_trait_header(did);
                v["unsafe"] = json!(h.safety.is_unsafe());
                v["trait"] = json!(format!("{:?}", h.trait_ref.instantiate_identity().skip_norm_wip()));
            }
            _ => {}
        }
        items.push(v);
    }
    let attrs: Vec<String> = vec![];
    let externs: Vec<String> = tcx.crates(()).iter().map(|c| tcx.crate_name(*c).to_string()).collect();
    json!({"items": items, "attrs": attrs, "crates": externs})
}

// polymorphic facts of one body: callees with safety, raw dereferences, statics, casts
fn subject_body<'tcx>(tcx: TyCtxt<'tcx>, d: &mut Dumper<'tcx>, did: DefId) -> Value {
    let body = tcx.optimized_mir(did);
    let mut calls = vec![];
    let mut ops = vec![];
    let mut statics = vec![];
    let mut cx = |c: &mir::ConstOperand<'tcx>, statics: &mut Vec<Value>| {
        if let Some(sd) = c.check_static_ptr(tcx) {
            statics.push(json!({"path": path(tcx, sd), "mutable": tcx.is_mutable_static(sd), "tls": tcx.is_thread_local_static(sd)}));
        }
    };
    for bb in body.basic_blocks.iter() {
        if bb.is_cleanup {
            continue;
        }
        for s in &bb.statements {
            let line = d.loc(s.source_info.span);
            if let mir::StatementKind::Assign(b) = &s.kind {
                for (pl, w) in place_list(&b.0, &b.1) {
                    let mut pt = mir::PlaceTy::from_ty(body.local_decls[pl.local].ty);
                    for e in pl.projection.iter() {
                        if matches!(e, mir::ProjectionElem::Deref) && matches!(pt.ty.kind(), ty::RawPtr(..)) {
                            ops.push(json!({"op": "raw-deref", "write": w, "ty": show_ty(pt.ty), "loc": line}));
                        }
                        if matches!(e, mir::ProjectionElem::Field(..)) && pt.ty.is_union() {
                            ops.push(json!({"op": "union-field", "write": w, "ty": show_ty(pt.ty), "loc": line}));
                        }
                        pt = pt.projection_ty(tcx, e);
                    }
                }
                if let mir::Rvalue::Cast(k, o, t) = &b.1 {
                    if matches!(k, mir::CastKind::PointerExposeProvenance) {
                        ops.push(json!({"op":"address","from":show_ty(o.ty(&body.local_decls, tcx)),"loc":line}));
                    }
                    if matches!(k, mir::CastKind::Transmute) {
                        ops.push(json!({"op":"transmute","to":show_ty(*t),"from":show_ty(o.ty(&body.local_decls, tcx)),"loc":line}));
                    }
                }
                if let mir::Rvalue::ThreadLocalRef(x) = &b.1 {
                    statics.push(json!({"path": path(tcx, *x), "mutable": false, "tls": true}));
                }
            }
        }
        let t = bb.terminator();
        let line = d.loc(t.source_info.span);
        match &t.kind {
            mir::TerminatorKind::Call { func, .. } | mir::TerminatorKind::TailCall { func, .. } => {
                let ft = func.ty(&body.local_decls, tcx);
                match *ft.kind() {
                    ty::FnDef(c, args) => {
                        let sig = tcx.fn_sig(c).instantiate_identity().skip_norm_wip();
                        let self_ty = args.no_bound_vars().and_then(|a| a.types().next()).map(show_ty);
                        let tf = tcx.codegen_fn_attrs(c).target_features.len();
                        calls.push(json!({"path": path(tcx, c), "crate": tcx.crate_name(c.krate).to_string(),
                            "unsafe": sig.safety().is_unsafe(), "loc": line, "self": self_ty, "foreign": tcx.is_foreign_item(c), "tf": tf}));
                    }
                    _ => calls.push(json!({"path": "<indirect>", "crate": "", "unsafe": false, "ty": show_ty(ft), "loc": line})),
                }
            }
            mir::TerminatorKind::InlineAsm { .. } => ops.push(json!({"op":"asm","loc":line})),
            _ => {}
        }
    }
    struct V<'a, 'tcx, F: FnMut(&mir::ConstOperand<'tcx>, &mut Vec<Value>)>(&'a mut F, Vec<Value>, std::marker::PhantomData<&'tcx ()>);
    impl<'a, 'tcx, F: FnMut(&mir::ConstOperand<'tcx>, &mut Vec<Value>)> mir::visit::Visitor<'tcx> for V<'a, 'tcx, F> {
        fn visit_const_operand(&mut self, c: &mir::ConstOperand<'tcx>, _l: mir::Location) {
            (self.0)(c, &mut self.1)
        }
    }
    let mut vis = V(&mut cx, vec![], std::marker::PhantomData);
    mir::visit::Visitor::visit_body(&mut vis, body);
    let more = vis.1;
    statics.extend(more);
    json!({"calls": calls, "ops": ops, "statics": statics, "blocks": body.basic_blocks.len()})
}

fn place_list<'tcx>(dst: &mir::Place<'tcx>, r: &mir::Rvalue<'tcx>) -> Vec<(mir::Place<'tcx>, bool)> {
    let mut v = vec![(*dst, true)];
    let mut op = |o: &mir::Operand<'tcx>| {
        if let mir::Operand::Copy(p) | mir::Operand::Move(p) = o {
            v.push((*p, false))
        }
    };
    use mir::Rvalue::*;
    match r {
        Use(o, ..) | Repeat(o, _) | Cast(_, o, _) | UnaryOp(_, o) => op(o),
        BinaryOp(_, b) => {
            op(&b.0);
            op(&b.1)
        }
        Aggregate(_, os) => os.iter().for_each(|o| op(o)),
        Ref(_, _, p) | CopyForDeref(p) | Discriminant(p) => v.push((*p, false)),
        RawPtr(_, p) => v.push((*p, false)),
        _ => {}
    }
    v
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let client = std::env::var("MIRDUMP_CLIENT").unwrap_or_default();
    let subject = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let dir = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    if !dir.is_empty() && !name.is_empty() && (name == client || name == subject) {
        let mode = if name == client { Mode::Client } else { Mode::Subject };
        let mut cb = Cb { out: format!("{dir}/{name}.json"), mode };
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
    } else {
        struct Nop;
        impl Callbacks for Nop {}
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Nop))
    }
}
