// mirdump: a rustc driver that dumps the monomorphic MIR of every function of
// the crate being compiled (and of the few std combinators it reaches) as one
// JSON document, together with the types it mentions. It is run by cargo as
// RUSTC_WORKSPACE_WRAPPER and writes to $MIRDUMP_OUT.
#![feature(rustc_private)]
#![allow(unused_imports, dead_code)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate serde_json;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public_bridge::IndexedVal;
use rustc_public::{CrateDef, CrateDefType, CrateItem, ItemKind};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

struct D {
    types: BTreeMap<usize, Value>,
    tydone: HashMap<Ty, usize>,
    fns: Map<String, Value>,
    queue: VecDeque<(String, Instance)>,
    seen: HashSet<String>,
}

fn follow(name: &str) -> bool {
    // std functions whose own MIR is followed instead of being assumed
    let n = name.trim_start_matches('<');
    let pre = [
        "std::option::Option", "core::option::Option", "std::result::Result", "core::result::Result",
    ];
    if pre.iter().any(|p| n.starts_with(p)) {
        return true;
    }
    n.contains("as std::ops::Try>::") || n.contains("as std::ops::FromResidual<")
}

impl D {
    fn ty(&mut self, t: Ty) -> Value {
        if let Some(i) = self.tydone.get(&t) {
            return json!(i);
        }
        let id = self.tydone.len();
        self.tydone.insert(t, id);
        let v = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => json!({"k":"bool"}),
                RigidTy::Char => json!({"k":"char"}),
                RigidTy::Str => json!({"k":"str"}),
                RigidTy::Never => json!({"k":"never"}),
                RigidTy::Int(i) => json!({"k":"int","n":format!("{:?}", i).to_lowercase()}),
                RigidTy::Uint(i) => json!({"k":"uint","n":format!("{:?}", i).to_lowercase()}),
                RigidTy::Float(f) => json!({"k":"float","n":format!("{:?}", f)}),
                RigidTy::Ref(_, t, m) => {
                    let x = self.ty(t);
                    json!({"k":"ref","t":x,"mut":m==Mutability::Mut})
                }
                RigidTy::RawPtr(t, _) => {
                    let x = self.ty(t);
                    json!({"k":"ptr","t":x})
                }
                RigidTy::Slice(t) => {
                    let x = self.ty(t);
                    json!({"k":"slice","t":x})
                }
                RigidTy::Array(t, n) => {
                    let x = self.ty(t);
                    json!({"k":"array","t":x,"n":n.eval_target_usize().unwrap_or(u64::MAX)})
                }
                RigidTy::Tuple(ts) => {
                    let xs: Vec<Value> = ts.iter().map(|t| self.ty(*t)).collect();
                    json!({"k":"tuple","ts":xs})
                }
                RigidTy::FnDef(d, args) => {
                    let a = self.args(&args);
                    json!({"k":"fndef","n":d.name(),"args":a})
                }
                RigidTy::Closure(d, args) => {
                    let a = self.args(&args);
                    // upvar types: last arg is a tuple type
                    let mut inst = Value::Null;
                    for kind in [ClosureKind::FnOnce, ClosureKind::Fn, ClosureKind::FnMut] {
                        if let Ok(i) = Instance::resolve_closure(d, &args, kind) {
                            // the body itself, not the by-value shim
                            if i.kind == InstanceKind::Item {
                                inst = self.inst(i, true);
                                break;
                            }
                        }
                    }
                    json!({"k":"closure","n":d.name(),"args":a,"inst":inst})
                }
                RigidTy::Adt(d, args) => {
                    let a = self.args(&args);
                    let mut vs = Vec::new();
                    let name = d.name().to_string();
                    let local = d.krate().is_local;
                    let shallow = !local
                        && !(name.contains("option::Option") || name.contains("result::Result")
                            || name.contains("ControlFlow") || name.contains("ops::Range"));
                    if !shallow {
                        for v in d.variants_iter() {
                            let fs: Vec<Value> = v
                                .fields()
                                .iter()
                                .map(|f| {
                                    let t = self.ty(f.ty_with_args(&args));
                                    json!({"n":f.name.to_string(),"t":t})
                                })
                                .collect();
                            let dv = if d.kind() == AdtKind::Enum {
                                d.discriminant_for_variant(v.idx()).val as u64
                            } else { 0 };
                            vs.push(json!({"n":v.name().to_string(),"d":dv,"f":fs}));
                        }
                    }
                    json!({"k":"adt","n":name,"args":a,"local":local,"enum":d.kind()==AdtKind::Enum,"v":vs,"box":d.is_box()})
                }
                RigidTy::FnPtr(_) => json!({"k":"fnptr"}),
                RigidTy::Dynamic(..) => json!({"k":"dyn","n":format!("{:?}", t)}),
                _ => json!({"k":"other","n":format!("{:?}", t)}),
            },
            k => json!({"k":"other","n":format!("{:?}", k)}),
        };
        self.types.insert(id, v);
        json!(id)
    }
    fn args(&mut self, a: &GenericArgs) -> Value {
        let mut out = Vec::new();
        for x in &a.0 {
            match x {
                GenericArgKind::Type(t) => out.push(self.ty(*t)),
                GenericArgKind::Const(c) => out.push(json!({"c":c.eval_target_usize().ok()})),
                _ => {}
            }
        }
        json!(out)
    }
    fn inst(&mut self, i: Instance, closure: bool) -> Value {
        let key = i.mangled_name().to_string();
        let name = i.name().to_string();
        let local = i.def.krate().is_local;
        let body = local || closure || follow(&name);
        if body && !self.seen.contains(&key) {
            self.seen.insert(key.clone());
            self.queue.push_back((key.clone(), i));
        }
        let kind = format!("{:?}", i.kind);
        json!({"key":key,"name":name,"local":local,"body":body,"kind":kind})
    }
    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> Value {
        if depth > 6 {
            return json!({"opaque":1});
        }
        let bytes = &a.bytes;
        let rd = |o: usize, n: usize| -> Option<u128> {
            let mut v: u128 = 0;
            for k in (0..n).rev() {
                v = (v << 8) | (*bytes.get(o + k)?)? as u128;
            }
            Some(v)
        };
        let size = |t: Ty| t.layout().ok().map(|l| l.shape().size.bytes() as usize);
        let prov = |o: usize| -> Option<AllocId> {
            a.provenance.ptrs.iter().find(|(x, _)| *x as usize == o).map(|(_, p)| p.0)
        };
        let r = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => rd(off, 1).map(|v| json!({"bool": v != 0})),
                RigidTy::Char => rd(off, 4).map(|v| json!({"char": v as u64})),
                RigidTy::Uint(_) => size(t).and_then(|n| rd(off, n)).map(|v| json!({"int": v.to_string()})),
                RigidTy::Int(_) => size(t).and_then(|n| rd(off, n).map(|v| {
                    let bits = n * 8;
                    let s = if bits < 128 && v >> (bits - 1) != 0 { v as i128 - (1i128 << bits) } else { v as i128 };
                    json!({"int": s.to_string()})
                })),
                RigidTy::Ref(_, inner, _) => {
                    let id = prov(off);
                    let len = rd(off + 8, 8).map(|x| x as usize);
                    let po = rd(off, 8).map(|x| x as usize).unwrap_or(0);
                    match (id, inner.kind()) {
                        (None, TyKind::RigidTy(RigidTy::Str)) => Some(json!({"str": ""})),
                        (None, TyKind::RigidTy(RigidTy::Slice(_))) => Some(json!({"ref": {"arr": []}})),
                        (Some(id), TyKind::RigidTy(RigidTy::Str)) => match GlobalAlloc::from(id) {
                            GlobalAlloc::Memory(m) => {
                                let b: Vec<u8> = m.bytes.iter().map(|x| x.unwrap_or(0)).collect();
                                let n = len.unwrap_or(0);
                                b.get(po..po + n).map(|s| json!({"str": String::from_utf8_lossy(s)}))
                            }
                            _ => None,
                        },
                        (Some(id), TyKind::RigidTy(RigidTy::Slice(et))) => match GlobalAlloc::from(id) {
                            GlobalAlloc::Memory(m) => {
                                let es = size(et).unwrap_or(1);
                                let xs: Vec<Value> = (0..len.unwrap_or(0)).map(|k| self.decode(&m, po + k * es, et, depth + 1)).collect();
                                Some(json!({"ref": {"arr": xs}}))
                            }
                            _ => None,
                        },
                        (Some(id), _) => match GlobalAlloc::from(id) {
                            GlobalAlloc::Memory(m) => {
                                let v = self.decode(&m, po, inner, depth + 1);
                                Some(json!({"ref": v}))
                            }
                            GlobalAlloc::Static(s) => {
                                // immutable: a static mut is reached through a raw pointer
                                let v = match s.eval_initializer() {
                                    Ok(m) => self.decode(&m, po, inner, depth + 1),
                                    Err(_) => json!({"opaque": "static"}),
                                };
                                Some(json!({"ref":{"static": s.name(), "val": v}}))
                            }
                            _ => None,
                        },
                        _ => None,
                    }
                }
                RigidTy::Array(et, n) => {
                    let es = size(et).unwrap_or(1);
                    let n = n.eval_target_usize().unwrap_or(0) as usize;
                    let xs: Vec<Value> = (0..n).map(|k| self.decode(a, off + k * es, et, depth + 1)).collect();
                    Some(json!({"arr": xs}))
                }
                RigidTy::Adt(d, args) if d.kind() == AdtKind::Struct && d.krate().is_local => {
                    let lay = t.layout().ok().map(|l| l.shape());
                    match lay {
                        Some(l) => match &l.fields {
                            rustc_public::abi::FieldsShape::Arbitrary { offsets } => {
                                let v = d.variants_iter().next().unwrap();
                                let mut fs = Vec::new();
                                for (k, f) in v.fields().iter().enumerate() {
                                    let o = offsets[k].bytes() as usize;
                                    fs.push(self.decode(a, off + o, f.ty_with_args(&args), depth + 1));
                                }
                                Some(json!({"struct": fs}))
                            }
                            _ => None,
                        },
                        None => None,
                    }
                }
                RigidTy::Adt(d, args) if d.kind() == AdtKind::Enum => {
                    use rustc_public::abi::{FieldsShape, Primitive, Scalar, TagEncoding, VariantsShape};
                    let lay = t.layout().ok().map(|l| l.shape());
                    let mut vi: Option<(usize, Vec<usize>)> = None;
                    if let Some(l) = &lay {
                        match &l.variants {
                            VariantsShape::Single { index } => {
                                let offs = match &l.fields {
                                    FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes() as usize).collect(),
                                    _ => vec![],
                                };
                                vi = Some((index.to_index(), offs));
                            }
                            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                                let to = match &l.fields {
                                    FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes() as usize,
                                    _ => 0,
                                };
                                let p = match tag {
                                    Scalar::Initialized { value, .. } => value,
                                    Scalar::Union { value } => value,
                                };
                                let n = match p {
                                    Primitive::Int { length, .. } => match format!("{:?}", length).as_str() {
                                        "I8" => 1,
                                        "I16" => 2,
                                        "I32" => 4,
                                        _ => 8,
                                    },
                                    _ => 8,
                                };
                                let isptr = prov(off + to).is_some();
                                let v = rd(off + to, n);
                                let idx = match tag_encoding {
                                    TagEncoding::Direct => v.and_then(|v| {
                                        d.variants_iter().position(|x| d.discriminant_for_variant(x.idx()).val == v)
                                    }),
                                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                        if isptr {
                                            Some(untagged_variant.to_index())
                                        } else {
                                            v.map(|v| {
                                                let mask = if n == 8 { u64::MAX as u128 } else { (1u128 << (n * 8)) - 1 };
                                                let rel = v.wrapping_sub(*niche_start) & mask;
                                                let a = niche_variants.start().to_index();
                                                let b = niche_variants.end().to_index();
                                                if rel <= (b - a) as u128 {
                                                    a + rel as usize
                                                } else {
                                                    untagged_variant.to_index()
                                                }
                                            })
                                        }
                                    }
                                };
                                if let Some(i) = idx {
                                    vi = Some((i, variants[i].offsets.iter().map(|o| o.bytes() as usize).collect()));
                                }
                            }
                            _ => {}
                        }
                    }
                    match vi {
                        Some((i, offs)) => {
                            let v = d.variants_iter().nth(i).unwrap();
                            let mut fs = Vec::new();
                            for (k, f) in v.fields().iter().enumerate() {
                                fs.push(self.decode(a, off + offs.get(k).copied().unwrap_or(0), f.ty_with_args(&args), depth + 1));
                            }
                            Some(json!({"enum": i, "fields": fs}))
                        }
                        None => None,
                    }
                }
                RigidTy::RawPtr(..) => {
                    match prov(off) {
                        Some(id) => match GlobalAlloc::from(id) {
                            GlobalAlloc::Static(s) => Some(json!({"ref":{"static": s.name()}})),
                            _ => None,
                        },
                        None => None,
                    }
                }
                RigidTy::Tuple(ts) if ts.is_empty() => Some(json!({"unit":1})),
                _ => None,
            },
            _ => None,
        };
        r.unwrap_or(json!({"opaque": format!("{}", t)}))
    }
    fn cst(&mut self, c: &MirConst) -> Value {
        let t = c.ty();
        let tid = self.ty(t);
        let v = match c.kind() {
            ConstantKind::ZeroSized => match t.kind() {
                TyKind::RigidTy(RigidTy::FnDef(d, args)) => {
                    let dn = d.name();
                    let mut a = Vec::new();
                    for x in &args.0 {
                        if let GenericArgKind::Type(t) = x {
                            a.push(self.ty(*t));
                        }
                    }
                    match Instance::resolve(d, &args) {
                        Ok(i) => {
                            let iv = self.inst(i, false);
                            json!({"fn": iv, "def": dn, "targs": a})
                        }
                        Err(_) => json!({"fn": Value::Null, "def": dn, "targs": a}),
                    }
                }
                _ => json!({"zst": 1}),
            },
            ConstantKind::Allocated(a) => self.decode(a, 0, t, 0),
            ConstantKind::Ty(tc) => json!({"opaque": format!("{:?}", tc)}),
            k => json!({"opaque": format!("{:?}", k)}),
        };
        json!({"const": v, "ty": tid})
    }
    fn place(&mut self, p: &Place) -> Value {
        let mut pr = Vec::new();
        for e in &p.projection {
            pr.push(match e {
                ProjectionElem::Deref => json!("deref"),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(*t);
                    json!({"f": i, "t": t})
                }
                ProjectionElem::Index(l) => json!({"idx": l}),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => json!({"cidx": offset, "end": from_end}),
                ProjectionElem::Subslice { from, to, from_end } => json!({"sub":[from,to],"end":from_end}),
                ProjectionElem::Downcast(v) => json!({"dc": serde_json::to_value(v).unwrap()}),
                #[allow(unreachable_patterns)]
                x => json!({"other": format!("{:?}", x)}),
            });
        }
        json!([p.local, pr])
    }
    fn op(&mut self, o: &Operand) -> Value {
        match o {
            Operand::Copy(p) => json!({"cp": self.place(p)}),
            Operand::Move(p) => json!({"mv": self.place(p)}),
            Operand::Constant(c) => self.cst(&c.const_),
            #[allow(unreachable_patterns)]
            x => json!({"rtcheck": format!("{:?}", x)}),
        }
    }
    fn rv(&mut self, r: &Rvalue) -> Value {
        match r {
            Rvalue::Use(o, _) => json!({"use": self.op(o)}),
            Rvalue::Ref(_, k, p) => json!({"ref": self.place(p), "mut": matches!(k, BorrowKind::Mut{..})}),
            Rvalue::AddressOf(_, p) => json!({"ref": self.place(p), "raw": true}),
            Rvalue::CopyForDeref(p) => json!({"use": {"cp": self.place(p)}}),
            Rvalue::Discriminant(p) => json!({"discr": self.place(p)}),
            Rvalue::Len(p) => json!({"len": self.place(p)}),
            Rvalue::BinaryOp(b, x, y) => json!({"bin": format!("{:?}", b), "a": self.op(x), "b": self.op(y)}),
            Rvalue::CheckedBinaryOp(b, x, y) => json!({"cbin": format!("{:?}", b), "a": self.op(x), "b": self.op(y)}),
            Rvalue::UnaryOp(u, x) => json!({"un": format!("{:?}", u), "a": self.op(x)}),
            Rvalue::Cast(k, x, t) => json!({"cast": format!("{:?}", k), "a": self.op(x), "t": self.ty(*t)}),
            Rvalue::Repeat(x, n) => json!({"repeat": self.op(x), "n": n.eval_target_usize().unwrap_or(0)}),
            Rvalue::Aggregate(k, xs) => {
                let ops: Vec<Value> = xs.iter().map(|o| self.op(o)).collect();
                let kk = match k {
                    AggregateKind::Array(t) => json!({"k":"array","t":self.ty(*t)}),
                    AggregateKind::Tuple => json!({"k":"tuple"}),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let t = self.ty(Ty::from_rigid_kind(RigidTy::Adt(*d, args.clone())));
                        json!({"k":"adt","t":t,"v":serde_json::to_value(v).unwrap()})
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = self.ty(Ty::from_rigid_kind(RigidTy::Closure(*d, args.clone())));
                        json!({"k":"closure","t":t})
                    }
                    x => json!({"k":"other","n":format!("{:?}", x)}),
                };
                json!({"agg": kk, "ops": ops})
            }
            x => json!({"other": format!("{:?}", x)}),
        }
    }
    fn func(&mut self, name: &str, b: &Body, local: bool) -> Value {
        let locals: Vec<Value> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let mut blocks = Vec::new();
        for bb in &b.blocks {
            let mut ss = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let pv = self.place(p);
                        let rvv = self.rv(r);
                        ss.push(json!({"p": pv, "r": rvv}))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(json!({"setd": self.place(place), "v": serde_json::to_value(variant_index).unwrap()}))
                    }
                    _ => {}
                }
            }
            let sp = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => json!({"goto": target}),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.op(discr);
                    let br: Vec<Value> = targets.branches().map(|(v, t)| json!([v.to_string(), t])).collect();
                    json!({"switch": d, "br": br, "else": targets.otherwise()})
                }
                TerminatorKind::Return => json!("return"),
                TerminatorKind::Unreachable => json!("unreachable"),
                TerminatorKind::Resume | TerminatorKind::Abort => json!("resume"),
                TerminatorKind::Drop { target, .. } => json!({"goto": target}),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func);
                    let a: Vec<Value> = args.iter().map(|o| self.op(o)).collect();
                    let d = self.place(destination);
                    json!({"call": f, "args": a, "dest": d, "target": target, "line": sp})
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let c = self.op(cond);
                    json!({"assert": c, "exp": expected, "target": target, "msg": format!("{:?}", msg).chars().take(40).collect::<String>(), "line": sp})
                }
                TerminatorKind::InlineAsm { .. } => json!("asm"),
            };
            blocks.push(json!({"s": ss, "t": t}));
        }
        let mut names = Vec::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pv = self.place(p);
                names.push(json!([v.name.to_string(), pv]));
            }
        }
        json!({"name": name, "local": local, "argc": b.arg_locals().len(), "locals": locals, "blocks": blocks, "names": names})
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is_target = args.iter().zip(args.iter().skip(1)).any(|(a, b)| a == "--crate-name" && b == "che");
    if !is_target {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Cdebug-assertions=off".into());
    args.push("-Coverflow-checks=on".into());
    args.push("-Awarnings".into());
    let r = run!(&args, || -> ControlFlow<()> {
        let mut d = D {
            types: BTreeMap::new(),
            tydone: HashMap::new(),
            fns: Map::new(),
            queue: VecDeque::new(),
            seen: HashSet::new(),
        };
        for it in rustc_public::all_local_items() {
            if it.kind() == ItemKind::Fn {
                if let Ok(i) = Instance::try_from(it) {
                    d.inst(i, false);
                }
            }
        }
        while let Some((key, i)) = d.queue.pop_front() {
            if let Some(b) = i.body() {
                let n = i.name().to_string();
                let local = i.def.krate().is_local;
                let v = d.func(&n, &b, local);
                d.fns.insert(key, v);
            }
        }
        let types: Map<String, Value> = d.types.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
        let doc = json!({"types": types, "fns": d.fns});
        std::fs::write(&out, serde_json::to_string(&doc).unwrap()).unwrap();
        ControlFlow::Continue(())
    });
    if r.is_err() {
        std::process::exit(1);
    }
}
