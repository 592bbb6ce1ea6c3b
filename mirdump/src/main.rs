//! mirdump: a rustc driver that writes the type-checked program of the crate being compiled
//! (monomorphic MIR of every function reachable from its items, with resolved callees, constants
//! decoded by type, ADT layouts and source spans) as JSON, for the analyses in /verif/analysis.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER.  When MIRDUMP_OUT is set and the crate name equals
//! MIRDUMP_CRATE the dump is written; every other invocation is a plain compilation.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_public::abi::{FieldsShape, Scalar, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dump {
    types: Vec<String>,
    tymap: HashMap<Ty, usize>,
    fns: Vec<(Instance, String)>,
    fnmap: HashMap<Instance, usize>,
    queue: VecDeque<(usize, Instance)>,
    statics: HashMap<String, String>,
    stop: Vec<String>,
}

impl Dump {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let i = self.types.len();
        self.tymap.insert(t, i);
        self.types.push(String::new());
        let s = self.ty_json(t);
        self.types[i] = s;
        i
    }

    fn ty_json(&mut self, t: Ty) -> String {
        let name = esc(&format!("{}", t));
        let size = t.layout().ok().map(|l| l.shape().size.bytes() as i64).unwrap_or(-1);
        let head = format!("\"s\":{},\"size\":{}", name, size);
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => format!("{{\"k\":\"bool\",{head}}}"),
                RigidTy::Char => format!("{{\"k\":\"char\",{head}}}"),
                RigidTy::Int(i) => format!("{{\"k\":\"int\",\"bits\":{},{head}}}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("{{\"k\":\"uint\",\"bits\":{},{head}}}", i.num_bytes() * 8),
                RigidTy::Float(_) => format!("{{\"k\":\"float\",{head}}}"),
                RigidTy::Str => format!("{{\"k\":\"str\",{head}}}"),
                RigidTy::Never => format!("{{\"k\":\"never\",{head}}}"),
                RigidTy::Array(e, n) => {
                    let e = self.ty(e);
                    let n = n.eval_target_usize().map(|v| v as i64).unwrap_or(-1);
                    format!("{{\"k\":\"array\",\"elem\":{e},\"len\":{n},{head}}}")
                }
                RigidTy::Slice(e) => {
                    let e = self.ty(e);
                    format!("{{\"k\":\"slice\",\"elem\":{e},{head}}}")
                }
                RigidTy::RawPtr(e, m) => {
                    let e = self.ty(e);
                    format!("{{\"k\":\"ptr\",\"elem\":{e},\"mut\":{},{head}}}", m == Mutability::Mut)
                }
                RigidTy::Ref(_, e, m) => {
                    let e = self.ty(e);
                    format!("{{\"k\":\"ref\",\"elem\":{e},\"mut\":{},{head}}}", m == Mutability::Mut)
                }
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("{{\"k\":\"tuple\",\"elems\":[{}],{head}}}", v.join(","))
                }
                RigidTy::Adt(def, args) => {
                    let mut vs = vec![];
                    for v in def.variants() {
                        let fs: Vec<String> = v
                            .fields()
                            .iter()
                            .map(|f| {
                                let ft = f.ty_with_args(&args);
                                let ti = self.ty(ft);
                                format!("[{},{}]", esc(&f.name), ti)
                            })
                            .collect();
                        let d = if def.kind() == AdtKind::Enum {
                            def.discriminant_for_variant(v.idx()).val
                        } else {
                            0
                        };
                        vs.push(format!(
                            "{{\"n\":{},\"f\":[{}],\"d\":\"{}\"}}",
                            esc(&v.name()),
                            fs.join(","),
                            d
                        ));
                    }
                    let k = match def.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Struct => "struct",
                        AdtKind::Union => "union",
                    };
                    let targs: Vec<String> =
                        args.0.iter().filter_map(|a| a.ty().copied()).map(|t| self.ty(t).to_string()).collect();
                    format!(
                        "{{\"k\":\"{k}\",\"name\":{},\"args\":[{}],\"variants\":[{}],\"box\":{},{head}}}",
                        esc(&def.name()),
                        targs.join(","),
                        vs.join(","),
                        def.is_box()
                    )
                }
                RigidTy::FnDef(def, args) => {
                    let f = match Instance::resolve(def, &args) {
                        Ok(i) => self.inst(i) as i64,
                        Err(_) => -1,
                    };
                    format!("{{\"k\":\"fndef\",\"name\":{},\"fn\":{f},{head}}}", esc(&def.name()))
                }
                RigidTy::Closure(def, args) => {
                    let mut parts = vec![];
                    for (n, k) in
                        [("once", ClosureKind::FnOnce), ("mut", ClosureKind::FnMut), ("ref", ClosureKind::Fn)]
                    {
                        if let Ok(i) = Instance::resolve_closure(def, &args, k) {
                            let ix = self.inst(i);
                            parts.push(format!("\"{n}\":{ix}"));
                        }
                    }
                    // upvar tuple is the last generic argument
                    let up = match args.0.last() {
                        Some(GenericArgKind::Type(t)) => self.ty(*t) as i64,
                        _ => -1,
                    };
                    format!(
                        "{{\"k\":\"closure\",\"name\":{},\"inst\":{{{}}},\"up\":{up},{head}}}",
                        esc(&def.name()),
                        parts.join(",")
                    )
                }
                RigidTy::FnPtr(_) => format!("{{\"k\":\"fnptr\",{head}}}"),
                RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",{head}}}"),
                _ => format!("{{\"k\":\"other\",{head}}}"),
            },
            _ => format!("{{\"k\":\"other\",{head}}}"),
        }
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(&x) = self.fnmap.get(&i) {
            return x;
        }
        let x = self.fns.len();
        self.fnmap.insert(i, x);
        self.fns.push((i, String::new()));
        self.queue.push_back((x, i));
        x
    }

    fn span(&self, s: Span) -> String {
        let l = s.get_lines();
        format!("[{},{},{}]", esc(&s.get_filename()), l.start_line, l.start_col)
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(*t);
                    format!("[\"f\",{i},{t}]")
                }
                ProjectionElem::Index(l) => format!("[\"i\",{l}]"),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{offset},{min_length},{from_end}]")
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{from},{to},{from_end}]")
                }
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"oc\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }

    /// Decode the bytes of an allocation at `off` as a value of type `t`.
    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        let ti = self.ty(t);
        if depth > 6 {
            return format!("{{\"c\":\"opaque\",\"t\":{ti}}}");
        }
        let shape = match t.layout() {
            Ok(l) => l.shape(),
            Err(_) => return format!("{{\"c\":\"opaque\",\"t\":{ti}}}"),
        };
        let size = shape.size.bytes();
        let opaque = |a: &Allocation| {
            let mut h = String::new();
            for i in off..(off + size).min(a.bytes.len()) {
                match a.bytes[i] {
                    Some(b) => {
                        let _ = write!(h, "{:02x}", b);
                    }
                    None => h.push_str("__"),
                }
            }
            format!("{{\"c\":\"opaque\",\"t\":{ti},\"hex\":\"{h}\",\"prov\":{}}}", a.provenance.ptrs.len())
        };
        let kind = match t.kind() {
            TyKind::RigidTy(r) => r,
            _ => return opaque(a),
        };
        let rd = |o: usize, n: usize| -> Option<u128> { a.read_partial_uint(o..o + n).ok() };
        match kind {
            RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_) => match rd(off, size) {
                Some(v) => format!("{{\"c\":\"int\",\"t\":{ti},\"v\":\"{v}\"}}"),
                None => opaque(a),
            },
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| *p);
                let Some(p) = prov else { return opaque(a) };
                let base = rd(off, 8).unwrap_or(0) as usize;
                let ga = GlobalAlloc::from(p.0);
                match ga {
                    GlobalAlloc::Memory(inner) => match e.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let len = rd(off + 8, 8).unwrap_or(0) as usize;
                            let bytes: Vec<u8> =
                                inner.bytes[base..base + len].iter().map(|b| b.unwrap_or(0)).collect();
                            match String::from_utf8(bytes) {
                                Ok(s) => format!("{{\"c\":\"str\",\"t\":{ti},\"v\":{}}}", esc(&s)),
                                Err(_) => opaque(a),
                            }
                        }
                        TyKind::RigidTy(RigidTy::Slice(el)) => {
                            let len = rd(off + 8, 8).unwrap_or(0) as usize;
                            let es = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                            let v: Vec<String> =
                                (0..len).map(|i| self.decode(&inner, base + i * es, el, depth + 1)).collect();
                            format!("{{\"c\":\"slice\",\"t\":{ti},\"v\":[{}]}}", v.join(","))
                        }
                        TyKind::RigidTy(RigidTy::Dynamic(..)) => opaque(a),
                        _ => {
                            let v = self.decode(&inner, base, e, depth + 1);
                            format!("{{\"c\":\"ref\",\"t\":{ti},\"v\":{v}}}")
                        }
                    },
                    GlobalAlloc::Static(s) => {
                        self.stat(s);
                        format!("{{\"c\":\"static\",\"t\":{ti},\"name\":{}}}", esc(&s.name()))
                    }
                    GlobalAlloc::Function(i) => {
                        let f = self.inst(i);
                        format!("{{\"c\":\"fn\",\"t\":{ti},\"fn\":{f}}}")
                    }
                    _ => opaque(a),
                }
            }
            RigidTy::Array(el, n) => {
                let len = n.eval_target_usize().unwrap_or(0) as usize;
                let es = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                if len > 4096 {
                    return opaque(a);
                }
                let v: Vec<String> = (0..len).map(|i| self.decode(a, off + i * es, el, depth + 1)).collect();
                format!("{{\"c\":\"array\",\"t\":{ti},\"v\":[{}]}}", v.join(","))
            }
            RigidTy::Tuple(ts) => match &shape.fields {
                FieldsShape::Arbitrary { offsets } => {
                    let v: Vec<String> = ts
                        .iter()
                        .enumerate()
                        .map(|(i, t)| self.decode(a, off + offsets[i].bytes(), *t, depth + 1))
                        .collect();
                    format!("{{\"c\":\"tuple\",\"t\":{ti},\"v\":[{}]}}", v.join(","))
                }
                _ => format!("{{\"c\":\"tuple\",\"t\":{ti},\"v\":[]}}"),
            },
            RigidTy::Closure(..) => format!("{{\"c\":\"zst\",\"t\":{ti}}}"),
            RigidTy::FnDef(..) => format!("{{\"c\":\"zst\",\"t\":{ti}}}"),
            RigidTy::Adt(def, args) => {
                if def.kind() == AdtKind::Union {
                    return opaque(a);
                }
                let (vix, offsets): (usize, Vec<usize>) = match &shape.variants {
                    VariantsShape::Single { index } => match &shape.fields {
                        FieldsShape::Arbitrary { offsets } => {
                            (index.to_index(), offsets.iter().map(|o| o.bytes()).collect())
                        }
                        _ => (index.to_index(), vec![]),
                    },
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                            _ => return opaque(a),
                        };
                        let tsz = match tag {
                            Scalar::Initialized { value, .. } => {
                                value.size(&rustc_public::target::MachineInfo::target()).bytes()
                            }
                            _ => return opaque(a),
                        };
                        let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                        let raw = match rd(off + toff, tsz) {
                            Some(v) => v,
                            None => return opaque(a),
                        };
                        let v = match tag_encoding {
                            TagEncoding::Direct => {
                                let mut f = None;
                                for v in def.variants() {
                                    let d = def.discriminant_for_variant(v.idx()).val;
                                    let m = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    if d & m == raw {
                                        f = Some(v.idx().to_index());
                                    }
                                }
                                match f {
                                    Some(v) => v,
                                    None => return opaque(a),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let m = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                let rel = raw.wrapping_sub(*niche_start) & m;
                                let lo = niche_variants.start().to_index();
                                let hi = niche_variants.end().to_index();
                                if !has_prov && rel <= (hi - lo) as u128 {
                                    lo + rel as usize
                                } else {
                                    untagged_variant.to_index()
                                }
                            }
                        };
                        (v, variants[v].offsets.iter().map(|o| o.bytes()).collect())
                    }
                    _ => return opaque(a),
                };
                let var = &def.variants()[vix];
                let fs: Vec<String> = var
                    .fields()
                    .iter()
                    .enumerate()
                    .map(|(i, f)| {
                        let ft = f.ty_with_args(&args);
                        self.decode(a, off + offsets.get(i).copied().unwrap_or(0), ft, depth + 1)
                    })
                    .collect();
                format!("{{\"c\":\"adt\",\"t\":{ti},\"variant\":{vix},\"v\":[{}]}}", fs.join(","))
            }
            _ => opaque(a),
        }
    }

    fn stat(&mut self, s: StaticDef) {
        let n = s.name().to_string();
        if self.statics.contains_key(&n) {
            return;
        }
        self.statics.insert(n.clone(), String::new());
        let t = s.ty();
        let ti = self.ty(t);
        let v = match s.eval_initializer() {
            Ok(a) => self.decode(&a, 0, t, 0),
            Err(_) => format!("{{\"c\":\"opaque\",\"t\":{ti}}}"),
        };
        self.statics.insert(n, v);
    }

    fn constant(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        match c.kind() {
            ConstantKind::ZeroSized => format!("{{\"c\":\"zst\",\"t\":{ti}}}"),
            ConstantKind::Allocated(a) => {
                let a = a.clone();
                self.decode(&a, 0, t, 0)
            }
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => {
                    let (t, a) = (*t, a.clone());
                    self.decode(&a, 0, t, 0)
                }
                TyConstKind::ZSTValue(_) => format!("{{\"c\":\"zst\",\"t\":{ti}}}"),
                _ => format!("{{\"c\":\"opaque\",\"t\":{ti}}}"),
            },
            _ => format!("{{\"c\":\"opaque\",\"t\":{ti},\"why\":\"unevaluated\"}}"),
        }
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"copy\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"o\":\"move\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"o\":\"const\",\"v\":{}}}", self.constant(&c.const_)),
            Operand::RuntimeChecks(r) => format!("{{\"o\":\"rtc\",\"v\":{}}}", esc(&format!("{:?}", r))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("{{\"r\":\"use\",\"o\":{}}}", self.operand(o)),
            Rvalue::CopyForDeref(p) => {
                format!("{{\"r\":\"use\",\"o\":{{\"o\":\"copy\",\"p\":{}}}}}", self.place(p))
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("{{\"r\":\"ref\",\"mut\":{m},\"p\":{}}}", self.place(p))
            }
            Rvalue::Reborrow(_, _, p) => format!("{{\"r\":\"use\",\"o\":{{\"o\":\"copy\",\"p\":{}}}}}", self.place(p)),
            Rvalue::AddressOf(k, p) => {
                let m = matches!(k, RawPtrKind::Mut);
                format!("{{\"r\":\"addr\",\"mut\":{m},\"p\":{}}}", self.place(p))
            }
            Rvalue::Len(p) => format!("{{\"r\":\"len\",\"p\":{}}}", self.place(p)),
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"p\":{}}}", self.place(p)),
            Rvalue::BinaryOp(b, x, y) => {
                format!("{{\"r\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}", b, self.operand(x), self.operand(y))
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                format!("{{\"r\":\"cbin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}", b, self.operand(x), self.operand(y))
            }
            Rvalue::UnaryOp(u, x) => format!("{{\"r\":\"un\",\"op\":\"{:?}\",\"a\":{}}}", u, self.operand(x)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                format!("{{\"r\":\"cast\",\"k\":{},\"o\":{},\"t\":{ti}}}", esc(&format!("{:?}", k)), self.operand(o))
            }
            Rvalue::Repeat(o, n) => {
                let n = n.eval_target_usize().map(|v| v as i64).unwrap_or(-1);
                format!("{{\"r\":\"repeat\",\"o\":{},\"n\":{n}}}", self.operand(o))
            }
            Rvalue::ThreadLocalRef(_) => "{\"r\":\"tls\"}".to_string(),
            Rvalue::Aggregate(k, os) => {
                let v: Vec<String> = os.iter().map(|o| self.operand(o)).collect();
                let (kk, extra) = match k {
                    AggregateKind::Array(_) => ("array", String::new()),
                    AggregateKind::Tuple => ("tuple", String::new()),
                    AggregateKind::Adt(d, vi, args, _, fi) => {
                        let t = self.ty(d.ty_with_args(args));
                        (
                            "adt",
                            format!(
                                ",\"t\":{t},\"variant\":{},\"uf\":{}",
                                vi.to_index(),
                                fi.map(|f| f as i64).unwrap_or(-1)
                            ),
                        )
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = self.ty(Ty::new_closure(*d, args.clone()));
                        ("closure", format!(",\"t\":{t}"))
                    }
                    AggregateKind::RawPtr(t, _) => {
                        let t = self.ty(*t);
                        ("rawptr", format!(",\"t\":{t}"))
                    }
                    _ => ("other", String::new()),
                };
                format!("{{\"r\":\"agg\",\"k\":\"{kk}\"{extra},\"v\":[{}]}}", v.join(","))
            }
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        let r = self.rvalue(r);
                        st.push(format!("[\"=\",{p},{r},{}]", self.span(s.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!("[\"sd\",{p},{}]", variant_index.to_index()));
                    }
                    StatementKind::StorageLive(l) => st.push(format!("[\"live\",{l}]")),
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{l}]")),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        let o = self.operand(o);
                        st.push(format!("[\"assume\",{o}]"));
                    }
                    StatementKind::Intrinsic(_) => st.push("[\"copynonoverlapping\"]".into()),
                    _ => {}
                }
            }
            let sp = self.span(bb.terminator.source_info.span);
            let uw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => *b as i64,
                _ => -1,
            };
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("{{\"t\":\"goto\",\"to\":{target}}}"),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let dt = discr.ty(b.locals()).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    let v: Vec<String> =
                        targets.branches().map(|(v, t)| format!("[\"{v}\",{t}]")).collect();
                    format!(
                        "{{\"t\":\"switch\",\"d\":{d},\"dt\":{dt},\"arms\":[{}],\"else\":{},\"sp\":{sp}}}",
                        v.join(","),
                        targets.otherwise()
                    )
                }
                TerminatorKind::Resume => "{\"t\":\"resume\"}".into(),
                TerminatorKind::Abort => "{\"t\":\"abort\"}".into(),
                TerminatorKind::Return => format!("{{\"t\":\"return\",\"sp\":{sp}}}"),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".into(),
                TerminatorKind::Drop { place, target, unwind } => {
                    let ty = place.ty(b.locals()).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    let p = self.place(place);
                    format!("{{\"t\":\"drop\",\"p\":{p},\"ty\":{ty},\"to\":{target},\"uw\":{}}}", uw(unwind))
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let fty = func.ty(b.locals());
                    let mut callee = -1i64;
                    let mut cname = String::new();
                    if let Ok(t) = fty {
                        if let TyKind::RigidTy(RigidTy::FnDef(def, gargs)) = t.kind() {
                            cname = def.name().to_string();
                            if let Ok(i) = Instance::resolve(def, &gargs) {
                                callee = self.inst(i) as i64;
                            }
                        }
                    }
                    let f = self.operand(func);
                    let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    let d = self.place(destination);
                    let dty = destination.ty(b.locals()).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    format!(
                        "{{\"t\":\"call\",\"fn\":{callee},\"def\":{},\"f\":{f},\"args\":[{}],\"dest\":{d},\"dty\":{dty},\"to\":{},\"uw\":{},\"sp\":{sp}}}",
                        esc(&cname),
                        a.join(","),
                        target.map(|t| t as i64).unwrap_or(-1),
                        uw(unwind)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let c = self.operand(cond);
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                        AssertMessage::Overflow(op, _, _) => format!("overflow:{:?}", op),
                        AssertMessage::OverflowNeg(_) => "overflow:Neg".to_string(),
                        AssertMessage::DivisionByZero(_) => "divzero".to_string(),
                        AssertMessage::RemainderByZero(_) => "remzero".to_string(),
                        AssertMessage::MisalignedPointerDereference { .. } => "misaligned".to_string(),
                        AssertMessage::NullPointerDereference => "null".to_string(),
                        _ => "other".to_string(),
                    };
                    format!(
                        "{{\"t\":\"assert\",\"c\":{c},\"exp\":{expected},\"msg\":\"{m}\",\"to\":{target},\"uw\":{},\"sp\":{sp}}}",
                        uw(unwind)
                    )
                }
                TerminatorKind::InlineAsm { .. } => "{\"t\":\"asm\"}".into(),
            };
            blocks.push(format!("{{\"s\":[{}],\"t\":{t}}}", st.join(",")));
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names.push(format!("[{},{}]", l, esc(&v.name)));
            }
        }
        format!(
            "\"argc\":{},\"spread\":{},\"locals\":[{}],\"names\":[{}],\"span\":{},\"blocks\":[{}]",
            b.arg_locals().len(),
            b.spread_arg().map(|l| l as i64).unwrap_or(-1),
            locals.join(","),
            names.join(","),
            self.span(b.span),
            blocks.join(",")
        )
    }

    fn emit_fn(&mut self, ix: usize, i: Instance) {
        let name = i.name().to_string();
        let def = i.def.name().to_string();
        let krate = i.def.krate().name.to_string();
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let mut s = format!(
            "\"id\":{ix},\"name\":{},\"def\":{},\"crate\":{},\"kind\":\"{kind}\"",
            esc(&name),
            esc(&def),
            esc(&krate)
        );
        let targs: Vec<String> =
            i.args().0.iter().filter_map(|a| a.ty().copied()).map(|t| self.ty(t).to_string()).collect();
        let _ = write!(s, ",\"targs\":[{}]", targs.join(","));
        let stopped = krate != "c8s" && self.stop.iter().any(|p| def.starts_with(p.as_str()) || name.starts_with(p.as_str()));
        let can = !stopped
            && !i.is_foreign_item()
            && !matches!(i.kind, InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic | InstanceKind::Virtual { .. })
            && (i.kind == InstanceKind::Shim || i.has_body());
        if can {
            if let Some(b) = i.body() {
                let bs = self.body(&b);
                s.push(',');
                s.push_str(&bs);
            }
        }
        self.fns[ix].1 = format!("{{{s}}}");
    }
}

fn dump() -> ControlFlow<()> {
    let out = std::env::var("MIRDUMP_OUT").unwrap();
    let stop: Vec<String> = std::env::var("MIRDUMP_STOP")
        .unwrap_or_default()
        .split('\n')
        .filter(|s| !s.is_empty())
        .map(|s| s.to_string())
        .collect();
    let mut d = Dump {
        types: vec![],
        tymap: HashMap::new(),
        fns: vec![],
        fnmap: HashMap::new(),
        queue: VecDeque::new(),
        statics: HashMap::new(),
        stop,
    };
    let mut roots = vec![];
    let mut main = -1i64;
    let mut items = vec![];
    for it in rustc_public::all_local_items() {
        let k = match it.kind() {
            ItemKind::Fn => "fn",
            ItemKind::Static => "static",
            ItemKind::Const => "const",
            ItemKind::Ctor(_) => "ctor",
        };
        items.push(format!("[{},\"{k}\",{}]", esc(&it.name()), it.requires_monomorphization()));
        if let ItemKind::Static = it.kind() {
            if let Ok(s) = StaticDef::try_from(it) {
                d.stat(s);
            }
        }
        if let ItemKind::Fn = it.kind() {
            if !it.requires_monomorphization() {
                if let Ok(i) = Instance::try_from(it) {
                    let x = d.inst(i);
                    roots.push(x);
                    if Some(it) == rustc_public::entry_fn() {
                        main = x as i64;
                    }
                }
            }
        }
    }
    while let Some((x, i)) = d.queue.pop_front() {
        d.emit_fn(x, i);
    }
    let mut o = String::new();
    let _ = write!(o, "{{\"main\":{main},\"roots\":{:?},\"items\":[{}],\n\"types\":[\n", roots, items.join(","));
    o.push_str(&d.types.join(",\n"));
    o.push_str("],\n\"statics\":{");
    let mut st: Vec<_> = d.statics.iter().collect();
    st.sort();
    o.push_str(&st.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",\n"));
    o.push_str("},\n\"fns\":[\n");
    o.push_str(&d.fns.iter().map(|f| f.1.clone()).collect::<Vec<_>>().join(",\n"));
    o.push_str("]}\n");
    std::fs::write(&out, o).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As a wrapper we are called as: mirdump /path/to/rustc ARGS...
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(0);
    }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let want = std::env::var("MIRDUMP_CRATE").ok();
    if name.is_some() && name == want && std::env::var("MIRDUMP_OUT").is_ok() {
        let r = rustc_public::run!(&args, dump);
        std::process::exit(if r.is_ok() { 0 } else { 1 });
    }
    let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
    std::process::exit(st.code().unwrap_or(1));
}
