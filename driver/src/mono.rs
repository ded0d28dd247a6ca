use crate::json::*;
use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use rustc_public::CrateDefType;
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

struct Cx {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<J>,
    insts: HashMap<Instance, usize>,
    queue: VecDeque<Instance>,
    inst_out: BTreeMap<usize, J>,
    models: HashMap<String, FnDef>,
    deny: Vec<String>,
    vtables: HashMap<(Ty, Ty), ()>,
    vt_out: Vec<J>,
    strings: HashSet<String>,
}

/// a crate that re-exports the standard library must not change its names
pub fn canon(p: &str) -> String {
    p.replace("bip39::core::", "core::").replace("bip39::std::", "std::").replace("bip39::alloc::", "alloc::")
        .replace("bip32::k256::elliptic_curve::generic_array::", "generic_array::")
        .replace("bip32::k256::sha2::Digest", "digest::digest::Digest")
}

/// strips generic arguments out of a def path string
pub fn strip(p: &str) -> String {
    let p = &canon(p);
    let mut out = String::new();
    let b: Vec<char> = p.chars().collect();
    let mut i = 0;
    while i < b.len() {
        // "::<...>" is a generic-argument list
        if b[i] == ':' && i + 2 < b.len() && b[i + 1] == ':' && b[i + 2] == '<' {
            let mut d = 0;
            i += 2;
            while i < b.len() {
                if b[i] == '<' { d += 1; }
                if b[i] == '>' && b[i - 1] != '-' { d -= 1; if d == 0 { i += 1; break; } }
                i += 1;
            }
            continue;
        }
        out.push(b[i]);
        i += 1;
    }
    out
}

fn line(sp: Span) -> String {
    format!("{}:{}", sp.get_filename(), sp.get_lines().start_line)
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) { return *i; }
        let id = self.tys.len();
        self.tys.insert(t, id);
        self.ty_out.push(J::Null);
        let j = self.ty_json(t);
        self.ty_out[id] = j;
        id
    }
    fn tyj(&mut self, t: Ty) -> J { n(self.ty(t)) }
    fn args(&mut self, a: &GenericArgs) -> J {
        let mut v = vec![];
        for x in &a.0 {
            match x {
                GenericArgKind::Type(t) => v.push(self.tyj(*t)),
                GenericArgKind::Const(c) => v.push(match c.eval_target_usize() { Ok(k) => s(format!("{k}")), Err(_) => s(format!("{c:?}")) }),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        J::A(v)
    }
    fn ty_json(&mut self, t: Ty) -> J {
        let name = ("s", s(t.to_string()));
        let k = t.kind();
        let TyKind::RigidTy(r) = k else { return J::O(vec![("k", s("other")), name]) };
        match r {
            RigidTy::Bool => J::O(vec![("k", s("bool")), name]),
            RigidTy::Char => J::O(vec![("k", s("char")), name]),
            RigidTy::Int(i) => J::O(vec![("k", s("int")), ("bits", n(i.num_bytes() * 8)), ("signed", J::B(true)), name]),
            RigidTy::Uint(i) => J::O(vec![("k", s("int")), ("bits", n(i.num_bytes() * 8)), ("signed", J::B(false)), name]),
            RigidTy::Str => J::O(vec![("k", s("str")), name]),
            RigidTy::Array(e, l) => {
                let e = self.tyj(e);
                let l = l.eval_target_usize().map(n).unwrap_or(J::Null);
                J::O(vec![("k", s("array")), ("e", e), ("n", l), name])
            }
            RigidTy::Slice(e) => { let e = self.tyj(e); J::O(vec![("k", s("slice")), ("e", e), name]) }
            RigidTy::RawPtr(e, m) => { let e = self.tyj(e); J::O(vec![("k", s("ptr")), ("e", e), ("m", J::B(m == Mutability::Mut)), name]) }
            RigidTy::Ref(_, e, m) => { let e = self.tyj(e); J::O(vec![("k", s("ref")), ("e", e), ("m", J::B(m == Mutability::Mut)), name]) }
            RigidTy::Tuple(ts) => { let v = ts.iter().map(|t| self.tyj(*t)).collect(); J::O(vec![("k", s("tuple")), ("f", J::A(v)), name]) }
            RigidTy::Never => J::O(vec![("k", s("never")), name]),
            RigidTy::FnDef(d, ga) => { let a = self.args(&ga); let c = self.callee(t); J::O(vec![("k", s("fndef")), ("def", s(d.name().to_string())), ("a", a), ("c", c), name]) }
            RigidTy::FnPtr(_) => J::O(vec![("k", s("fnptr")), name]),
            RigidTy::Closure(d, a) => {
                // upvars: the last generic arg is the tuple of captured types
                let up = a.0.last().and_then(|x| x.ty().copied());
                let upj = match up { Some(t) => self.tyj(t), None => J::Null };
                J::O(vec![("k", s("closure")), ("def", s(d.name().to_string())), ("up", upj), name])
            }
            RigidTy::Dynamic(p, _) => {
                let tr = p.iter().find_map(|b| match b.clone().skip_binder() { ExistentialPredicate::Trait(t) => Some(t.def_id.name().to_string()), _ => None });
                J::O(vec![("k", s("dyn")), ("trait", s(tr.unwrap_or_default())), name])
            }
            RigidTy::Adt(def, args) => {
                let nm = def.name().to_string();
                let kind = def.kind();
                let mut vs = vec![];
                for (i, v) in def.variants().iter().enumerate() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(&args);
                        let tj = self.tyj(ft);
                        fs.push(J::A(vec![s(f.name.to_string()), tj]));
                    }
                    let d = if kind.is_enum() { n(def.discriminant_for_variant(VariantIdx::to_val(i)).val) } else { n(0) };
                    vs.push(J::O(vec![("n", s(v.name().to_string())), ("d", d), ("f", J::A(fs))]));
                }
                let a = self.args(&args);
                J::O(vec![("k", s("adt")), ("def", s(nm)), ("a", a), ("kind", s(if kind.is_enum() { "enum" } else if kind.is_union() { "union" } else { "struct" })), ("box", J::B(def.is_box())), ("v", J::A(vs)), name])
            }
            _ => J::O(vec![("k", s("other")), name]),
        }
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.insts.get(&i) { return *x; }
        let id = self.insts.len();
        self.insts.insert(i, id);
        self.queue.push_back(i);
        id
    }

    fn model(&mut self, def: &FnDef, args: &GenericArgs) -> Option<Instance> {
        let nm = strip(&def.name());
        let nolt = |v: &[GenericArgKind]| -> Vec<GenericArgKind> { v.iter().filter(|x| !matches!(x, GenericArgKind::Lifetime(_))).cloned().collect() };
        let mut a = nolt(&args.0);
        // "method@SelfType": the self type's own generic arguments come first
        let mut m = None;
        if let Some(GenericArgKind::Type(t)) = a.first() {
            if let TyKind::RigidTy(RigidTy::Adt(d, ga)) = t.kind() {
                if let Some(x) = self.models.get(&format!("{nm}@{}", strip(&d.name()))) {
                    m = Some(*x);
                    let mut b = nolt(&ga.0);
                    b.extend(a[1..].iter().cloned());
                    a = b;
                }
            }
        }
        let m = match m { Some(m) => m, None => *self.models.get(&nm)? };
        let want = m.generics_of().params.len() + m.generics_of().parent_count;
        if want != a.len() {
            eprintln!("model arity mismatch for {nm}: {} vs {}", want, a.len());
            return None;
        }
        Instance::resolve(m, &GenericArgs(a)).ok()
    }

    fn callee(&mut self, ty: Ty) -> J {
        let TyKind::RigidTy(RigidTy::FnDef(def, args)) = ty.kind() else { return J::O(vec![("ind", J::B(true))]) };
        let a = self.args(&args);
        let dn = strip(&def.name());
        if let Some(m) = self.model(&def, &args) {
            let id = self.inst(m);
            return J::O(vec![("def", s(dn)), ("a", a), ("i", n(id)), ("model", J::B(true))]);
        }
        match Instance::resolve(def, &args) {
            Ok(i) => {
                let kind = match i.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::LlvmIntrinsic => "llvm", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim" };
                let mut o = vec![("def", s(dn)), ("a", a), ("kind", s(kind))];
                if let InstanceKind::Virtual { idx } = i.kind { o.push(("idx", n(idx))); }
                else if kind != "intrinsic" && kind != "llvm" {
                    let id = self.inst(i);
                    o.push(("i", n(id)));
                } else if let Some(x) = i.intrinsic_name() { o.push(("intr", s(x.to_string()))); }
                J::O(o)
            }
            Err(_) => J::O(vec![("def", s(dn)), ("a", a)]),
        }
    }

    fn place(&mut self, p: &Place) -> J {
        let mut v = vec![n(p.local)];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(i, t) => { let t = self.tyj(*t); J::A(vec![s("f"), n(*i), t]) }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(*l)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("c"), n(*offset), n(*min_length), J::B(*from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("s"), n(*from), n(*to), J::B(*from_end)]),
                ProjectionElem::Downcast(v) => J::A(vec![s("d"), n(v.to_index())]),
                ProjectionElem::OpaqueCast(t) => { let t = self.tyj(*t); J::A(vec![s("o"), t]) }
                #[allow(unreachable_patterns)]
                _ => s("?"),
            });
        }
        J::A(v)
    }

    fn operand(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("cp"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("mv"), self.place(p)]),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let tj = self.tyj(t);
                let v = self.mirconst(&c.const_);
                J::A(vec![s("k"), tj, v])
            }
            Operand::RuntimeChecks(_) => J::A(vec![s("rc")]),
        }
    }

    fn mirconst(&mut self, c: &MirConst) -> J {
        let t = c.ty();
        match c.kind() {
            ConstantKind::ZeroSized => self.zst(t),
            ConstantKind::Allocated(a) => self.alloc(a, 0, t, 0),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.alloc(a, 0, *t, 0),
                TyConstKind::ZSTValue(t) => self.zst(*t),
                _ => J::A(vec![s("unk")]),
            },
            _ => J::A(vec![s("unk")]),
        }
    }

    fn zst(&mut self, t: Ty) -> J {
        if let TyKind::RigidTy(RigidTy::FnDef(..)) = t.kind() {
            let c = self.callee(t);
            return J::A(vec![s("fn"), c]);
        }
        J::A(vec![s("zst")])
    }

    fn rd(a: &Allocation, off: usize, len: usize) -> Option<u128> {
        let mut v: u128 = 0;
        for i in (0..len).rev() {
            let b = (*a.bytes.get(off + i)?)?;
            v = (v << 8) | u128::from(b);
        }
        Some(v)
    }

    fn size(t: Ty) -> usize { t.layout().map(|l| l.shape().size.bytes()).unwrap_or(0) }

    fn ptr(&mut self, a: &Allocation, off: usize, pointee: Ty, depth: usize) -> J {
        let Some((_, prov)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) else {
            return J::A(vec![s("addr"), n(Self::rd(a, off, 8).unwrap_or(0))]);
        };
        let add = Self::rd(a, off, 8).unwrap_or(0) as usize;
        match GlobalAlloc::from(prov.0) {
            GlobalAlloc::Memory(m) => {
                let inner = match pointee.kind() {
                    TyKind::RigidTy(RigidTy::Str) => {
                        let len = Self::rd(a, off + 8, 8).unwrap_or(0) as usize;
                        let by: Vec<J> = (0..len).map(|i| n(m.bytes[add + i].unwrap_or(0))).collect();
                        J::A(vec![s("bytes"), J::A(by)])
                    }
                    TyKind::RigidTy(RigidTy::Slice(e)) => {
                        let len = Self::rd(a, off + 8, 8).unwrap_or(0) as usize;
                        let sz = Self::size(e);
                        let v: Vec<J> = (0..len).map(|i| self.alloc(&m, add + i * sz, e, depth + 1)).collect();
                        J::A(vec![s("arr"), J::A(v)])
                    }
                    TyKind::RigidTy(RigidTy::Dynamic(..)) => J::A(vec![s("dyn")]),
                    _ => self.alloc(&m, add, pointee, depth + 1),
                };
                J::A(vec![s("ref"), inner])
            }
            GlobalAlloc::Static(d) => {
                // a static of the crate that cannot change is a constant
                let fixed = d.krate().name == "stacks_rs" && rustc_middle::ty::tls::with(|tcx| {
                    let id = rustc_public::rustc_internal::internal(tcx, d.def_id());
                    !tcx.is_mutable_static(id) && tcx.type_of(id).instantiate_identity().skip_norm_wip().is_freeze(tcx, rustc_middle::ty::TypingEnv::fully_monomorphized())
                });
                if fixed && depth < 12 && !matches!(pointee.kind(), TyKind::RigidTy(RigidTy::Str | RigidTy::Slice(_) | RigidTy::Dynamic(..))) {
                    if let Ok(m) = d.eval_initializer() {
                        let inner = self.alloc(&m, add, pointee, depth + 1);
                        return J::A(vec![s("ref"), inner]);
                    }
                }
                J::A(vec![s("static"), s(d.name().to_string())])
            }
            GlobalAlloc::Function(i) => { let id = self.inst(i); J::A(vec![s("fnp"), n(id)]) }
            GlobalAlloc::VTable(..) => J::A(vec![s("vtable")]),
            GlobalAlloc::TypeId { ty } => { let t = self.tyj(ty); J::A(vec![s("tid"), t]) }
        }
    }

    fn alloc(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> J {
        if depth > 12 { return J::A(vec![s("unk")]); }
        let TyKind::RigidTy(r) = t.kind() else { return J::A(vec![s("unk")]) };
        match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => match Self::rd(a, off, Self::size(t)) { Some(v) => J::A(vec![s("i"), n(v)]), None => J::A(vec![s("undef")]) },
            RigidTy::Int(_) => match Self::rd(a, off, Self::size(t)) {
                Some(v) => { let bits = Self::size(t) * 8; let v = ((v << (128 - bits)) as i128) >> (128 - bits); J::A(vec![s("i"), n(v)]) }
                None => J::A(vec![s("undef")]),
            },
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => self.ptr(a, off, e, depth),
            RigidTy::FnPtr(_) => self.ptr(a, off, t, depth),
            RigidTy::Array(e, l) => {
                let len = l.eval_target_usize().unwrap_or(0) as usize;
                let sz = Self::size(e);
                if matches!(e.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))) {
                    let by: Vec<J> = (0..len).map(|i| n(a.bytes.get(off + i).copied().flatten().unwrap_or(0))).collect();
                    return J::A(vec![s("bytes"), J::A(by)]);
                }
                let v = (0..len).map(|i| self.alloc(a, off + i * sz, e, depth + 1)).collect();
                J::A(vec![s("arr"), J::A(v)])
            }
            RigidTy::Tuple(ts) => {
                let offs = offsets(t);
                let v = ts.iter().enumerate().map(|(i, x)| self.alloc(a, off + offs.get(i).copied().unwrap_or(0), *x, depth + 1)).collect();
                J::A(vec![s("agg"), n(0), J::A(v)])
            }
            RigidTy::Closure(..) => J::A(vec![s("zst")]),
            RigidTy::FnDef(..) => self.zst(t),
            RigidTy::Adt(def, args) => {
                let Ok(l) = t.layout() else { return J::A(vec![s("unk")]) };
                let sh = l.shape();
                if def.kind().is_union() { return J::A(vec![s("unk")]); }
                let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Single { index } => (index.to_index(), offsets(t)),
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                        let tsz = scalar_size(tag);
                        // pointer-valued tags have provenance
                        let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                        let Some(tv) = Self::rd(a, off + toff, tsz) else { return J::A(vec![s("unk")]) };
                        let mask: u128 = if tsz == 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let mut r = None;
                                for i in 0..def.variants().len() {
                                    if def.discriminant_for_variant(VariantIdx::to_val(i)).val & mask == tv { r = Some(i); }
                                }
                                match r { Some(i) => i, None => return J::A(vec![s("unk")]) }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let rel = tv.wrapping_sub(*niche_start) & mask;
                                let cnt = (niche_variants.end().to_index() - niche_variants.start().to_index()) as u128;
                                if !has_prov && rel <= cnt { niche_variants.start().to_index() + rel as usize } else { untagged_variant.to_index() }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|x| x.bytes()).collect())
                    }
                    VariantsShape::Empty => return J::A(vec![s("unk")]),
                };
                let v = &def.variants()[vi];
                let mut fs = vec![];
                for (i, f) in v.fields().iter().enumerate() {
                    let ft = f.ty_with_args(&args);
                    fs.push(self.alloc(a, off + offs.get(i).copied().unwrap_or(0), ft, depth + 1));
                }
                J::A(vec![s("agg"), n(vi), J::A(fs)])
            }
            _ => J::A(vec![s("unk")]),
        }
    }

    fn vtable(&mut self, from: Ty, to: Ty) {
        // find (T, dyn Trait) inside matching pointer types
        fn pointee(t: Ty) -> Option<Ty> {
            match t.kind() {
                TyKind::RigidTy(RigidTy::Ref(_, e, _)) | TyKind::RigidTy(RigidTy::RawPtr(e, _)) => Some(e),
                TyKind::RigidTy(RigidTy::Adt(_, a)) => a.0.iter().find_map(|x| x.ty().copied()),
                _ => None,
            }
        }
        let (Some(f), Some(d)) = (pointee(from), pointee(to)) else { return };
        let TyKind::RigidTy(RigidTy::Dynamic(p, _)) = d.kind() else { return };
        if let TyKind::RigidTy(RigidTy::Dynamic(..)) = f.kind() { return; }
        if self.vtables.insert((f, d), ()).is_some() { return; }
        // higher-ranked objects (dyn Fn(&T)): bound lifetimes are erased
        let Some(tr) = p.iter().find_map(|b| rustc_middle::ty::tls::with(|tcx| {
            let ib = rustc_public::rustc_internal::internal(tcx, b.clone());
            match tcx.instantiate_bound_regions_with_erased(ib) {
                rustc_middle::ty::ExistentialPredicate::Trait(t) => Some(rustc_public::rustc_internal::stable(t)),
                _ => None,
            }
        })) else { return };
        let tref = tr.with_self_ty(f);
        let mut v = vec![];
        let Ok(es) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| tref.vtable_entries())) else { return };
        for e in es {
            v.push(match e { VtblEntry::Method(i) => { let nm = i.name().to_string(); J::A(vec![n(self.inst(i)), s(nm)]) } _ => J::Null });
        }
        let (fj, dj) = (self.tyj(f), self.tyj(d));
        self.vt_out.push(J::O(vec![("t", fj), ("d", dj), ("m", J::A(v))]));
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(o)]),
            Rvalue::Ref(_, _, p) => J::A(vec![s("ref"), self.place(p)]),
            Rvalue::Reborrow(_, _, p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(p)])]),
            Rvalue::AddressOf(_, p) => J::A(vec![s("ref"), self.place(p)]),
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(p)])]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Len(p) => J::A(vec![s("len"), self.place(p)]),
            Rvalue::Repeat(o, c) => { let k = c.eval_target_usize().unwrap_or(0); J::A(vec![s("rep"), self.operand(o), n(k)]) }
            Rvalue::BinaryOp(b, x, y) => { let t = x.ty(locals).map(|t| self.tyj(t)).unwrap_or(J::Null); J::A(vec![s("bin"), s(format!("{b:?}")), self.operand(x), self.operand(y), t]) }
            Rvalue::CheckedBinaryOp(b, x, y) => { let t = x.ty(locals).map(|t| self.tyj(t)).unwrap_or(J::Null); J::A(vec![s("chk"), s(format!("{b:?}")), self.operand(x), self.operand(y), t]) }
            Rvalue::UnaryOp(u, x) => { let t = x.ty(locals).map(|t| self.tyj(t)).unwrap_or(J::Null); J::A(vec![s("un"), s(format!("{u:?}")), self.operand(x), t]) }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(locals).ok();
                if let (CastKind::PointerCoercion(PointerCoercion::Unsize), Some(f)) = (k, from) { self.vtable(f, *t); }
                let kind = format!("{k:?}");
                let fj = from.map(|f| self.tyj(f)).unwrap_or(J::Null);
                let tj = self.tyj(*t);
                J::A(vec![s("cast"), s(kind), self.operand(o), fj, tj])
            }
            Rvalue::Aggregate(k, ops) => {
                let kj = match k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, _, _, f) => J::A(vec![s("adt"), s(d.name().to_string()), n(v.to_index()), f.map(|x| n(x)).unwrap_or(J::Null)]),
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(d.name().to_string())]),
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("other")]),
                };
                let t = r.ty(locals).map(|t| self.tyj(t)).unwrap_or(J::Null);
                let v = ops.iter().map(|o| self.operand(o)).collect();
                J::A(vec![s("agg"), kj, J::A(v), t])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(d.name().to_string())]),
            #[allow(unreachable_patterns)]
            _ => J::A(vec![s("unk")]),
        }
    }

    fn body(&mut self, i: Instance) -> J {
        let nm = canon(&i.name());
        let krate = i.def.krate().name.to_string();
        let mut o = vec![("name", s(nm.clone())), ("path", s(strip(&i.def.name()))), ("crate", s(krate.clone()))];
        if let Some(f) = i.ty().kind().fn_sig() { let _ = f; }
        let a = self.args(&i.args());
        o.push(("a", a));
        let local = krate == "sharness" || krate == "stacks_rs";
        let std = matches!(krate.as_str(), "core" | "alloc" | "std" | "typed_builder" | "serde" | "serde_core");
        let p = strip(&i.def.name());
        let shim = i.kind == InstanceKind::Shim;
        o.push(("shim", J::B(shim)));
        o.push(("clos", J::B(!shim && matches!(i.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..))))));
        let small = p.contains("bip32::ChildNumber");
        let expand = local || small || ((std || shim) && !self.deny.iter().any(|d| p.starts_with(d.as_str()) || nm.starts_with(d.as_str())));
        if !expand { return J::O(o); }
        let Some(b) = i.body() else { return J::O(o) };
        o.push(("span", s(line(b.span))));
        o.push(("argc", n(b.arg_locals().len())));
        o.push(("spread", b.spread_arg().map(|x| n(x)).unwrap_or(J::Null)));
        let locals: Vec<LocalDecl> = b.locals().to_vec();
        let lt = locals.iter().map(|l| self.tyj(l.ty)).collect();
        o.push(("locals", J::A(lt)));
        let mut bbs = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(p, r) => { let r = self.rvalue(r, &locals); let pj = self.place(p); st.push(J::A(vec![s("="), pj, r, n(x.source_info.span.get_lines().start_line)])); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let pj = self.place(place); st.push(J::A(vec![s("sd"), pj, n(variant_index.to_index())])); }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(op)) => { let oj = self.operand(op); st.push(J::A(vec![s("assume"), oj])); }
                    StatementKind::Intrinsic(_) => st.push(J::A(vec![s("intr")])),
                    _ => {}
                }
            }
            let t = &bb.terminator;
            let tj = match &t.kind {
                TerminatorKind::Goto { target } => J::A(vec![s("goto"), n(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br = targets.branches().map(|(v, b)| J::A(vec![n(v), n(b)])).collect();
                    let ty = discr.ty(&locals).map(|t| self.tyj(t)).unwrap_or(J::Null);
                    J::A(vec![s("switch"), self.operand(discr), J::A(br), n(targets.otherwise()), ty])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreach")]),
                TerminatorKind::Resume | TerminatorKind::Abort => J::A(vec![s("resume")]),
                TerminatorKind::Drop { target, .. } => J::A(vec![s("goto"), n(*target)]),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{msg:?}");
                    let m = m.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                    J::A(vec![s("assert"), self.operand(cond), J::B(*expected), s(m), n(*target)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(&locals);
                    let cj = match fty { Ok(t) => self.callee(t), Err(_) => J::Null };
                    let fo = self.operand(func);
                    let av = args.iter().map(|a| self.operand(a)).collect();
                    let at = args.iter().map(|a| a.ty(&locals).map(|t| self.tyj(t)).unwrap_or(J::Null)).collect();
                    let d = self.place(destination);
                    let dt = destination.ty(&locals).map(|t| self.tyj(t)).unwrap_or(J::Null);
                    J::A(vec![s("call"), cj, J::A(av), d, target.map(n).unwrap_or(J::Null), fo, J::A(at), dt])
                }
                TerminatorKind::InlineAsm { .. } => J::A(vec![s("asm")]),
            };
            bbs.push(J::O(vec![("s", J::A(st)), ("t", tj), ("l", n(t.source_info.span.get_lines().start_line)), ("lf", s(t.source_info.span.get_filename().to_string()))]));
        }
        o.push(("bbs", J::A(bbs)));
        J::O(o)
    }
}

fn scalar_size(sc: &rustc_public::abi::Scalar) -> usize {
    use rustc_public::abi::{Primitive, Scalar};
    let p = match sc { Scalar::Initialized { value, .. } => *value, Scalar::Union { value } => *value };
    match p {
        Primitive::Int { length, .. } => length.bits() / 8,
        _ => 8,
    }
}

fn offsets(t: Ty) -> Vec<usize> {
    match t.layout().map(|l| l.shape().fields) {
        Ok(FieldsShape::Arbitrary { offsets }) => offsets.iter().map(|o| o.bytes()).collect(),
        _ => vec![],
    }
}

pub fn dump(_tcx: TyCtxt<'_>, out: &str) {
    let deny: Vec<String> = std::env::var("VP_DENY").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default()
        .lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect();
    let mut cx = Cx { tys: HashMap::new(), ty_out: vec![], insts: HashMap::new(), queue: VecDeque::new(), inst_out: BTreeMap::new(), models: HashMap::new(), deny, vtables: HashMap::new(), vt_out: vec![], strings: HashSet::new() };
    let _ = &cx.strings;
    let lc = rustc_public::local_crate();
    let defs = lc.fn_defs();
    let map: HashMap<String, String> = std::env::var("VP_MODELS").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default()
        .lines().filter_map(|l| { let l = l.trim(); if l.is_empty() || l.starts_with('#') { return None; } let mut it = l.rsplitn(2, ' '); let m = it.next()?.trim().to_string(); let d = it.next()?.trim().to_string(); Some((d, m)) }).collect();
    let mut by_name: HashMap<String, FnDef> = HashMap::new();
    let mut entries = vec![];
    for d in &defs {
        let nm = strip(&d.name());
        if let Some(x) = nm.split("models::").nth(1) { by_name.insert(x.to_string(), *d); }
    }
    for (d, m) in &map {
        match by_name.get(m) { Some(f) => { cx.models.insert(d.clone(), *f); } None => eprintln!("no model fn {m} for {d}") }
    }
    for d in &defs {
        let nm = strip(&d.name());
        if nm.contains("models::") { continue; }
        let ty = d.ty();
        let TyKind::RigidTy(RigidTy::FnDef(def, args)) = ty.kind() else { continue };
        let generic = args.0.iter().any(|a| !matches!(a, GenericArgKind::Lifetime(_)));
        if generic { continue; }
        if let Ok(i) = Instance::resolve(def, &args) {
            let id = cx.inst(i);
            entries.push((nm, n(id)));
        }
    }
    while let Some(i) = cx.queue.pop_front() {
        let id = cx.insts[&i];
        let j = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cx.body(i))) {
            Ok(j) => j,
            // no body: the function stays uninterpreted
            Err(_) => J::O(vec![("name", s(canon(&i.name()))), ("path", s(strip(&i.def.name()))), ("crate", s("?"))]),
        };
        cx.inst_out.insert(id, j);
    }
    let fns: Vec<J> = cx.inst_out.values().cloned().collect();
    let j = J::O(vec![("entries", J::M(entries)), ("fns", J::A(fns)), ("types", J::A(cx.ty_out.clone())), ("vtables", J::A(cx.vt_out.clone()))]);
    let mut o = String::new();
    j.write(&mut o);
    std::fs::write(format!("{out}/mir.json"), canon(&o)).expect("write mir.json");
}
