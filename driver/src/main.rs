//! Fact extractor: dumps monomorphised MIR of the workspace crates as JSON.
//! Injected with RUSTC_WORKSPACE_WRAPPER; never runs the analysed program.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

mod json;
use json::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_resolve_crate_name};
use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateItem};
use rustc_public_bridge::IndexedVal;
use rustc_public::CrateDefType;
use std::collections::{HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

const WORKSPACE: &[&str] = &["wruster", "wruster_handlers", "wrustatic", "wrusdummy", "wv_fixture"];

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty, usize>,
    types_q: Vec<Ty>,
    fns: Vec<(String, J)>,
    seen: HashSet<String>,
    queue: VecDeque<(Instance, u32)>,
}

fn size_bytes(s: rustc_public::target::MachineSize) -> usize {
    s.bytes()
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty) -> J {
        if let Some(i) = self.types.get(&t) {
            return n(*i);
        }
        let i = self.types_q.len();
        self.types.insert(t, i);
        self.types_q.push(t);
        n(i)
    }
    fn ty_str(&self, t: Ty) -> String {
        let it = rustc_internal::internal(self.tcx, t);
        let mut st = with_resolve_crate_name!(with_no_trimmed_paths!(it.to_string()));
        // instances of one closure under different type arguments print alike: tell them apart
        for g in it.walk() {
            if let Some(x) = g.as_type() {
                if let rustc_middle::ty::TyKind::Closure(_, ca) = x.kind() {
                    let pa: Vec<String> = ca
                        .as_closure()
                        .parent_args()
                        .iter()
                        .filter(|a| a.as_type().is_some())
                        .map(|a| with_resolve_crate_name!(with_no_trimmed_paths!(a.to_string())))
                        .collect();
                    if !pa.is_empty() {
                        st.push_str(&format!(" /*{}*/", pa.join(",")));
                    }
                }
            }
        }
        st
    }
    fn span(&self, sp: Span) -> J {
        let isp = rustc_internal::internal(self.tcx, sp);
        let exp = isp.from_expansion();
        let cs = isp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(cs.lo());
        let mut mac = String::new();
        if exp {
            let mut s2 = isp;
            while s2.from_expansion() {
                let ed = s2.ctxt().outer_expn_data();
                if let rustc_span::hygiene::ExpnKind::Macro(_, name) = ed.kind {
                    mac = name.to_string();
                }
                s2 = ed.call_site;
            }
        }
        let f = format!("{}", lo.file.name.prefer_remapped_unconditionally());
        if exp {
            J::A(vec![s(f), n(lo.line), s(mac)])
        } else {
            J::A(vec![s(f), n(lo.line)])
        }
    }
    fn generic_args(&mut self, a: &GenericArgs) -> J {
        let mut v = vec![];
        for g in a.0.iter() {
            match g {
                GenericArgKind::Type(t) => v.push(self.ty(*t)),
                GenericArgKind::Const(c) => v.push(match c.eval_target_usize() {
                    Ok(x) => J::O(vec![("const", n(x))]),
                    Err(_) => J::O(vec![("const", J::Null)]),
                }),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        J::A(v)
    }
    fn is_param(&self, a: &GenericArgs) -> bool {
        let ia = rustc_internal::internal(self.tcx, a.clone());
        use rustc_middle::ty::TypeVisitableExt;
        ia.has_non_region_param() || ia.has_aliases()
    }
    fn fn_key(&self, i: &Instance) -> String {
        i.mangled_name()
    }
    /// Description of a callee.
    fn instance(&mut self, i: &Instance, depth: u32) -> J {
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let key = self.fn_key(i);
        let args = i.args();
        let mut o = vec![
            ("kind", s(kind)),
            ("key", s(&key)),
            ("name", s(i.name())),
            ("def", s(i.def.name())),
            ("crate", s(i.def.krate().name)),
            ("args", self.generic_args(&args)),
        ];
        if let Some(a) = self.assoc(i.def.def_id()) {
            o.push(("assoc", a));
        }
        if !matches!(i.kind, InstanceKind::Virtual { .. } | InstanceKind::Intrinsic) {
            self.enqueue(*i, depth);
        }
        J::O(o)
    }
    /// (trait or impl) information about an associated function
    fn assoc(&self, d: rustc_public::DefId) -> Option<J> {
        let did = rustc_internal::internal(self.tcx, d);
        if !matches!(self.tcx.def_kind(did), rustc_hir::def::DefKind::AssocFn) {
            return None;
        }
        let item = self.tcx.associated_item(did);
        let mut o = vec![("name", s(item.name()))];
        let path = |x| with_resolve_crate_name!(with_no_trimmed_paths!(self.tcx.def_path_str(x)));
        if let Some(t) = self.tcx.trait_of_assoc(did) {
            o.push(("trait", s(path(t))));
        } else if let Some(im) = self.tcx.impl_of_assoc(did) {
            if let Some(tr) = self.tcx.impl_opt_trait_id(im) {
                o.push(("trait", s(path(tr))));
            }
            let st = self.tcx.type_of(im).instantiate_identity();
            let st = st.skip_normalization();
            o.push(("self", s(with_resolve_crate_name!(with_no_trimmed_paths!(st.to_string())))));
        }
        Some(J::O(o))
    }
    fn wanted(&self, i: &Instance, depth: u32) -> bool {
        let krate = i.def.krate().name;
        let krate = krate.as_str();
        if WORKSPACE.contains(&krate) {
            return true;
        }
        if depth > 12 {
            return false;
        }
        if !matches!(krate, "core" | "alloc" | "std") {
            return false;
        }
        let name = i.name();
        // closures defined in std, or anything that takes a workspace closure
        let tys = format!("{:?}", i.args());
        let _ = &tys;
        let has_closure = i.args().0.iter().any(|g| match g {
            GenericArgKind::Type(t) => {
                let st = self.ty_str(*t);
                WORKSPACE.iter().any(|w| {
                    st.contains(&format!("{{closure@")) && (st.contains("/src/") || st.contains(w))
                })
            }
            _ => false,
        });
        if has_closure {
            // the function itself, not a type it is instantiated with
            let deny = ["std::thread::", "std::panic", "std::sync::mpsc", "thread::spawn"];
            let own = name.trim_start_matches('<');
            return !deny.iter().any(|d| own.starts_with(d));
        }
        let pre = [
            "std::option::Option",
            "std::result::Result",
            "<std::option::Option",
            "<std::result::Result",
            "std::mem::replace",
            "std::mem::take",
            "std::mem::swap",
            "core::bool::",
            "<bool>",
            "std::ops::ControlFlow",
            "<std::ops::ControlFlow",
            "<std::ops::Range",
            "std::iter::range",
            "core::iter::range",
            "<usize as std::iter::Step>",
            "<u8 as std::iter::Step>",
            "std::cmp::",
            "<I as std::iter::IntoIterator>",
        ];
        pre.iter().any(|p| name.starts_with(p))
    }
    fn enqueue(&mut self, i: Instance, depth: u32) {
        if !i.has_body() && i.kind == InstanceKind::Item {
            return;
        }
        let key = self.fn_key(&i);
        if self.seen.contains(&key) {
            return;
        }
        if i.kind == InstanceKind::Shim {
            // only closure shims / drop glue of workspace types are interesting: keep FnOnce shims
            let nm = i.name();
            let closure = nm.contains("{closure");
            if !closure {
                return;
            }
        } else if !self.wanted(&i, depth) {
            return;
        }
        self.seen.insert(key);
        self.queue.push_back((i, depth));
    }

    fn place(&mut self, p: &Place) -> J {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(i, t) => J::A(vec![s("f"), n(*i), self.ty(*t)]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(*l)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), n(*offset), n(*min_length), J::B(*from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), n(*from), n(*to), J::B(*from_end)])
                }
                ProjectionElem::Downcast(i) => J::A(vec![s("d"), n(i.to_index())]),
                ProjectionElem::OpaqueCast(t) => J::A(vec![s("oc"), self.ty(*t)]),
            });
        }
        J::A(vec![n(p.local), J::A(v)])
    }
    fn operand(&mut self, o: &Operand, depth: u32) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => {
                let v = self.mconst(&c.const_, depth);
                J::A(vec![s("k"), v])
            }
            Operand::RuntimeChecks(r) => J::A(vec![s("rc"), s(format!("{:?}", r))]),
        }
    }
    fn mconst(&mut self, c: &MirConst, depth: u32) -> J {
        let t = c.ty();
        let tj = self.ty(t);
        let val = match c.kind() {
            ConstantKind::Allocated(a) => self.decode(a, 0, t, 0, depth),
            ConstantKind::ZeroSized => match t.kind() {
                TyKind::RigidTy(RigidTy::FnDef(d, a)) => self.fndef(d, &a, depth),
                _ => self.decode_zst(t, depth),
            },
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(v) => J::O(vec![("int", s(v))]),
                Err(_) => J::O(vec![("opaque", s(format!("{:?}", tc.kind())))]),
            },
            ConstantKind::Unevaluated(u) => J::O(vec![("uneval", s(u.def.name()))]),
            ConstantKind::Param(p) => J::O(vec![("param", s(&p.name))]),
        };
        J::O(vec![("ty", tj), ("v", val)])
    }
    fn decode_zst(&mut self, t: Ty, depth: u32) -> J {
        match t.kind() {
            TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                let v = ts.iter().map(|x| self.decode_zst(*x, depth)).collect();
                J::O(vec![("tuple", J::A(v))])
            }
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => self.fndef(d, &a, depth),
            TyKind::RigidTy(RigidTy::Closure(d, a)) => {
                if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                    self.enqueue(i, depth + 1);
                }
                J::O(vec![("closure", J::B(true))])
            }
            TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Struct => {
                let fs = d.variants()[0].fields();
                J::O(vec![("variant", n(0)), ("fields", J::A(fs.iter().map(|_| J::O(vec![("opaque", s("zst"))])).collect()))])
            }
            _ => J::O(vec![("zst", J::B(true))]),
        }
    }
    fn fndef(&mut self, d: FnDef, a: &GenericArgs, depth: u32) -> J {
        if !self.is_param(a) {
            if let Ok(i) = Instance::resolve(d, a) {
                let mut j = self.instance(&i, depth + 1);
                if let J::O(ref mut v) = j {
                    v.push(("tdef", s(d.name())));
                    if let Some(x) = self.assoc(d.def_id()) {
                        v.push(("tassoc", x));
                    }
                }
                return J::O(vec![("fn", j)]);
            }
        }
        let args = self.generic_args(a);
        let it = rustc_internal::internal(self.tcx, d.def_id());
        let ia = rustc_internal::internal(self.tcx, a.clone());
        let nm = with_resolve_crate_name!(with_no_trimmed_paths!(self.tcx.def_path_str_with_args(it, ia)));
        let mut o = vec![
            ("kind", s("unresolved")),
            ("key", s("")),
            ("name", s(nm)),
            ("def", s(d.name())),
            ("crate", s(d.krate().name)),
            ("args", args),
            ("tdef", s(d.name())),
        ];
        if let Some(x) = self.assoc(d.def_id()) {
            o.push(("assoc", x.clone()));
            o.push(("tassoc", x));
        }
        J::O(vec![("fn", J::O(o))])
    }
    fn rd(&self, a: &Allocation, off: usize, len: usize) -> Option<u128> {
        if off + len > a.bytes.len() || len > 16 {
            return None;
        }
        let mut v: u128 = 0;
        for k in (0..len).rev() {
            v = (v << 8) | (a.bytes[off + k]? as u128);
        }
        Some(v)
    }
    fn size_of(&self, t: Ty) -> Option<usize> {
        t.layout().ok().map(|l| size_bytes(l.shape().size))
    }
    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, lvl: u32, depth: u32) -> J {
        let opaque = |w: &str| J::O(vec![("opaque", s(w))]);
        if lvl > 8 {
            return opaque("deep");
        }
        let int = |v: Option<u128>| match v {
            Some(v) => J::O(vec![("int", s(v))]),
            None => J::O(vec![("opaque", s("uninit"))]),
        };
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => int(self.rd(a, off, 1)),
                RigidTy::Char => int(self.rd(a, off, 4)),
                RigidTy::Int(k) => {
                    let nb = k.num_bytes();
                    match self.rd(a, off, nb) {
                        Some(v) => {
                            let sh = 128 - 8 * nb as u32;
                            J::O(vec![("int", s(((v << sh) as i128) >> sh))])
                        }
                        None => opaque("uninit"),
                    }
                }
                RigidTy::Uint(k) => int(self.rd(a, off, k.num_bytes())),
                RigidTy::Float(_) => opaque("float"),
                RigidTy::Ref(_, p, _) | RigidTy::RawPtr(p, _) => {
                    let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                    let Some(id) = prov else { return int(self.rd(a, off, 8)) };
                    let start = self.rd(a, off, 8).unwrap_or(0) as usize;
                    match GlobalAlloc::from(id) {
                        GlobalAlloc::Memory(m) => {
                            match p.kind() {
                                TyKind::RigidTy(RigidTy::Str) => {
                                    let len = self.rd(a, off + 8, 8).unwrap_or(0) as usize;
                                    let b: Vec<u8> = m.bytes[start..(start + len).min(m.bytes.len())].iter().map(|x| x.unwrap_or(0)).collect();
                                    J::O(vec![("str", s(String::from_utf8_lossy(&b)))])
                                }
                                TyKind::RigidTy(RigidTy::Slice(e)) => {
                                    let len = self.rd(a, off + 8, 8).unwrap_or(0) as usize;
                                    let es = self.size_of(e).unwrap_or(0);
                                    if len > 1024 { return opaque("long"); }
                                    let mut v = vec![];
                                    for k in 0..len {
                                        v.push(self.decode(&m, start + k * es, e, lvl + 1, depth));
                                    }
                                    J::O(vec![("ref", J::O(vec![("array", J::A(v))]))])
                                }
                                TyKind::RigidTy(RigidTy::Dynamic(..)) => opaque("dyn"),
                                _ => {
                                    let v = self.decode(&m, start, p, lvl + 1, depth);
                                    J::O(vec![("ref", v)])
                                }
                            }
                        }
                        GlobalAlloc::Static(sd) => J::O(vec![("static", s(sd.name()))]),
                        GlobalAlloc::Function(i) => {
                            let j = self.instance(&i, depth + 1);
                            J::O(vec![("fn", j)])
                        }
                        _ => opaque("alloc"),
                    }
                }
                RigidTy::FnPtr(_) => {
                    let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                    if let Some(id) = prov {
                        if let GlobalAlloc::Function(i) = GlobalAlloc::from(id) {
                            let j = self.instance(&i, depth + 1);
                            return J::O(vec![("fn", j)]);
                        }
                    }
                    opaque("fnptr")
                }
                RigidTy::Array(e, len) => {
                    let len = len.eval_target_usize().unwrap_or(0) as usize;
                    let es = self.size_of(e).unwrap_or(0);
                    if len > 1024 {
                        return opaque("long");
                    }
                    let mut v = vec![];
                    for k in 0..len {
                        v.push(self.decode(a, off + k * es, e, lvl + 1, depth));
                    }
                    J::O(vec![("array", J::A(v))])
                }
                RigidTy::Tuple(ts) => {
                    let Ok(l) = t.layout() else { return opaque("layout") };
                    let mut v = vec![];
                    if let FieldsShape::Arbitrary { offsets } = l.shape().fields {
                        for (k, x) in ts.iter().enumerate() {
                            v.push(self.decode(a, off + size_bytes(offsets[k]), *x, lvl + 1, depth));
                        }
                    }
                    J::O(vec![("tuple", J::A(v))])
                }
                RigidTy::FnDef(d, ga) => self.fndef(d, &ga, depth),
                RigidTy::Closure(..) => self.decode_zst(t, depth),
                RigidTy::Pat(b, _) => self.decode(a, off, b, lvl + 1, depth),
                RigidTy::Adt(d, ga) => {
                    let Ok(l) = t.layout() else { return opaque("layout") };
                    let sh = l.shape();
                    match d.kind() {
                        AdtKind::Struct => {
                            let mut v = vec![];
                            if let FieldsShape::Arbitrary { offsets } = sh.fields {
                                for (k, f) in d.variants()[0].fields().iter().enumerate() {
                                    let ft = f.ty_with_args(&ga);
                                    v.push(self.decode(a, off + size_bytes(offsets[k]), ft, lvl + 1, depth));
                                }
                            }
                            J::O(vec![("variant", n(0)), ("fields", J::A(v))])
                        }
                        AdtKind::Enum => match sh.variants {
                            VariantsShape::Single { index } => {
                                let mut v = vec![];
                                if let FieldsShape::Arbitrary { offsets } = sh.fields {
                                    for (k, f) in d.variants()[index.to_index()].fields().iter().enumerate() {
                                        let ft = f.ty_with_args(&ga);
                                        v.push(self.decode(a, off + size_bytes(offsets[k]), ft, lvl + 1, depth));
                                    }
                                }
                                J::O(vec![("variant", n(index.to_index())), ("fields", J::A(v))])
                            }
                            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                                let toff = match &sh.fields {
                                    FieldsShape::Arbitrary { offsets } => size_bytes(offsets[tag_field]),
                                    _ => 0,
                                };
                                let tlen = match tag {
                                    rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => match value {
                                        rustc_public::abi::Primitive::Int { length, .. } => length.bits() / 8,
                                        _ => 8,
                                    },
                                };
                                // a pointer tag with provenance is the dataful variant
                                let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                                let tv = self.rd(a, off + toff, tlen);
                                let mut idx = None;
                                match tag_encoding {
                                    TagEncoding::Direct => {
                                        if let Some(tv) = tv {
                                            for vd in d.variants() {
                                                let dv = d.discriminant_for_variant(vd.idx()).val;
                                                let mask = if tlen >= 16 { u128::MAX } else { (1u128 << (8 * tlen)) - 1 };
                                                if dv & mask == tv {
                                                    idx = Some(vd.idx().to_index());
                                                }
                                            }
                                        }
                                    }
                                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                        if has_prov {
                                            idx = Some(untagged_variant.to_index());
                                        } else if let Some(tv) = tv {
                                            let mask = if tlen >= 16 { u128::MAX } else { (1u128 << (8 * tlen)) - 1 };
                                            let rel = tv.wrapping_sub(niche_start) & mask;
                                            let lo = niche_variants.start().to_index() as u128;
                                            let hi = niche_variants.end().to_index() as u128;
                                            if rel <= hi - lo {
                                                idx = Some((lo + rel) as usize);
                                            } else {
                                                idx = Some(untagged_variant.to_index());
                                            }
                                        }
                                    }
                                }
                                let Some(idx) = idx else { return opaque("tag") };
                                let mut v = vec![];
                                for (k, f) in d.variants()[idx].fields().iter().enumerate() {
                                    let ft = f.ty_with_args(&ga);
                                    let fo = size_bytes(variants[idx].offsets[k]);
                                    v.push(self.decode(a, off + fo, ft, lvl + 1, depth));
                                }
                                J::O(vec![("variant", n(idx)), ("fields", J::A(v))])
                            }
                            _ => opaque("empty"),
                        },
                        _ => opaque("union"),
                    }
                }
                _ => opaque("kind"),
            },
            _ => opaque("param"),
        }
    }

    fn rvalue(&mut self, r: &Rvalue, depth: u32) -> J {
        match r {
            Rvalue::AddressOf(_, p) => J::A(vec![s("ref"), s("raw"), self.place(p)]),
            Rvalue::Ref(_, b, p) => {
                let k = match b {
                    BorrowKind::Mut { .. } => "mut",
                    _ => "shr",
                };
                J::A(vec![s("ref"), s(k), self.place(p)])
            }
            Rvalue::Reborrow(_, m, p) => {
                let k = if *m == Mutability::Mut { "mut" } else { "shr" };
                J::A(vec![s("reborrow"), s(k), self.place(p)])
            }
            Rvalue::Aggregate(k, ops) => {
                let ops2 = J::A(ops.iter().map(|o| self.operand(o, depth)).collect());
                let kj = match k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), self.ty(*t)]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, a, _, fi) => {
                        let t = self.ty(d.ty_with_args(a));
                        J::A(vec![s("adt"), t, n(v.to_index()), match fi { Some(x) => n(*x), None => J::Null }])
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = self.ty(Ty::new_closure(*d, a.clone()));
                        J::A(vec![s("closure"), t])
                    }
                    AggregateKind::RawPtr(t, _) => J::A(vec![s("rawptr"), self.ty(*t)]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kj, ops2])
            }
            Rvalue::BinaryOp(o, a, b) => J::A(vec![s("bin"), s(format!("{:?}", o)), self.operand(a, depth), self.operand(b, depth)]),
            Rvalue::CheckedBinaryOp(o, a, b) => J::A(vec![s("chk"), s(format!("{:?}", o)), self.operand(a, depth), self.operand(b, depth)]),
            Rvalue::Cast(k, o, t) => {
                let kk = match k {
                    CastKind::PointerCoercion(c) => format!("pc:{}", match c {
                        PointerCoercion::ReifyFnPointer(_) => "reify",
                        PointerCoercion::UnsafeFnPointer => "unsafe",
                        PointerCoercion::ClosureFnPointer(_) => "closure",
                        PointerCoercion::MutToConstPointer => "mutconst",
                        PointerCoercion::ArrayToPointer => "arrptr",
                        PointerCoercion::Unsize => "unsize",
                    }),
                    k => format!("{:?}", k),
                };
                J::A(vec![s("cast"), s(kk), self.operand(o, depth), self.ty(*t)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p)])]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Len(p) => J::A(vec![s("len"), self.place(p)]),
            Rvalue::Repeat(o, c) => {
                let cn = match c.eval_target_usize() { Ok(x) => n(x), Err(_) => J::Null };
                J::A(vec![s("repeat"), self.operand(o, depth), cn])
            }
            Rvalue::ThreadLocalRef(_) => J::A(vec![s("tls")]),
            Rvalue::UnaryOp(o, a) => J::A(vec![s("un"), s(format!("{:?}", o)), self.operand(a, depth)]),
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(o, depth)]),
        }
    }
    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => n(*b),
            _ => J::Null,
        }
    }
    fn body(&mut self, body: &Body, depth: u32) -> Vec<(&'static str, J)> {
        let mut blocks = vec![];
        for bb in &body.blocks {
            let mut st = vec![];
            for x in &bb.statements {
                let sp = self.span(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(p, r) => {
                        let pj = self.place(p);
                        let rj = self.rvalue(r, depth);
                        st.push(J::A(vec![s("="), pj, rj, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(place);
                        st.push(J::A(vec![s("sd"), pj, n(variant_index.to_index()), sp]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), n(*l)])),
                    StatementKind::StorageLive(l) => st.push(J::A(vec![s("live"), n(*l)])),
                    StatementKind::Intrinsic(i) => {
                        st.push(J::A(vec![s("intr"), s(match i { NonDivergingIntrinsic::Assume(_) => "assume", _ => "copy" })]))
                    }
                    _ => {}
                }
            }
            let sp = self.span(bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => J::A(vec![s("goto"), n(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr, depth);
                    let ty = discr.ty(body.locals()).map(|t| self.ty(t)).unwrap_or(J::Null);
                    let br = targets.branches().map(|(v, b)| J::A(vec![s(v), n(b)])).collect();
                    J::A(vec![s("switch"), d, ty, J::A(br), n(targets.otherwise())])
                }
                TerminatorKind::Resume => J::A(vec![s("resume")]),
                TerminatorKind::Abort => J::A(vec![s("abort")]),
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, unwind } => {
                    let pt = place.ty(body.locals());
                    let pj = self.place(place);
                    let tj = match pt { Ok(t) => self.ty(t), Err(_) => J::Null };
                    J::A(vec![s("drop"), pj, tj, n(*target), self.unwind(unwind)])
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let f = self.operand(func, depth);
                    let a = J::A(args.iter().map(|o| self.operand(o, depth)).collect());
                    let aty = J::A(args.iter().map(|o| match o.ty(body.locals()) { Ok(t) => self.ty(t), Err(_) => J::Null }).collect());
                    let d = self.place(destination);
                    let dt = destination.ty(body.locals()).map(|t| self.ty(t)).unwrap_or(J::Null);
                    J::A(vec![s("call"), f, a, d, match target { Some(t) => n(*t), None => J::Null }, self.unwind(unwind), aty, dt])
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let c = self.operand(cond, depth);
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => J::A(vec![s("bounds"), self.operand(len, depth), self.operand(index, depth)]),
                        AssertMessage::Overflow(o, a, b) => J::A(vec![s("overflow"), s(format!("{:?}", o)), self.operand(a, depth), self.operand(b, depth)]),
                        AssertMessage::DivisionByZero(o) => J::A(vec![s("divzero"), self.operand(o, depth)]),
                        AssertMessage::RemainderByZero(o) => J::A(vec![s("remzero"), self.operand(o, depth)]),
                        m => J::A(vec![s("other"), s(format!("{:?}", m).split('(').next().unwrap_or(""))]),
                    };
                    J::A(vec![s("assert"), c, J::B(*expected), m, n(*target), self.unwind(unwind)])
                }
                TerminatorKind::InlineAsm { .. } => J::A(vec![s("asm")]),
            };
            blocks.push(J::A(vec![J::A(st), t, sp]));
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pj = self.place(p);
                names.push(J::A(vec![s(&v.name), pj]));
            }
        }
        let locals = J::A(body.locals().iter().map(|l| self.ty(l.ty)).collect());
        let mut o = vec![
            ("argc", n(body.arg_locals().len())),
            ("locals", locals),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
            ("span", self.span(body.span)),
        ];
        if let Some(sa) = body.spread_arg() {
            o.push(("spread", n(sa)));
        }
        o
    }
    fn run_queue(&mut self) {
        while let Some((i, depth)) = self.queue.pop_front() {
            let Some(b) = i.body() else { continue };
            let mut o = vec![
                ("name", s(i.name())),
                ("def", s(i.def.name())),
                ("crate", s(i.def.krate().name)),
                ("kind", s(if i.kind == InstanceKind::Shim { "shim" } else { "item" })),
                ("poly", J::B(false)),
            ];
            let ga = i.args();
            o.push(("args", self.generic_args(&ga)));
            if let Some(a) = self.assoc(i.def.def_id()) {
                o.push(("assoc", a));
            }
            o.push(("vis", s(self.vis(i.def.def_id()))));
            let krate = i.def.krate().name;
            let d2 = if WORKSPACE.contains(&krate.as_str()) { 0 } else { depth + 1 };
            let bj = self.body(&b, d2);
            o.extend(bj);
            let key = self.fn_key(&i);
            self.fns.push((key, J::O(o)));
        }
    }
    fn vis(&self, d: rustc_public::DefId) -> &'static str {
        let did = rustc_internal::internal(self.tcx, d);
        if let Some(l) = did.as_local() {
            if self.tcx.effective_visibilities(()).is_reachable(l) {
                return "pub";
            }
            return "priv";
        }
        "ext"
    }

    /// Instances of the methods of local generic trait implementations for a concrete type (they may only be
    /// called from code of other crates, so nothing else asks for them).
    fn impl_methods(&mut self, t: Ty) {
        use rustc_middle::ty::TypeVisitableExt;
        let tcx = self.tcx;
        let it = rustc_internal::internal(tcx, t);
        if it.has_non_region_param() || it.has_aliases() || it.has_infer() {
            return;
        }
        let adt = |x: rustc_middle::ty::Ty<'_>| x.ty_adt_def().map(|d| d.did());
        let head = |x: rustc_middle::ty::Ty<'_>| match x.kind() {
            rustc_middle::ty::TyKind::Ref(_, y, _) => adt(*y).map(|d| (1, d)),
            _ => adt(x).map(|d| (0, d)),
        };
        let Some(h) = head(it) else { return };
        for (tr, impls) in tcx.all_local_trait_impls(()).iter() {
            let c = tcx.generics_of(*tr).own_counts();
            if c.types != 1 || c.consts != 0 {
                continue;
            }
            let mut ids = vec![];
            for im in impls {
                if head(tcx.type_of(im.to_def_id()).skip_binder()) == Some(h) {
                    for a in tcx.associated_items(im.to_def_id()).in_definition_order() {
                        let c = tcx.generics_of(a.def_id).own_counts();
                        if a.is_fn() && c.types == 0 && c.consts == 0 {
                            ids.extend(a.trait_item_def_id());
                        }
                    }
                }
            }
            for id in ids {
                let ga = rustc_middle::ty::GenericArgs::for_item(tcx, id, |p, _| {
                    if p.index == 0 { it.into() } else { tcx.lifetimes.re_erased.into() }
                });
                let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
                let ga = tcx.erase_and_anonymize_regions(ga);
                if let Ok(Some(mi)) = rustc_middle::ty::Instance::try_resolve(tcx, env, id, ga) {
                    if tcx.trait_of_assoc(mi.def_id()).is_some() || !mi.def_id().is_local() {
                        continue;
                    }
                    let si: Instance = rustc_internal::stable(mi);
                    self.enqueue(si, 0);
                }
            }
        }
    }

    fn type_table(&mut self) -> J {
        let mut out = vec![];
        let mut i = 0;
        while i < self.types_q.len() {
            let t = self.types_q[i];
            i += 1;
            self.impl_methods(t);
            let mut o: Vec<(&'static str, J)> = vec![("s", s(self.ty_str(t)))];
            match t.kind() {
                TyKind::RigidTy(r) => match r {
                    RigidTy::Bool => o.push(("k", s("bool"))),
                    RigidTy::Char => o.push(("k", s("char"))),
                    RigidTy::Int(x) => {
                        o.push(("k", s("int")));
                        o.push(("bits", n(x.num_bytes() * 8)));
                    }
                    RigidTy::Uint(x) => {
                        o.push(("k", s("uint")));
                        o.push(("bits", n(x.num_bytes() * 8)));
                    }
                    RigidTy::Str => o.push(("k", s("str"))),
                    RigidTy::Array(e, l) => {
                        o.push(("k", s("array")));
                        let e = self.ty(e);
                        o.push(("e", e));
                        o.push(("n", match l.eval_target_usize() { Ok(x) => n(x), Err(_) => J::Null }));
                    }
                    RigidTy::Slice(e) => {
                        o.push(("k", s("slice")));
                        let e = self.ty(e);
                        o.push(("e", e));
                    }
                    RigidTy::RawPtr(e, m) => {
                        o.push(("k", s("ptr")));
                        let e = self.ty(e);
                        o.push(("e", e));
                        o.push(("mut", J::B(m == Mutability::Mut)));
                    }
                    RigidTy::Ref(_, e, m) => {
                        o.push(("k", s("ref")));
                        let e = self.ty(e);
                        o.push(("e", e));
                        o.push(("mut", J::B(m == Mutability::Mut)));
                    }
                    RigidTy::FnDef(d, a) => {
                        o.push(("k", s("fndef")));
                        let f = self.fndef(d, &a, 1);
                        o.push(("f", f));
                    }
                    RigidTy::FnPtr(_) => o.push(("k", s("fnptr"))),
                    RigidTy::Closure(d, a) => {
                        o.push(("k", s("closure")));
                        o.push(("def", s(d.name())));
                        if !self.is_param(&a) {
                            if let Ok(ci) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                                // FnOnce resolution may produce a shim around the real body; record both
                                self.enqueue(ci, 1);
                                o.push(("once", s(self.fn_key(&ci))));
                            }
                            for (nm, k) in [("fnmut", ClosureKind::FnMut), ("fnshr", ClosureKind::Fn)] {
                                let _ = (nm, k);
                            }
                        }
                        let up = {
                            let it = rustc_internal::internal(self.tcx, t);
                            let tys: Vec<Ty> = match it.kind() {
                                rustc_middle::ty::TyKind::Closure(_, ca) => {
                                    ca.as_closure().upvar_tys().iter().map(|x| rustc_internal::stable(x)).collect()
                                }
                                _ => vec![],
                            };
                            tys
                        };
                        let ups = J::A(up.iter().map(|x| self.ty(*x)).collect());
                        o.push(("up", ups));
                        let did = rustc_internal::internal(self.tcx, d.def_id());
                        if did.is_local() {
                            let names: Vec<J> = self.tcx.closure_captures(did.expect_local()).iter().map(|c| s(c.to_symbol())).collect();
                            o.push(("upn", J::A(names)));
                        }
                    }
                    RigidTy::Dynamic(p, _) => {
                        o.push(("k", s("dyn")));
                        let mut v = vec![];
                        for x in p.iter() {
                            if let ExistentialPredicate::Trait(tr) = x.clone().skip_binder() {
                                v.push(s(tr.def_id.name()));
                            }
                        }
                        o.push(("traits", J::A(v)));
                    }
                    RigidTy::Never => o.push(("k", s("never"))),
                    RigidTy::Tuple(ts) => {
                        o.push(("k", s("tuple")));
                        let v = J::A(ts.iter().map(|x| self.ty(*x)).collect());
                        o.push(("f", v));
                    }
                    RigidTy::Adt(d, a) => {
                        o.push(("k", s("adt")));
                        o.push(("def", s(d.name())));
                        o.push(("crate", s(d.krate().name)));
                        o.push(("akind", s(format!("{:?}", d.kind()))));
                        let av = self.generic_args(&a);
                        o.push(("args", av));
                        let did = rustc_internal::internal(self.tcx, d.def_id());
                        let local_crate = WORKSPACE.contains(&d.krate().name.as_str());
                        if d.kind() == AdtKind::Enum || local_crate || d.num_variants() == 1 {
                            let mut vs = vec![];
                            for v in d.variants_iter() {
                                let mut fs = vec![];
                                for f in v.fields() {
                                    let ft = f.ty_with_args(&a);
                                    // do not walk private fields of external structs
                                    let walk = d.kind() == AdtKind::Enum || local_crate || true;
                                    let tj = if walk && i < 20000 { self.ty(ft) } else { J::Null };
                                    fs.push(J::A(vec![s(&f.name), tj]));
                                }
                                let dv = if d.kind() == AdtKind::Enum { s(d.discriminant_for_variant(v.idx()).val) } else { J::Null };
                                vs.push(J::A(vec![s(v.name()), J::A(fs), dv]));
                            }
                            o.push(("variants", J::A(vs)));
                        }
                        if let Some(de) = self.tcx.adt_destructor(did) {
                            let path = with_resolve_crate_name!(with_no_trimmed_paths!(self.tcx.def_path_str(de.did)));
                            o.push(("drop", s(path)));
                            if local_crate && !self.is_param(&a) {
                                let ia = rustc_internal::internal(self.tcx, a.clone());
                                let mi = rustc_middle::ty::Instance::try_resolve(
                                    self.tcx,
                                    rustc_middle::ty::TypingEnv::fully_monomorphized(),
                                    de.did,
                                    ia,
                                );
                                if let Ok(Some(mi)) = mi {
                                    let si: Instance = rustc_internal::stable(mi);
                                    self.enqueue(si, 0);
                                    o.push(("dropkey", s(self.fn_key(&si))));
                                }
                            }
                        }
                    }
                    _ => o.push(("k", s("other"))),
                },
                _ => o.push(("k", s("param"))),
            }
            out.push(J::O(o));
            if i == self.types_q.len() {
                self.run_queue();
            }
        }
        J::A(out)
    }
}

fn dump(tcx: TyCtxt<'_>) -> ControlFlow<(), ()> {
    let krate = rustc_public::local_crate().name;
    let Ok(dir) = std::env::var("WV_OUT") else { return ControlFlow::Continue(()) };
    let mut cx = Cx {
        tcx,
        types: HashMap::new(),
        types_q: vec![],
        fns: vec![],
        seen: HashSet::new(),
        queue: VecDeque::new(),
    };
    let mut polys = vec![];
    let mut items_j = vec![];
    for it in rustc_public::all_local_items() {
        let nm = it.name();
        items_j.push(J::A(vec![s(&nm), s(format!("{:?}", it.kind())), J::B(it.requires_monomorphization()), s(cx.vis(it.def_id()))]));
        if !matches!(it.kind(), rustc_public::ItemKind::Fn) {
            continue;
        }
        if it.requires_monomorphization() {
            polys.push(it);
        } else if let Ok(i) = Instance::try_from(it) {
            cx.enqueue(i, 0);
        }
    }
    cx.run_queue();
    // polymorphic bodies
    for it in polys.into_iter() {
        let Some(b) = poly_body(&it) else { continue };
        let mut o = vec![
            ("name", s(it.name())),
            ("def", s(it.name())),
            ("crate", s(&krate)),
            ("kind", s("item")),
            ("poly", J::B(true)),
        ];
        if let Some(a) = cx.assoc(it.def_id()) {
            o.push(("assoc", a));
        }
        o.push(("vis", s(cx.vis(it.def_id()))));
        let bj = cx.body(&b, 0);
        o.extend(bj);
        cx.fns.push((format!("poly:{}", it.name()), J::O(o)));
    }
    cx.run_queue();
    let types = cx.type_table();
    cx.run_queue();
    // types may have grown through bodies queued by the table
    let types = if cx.types_q.len() > match &types { J::A(v) => v.len(), _ => 0 } { cx.type_table() } else { types };
    let fns = std::mem::take(&mut cx.fns);
    let out = J::O(vec![
        ("crate", s(&krate)),
        ("types", types),
        ("fns", J::M(fns)),
        ("items", J::A(items_j)),
        ("unchecked", J::A(unchecked(tcx))),
    ]);
    let mut st = String::new();
    out.put(&mut st);
    let kind = if rustc_public::entry_fn().is_some() { "bin" } else { "lib" };
    std::fs::create_dir_all(&dir).unwrap();
    let p = format!("{}/{}.{}.json", dir, krate, kind);
    std::fs::write(format!("{}.tmp", p), st).unwrap();
    std::fs::rename(format!("{}.tmp", p), p).unwrap();
    ControlFlow::Continue(())
}

/// Everything the source marks as not checked by the compiler: blocks, functions, implementations and traits. What the
/// macros of other crates expand to is theirs.
struct Unchecked<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<J>,
    bodies: i64,
}

impl<'tcx> Unchecked<'tcx> {
    fn note(&mut self, what: &str, sp: rustc_span::Span, at: rustc_span::def_id::LocalDefId) {
        if sp.from_expansion() {
            let ed = sp.ctxt().outer_expn_data();
            if let Some(d) = ed.macro_def_id {
                if !d.is_local() {
                    return;
                }
            }
        }
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.source_callsite().lo());
        self.out.push(J::A(vec![
            s(what),
            s(format!("{}", lo.file.name.prefer_remapped_unconditionally())),
            n(lo.line),
            s(with_no_trimmed_paths!(self.tcx.def_path_str(at))),
        ]));
    }
}

impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unchecked<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_body(&mut self, b: &rustc_hir::Body<'tcx>) {
        self.bodies += 1;
        rustc_hir::intravisit::walk_body(self, b)
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let at = self.tcx.hir_enclosing_body_owner(b.hir_id);
            self.note("block", b.span, at);
        }
        rustc_hir::intravisit::walk_block(self, b)
    }
    fn visit_fn(
        &mut self,
        k: rustc_hir::intravisit::FnKind<'tcx>,
        d: &'tcx rustc_hir::FnDecl<'tcx>,
        b: rustc_hir::BodyId,
        sp: rustc_span::Span,
        at: rustc_span::def_id::LocalDefId,
    ) {
        if k.header().is_some_and(|h| h.is_unsafe()) {
            self.note("function", sp, at);
        }
        rustc_hir::intravisit::walk_fn(self, k, d, b, at)
    }
    fn visit_item(&mut self, i: &'tcx rustc_hir::Item<'tcx>) {
        match i.kind {
            rustc_hir::ItemKind::Impl(im) => {
                if im.of_trait.is_some_and(|t| t.safety == rustc_hir::Safety::Unsafe) {
                    self.note("implementation", i.span, i.owner_id.def_id)
                }
            }
            rustc_hir::ItemKind::ForeignMod { .. } => self.note("foreign functions", i.span, i.owner_id.def_id),
            _ => {}
        }
        rustc_hir::intravisit::walk_item(self, i)
    }
}

fn unchecked(tcx: TyCtxt<'_>) -> Vec<J> {
    let mut v = Unchecked { tcx, out: vec![], bodies: 0 };
    tcx.hir_walk_toplevel_module(&mut v);
    let mut r = vec![n(v.bodies as usize)];
    r.extend(v.out);
    r
}

fn poly_body(it: &CrateItem) -> Option<Body> {
    it.body()
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("rustc")) && !args[1].starts_with('-') {
        args.remove(1);
    }
    let is_ws = args.iter().position(|a| a == "--crate-name").and_then(|p| args.get(p + 1)).map(|c| WORKSPACE.contains(&c.as_str())).unwrap_or(false);
    if is_ws {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        args.push("-Awarnings".into());
    }
    let r = rustc_public::run_with_tcx!(&args, |tcx| if is_ws { dump(tcx) } else { ControlFlow::Continue(()) });
    match r {
        Ok(_) => {}
        Err(rustc_public::CompilerError::Skipped) => {}
        Err(_) => std::process::exit(1),
    }
}
