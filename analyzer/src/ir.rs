//! Preparation of monomorphic MIR bodies: ordering, loops, liveness; constants; names.
use crate::lin::*;
use crate::state::*;
use rustc_public_bridge::IndexedVal;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, DefId};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub struct BodyInfo {
    pub inst: Instance,
    pub body: Body,
    pub name: Rc<str>,
    pub krate: String,
    pub order: Vec<usize>,
    pub heads: HashSet<usize>,
    pub loop_blocks: HashMap<usize, BTreeSet<usize>>,
    pub live_in: Vec<Vec<bool>>,
    pub addr_taken: Vec<bool>,
}

thread_local! {
    static BODIES: RefCell<HashMap<Instance, Option<Rc<BodyInfo>>>> = RefCell::default();
}

pub fn succs(t: &TerminatorKind) -> Vec<usize> {
    match t {
        TerminatorKind::Goto { target } => vec![*target],
        TerminatorKind::SwitchInt { targets, .. } => targets.all_targets(),
        TerminatorKind::Drop { target, .. } => vec![*target],
        TerminatorKind::Call { target, .. } => target.iter().copied().collect(),
        TerminatorKind::Assert { target, .. } => vec![*target],
        _ => vec![],
    }
}

pub fn body_of(inst: Instance) -> Option<Rc<BodyInfo>> {
    if let Some(b) = BODIES.with(|b| b.borrow().get(&inst).cloned()) {
        return b;
    }
    let r = prep(inst).map(Rc::new);
    if let (Ok(d), Some(b)) = (std::env::var("SAMPLINT_DUMP"), &r) {
        if b.name.replace(" ", "").contains(&d.replace(" ", "")) {
            let mut o = vec![];
            let _ = b.body.dump(&mut o, &b.name);
            eprintln!("{}", String::from_utf8_lossy(&o));
        }
    }
    BODIES.with(|b| b.borrow_mut().insert(inst, r.clone()));
    r
}

fn op_uses(o: &Operand, f: &mut dyn FnMut(usize)) {
    match o {
        Operand::Copy(p) | Operand::Move(p) => place_uses(p, f),
        _ => {}
    }
}
fn place_uses(p: &Place, f: &mut dyn FnMut(usize)) {
    f(p.local);
    for e in &p.projection {
        if let ProjectionElem::Index(l) = e {
            f(*l)
        }
    }
}
fn rv_uses(r: &Rvalue, f: &mut dyn FnMut(usize)) {
    match r {
        Rvalue::AddressOf(_, p) | Rvalue::CopyForDeref(p) | Rvalue::Discriminant(p) | Rvalue::Len(p) | Rvalue::Ref(_, _, p) | Rvalue::Reborrow(_, _, p) => place_uses(p, f),
        Rvalue::Aggregate(_, os) => os.iter().for_each(|o| op_uses(o, f)),
        Rvalue::BinaryOp(_, a, b) | Rvalue::CheckedBinaryOp(_, a, b) => {
            op_uses(a, f);
            op_uses(b, f)
        }
        Rvalue::Cast(_, o, _) | Rvalue::Repeat(o, _) | Rvalue::UnaryOp(_, o) | Rvalue::Use(o, _) => op_uses(o, f),
        Rvalue::ThreadLocalRef(_) => {}
    }
}

fn prep(inst: Instance) -> Option<BodyInfo> {
    let body = inst.body()?;
    let n = body.blocks.len();
    let nl = body.locals().len();
    // dominator-free loop discovery: DFS back edges
    let mut state = vec![0u8; n];
    let mut back: Vec<(usize, usize)> = vec![];
    let mut stack: Vec<(usize, usize)> = vec![(0, 0)];
    state[0] = 1;
    let mut preds: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, b) in body.blocks.iter().enumerate() {
        for s in succs(&b.terminator.kind) {
            preds[s].push(i);
        }
    }
    while let Some((b, i)) = stack.pop() {
        let s = succs(&body.blocks[b].terminator.kind);
        if i < s.len() {
            stack.push((b, i + 1));
            let t = s[i];
            if state[t] == 0 {
                state[t] = 1;
                stack.push((t, 0));
            } else if state[t] == 1 {
                back.push((b, t));
            }
        } else {
            state[b] = 2;
        }
    }
    let mut loop_blocks: HashMap<usize, BTreeSet<usize>> = HashMap::new();
    for (src, head) in &back {
        let set = loop_blocks.entry(*head).or_default();
        set.insert(*head);
        let mut w = vec![*src];
        while let Some(x) = w.pop() {
            if set.insert(x) {
                for p in &preds[x] {
                    if state[*p] != 0 {
                        w.push(*p);
                    }
                }
            }
        }
    }
    let heads: HashSet<usize> = loop_blocks.keys().copied().collect();
    // reverse post-order in which loop exits come after the loop body
    let depth = |b: usize| loop_blocks.values().filter(|s| s.contains(&b)).count();
    let mut post = vec![];
    let mut seen = vec![false; n];
    let mut st: Vec<(usize, Vec<usize>, usize)> = vec![];
    let mk = |b: usize| {
        let mut s = succs(&body.blocks[b].terminator.kind);
        s.sort_by_key(|t| depth(*t));
        s
    };
    seen[0] = true;
    st.push((0, mk(0), 0));
    while let Some((b, s, i)) = st.pop() {
        if i < s.len() {
            let t = s[i];
            st.push((b, s, i + 1));
            if !seen[t] {
                seen[t] = true;
                st.push((t, mk(t), 0));
            }
        } else {
            post.push(b);
        }
    }
    post.reverse();
    let mut order = vec![usize::MAX; n];
    for (i, b) in post.iter().enumerate() {
        order[*b] = i;
    }
    // address-taken locals
    let mut addr_taken = vec![false; nl];
    for b in &body.blocks {
        for s in &b.statements {
            if let StatementKind::Assign(_, Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p)) = &s.kind {
                if !p.projection.iter().any(|e| matches!(e, ProjectionElem::Deref)) {
                    addr_taken[p.local] = true;
                }
            }
        }
        if let TerminatorKind::Drop { place, .. } = &b.terminator.kind {
            let _ = place;
        }
    }
    // liveness
    let mut live_in = vec![vec![false; nl]; n];
    let mut changed = true;
    while changed {
        changed = false;
        for &b in post.iter().rev() {
            let blk = &body.blocks[b];
            let mut live = vec![false; nl];
            for s in succs(&blk.terminator.kind) {
                for (i, x) in live_in[s].iter().enumerate() {
                    live[i] |= *x;
                }
            }
            match &blk.terminator.kind {
                TerminatorKind::Return => live[0] = true,
                TerminatorKind::SwitchInt { discr, .. } => op_uses(discr, &mut |l| live[l] = true),
                TerminatorKind::Call { func, args, destination, .. } => {
                    if destination.projection.is_empty() {
                        live[destination.local] = false;
                    } else {
                        place_uses(destination, &mut |l| live[l] = true);
                    }
                    op_uses(func, &mut |l| live[l] = true);
                    args.iter().for_each(|a| op_uses(a, &mut |l| live[l] = true));
                }
                TerminatorKind::Assert { cond, .. } => op_uses(cond, &mut |l| live[l] = true),
                TerminatorKind::Drop { .. } => {}
                _ => {}
            }
            for s in blk.statements.iter().rev() {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        if p.projection.is_empty() {
                            live[p.local] = false;
                        } else {
                            place_uses(p, &mut |l| live[l] = true);
                        }
                        rv_uses(r, &mut |l| live[l] = true);
                    }
                    StatementKind::SetDiscriminant { place, .. } => place_uses(place, &mut |l| live[l] = true),
                    StatementKind::StorageLive(l) | StatementKind::StorageDead(l) => live[*l] = false,
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => op_uses(o, &mut |l| live[l] = true),
                    _ => {}
                }
            }
            if live != live_in[b] {
                live_in[b] = live;
                changed = true;
            }
        }
    }
    let name: String = inst.name();
    let krate = def_crate(&inst);
    Some(BodyInfo { inst, body, name: name.into(), krate, order, heads, loop_blocks, live_in, addr_taken })
}

pub fn def_crate(inst: &Instance) -> String {
    let d: DefId = inst_def(inst);
    crate_of(d)
}
pub fn inst_def(inst: &Instance) -> DefId {
    inst.def.def_id()
}
struct D(DefId);
impl CrateDef for D {
    fn def_id(&self) -> DefId {
        self.0
    }
}
pub fn crate_of(d: DefId) -> String {
    D(d).krate().name.to_string()
}

/// strip generic arguments other than `<impl ..>` segments
pub fn norm(s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == ':' && i + 2 < b.len() && b[i + 1] == ':' && b[i + 2] == '<' && !s[byte(&b, i + 2)..].starts_with("<impl") {
            // skip balanced
            let mut d = 0;
            let mut j = i + 2;
            while j < b.len() {
                if b[j] == '<' {
                    d += 1
                }
                if b[j] == '>' && b[j - 1] != '-' {
                    d -= 1;
                    if d == 0 {
                        break;
                    }
                }
                j += 1;
            }
            i = j + 1;
            continue;
        }
        out.push(b[i]);
        i += 1;
    }
    out
}
fn byte(b: &[char], i: usize) -> usize {
    b[..i].iter().map(|c| c.len_utf8()).sum()
}

pub fn head(t: Ty) -> String {
    match t.kind() {
        TyKind::RigidTy(r) => match r {
            RigidTy::Bool => "bool".into(),
            RigidTy::Char => "char".into(),
            RigidTy::Int(i) => format!("{:?}", i).to_lowercase(),
            RigidTy::Uint(i) => format!("{:?}", i).to_lowercase(),
            RigidTy::Float(i) => format!("{:?}", i).to_lowercase(),
            RigidTy::Adt(d, _) => {
                let n = d.name();
                n.rsplit("::").next().unwrap_or(&n).to_string()
            }
            RigidTy::Str => "str".into(),
            RigidTy::Array(..) => "array".into(),
            RigidTy::Slice(_) => "slice".into(),
            RigidTy::RawPtr(..) => "ptr".into(),
            RigidTy::Ref(..) => "ref".into(),
            RigidTy::FnDef(..) => "fndef".into(),
            RigidTy::FnPtr(..) => "fnptr".into(),
            RigidTy::Closure(..) => "closure".into(),
            RigidTy::Dynamic(..) => "dyn".into(),
            RigidTy::Never => "never".into(),
            RigidTy::Tuple(_) => "tuple".into(),
            _ => "other".into(),
        },
        _ => "other".into(),
    }
}
pub fn rigid(t: Ty) -> RigidTy {
    match t.kind() {
        TyKind::RigidTy(r) => r,
        _ => RigidTy::Never,
    }
}
pub fn ty_args(a: &GenericArgs) -> Vec<Ty> {
    a.0.iter().filter_map(|x| x.ty().copied()).collect()
}
pub fn is_float(t: Ty) -> bool {
    matches!(rigid(t), RigidTy::Float(_))
}
pub fn int_range(t: Ty) -> Option<(i128, i128)> {
    match rigid(t) {
        RigidTy::Uint(u) => {
            let b = u.num_bytes() * 8;
            if b >= 128 {
                Some((0, i128::MAX))
            } else {
                Some((0, (1i128 << b) - 1))
            }
        }
        RigidTy::Int(u) => {
            let b = u.num_bytes() * 8;
            if b >= 128 {
                Some((i128::MIN, i128::MAX))
            } else {
                Some((-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1))
            }
        }
        RigidTy::Char => Some((0, 0x10ffff)),
        RigidTy::Bool => Some((0, 1)),
        _ => None,
    }
}
pub fn pointee(t: Ty) -> Option<Ty> {
    match rigid(t) {
        RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) => Some(t),
        RigidTy::Adt(d, a) if d.is_box() => a.0.first().and_then(|x| x.ty().copied()),
        _ => None,
    }
}
pub fn is_adt(t: Ty, name: &str) -> bool {
    matches!(rigid(t), RigidTy::Adt(..)) && head(t) == name
}
/// field types of variant `v`
pub fn fields_of(t: Ty, v: usize) -> Vec<Ty> {
    match rigid(t) {
        RigidTy::Adt(d, args) => d.variants().get(v).map(|x| x.fields().iter().map(|f| f.ty_with_args(&args)).collect()).unwrap_or_default(),
        RigidTy::Tuple(ts) => ts,
        RigidTy::Closure(_, args) => {
            // last generic argument is the tuple of upvar types
            match args.0.last().and_then(|x| x.ty().copied()).map(rigid) {
                Some(RigidTy::Tuple(ts)) => ts,
                _ => vec![],
            }
        }
        _ => vec![],
    }
}

// ---------------------------------------------------------------- constants
pub fn const_val(c: &MirConst) -> R<V> {
    let ty = c.ty();
    match c.kind() {
        ConstantKind::ZeroSized => Ok(zst(ty)),
        ConstantKind::Allocated(a) => decode(ty, a, 0),
        ConstantKind::Ty(tc) => match tc.kind() {
            TyConstKind::Value(t, a) => decode(*t, a, 0),
            TyConstKind::ZSTValue(t) => Ok(zst(*t)),
            _ => match c.eval_target_usize() {
                Ok(v) => Ok(int(v as i128)),
                Err(_) => fail("const kind"),
            },
        },
        k => fail(format!("constant {k:?}")),
    }
}
fn zst(ty: Ty) -> V {
    match rigid(ty) {
        RigidTy::Array(..) => list(vec![]),
        RigidTy::Adt(d, args) => {
            if d.kind() == AdtKind::Enum {
                let n = fields_of(ty, 0).len();
                return en(0, vec![unit(); n]);
            }
            let _ = args;
            agg(fields_of(ty, 0).into_iter().map(zst).collect())
        }
        RigidTy::Tuple(ts) => agg(ts.into_iter().map(zst).collect()),
        _ => unit(),
    }
}
fn rd(a: &Allocation, off: usize, n: usize) -> R<u128> {
    match a.read_partial_uint(off..off + n) {
        Ok(v) => Ok(v),
        Err(_) => fail("const bytes"),
    }
}
pub fn decode(ty: Ty, a: &Allocation, off: usize) -> R<V> {
    match rigid(ty) {
        RigidTy::Bool => Ok(V::Bool(B::C(rd(a, off, 1)? != 0))),
        RigidTy::Char => Ok(int(rd(a, off, 4)? as i128)),
        RigidTy::Uint(u) => Ok(int(rd(a, off, u.num_bytes())? as i128)),
        RigidTy::Int(i) => {
            let n = i.num_bytes();
            let v = rd(a, off, n)?;
            let sh = 128 - 8 * n as u32;
            Ok(int(((v << sh) as i128) >> sh))
        }
        RigidTy::Float(FloatTy::F32) => {
            let f = f32::from_bits(rd(a, off, 4)? as u32);
            Ok(V::F(fc(f as f64)))
        }
        RigidTy::Float(FloatTy::F64) => Ok(V::F(fc(f64::from_bits(rd(a, off, 8)? as u64)))),
        RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) => decode_ptr(t, a, off),
        RigidTy::Array(t, n) => {
            let n = match n.eval_target_usize() {
                Ok(n) => n as usize,
                Err(_) => return fail("array len"),
            };
            let sz = size_of(t)?;
            let mut v = vec![];
            for i in 0..n {
                v.push(decode(t, a, off + i * sz)?);
            }
            Ok(list(v))
        }
        RigidTy::Tuple(ts) => {
            let offs = field_offsets(ty)?;
            let mut v = vec![];
            for (i, t) in ts.iter().enumerate() {
                v.push(decode(*t, a, off + offs[i])?);
            }
            Ok(agg(v))
        }
        RigidTy::Adt(d, _) => {
            let hd = head(ty);
            if hd == "String" || hd == "Vec" {
                // only empty ones exist as constants
                return Ok(if hd == "Vec" { list(vec![]) } else { V::Str(S::C("".into())) });
            }
            match d.kind() {
                AdtKind::Struct => {
                    let offs = field_offsets(ty)?;
                    let mut v = vec![];
                    for (i, t) in fields_of(ty, 0).iter().enumerate() {
                        v.push(decode(*t, a, off + offs[i])?);
                    }
                    Ok(agg(v))
                }
                AdtKind::Enum => decode_enum(ty, d, a, off),
                AdtKind::Union => fail("union const"),
            }
        }
        RigidTy::FnDef(..) | RigidTy::Closure(..) => Ok(zst(ty)),
        RigidTy::FnPtr(_) => match prov(a, off) {
            Some(p) => match GlobalAlloc::from(p) {
                GlobalAlloc::Function(i) => Ok(V::FnP(i)),
                _ => fail("fn ptr const"),
            },
            None => fail("fn ptr const"),
        },
        t => fail(format!("const of type {t:?}")),
    }
}
fn prov(a: &Allocation, off: usize) -> Option<rustc_public::mir::alloc::AllocId> {
    a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0)
}
pub fn size_of(t: Ty) -> R<usize> {
    match t.layout() {
        Ok(l) => Ok(l.shape().size.bytes()),
        Err(_) => fail("layout"),
    }
}
fn field_offsets(t: Ty) -> R<Vec<usize>> {
    use rustc_public::abi::FieldsShape;
    match t.layout() {
        Ok(l) => match l.shape().fields {
            FieldsShape::Arbitrary { offsets } => Ok(offsets.iter().map(|o| o.bytes()).collect()),
            FieldsShape::Primitive => Ok(vec![0; 8]),
            _ => fail("layout fields"),
        },
        Err(_) => fail("layout"),
    }
}
fn decode_enum(ty: Ty, d: AdtDef, a: &Allocation, off: usize) -> R<V> {
    use rustc_public::abi::{Scalar, TagEncoding, VariantsShape};
    let Ok(l) = ty.layout() else { return fail("layout") };
    let sh = l.shape();
    match &sh.variants {
        VariantsShape::Single { index } => {
            let vi = index.to_index();
            let offs = field_offsets(ty)?;
            let mut v = vec![];
            for (i, t) in fields_of(ty, vi).iter().enumerate() {
                v.push(decode(*t, a, off + offs[i])?);
            }
            Ok(en(vi as u32, v))
        }
        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
            let toff = field_offsets(ty)?[*tag_field];
            let n = match tag {
                Scalar::Initialized { value, .. } | Scalar::Union { value } => value.size(&rustc_public::target::MachineInfo::target()).bytes(),
            };
            let has_prov = prov(a, off + toff).is_some();
            let raw = rd(a, off + toff, n)?;
            let vi = match tag_encoding {
                TagEncoding::Direct => {
                    let mut r = None;
                    for v in d.variants() {
                        let dv = d.discriminant_for_variant(v.idx()).val;
                        let mask = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                        if dv & mask == raw {
                            r = Some(v.idx().to_index());
                        }
                    }
                    match r {
                        Some(v) => v,
                        None => return fail("enum tag"),
                    }
                }
                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                    let mask = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                    let rel = raw.wrapping_sub(*niche_start) & mask;
                    let s = niche_variants.start().to_index() as u128;
                    let e = niche_variants.end().to_index() as u128;
                    if !has_prov && rel <= e - s {
                        (s + rel) as usize
                    } else {
                        untagged_variant.to_index()
                    }
                }
            };
            let mut v = vec![];
            for (i, t) in fields_of(ty, vi).iter().enumerate() {
                v.push(decode(*t, a, off + variants[vi].offsets[i].bytes())?);
            }
            Ok(en(vi as u32, v))
        }
        VariantsShape::Empty => fail("empty enum"),
    }
}
fn decode_ptr(t: Ty, a: &Allocation, off: usize) -> R<V> {
    let p = prov(a, off);
    match rigid(t) {
        RigidTy::Str => {
            let len = rd(a, off + 8, 8)? as usize;
            let base = rd(a, off, 8)? as usize;
            let Some(p) = p else { return Ok(V::Str(S::C("".into()))) };
            let GlobalAlloc::Memory(m) = GlobalAlloc::from(p) else { return fail("str const") };
            let Ok(bytes) = m.raw_bytes() else { return fail("str const") };
            Ok(V::Str(S::C(String::from_utf8_lossy(&bytes[base..base + len]).to_string().into())))
        }
        RigidTy::Slice(et) => {
            let len = rd(a, off + 8, 8)? as usize;
            let base = rd(a, off, 8)? as usize;
            let mut v = vec![];
            if let Some(p) = p {
                let GlobalAlloc::Memory(m) = GlobalAlloc::from(p) else { return fail("slice const") };
                let sz = size_of(et)?;
                for i in 0..len {
                    v.push(decode(et, &m, base + i * sz)?);
                }
            }
            Ok(V::Ptr(Rc::new(PtrV { root: Root::Const(Rc::new(CVal(list(v)))), proj: vec![], meta: Meta::Slice(Lin::c(0), Lin::c(len as i128)) })))
        }
        RigidTy::Dynamic(..) => fail("dyn const"),
        _ => {
            let Some(p) = p else {
                if size_of(t).ok() == Some(0) {
                    return Ok(cptr(zst(t)));
                }
                return Ok(V::Unk);
            };
            let base = rd(a, off, 8)? as usize;
            match GlobalAlloc::from(p) {
                GlobalAlloc::Memory(m) => Ok(cptr(decode(t, &m, base)?)),
                GlobalAlloc::Static(s) => match s.eval_initializer() {
                    Ok(m) => Ok(cptr(decode(t, &m, base)?)),
                    Err(_) => fail("static"),
                },
                _ => fail("ptr const"),
            }
        }
    }
}
pub fn cptr(v: V) -> V {
    V::Ptr(Rc::new(PtrV { root: Root::Const(Rc::new(CVal(v))), proj: vec![], meta: Meta::None }))
}
