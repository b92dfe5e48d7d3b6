//! Reference decoder: SCALE rules plus the documented meanings, written over [`World`].
//!
//! It is the transition relation of the model: given the bytes and types delivered so far it says which
//! byte range or which type is needed next, and what the outcome is.
use super::env::World;
use super::tyb::*;
use super::val::*;
use alloc::rc::Rc;
use alloc::string::{String, ToString};
use alloc::vec;
use alloc::vec::Vec;

/// Why data is refused.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum RE {
    OutOfRange(usize, usize),
    Short(usize, usize),
    NoCompact(usize),
    Unused(usize),
    TypeFail(usize, &'static str),
    BadVariant(usize),
    Cyclic(u32),
    NotOrder(u32),
    NotStore(u32),
    NoType(u32),
    CompactIn(u32),
    /// Injected memory fault.
    Fault,
    /// Not an error: too much work for the harness (element count without bytes behind it, known finding).
    Blowup,
}

/// Meaning travelling from names to values.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum H {
    No,
    Num(Sp),
    Name,
    Genesis,
    Block,
}

pub fn h_field(f: &Fl) -> H {
    let by_name = match f.name.as_deref() {
        Some("nonce") => H::Num(Sp::Nonce),
        Some("spec_version") => H::Num(Sp::SpecVersion),
        Some("spec_name") => H::Name,
        Some("tx_version") | Some("transaction_version") => H::Num(Sp::TxVersion),
        _ => H::No,
    };
    if by_name != H::No {
        return by_name;
    }
    match f.type_name.as_deref() {
        Some("Balance") | Some("BalanceOf<T>") | Some("BalanceOf<T, I>") | Some("DepositBalance") | Some("ExtendedBalance") | Some("PalletBalanceOf<T>")
        | Some("T::Balance") => H::Num(Sp::Balance),
        _ => H::No,
    }
}
pub fn h_ext(identifier: &str) -> H {
    match identifier {
        "CheckSpecVersion" => H::Num(Sp::SpecVersion),
        "CheckTxVersion" => H::Num(Sp::TxVersion),
        "CheckGenesis" => H::Genesis,
        "CheckMortality" => H::Block,
        "CheckNonce" => H::Num(Sp::Nonce),
        "ChargeAssetTxPayment" => H::Num(Sp::TipAsset),
        "ChargeTransactionPayment" => H::Num(Sp::Tip),
        _ => H::No,
    }
}
fn h_path(t: &T) -> H {
    match t.path.segments.last().map(|s| s.as_str()) {
        Some("CheckNonce") => H::Num(Sp::Nonce),
        Some("ChargeAssetTxPayment") => H::Num(Sp::TipAsset),
        Some("ChargeTransactionPayment") => H::Num(Sp::Tip),
        _ => H::No,
    }
}

/// What a path says.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Named {
    Plain,
    /// Unwrapping stops here, decoding is ordinary.
    Opaque,
    Bytes(BK, usize),
    Era,
    Hash,
    MultiSig,
    Item(bool),
    Per(PK),
}
pub fn named(t: &T) -> Named {
    let seg = &t.path.segments;
    let Some((last, ns)) = seg.split_last() else { return Named::Plain };
    let ns: Vec<&str> = ns.iter().map(|s| s.as_str()).collect();
    match last.as_str() {
        "AccountId32" => Named::Bytes(BK::Id, 32),
        "H160" | "AccountId20" => Named::Bytes(BK::H160, 20),
        "H256" => Named::Hash,
        "H512" => Named::Bytes(BK::H512, 64),
        "Era" => Named::Era,
        "MultiSignature" => Named::MultiSig,
        "Call" | "RuntimeCall" => Named::Item(true),
        "Event" | "RuntimeEvent" => Named::Item(false),
        "PerU16" => Named::Per(PK::PerU16),
        "Percent" => Named::Per(PK::Percent),
        "Permill" => Named::Per(PK::Permill),
        "Perbill" => Named::Per(PK::Perbill),
        "Perquintill" => Named::Per(PK::Perquintill),
        "Public" => match ns.as_slice() {
            ["sp_core", "ed25519"] => Named::Bytes(BK::PubEd, 32),
            ["sp_core", "sr25519"] => Named::Bytes(BK::PubSr, 32),
            ["sp_core", "ecdsa"] => Named::Bytes(BK::PubEc, 33),
            _ => Named::Plain,
        },
        "Signature" => match ns.as_slice() {
            ["sp_core", "ed25519"] => Named::Bytes(BK::SigEd, 64),
            ["sp_core", "sr25519"] => Named::Bytes(BK::SigSr, 64),
            ["sp_core", "ecdsa"] => Named::Bytes(BK::SigEc, 65),
            _ => Named::Plain,
        },
        "UncheckedExtrinsic" => match ns.as_slice() {
            ["sp_runtime", "generic", "unchecked_extrinsic"] => Named::Opaque,
            _ => Named::Plain,
        },
        _ => Named::Plain,
    }
}

#[derive(Clone)]
pub struct Cx {
    compact: Option<u32>,
    h: H,
    seen: Vec<u32>,
}
impl Cx {
    pub fn new(h: H) -> Cx {
        Cx { compact: None, h, seen: Vec::new() }
    }
    fn plain(&self) -> Result<(), RE> {
        match self.compact {
            Some(id) => Err(RE::CompactIn(id)),
            None => Ok(()),
        }
    }
    fn enter(&mut self, id: u32) -> Result<(), RE> {
        if self.seen.contains(&id) {
            return Err(RE::Cyclic(id));
        }
        self.seen.push(id);
        Ok(())
    }
    fn many(&mut self) {
        if self.h != H::Num(Sp::TipAsset) {
            self.h = H::No;
        }
    }
}

pub fn info_of(t: &T) -> I {
    I { docs: t.docs.join("\n"), path: t.path.segments.clone() }
}
fn add_info(to: &mut Vec<I>, t: &T) {
    if !t.docs.iter().all(|d| d.is_empty()) || t.docs.len() > 1 || !t.path.segments.is_empty() {
        to.push(info_of(t));
    }
}

pub struct Ref<'w> {
    pub w: &'w dyn World,
    pub total: usize,
    pub pos: usize,
    pub work: usize,
    pub max_work: usize,
}

pub fn era(lo: u8, hi: u8) -> Option<(u64, u64)> {
    let e = lo as u64 | (hi as u64) << 8;
    let period = 2u64 << (e & 15);
    let quant = if period > 4096 { period / 4096 } else { 1 };
    let phase = (e >> 4) * quant;
    (period >= 4 && phase < period).then_some((period, phase))
}

pub fn per_max(p: PK) -> u64 {
    match p {
        PK::PerU16 => 65_535,
        PK::Percent => 100,
        PK::Permill => 1_000_000,
        PK::Perbill => 1_000_000_000,
        PK::Perquintill => 1_000_000_000_000_000_000,
    }
}
pub fn per_name(p: PK) -> &'static str {
    match p {
        PK::PerU16 => "PerU16",
        PK::Percent => "Percent",
        PK::Permill => "Permill",
        PK::Perbill => "Perbill",
        PK::Perquintill => "Perquintill",
    }
}
pub fn per_width(p: PK) -> usize {
    match p {
        PK::PerU16 => 2,
        PK::Percent => 1,
        PK::Permill | PK::Perbill => 4,
        PK::Perquintill => 8,
    }
}
fn le(b: &[u8]) -> u128 {
    b.iter().rev().fold(0u128, |a, x| a << 8 | *x as u128)
}

/// Canonical SCALE compact of at most `width` bytes: (value, encoded length). `get(i)` is byte `i`, if there is one.
pub fn compact_at(width: usize, mut get: impl FnMut(usize) -> Option<u8>) -> Option<(u128, usize)> {
    let b0 = get(0)?;
    let (n, skip) = match b0 & 3 {
        0 => return Some(((b0 >> 2) as u128, 1)),
        1 => (2, 0),
        2 => (4, 0),
        _ => ((b0 >> 2) as usize + 4, 1),
    };
    if skip == 1 && n > width.max(4) {
        return None;
    }
    if (b0 & 3) == 2 && width < 2 || (b0 & 3) == 3 && width < 4 {
        return None;
    }
    let mut bytes = Vec::new();
    for i in skip..skip + n {
        bytes.push(get(i)?);
    }
    let v = le(&bytes);
    let (v, min) = match b0 & 3 {
        1 => (v >> 2, 1u128 << 6),
        2 => (v >> 2, 1u128 << 14),
        _ if n == 4 => (v, 1u128 << 30),
        _ => (v, 1u128 << (8 * (n - 1))),
    };
    let max = if width == 16 { u128::MAX } else { (1u128 << (8 * width)) - 1 };
    (v >= min && v <= max).then_some((v, skip + n))
}

/// Own encoder, used to build inputs.
pub fn enc_compact(v: u128) -> Vec<u8> {
    if v < 1 << 6 {
        vec![(v << 2) as u8]
    } else if v < 1 << 14 {
        ((v << 2 | 1) as u16).to_le_bytes().to_vec()
    } else if v < 1 << 30 {
        ((v << 2 | 2) as u32).to_le_bytes().to_vec()
    } else {
        let mut n = 4;
        while n < 16 && v >> (8 * n) != 0 {
            n += 1;
        }
        let mut o = vec![((n - 4) << 2 | 3) as u8];
        o.extend_from_slice(&v.to_le_bytes()[..n]);
        o
    }
}

impl<'w> Ref<'w> {
    pub fn new(w: &'w dyn World, total: usize, pos: usize) -> Ref<'w> {
        Ref { w, total, pos, work: 0, max_work: 3000 + 4 * total.min(10_000_000) }
    }
    fn tick(&mut self) -> Result<(), RE> {
        self.work += 1;
        if self.work > self.max_work {
            return Err(RE::Blowup);
        }
        Ok(())
    }
    fn room(&self, pos: usize, n: usize) -> Result<(), RE> {
        if pos > self.total {
            return Err(RE::OutOfRange(pos, self.total));
        }
        if n > self.total - pos {
            return Err(RE::Short(pos, n));
        }
        Ok(())
    }
    pub fn take(&mut self, n: usize) -> Result<Vec<u8>, RE> {
        self.room(self.pos, n)?;
        let b = self.w.bytes(self.pos, n);
        self.pos += n;
        Ok(b)
    }
    fn ty(&mut self, id: u32) -> Result<Rc<T>, RE> {
        self.tick()?;
        self.w.ty(id).ok_or(RE::NoType(id))
    }
    pub fn compact(&mut self, width: usize) -> Result<u128, RE> {
        if self.pos > self.total {
            return Err(RE::OutOfRange(self.pos, self.total));
        }
        let (w, pos, total) = (self.w, self.pos, self.total);
        match compact_at(width, |i| (pos + i < total).then(|| w.bytes(pos + i, 1)[0])) {
            Some((v, n)) => {
                self.pos += n;
                Ok(v)
            }
            None => Err(RE::NoCompact(pos)),
        }
    }
    fn uint(&mut self, width: usize, cx: &Cx) -> Result<V, RE> {
        let v = if cx.compact.is_some() { self.compact(width)? } else { le(&self.take(width)?) };
        let s = if let H::Num(s) = cx.h { s } else { Sp::None };
        Ok(V::UInt((width * 8) as u8, v, s))
    }
    fn int(&mut self, width: usize, cx: &Cx) -> Result<V, RE> {
        cx.plain()?;
        let mut b = self.take(width)?;
        let fill = if b[width - 1] >= 0x80 { 0xff } else { 0 };
        b.resize(16, fill);
        let mut a = [0u8; 16];
        a.copy_from_slice(&b);
        Ok(V::Int((width * 8) as u8, i128::from_le_bytes(a)))
    }
    fn prim(&mut self, p: &Pr, cx: &Cx) -> Result<V, RE> {
        Ok(match p {
            Pr::U8 => self.uint(1, cx)?,
            Pr::U16 => self.uint(2, cx)?,
            Pr::U32 => self.uint(4, cx)?,
            Pr::U64 => self.uint(8, cx)?,
            Pr::U128 => self.uint(16, cx)?,
            Pr::I8 => self.int(1, cx)?,
            Pr::I16 => self.int(2, cx)?,
            Pr::I32 => self.int(4, cx)?,
            Pr::I64 => self.int(8, cx)?,
            Pr::I128 => self.int(16, cx)?,
            Pr::U256 => {
                cx.plain()?;
                V::U256(self.take(32)?)
            }
            Pr::I256 => {
                cx.plain()?;
                V::I256(self.take(32)?)
            }
            Pr::Bool => {
                cx.plain()?;
                let at = self.pos;
                match self.take(1)?[0] {
                    0 => V::Bool(false),
                    1 => V::Bool(true),
                    _ => return Err(RE::TypeFail(at, "bool")),
                }
            }
            Pr::Char => {
                cx.plain()?;
                let at = self.pos;
                let v = le(&self.take(4)?) as u32;
                if v > 0x10ffff || (0xd800..0xe000).contains(&v) {
                    return Err(RE::TypeFail(at, "char"));
                }
                V::Char(char::from_u32(v).expect("HARNESS: char"))
            }
            Pr::Str => {
                cx.plain()?;
                let at = self.pos;
                let n = self.compact(4)? as usize;
                let b = self.take(n)?;
                match core::str::from_utf8(&b) {
                    Ok(s) => V::Text(s.to_string(), cx.h == H::Name),
                    Err(_) => return Err(RE::TypeFail(at, "str")),
                }
            }
        })
    }

    /// The value of type `id` (`t`, if resolved before) at the current position.
    pub fn decode(&mut self, id: u32, t: Option<Rc<T>>, cx: Cx, mut info: Vec<I>) -> Result<X, RE> {
        self.tick()?;
        let t = match t {
            Some(t) => t,
            None => self.ty(id)?,
        };
        add_info(&mut info, &t);
        let v = match named(&t) {
            Named::Bytes(k, n) => {
                cx.plain()?;
                V::Bytes(k, self.take(n)?)
            }
            Named::Hash => {
                cx.plain()?;
                let k = match cx.h {
                    H::Genesis => BK::GenesisHash,
                    H::Block => BK::BlockHash,
                    _ => BK::H256,
                };
                V::Bytes(k, self.take(32)?)
            }
            Named::Era => {
                cx.plain()?;
                let at = self.pos;
                let lo = self.take(1)?[0];
                if lo == 0 {
                    V::Era(None)
                } else {
                    self.pos = at;
                    let b = self.take(2)?;
                    match era(b[0], b[1]) {
                        Some(e) => V::Era(Some(e)),
                        None => return Err(RE::TypeFail(at, "Era")),
                    }
                }
            }
            Named::Per(p) => {
                let (w, at) = (per_width(p), self.pos);
                if cx.compact.is_some() {
                    // compact fractions saturate, as in the chain's own code
                    V::Per(p, (self.compact(w)? as u64).min(per_max(p)))
                } else {
                    let v = le(&self.take(w)?) as u64;
                    if v > per_max(p) {
                        return Err(RE::TypeFail(at, per_name(p)));
                    }
                    V::Per(p, v)
                }
            }
            Named::MultiSig => match self.multi_signature(&t) {
                Some((k, n)) => {
                    self.pos += 1;
                    cx.plain()?;
                    V::Bytes(k, self.take(n)?)
                }
                None => return self.ordinary(id, &t, cx, info),
            },
            Named::Item(call) => match self.pallet_item(&t, call) {
                Some((pallet, inner)) => {
                    self.pos += 1;
                    cx.plain()?;
                    let TypeDef::Variant(x) = &inner.type_def else { panic!("HARNESS: item") };
                    let (name, docs, fields) = self.variant(&x.variants)?;
                    let p = P { info: info_of(&inner), docs, pallet, name, fields };
                    if call {
                        V::Call(p)
                    } else {
                        V::Event(p)
                    }
                }
                None => return self.ordinary(id, &t, cx, info),
            },
            Named::Plain | Named::Opaque => return self.ordinary(id, &t, cx, info),
        };
        Ok(X { v, info })
    }

    /// The variant selected by the byte at the current position, if there is one.
    fn peek<'t>(&mut self, v: &'t [Vr]) -> Option<&'t Vr> {
        self.room(self.pos, 1).ok()?;
        let i = self.w.bytes(self.pos, 1)[0];
        v.iter().find(|x| x.index == i)
    }

    fn multi_signature(&mut self, t: &T) -> Option<(BK, usize)> {
        let TypeDef::Variant(x) = &t.type_def else { return None };
        let v = self.peek(&x.variants)?;
        if v.fields.len() != 1 {
            return None;
        }
        // the single field, seen through plain one-field structs, must be `[u8; N]`
        let mut seen = vec![];
        let mut id = v.fields[0].ty.id;
        let (len, elem) = loop {
            if seen.contains(&id) {
                return None;
            }
            seen.push(id);
            let t = self.w.ty(id)?;
            match &t.type_def {
                _ if named(&t) != Named::Plain => match &t.type_def {
                    TypeDef::Array(a) => break (a.len, a.type_param.id),
                    _ => return None,
                },
                TypeDef::Composite(c) if c.fields.len() == 1 => id = c.fields[0].ty.id,
                TypeDef::Array(a) => break (a.len, a.type_param.id),
                _ => return None,
            }
        };
        let e = self.w.ty(elem)?;
        if !matches!(e.type_def, TypeDef::Primitive(Pr::U8)) {
            return None;
        }
        match (v.fields[0].type_name.as_deref()?, len) {
            ("ed25519::Signature", 64) => Some((BK::SigEd, 64)),
            ("sr25519::Signature", 64) => Some((BK::SigSr, 64)),
            ("ecdsa::Signature", 65) => Some((BK::SigEc, 65)),
            _ => None,
        }
    }

    fn pallet_item(&mut self, t: &T, call: bool) -> Option<(String, Rc<T>)> {
        let TypeDef::Variant(x) = &t.type_def else { return None };
        let v = self.peek(&x.variants)?;
        if v.fields.len() != 1 {
            return None;
        }
        let inner = self.w.ty(v.fields[0].ty.id)?;
        let ok = named(&inner) == Named::Item(call) && matches!(inner.type_def, TypeDef::Variant(_));
        ok.then(|| (v.name.clone(), inner))
    }

    fn variant(&mut self, v: &[Vr]) -> Result<(String, String, Vec<F>), RE> {
        let at = self.pos;
        let i = self.take(1)?[0];
        let Some(x) = v.iter().find(|x| x.index == i) else { return Err(RE::BadVariant(at)) };
        let fields = self.fields(&x.fields, Cx::new(H::No))?;
        Ok((x.name.clone(), x.docs.join("\n"), fields))
    }

    fn fields(&mut self, fields: &[Fl], mut cx: Cx) -> Result<Vec<F>, RE> {
        if fields.len() > 1 {
            cx.plain()?;
            cx.many();
        }
        let mut out = Vec::new();
        for f in fields {
            let mut c = cx.clone();
            if c.h == H::No {
                c.h = h_field(f);
            }
            c.enter(f.ty.id)?;
            let x = self.decode(f.ty.id, None, c, Vec::new())?;
            out.push(F { name: f.name.clone(), tn: f.type_name.clone(), docs: f.docs.join("\n"), x });
        }
        Ok(out)
    }

    fn ordinary(&mut self, id: u32, t: &Rc<T>, mut cx: Cx, info: Vec<I>) -> Result<X, RE> {
        let v = match &t.type_def {
            TypeDef::Primitive(p) => self.prim(p, &cx)?,
            TypeDef::Composite(c) => V::Comp(self.fields(&c.fields, cx)?),
            TypeDef::Variant(x) => {
                cx.plain()?;
                if x.variants.is_empty() {
                    V::Empty
                } else {
                    let (name, docs, fields) = self.variant(&x.variants)?;
                    V::Var { name, docs, fields }
                }
            }
            TypeDef::Tuple(x) => {
                if x.fields.len() > 1 {
                    cx.plain()?;
                    cx.many();
                }
                let mut out = Vec::new();
                for s in x.fields.iter() {
                    let t = self.ty(s.id)?;
                    let mut c = cx.clone();
                    c.enter(s.id)?;
                    if c.h == H::No {
                        c.h = h_path(&t);
                    }
                    out.push(self.decode(s.id, Some(t), c, Vec::new())?);
                }
                V::Tup(out)
            }
            TypeDef::Compact(x) => {
                cx.plain()?;
                cx.compact = Some(id);
                cx.enter(x.type_param.id)?;
                return self.decode(x.type_param.id, None, cx, info);
            }
            TypeDef::Sequence(x) => {
                let n = self.compact(4)? as u32;
                cx.seen.clear();
                self.elements(x.type_param.id, n, cx)?
            }
            TypeDef::Array(x) => self.elements(x.type_param.id, x.len, cx)?,
            TypeDef::BitSequence(x) => {
                cx.plain()?;
                let order = self.ty(x.bit_order_type.id)?;
                let msb = match (&order.type_def, order.path.segments.last().map(|s| s.as_str())) {
                    (TypeDef::Composite(_), Some("Lsb0")) => false,
                    (TypeDef::Composite(_), Some("Msb0")) => true,
                    _ => return Err(RE::NotOrder(id)),
                };
                let store = self.ty(x.bit_store_type.id)?;
                let w = match &store.type_def {
                    TypeDef::Primitive(Pr::U8) => 1,
                    TypeDef::Primitive(Pr::U16) => 2,
                    TypeDef::Primitive(Pr::U32) => 4,
                    TypeDef::Primitive(Pr::U64) => 8,
                    _ => return Err(RE::NotStore(id)),
                };
                self.bits(w, msb)?
            }
        };
        Ok(X { v, info })
    }

    fn bits(&mut self, w: usize, msb: bool) -> Result<V, RE> {
        let start = self.pos;
        let n = self.compact(4)? as usize;
        let stores = n.div_ceil(8 * w);
        let head = self.pos - start;
        if self.pos + stores * w > self.total {
            return Err(RE::Short(start, head + stores * w));
        }
        let b = self.take(stores * w)?;
        let mut bits = Vec::with_capacity(n);
        for i in 0..n {
            let s = i / (8 * w);
            let x = le(&b[s * w..(s + 1) * w]);
            let k = i % (8 * w);
            let k = if msb { 8 * w - 1 - k } else { k };
            bits.push(x >> k & 1 == 1);
        }
        Ok(V::Bits { store: (8 * w) as u8, msb, bits })
    }

    fn elements(&mut self, elem: u32, n: u32, cx: Cx) -> Result<V, RE> {
        cx.plain()?;
        // unwrap the element type once
        let mut c = Cx { compact: None, h: H::No, seen: cx.seen };
        let mut info = Vec::new();
        let mut id = elem;
        c.enter(id)?;
        let mut t = self.ty(id)?;
        loop {
            add_info(&mut info, &t);
            if named(&t) != Named::Plain {
                break;
            }
            match &t.type_def {
                TypeDef::Composite(x) if x.fields.len() == 1 => {
                    let f = x.fields[0].clone();
                    id = f.ty.id;
                    c.enter(id)?;
                    t = self.ty(id)?;
                    if c.h == H::No {
                        c.h = h_field(&f);
                    }
                }
                TypeDef::Compact(x) => {
                    c.plain()?;
                    c.compact = Some(id);
                    id = x.type_param.id;
                    c.enter(id)?;
                    t = self.ty(id)?;
                }
                _ => break,
            }
        }
        if n == 0 {
            return Ok(V::Raw(info, Vec::new()));
        }
        let mut out = Vec::new();
        for _ in 0..n {
            out.push(self.decode(id, Some(t.clone()), c.clone(), Vec::new())?.v);
        }
        Ok(collect(info, out))
    }
}

/// Compacted form of an element list, if it has one.
pub fn collect(info: Vec<I>, out: Vec<V>) -> V {
    match &out[0] {
        V::UInt(w, _, _) => {
            let w = *w;
            let nums: Option<Vec<u128>> = out
                .iter()
                .map(|v| match v {
                    V::UInt(x, n, Sp::None) if *x == w => Some(*n),
                    _ => None,
                })
                .collect();
            match nums {
                Some(n) => V::Nums(w, info, n),
                None => V::Raw(info, out),
            }
        }
        V::Nums(8, first, _) => {
            let inner = first.clone();
            let mut data = Vec::new();
            for v in &out {
                match v {
                    V::Nums(8, i, b) if *i == inner => data.push(b.iter().map(|x| *x as u8).collect()),
                    V::Raw(_, b) if b.is_empty() => data.push(Vec::new()),
                    _ => return V::Raw(info, out),
                }
            }
            V::VecU8 { info, inner, data }
        }
        _ => V::Raw(info, out),
    }
}

/// Whole run: value and end position.
pub fn run(w: &dyn World, total: usize, start: usize, id: u32, h: H) -> Result<(X, usize), RE> {
    let mut r = Ref::new(w, total, start);
    let x = r.decode(id, None, Cx::new(h), Vec::new())?;
    Ok((x, r.pos))
}

// ---- projections: which part of a result a property speaks about ----

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Proj {
    /// docs, paths, element info
    pub info: bool,
    /// number/text/hash meanings
    pub hint: bool,
    /// compacted or raw element lists
    pub form: bool,
}
pub const VALUE: Proj = Proj { info: false, hint: false, form: false };
pub const FULL: Proj = Proj { info: true, hint: true, form: true };

impl Proj {
    pub fn x(&self, x: &mut X) {
        if !self.info {
            x.info.clear();
        }
        self.v(&mut x.v);
    }
    pub fn f(&self, f: &mut [F]) {
        for f in f {
            if !self.info {
                f.docs.clear();
            }
            self.x(&mut f.x);
        }
    }
    pub fn p(&self, p: &mut P) {
        if !self.info {
            p.info = I { docs: String::new(), path: Vec::new() };
            p.docs.clear();
        }
        self.f(&mut p.fields);
    }
    pub fn v(&self, v: &mut V) {
        match v {
            V::Bytes(k, _) => {
                if !self.hint && matches!(k, BK::BlockHash | BK::GenesisHash) {
                    *k = BK::H256;
                }
            }
            V::Call(p) | V::Event(p) => self.p(p),
            V::Comp(f) => self.f(f),
            V::UInt(_, _, s) => {
                if !self.hint {
                    *s = Sp::None;
                }
            }
            V::Text(_, s) => {
                if !self.hint {
                    *s = false;
                }
            }
            V::Tup(t) => t.iter_mut().for_each(|x| self.x(x)),
            V::Var { docs, fields, .. } => {
                if !self.info {
                    docs.clear();
                }
                self.f(fields);
            }
            V::Nums(w, info, n) => {
                if !self.info {
                    info.clear();
                }
                if !self.form {
                    *v = V::Raw(core::mem::take(info), n.iter().map(|x| V::UInt(*w, *x, Sp::None)).collect());
                }
            }
            V::VecU8 { info, inner, data } => {
                if !self.info {
                    info.clear();
                    inner.clear();
                }
                if !self.form {
                    let inner = inner.clone();
                    *v = V::Raw(
                        core::mem::take(info),
                        data.iter().map(|b| V::Raw(if b.is_empty() { Vec::new() } else { inner.clone() }, b.iter().map(|x| V::UInt(8, *x as u128, Sp::None)).collect())).collect(),
                    );
                }
            }
            V::Raw(info, d) => {
                if !self.info || (!self.form && d.is_empty()) {
                    info.clear();
                }
                d.iter_mut().for_each(|x| self.v(x));
            }
            _ => {}
        }
    }
}
