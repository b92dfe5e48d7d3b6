//! Own result tree, independent of the library's result types (and of their `PartialEq`).
use alloc::string::{String, ToString};
use alloc::vec::Vec;
use bitvec::prelude::{BitOrder, BitStore, BitVec};
use num_bigint::{BigInt, BigUint, Sign};
use scale_info::form::PortableForm;
use substrate_parser::additional_types::Era;
use substrate_parser::cards as c;
use substrate_parser::cards::ParsedData as PD;
use substrate_parser::special_indicators::{SpecialtyStr, SpecialtyUnsignedInteger as SU};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Sp {
    None,
    Balance,
    Tip,
    TipAsset,
    Nonce,
    SpecVersion,
    TxVersion,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BK {
    BlockHash,
    GenesisHash,
    H160,
    H256,
    H512,
    Id,
    PubEd,
    PubSr,
    PubEc,
    SigEd,
    SigSr,
    SigEc,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum PK {
    PerU16,
    Percent,
    Permill,
    Perbill,
    Perquintill,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct I {
    pub docs: String,
    pub path: Vec<String>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct X {
    pub v: V,
    pub info: Vec<I>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct F {
    pub name: Option<String>,
    pub tn: Option<String>,
    pub docs: String,
    pub x: X,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct P {
    pub info: I,
    pub docs: String,
    pub pallet: String,
    pub name: String,
    pub fields: Vec<F>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum V {
    Bits { store: u8, msb: bool, bits: Vec<bool> },
    Bytes(BK, Vec<u8>),
    Call(P),
    Event(P),
    Comp(Vec<F>),
    Empty,
    Era(Option<(u64, u64)>),
    Per(PK, u64),
    Bool(bool),
    Char(char),
    Int(u8, i128),
    I256(Vec<u8>),
    UInt(u8, u128, Sp),
    U256(Vec<u8>),
    Nums(u8, Vec<I>, Vec<u128>),
    VecU8 { info: Vec<I>, inner: Vec<I>, data: Vec<Vec<u8>> },
    Raw(Vec<I>, Vec<V>),
    Text(String, bool),
    Tup(Vec<X>),
    Var { name: String, docs: String, fields: Vec<F> },
}

pub fn sp(s: &SU) -> Sp {
    match s {
        SU::None => Sp::None,
        SU::Balance => Sp::Balance,
        SU::Tip => Sp::Tip,
        SU::TipAsset => Sp::TipAsset,
        SU::Nonce => Sp::Nonce,
        SU::SpecVersion => Sp::SpecVersion,
        SU::TxVersion => Sp::TxVersion,
    }
}

pub fn info(i: &c::Info) -> I {
    I { docs: i.docs.clone(), path: i.path.segments.clone() }
}
pub fn infos(i: &[c::Info]) -> Vec<I> {
    i.iter().map(info).collect()
}
pub fn path(p: &scale_info::Path<PortableForm>) -> Vec<String> {
    p.segments.clone()
}

fn bits<T: BitStore, O: BitOrder>(store: u8, msb: bool, b: &BitVec<T, O>) -> V {
    V::Bits { store, msb, bits: b.iter().map(|x| *x).collect() }
}

pub fn field(f: &c::FieldData) -> F {
    F { name: f.field_name.clone(), tn: f.type_name.clone(), docs: f.field_docs.clone(), x: ext(&f.data) }
}
pub fn fields(f: &[c::FieldData]) -> Vec<F> {
    f.iter().map(field).collect()
}
pub fn pallet(p: &c::PalletSpecificData) -> P {
    P { info: info(&p.pallet_info), docs: p.variant_docs.clone(), pallet: p.pallet_name.clone(), name: p.variant_name.clone(), fields: fields(&p.fields) }
}
pub fn call(p: &c::Call) -> P {
    pallet(&p.0)
}
pub fn ext(e: &c::ExtendedData) -> X {
    X { v: val(&e.data), info: infos(&e.info) }
}

fn u256(b: &BigUint) -> Vec<u8> {
    let mut v = b.to_bytes_le();
    v.resize(32, 0);
    v
}
fn i256(b: &BigInt) -> Vec<u8> {
    let mut v = b.to_signed_bytes_le();
    let fill = if b.sign() == Sign::Minus { 0xff } else { 0 };
    v.resize(32, fill);
    v
}

pub fn val(d: &PD) -> V {
    match d {
        PD::BitVecU8Lsb0(b) => bits(8, false, b),
        PD::BitVecU16Lsb0(b) => bits(16, false, b),
        PD::BitVecU32Lsb0(b) => bits(32, false, b),
        PD::BitVecU64Lsb0(b) => bits(64, false, b),
        PD::BitVecU8Msb0(b) => bits(8, true, b),
        PD::BitVecU16Msb0(b) => bits(16, true, b),
        PD::BitVecU32Msb0(b) => bits(32, true, b),
        PD::BitVecU64Msb0(b) => bits(64, true, b),
        PD::BlockHash(h) => V::Bytes(BK::BlockHash, h.0.to_vec()),
        PD::Call(x) => V::Call(pallet(&x.0)),
        PD::Composite(f) => V::Comp(fields(f)),
        PD::EmptyEnum => V::Empty,
        PD::Era(e) => V::Era(match e {
            Era::Immortal => None,
            Era::Mortal(a, b) => Some((*a, *b)),
        }),
        PD::Event(x) => V::Event(pallet(&x.0)),
        PD::GenesisHash(h) => V::Bytes(BK::GenesisHash, h.0.to_vec()),
        PD::H160(h) => V::Bytes(BK::H160, h.0.to_vec()),
        PD::H256(h) => V::Bytes(BK::H256, h.0.to_vec()),
        PD::H512(h) => V::Bytes(BK::H512, h.0.to_vec()),
        PD::Id(h) => V::Bytes(BK::Id, h.0.to_vec()),
        PD::PerU16(p) => V::Per(PK::PerU16, p.deconstruct() as u64),
        PD::Percent(p) => V::Per(PK::Percent, p.deconstruct() as u64),
        PD::Permill(p) => V::Per(PK::Permill, p.deconstruct() as u64),
        PD::Perbill(p) => V::Per(PK::Perbill, p.deconstruct() as u64),
        PD::Perquintill(p) => V::Per(PK::Perquintill, p.deconstruct()),
        PD::PrimitiveBool(b) => V::Bool(*b),
        PD::PrimitiveChar(b) => V::Char(*b),
        PD::PrimitiveI8(x) => V::Int(8, *x as i128),
        PD::PrimitiveI16(x) => V::Int(16, *x as i128),
        PD::PrimitiveI32(x) => V::Int(32, *x as i128),
        PD::PrimitiveI64(x) => V::Int(64, *x as i128),
        PD::PrimitiveI128(x) => V::Int(128, *x),
        PD::PrimitiveI256(x) => V::I256(i256(x)),
        PD::PrimitiveU8 { value, specialty } => V::UInt(8, *value as u128, sp(specialty)),
        PD::PrimitiveU16 { value, specialty } => V::UInt(16, *value as u128, sp(specialty)),
        PD::PrimitiveU32 { value, specialty } => V::UInt(32, *value as u128, sp(specialty)),
        PD::PrimitiveU64 { value, specialty } => V::UInt(64, *value as u128, sp(specialty)),
        PD::PrimitiveU128 { value, specialty } => V::UInt(128, *value, sp(specialty)),
        PD::PrimitiveU256(x) => V::U256(u256(x)),
        PD::PublicEd25519(h) => V::Bytes(BK::PubEd, h.0.to_vec()),
        PD::PublicSr25519(h) => V::Bytes(BK::PubSr, h.0.to_vec()),
        PD::PublicEcdsa(h) => V::Bytes(BK::PubEc, h.0.to_vec()),
        PD::Sequence(s) => {
            let e = infos(&s.element_info);
            match &s.data {
                c::Sequence::U8(a) => V::Nums(8, e, a.iter().map(|x| *x as u128).collect()),
                c::Sequence::U16(a) => V::Nums(16, e, a.iter().map(|x| *x as u128).collect()),
                c::Sequence::U32(a) => V::Nums(32, e, a.iter().map(|x| *x as u128).collect()),
                c::Sequence::U64(a) => V::Nums(64, e, a.iter().map(|x| *x as u128).collect()),
                c::Sequence::U128(a) => V::Nums(128, e, a.clone()),
                c::Sequence::VecU8 { sequence, inner_element_info } => V::VecU8 { info: e, inner: infos(inner_element_info), data: sequence.clone() },
            }
        }
        PD::SequenceRaw(s) => V::Raw(infos(&s.element_info), s.data.iter().map(val).collect()),
        PD::SignatureEd25519(h) => V::Bytes(BK::SigEd, h.0.to_vec()),
        PD::SignatureSr25519(h) => V::Bytes(BK::SigSr, h.0.to_vec()),
        PD::SignatureEcdsa(h) => V::Bytes(BK::SigEc, h.0.to_vec()),
        PD::Text { text, specialty } => V::Text(text.to_string(), matches!(specialty, SpecialtyStr::SpecName)),
        PD::Tuple(t) => V::Tup(t.iter().map(ext).collect()),
        PD::Variant(v) => V::Var { name: v.variant_name.clone(), docs: v.variant_docs.clone(), fields: fields(&v.fields) },
    }
}

/// FNV-1a style hasher, for counting distinct outcomes.
pub struct Fnv(pub u64);
impl core::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
    // same on 32 and 64 bits
    fn write_usize(&mut self, n: usize) {
        self.write(&(n as u64).to_le_bytes());
    }
    fn write_isize(&mut self, n: isize) {
        self.write(&(n as i64).to_le_bytes());
    }
}
pub fn hash_of<T: core::hash::Hash>(t: &T) -> u64 {
    use core::hash::Hasher;
    let mut h = Fnv(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}
