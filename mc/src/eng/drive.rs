//! Entry points: reference outcome, real outcome, comparison, derived executions.
use super::env::*;
use super::explore::{Ctx, Res, Stats};
use super::refcards::{self, Specs};
use super::refdec::*;
use super::tyb::*;
use super::val::*;
use alloc::boxed::Box;
use alloc::collections::BTreeMap;
use alloc::format;
use alloc::rc::Rc;
use alloc::string::{String, ToString};
use alloc::vec::Vec;
use external_memory_tools::{AddressableBuffer, BufferError};
use frame_metadata::v14::{StorageEntryMetadata, StorageEntryType, StorageHasher};
use primitive_types::H256;
use substrate_parser::cards::{Call, ExtendedData};
use substrate_parser::error::*;
use substrate_parser::storage_data::{Hash, KeyData, KeyPart};
use substrate_parser::unchecked_extrinsic::UncheckedExtrinsic;

/// What is asked of the parser.
#[derive(Clone, Debug)]
pub enum Entry {
    Type { id: u32, start: usize },
    All { id: u32 },
    Tx { genesis: Option<[u8; 32]> },
    TxPlain { genesis: Option<[u8; 32]> },
    Ext { start: usize, genesis: Option<[u8; 32]> },
    Call { start: usize },
    Unchecked,
    Storage { entry: Rc<StorageEntryMetadata<PortableForm>> },
    Compact { width: usize, start: usize },
}

/// A delivered result.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Good {
    Val(X, usize),
    Tx(Result<P, Bad>, Vec<X>),
    Ext(Vec<X>, usize),
    Call(P, usize),
    Signed(X, X, X, P),
    Unsigned(P),
    Store(Key, X, String),
    Num(u128, usize),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Key {
    Plain,
    One(Part),
    Many(Vec<Part>, I),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Part {
    Hash(&'static str, Vec<u8>, u32),
    Parsed(X),
}
/// A refusal.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Bad {
    Parse(RE),
    Cut,
    ExtList(&'static str),
    Immortal,
    Meta(String),
    NotACall(u32),
    UnusedCall(usize, usize),
    UnusedExt(usize),
    WrongGenesis(Vec<u8>, Vec<u8>),
    WrongSpec(String, String),
    NoLength,
    Version(u8, u8),
    CallTy(u32),
    Key(RE),
    Value(RE),
    KeyMismatch,
    KeyUnused,
    KeyShort,
    KeyNotTuple,
    KeyNumber,
    KeyExceeds,
    /// several conditions are violated; naming any of them is right
    AnyOf(Vec<Bad>),
}
pub type O = Result<Good, Bad>;

impl From<RE> for Bad {
    fn from(e: RE) -> Bad {
        Bad::Parse(e)
    }
}
pub fn blown(o: &O) -> bool {
    matches!(o, Err(Bad::Parse(RE::Blowup) | Bad::Key(RE::Blowup) | Bad::Value(RE::Blowup)) | Ok(Good::Tx(Err(Bad::Parse(RE::Blowup)), _)))
}

// ---- reference ----

fn num_text(v: &V) -> Option<String> {
    match v {
        V::UInt(_, n, Sp::SpecVersion) => Some(n.to_string()),
        _ => None,
    }
}

pub fn ref_ext(w: &dyn World, total: usize, start: usize, m: &Meta, genesis: &Option<[u8; 32]>) -> Result<(Vec<X>, usize), Bad> {
    ask(m, MetaQ::SignedExtensions)?;
    let mut r = Ref::new(w, total, start);
    let mut out = Vec::new();
    for (i, t, _) in &m.exts {
        out.push(r.decode(*t, None, Cx::new(h_ext(i)), Vec::new())?);
    }
    for (i, _, t) in &m.exts {
        out.push(r.decode(*t, None, Cx::new(h_ext(i)), Vec::new())?);
    }
    if r.pos != total {
        return Err(Bad::UnusedExt(r.pos));
    }
    ask(m, MetaQ::SpecNameVersion)?;
    let (mut era, mut gen, mut block, mut spec) = (Vec::new(), Vec::new(), Vec::new(), Vec::new());
    for x in &out {
        let v = match &x.v {
            V::Comp(f) if f.len() == 1 => &f[0].x.v,
            V::Comp(_) => continue,
            v => v,
        };
        match v {
            V::Era(e) => era.push(*e),
            V::Bytes(BK::GenesisHash, b) => gen.push(b.clone()),
            V::Bytes(BK::BlockHash, b) => block.push(b.clone()),
            v => {
                if let Some(t) = num_text(v) {
                    spec.push(t);
                }
            }
        }
    }
    let mut bad = Vec::new();
    for (n, what) in [(era.len(), "EraTwice"), (gen.len(), "GenesisHashTwice"), (block.len(), "BlockHashTwice"), (spec.len(), "SpecVersionTwice")] {
        if n > 1 {
            bad.push(Bad::ExtList(what));
        }
    }
    if spec.is_empty() {
        bad.push(Bad::ExtList("NoSpecVersion"));
    }
    for s in &spec {
        if *s != m.version {
            bad.push(Bad::WrongSpec(s.clone(), m.version.clone()));
        }
    }
    if gen.is_empty() {
        bad.push(Bad::ExtList("NoGenesisHash"));
    }
    for g in &gen {
        if let Some(w) = genesis {
            if *g != w.to_vec() {
                bad.push(Bad::WrongGenesis(g.clone(), w.to_vec()));
            }
        }
    }
    if era.contains(&None) && block.iter().any(|b| gen.iter().any(|g| g != b)) {
        bad.push(Bad::Immortal);
    }
    match bad.len() {
        0 => {}
        1 => return Err(bad.remove(0)),
        _ => return Err(Bad::AnyOf(bad)),
    }
    Ok((out, r.pos))
}
fn ask(m: &Meta, q: MetaQ) -> Result<(), Bad> {
    if m.broken == Some(q) {
        return Err(Bad::Meta(format!("{:?}", MetaErr(q))));
    }
    Ok(())
}
pub fn ref_call(w: &dyn World, total: usize, start: usize, m: &Meta) -> Result<(P, usize), Bad> {
    ask(m, MetaQ::CallTy)?;
    let (x, pos) = run(w, total, start, m.call_ty, H::No)?;
    match x.v {
        V::Call(p) => Ok((p, pos)),
        _ => Err(Bad::NotACall(m.call_ty)),
    }
}
pub fn ref_mark(w: &dyn World, total: usize) -> Result<(usize, usize), Bad> {
    let mut r = Ref::new(w, total, 0);
    let n = r.compact(4).map_err(|_| Bad::Cut)? as u64;
    if n > (total - r.pos) as u64 {
        return Err(Bad::Cut);
    }
    Ok((r.pos, r.pos + n as usize))
}
fn ref_store(w: &dyn World, total: usize, w2: &dyn World, total2: usize, e: &StorageEntryMetadata<PortableForm>) -> O {
    if total < 32 {
        return Err(Bad::KeyShort);
    }
    let (key, vt) = match &e.ty {
        StorageEntryType::Plain(t) => {
            if total != 32 {
                return Err(Bad::KeyExceeds);
            }
            (Key::Plain, t.id)
        }
        StorageEntryType::Map { hashers, key, value } => (ref_key(w, total, 32, hashers, key.id)?, value.id),
    };
    let (x, pos) = run(w2, total2, 0, vt, H::No).map_err(Bad::Value)?;
    if pos != total2 {
        return Err(Bad::Value(RE::Unused(pos)));
    }
    Ok(Good::Store(key, x, e.docs.join("\n")))
}
/// The key from `start` on.
pub fn ref_key(w: &dyn World, total: usize, start: usize, hashers: &[StorageHasher], key: u32) -> Result<Key, Bad> {
    let mut r = Ref::new(w, total, start);
    let out = if hashers.len() == 1 {
        Key::One(ref_part(&mut r, &hashers[0], key)?)
    } else {
        let t = w.ty(key).ok_or(Bad::Key(RE::NoType(key)))?;
        let TypeDef::Tuple(tt) = &t.type_def else { return Err(Bad::KeyNotTuple) };
        if tt.fields.len() != hashers.len() {
            return Err(Bad::KeyNumber);
        }
        let mut parts = Vec::new();
        for (h, t) in hashers.iter().zip(&tt.fields) {
            parts.push(ref_part(&mut r, h, t.id)?);
        }
        Key::Many(parts, info_of(&t))
    };
    if r.pos != total {
        return Err(Bad::KeyUnused);
    }
    Ok(out)
}
fn ref_part(r: &mut Ref, h: &StorageHasher, id: u32) -> Result<Part, Bad> {
    let opaque = |r: &mut Ref, n: usize, k: &'static str| -> Result<Part, Bad> { Ok(Part::Hash(k, r.take(n).map_err(Bad::Key)?, id)) };
    let concat = |r: &mut Ref, n: usize, f: &dyn Fn(&[u8]) -> Vec<u8>| -> Result<Part, Bad> {
        let h = r.take(n).map_err(Bad::Key)?;
        let at = r.pos;
        let x = r.decode(id, None, Cx::new(H::No), Vec::new()).map_err(Bad::Key)?;
        let b = if r.pos > at { r.w.bytes(at, r.pos - at) } else { Vec::new() };
        if f(&b) != h {
            return Err(Bad::KeyMismatch);
        }
        Ok(Part::Parsed(x))
    };
    match h {
        StorageHasher::Blake2_128 => opaque(r, 16, "Blake2_128"),
        StorageHasher::Blake2_256 => opaque(r, 32, "Blake2_256"),
        StorageHasher::Twox128 => opaque(r, 16, "Twox128"),
        StorageHasher::Twox256 => opaque(r, 32, "Twox256"),
        StorageHasher::Blake2_128Concat => concat(r, 16, &|b| sp_crypto_hashing::blake2_128(b).to_vec()),
        StorageHasher::Twox64Concat => concat(r, 8, &|b| sp_crypto_hashing::twox_64(b).to_vec()),
        StorageHasher::Identity => Ok(Part::Parsed(r.decode(id, None, Cx::new(H::No), Vec::new()).map_err(Bad::Key)?)),
    }
}

pub fn reference(e: &Entry, w: &dyn World, total: usize, w2: &dyn World, total2: usize, m: &Meta) -> O {
    match e {
        Entry::Type { id, start } => {
            let (x, p) = run(w, total, *start, *id, H::No)?;
            Ok(Good::Val(x, p))
        }
        Entry::All { id } => {
            let (x, p) = run(w, total, 0, *id, H::No)?;
            if p != total {
                return Err(RE::Unused(p).into());
            }
            Ok(Good::Val(x, p))
        }
        Entry::Ext { start, genesis } => ref_ext(w, total, *start, m, genesis).map(|(x, p)| Good::Ext(x, p)),
        Entry::Call { start } => ref_call(w, total, *start, m).map(|(x, p)| Good::Call(x, p)),
        Entry::Tx { genesis } => {
            let (cs, es) = ref_mark(w, total)?;
            let (ext, _) = ref_ext(w, total, es, m, genesis)?;
            let call = match ref_call(w, es, cs, m) {
                Ok((p, pos)) if pos == es => Ok(p),
                Ok((_, pos)) => Err(Bad::UnusedCall(pos, es)),
                Err(e) => Err(e),
            };
            Ok(Good::Tx(call, ext))
        }
        Entry::TxPlain { genesis } => {
            let (p, pos) = ref_call(w, total, 0, m)?;
            let (ext, _) = ref_ext(w, total, pos, m, genesis)?;
            Ok(Good::Tx(Ok(p), ext))
        }
        Entry::Unchecked => ref_unchecked(w, total, m, true),
        Entry::Storage { entry } => ref_store(w, total, w2, total2, entry),
        Entry::Compact { width, start } => {
            let mut r = Ref::new(w, total, *start);
            let v = r.compact(*width)?;
            Ok(Good::Num(v, r.pos))
        }
    }
}

/// `whole`: data left after the call is refused.
fn ref_unchecked(w: &dyn World, total: usize, m: &Meta, whole: bool) -> O {
            ask(m, MetaQ::Params)?;
            let mut r = Ref::new(w, total, 0);
            let n = r.compact(4).map_err(|_| Bad::NoLength)? as u64;
            let have = (total - r.pos) as u64;
            if n > have {
                return Err(RE::Short(total, (n - have) as usize).into());
            }
            if n < have {
                return Err(RE::Unused(r.pos + n as usize).into());
            }
            let b = r.take(1)?[0];
            ask(m, MetaQ::Version)?;
            if b & 0x7f != m.ext_version {
                return Err(Bad::Version(b, m.ext_version));
            }
            let [a, c, s, x] = m.params;
            let get = |r: &mut Ref, id: u32| r.decode(id, None, Cx::new(H::No), Vec::new());
            let signed = if b & 0x80 != 0 { Some((get(&mut r, a)?, get(&mut r, s)?, get(&mut r, x)?)) } else { None };
            let call = match get(&mut r, c)?.v {
                V::Call(p) => p,
                _ => return Err(Bad::CallTy(c)),
            };
            if whole && r.pos != total {
                return Err(RE::Unused(r.pos).into());
            }
            Ok(match signed {
                Some((a, s, x)) => Good::Signed(a, s, x, call),
                None => Good::Unsigned(call),
            })
}

/// The listed finding: an unchecked extrinsic is accepted although data is left after its call.
pub const TAIL: &str = "unchecked-trailing";
fn is_tail(e: &Entry, w: &dyn World, total: usize, m: &Meta, real: &O, want: &O, o: &Opts) -> bool {
    matches!((e, real, want), (Entry::Unchecked, Ok(_), Err(Bad::Parse(RE::Unused(_))))) && same(real, &ref_unchecked(w, total, m, false), o.proj, Errs::Exact)
}

// ---- the real code ----

fn buf_err(e: &BufferError<Mem>) -> RE {
    match e {
        BufferError::DataTooShort { position, minimal_length } => RE::Short(*position, *minimal_length),
        BufferError::OutOfRange { position, total_length } => RE::OutOfRange(*position, *total_length),
        BufferError::External(_) => RE::Fault,
    }
}
pub fn perr(e: &ParserError<Mem>) -> RE {
    match e {
        ParserError::Buffer(b) => buf_err(b),
        ParserError::Registry(RegistryError::External(_)) => RE::Fault,
        ParserError::Registry(RegistryError::Internal(i)) => match i {
            RegistryInternalError::CyclicMetadata { id } => RE::Cyclic(*id),
            RegistryInternalError::NotBitOrderType { id } => RE::NotOrder(*id),
            RegistryInternalError::NotBitStoreType { id } => RE::NotStore(*id),
            RegistryInternalError::TypeNotResolved { id } => RE::NoType(*id),
            RegistryInternalError::UnexpectedCompactInsides { id } => RE::CompactIn(*id),
            RegistryInternalError::ExtrinsicNoCallParam => RE::TypeFail(0, "ExtrinsicNoCallParam"),
            RegistryInternalError::UnexpectedExtrinsicType { .. } => RE::TypeFail(0, "UnexpectedExtrinsicType"),
        },
        ParserError::NoCompact { position } => RE::NoCompact(*position),
        ParserError::SomeDataNotUsedBlob { from } => RE::Unused(*from),
        ParserError::TypeFailure { position, ty } => RE::TypeFail(*position, ty),
        ParserError::UnexpectedEnumVariant { position } => RE::BadVariant(*position),
    }
}
pub fn serr(e: &SignableError<Mem, Meta>) -> Bad {
    match e {
        SignableError::CutSignable => Bad::Cut,
        SignableError::ExtensionsList(l) => Bad::ExtList(match l {
            ExtensionsError::BlockHashTwice => "BlockHashTwice",
            ExtensionsError::EraTwice => "EraTwice",
            ExtensionsError::GenesisHashTwice => "GenesisHashTwice",
            ExtensionsError::NoGenesisHash => "NoGenesisHash",
            ExtensionsError::NoSpecVersion => "NoSpecVersion",
            ExtensionsError::SpecVersionTwice => "SpecVersionTwice",
        }),
        SignableError::ImmortalHashMismatch => Bad::Immortal,
        SignableError::MetaStructure(m) => Bad::Meta(format!("{m:?}")),
        SignableError::NotACall(i) => Bad::NotACall(*i),
        SignableError::Parsing(p) => Bad::Parse(perr(p)),
        SignableError::SomeDataNotUsedCall { from, to } => Bad::UnusedCall(*from, *to),
        SignableError::SomeDataNotUsedExtensions { from } => Bad::UnusedExt(*from),
        SignableError::WrongGenesisHash { as_decoded, expected } => Bad::WrongGenesis(as_decoded.0.to_vec(), expected.0.to_vec()),
        SignableError::WrongSpecVersion { as_decoded, in_metadata } => Bad::WrongSpec(as_decoded.clone(), in_metadata.clone()),
    }
}
fn uerr(e: &UncheckedExtrinsicError<Mem, Meta>) -> Bad {
    match e {
        UncheckedExtrinsicError::FormatNoCompact => Bad::NoLength,
        UncheckedExtrinsicError::MetaStructure(m) => Bad::Meta(format!("{m:?}")),
        UncheckedExtrinsicError::Parsing(p) => Bad::Parse(perr(p)),
        UncheckedExtrinsicError::VersionMismatch { version_byte, version } => Bad::Version(*version_byte, *version),
        UncheckedExtrinsicError::UnexpectedCallTy { call_ty_id } => Bad::CallTy(*call_ty_id),
    }
}
pub fn sterr(e: &StorageError<Mem>) -> Bad {
    match e {
        StorageError::KeyPartHashMismatch => Bad::KeyMismatch,
        StorageError::KeyPartsUnused => Bad::KeyUnused,
        StorageError::KeyShorterThanPrefix => Bad::KeyShort,
        StorageError::MultipleHashesNotATuple => Bad::KeyNotTuple,
        StorageError::MultipleHashesNumberMismatch => Bad::KeyNumber,
        StorageError::ParsingKey(p) => Bad::Key(perr(p)),
        StorageError::ParsingValue(p) => Bad::Value(perr(p)),
        StorageError::PlainKeyExceedsPrefix => Bad::KeyExceeds,
    }
}
fn part(p: &KeyPart) -> Part {
    match p {
        KeyPart::Hash(h) => {
            let (k, b) = match &h.hash {
                Hash::Blake2_128(b) => ("Blake2_128", b.to_vec()),
                Hash::Blake2_256(b) => ("Blake2_256", b.to_vec()),
                Hash::Twox128(b) => ("Twox128", b.to_vec()),
                Hash::Twox256(b) => ("Twox256", b.to_vec()),
            };
            Part::Hash(k, b, h.type_id)
        }
        KeyPart::Parsed(x) => Part::Parsed(ext(x)),
    }
}

pub fn key_of(k: &KeyData) -> Key {
    match k {
        KeyData::Plain => Key::Plain,
        KeyData::SingleHash { content } => Key::One(part(content)),
        KeyData::TupleHash { content, info: i } => Key::Many(content.iter().map(part).collect(), info(i)),
    }
}

/// Raw results, kept for the presentation checks.
pub enum Keep {
    /// call if there is one, extensions, whether it was marked
    Tx(Option<Call>, Vec<ExtendedData>, bool),
    X(ExtendedData, bool),
    C(Call),
}

pub struct Real {
    pub o: O,
    /// text of the error, if any
    pub text: String,
    pub keep: Vec<Keep>,
}

fn fail(b: Bad, text: String) -> Real {
    Real { o: Err(b), text, keep: Vec::new() }
}
fn good(g: Good, keep: Vec<Keep>) -> Real {
    Real { o: Ok(g), text: String::new(), keep }
}

pub fn real<B: AddressableBuffer<Mem>>(e: &Entry, buf: &B, buf2: &B, mem: &mut Mem, m: &Meta) -> Real {
    use substrate_parser as sp;
    let g = |g: &Option<[u8; 32]>| g.map(H256);
    match e {
        Entry::Type { id, start } => {
            let mut pos = *start;
            match sp::decode_as_type_at_position::<B, Mem, Meta>(&sym(*id), buf, mem, &m.reg, &mut pos) {
                Ok(x) => good(Good::Val(ext(&x), pos), alloc::vec![Keep::X(x, false)]),
                Err(e) => fail(Bad::Parse(perr(&e)), e.to_string()),
            }
        }
        Entry::All { id } => match sp::decode_all_as_type::<B, Mem, Meta>(&sym(*id), buf, mem, &m.reg) {
            Ok(x) => good(Good::Val(ext(&x), buf.total_len()), alloc::vec![Keep::X(x, false)]),
            Err(e) => fail(Bad::Parse(perr(&e)), e.to_string()),
        },
        Entry::Ext { start, genesis } => {
            let mut pos = *start;
            match sp::decode_extensions_unmarked::<B, Mem, Meta>(buf, &mut pos, mem, m, g(genesis)) {
                Ok(v) => good(Good::Ext(v.iter().map(ext).collect(), pos), v.into_iter().map(|x| Keep::X(x, true)).collect()),
                Err(e) => fail(serr(&e), e.to_string()),
            }
        }
        Entry::Call { start } => {
            let mut pos = *start;
            match sp::decode_as_call_unmarked::<B, Mem, Meta>(buf, &mut pos, mem, m) {
                Ok(c) => good(Good::Call(call(&c), pos), alloc::vec![Keep::C(c)]),
                Err(e) => fail(serr(&e), e.to_string()),
            }
        }
        Entry::Tx { genesis } => match sp::parse_transaction::<B, Mem, Meta>(buf, mem, m, g(genesis)) {
            Ok(t) => {
                let x: Vec<X> = t.extensions.iter().map(ext).collect();
                let c = t.call_result.as_ref().map(call).map_err(serr);
                let text = t.call_result.as_ref().err().map(|e| e.to_string()).unwrap_or_default();
                Real { o: Ok(Good::Tx(c, x)), text, keep: alloc::vec![Keep::Tx(t.call_result.ok(), t.extensions, true)] }
            }
            Err(e) => fail(serr(&e), e.to_string()),
        },
        Entry::TxPlain { genesis } => match sp::parse_transaction_unmarked::<B, Mem, Meta>(buf, mem, m, g(genesis)) {
            Ok(t) => {
                let x: Vec<X> = t.extensions.iter().map(ext).collect();
                let c = call(&t.call);
                good(Good::Tx(Ok(c), x), alloc::vec![Keep::Tx(Some(t.call), t.extensions, false)])
            }
            Err(e) => fail(serr(&e), e.to_string()),
        },
        Entry::Unchecked => match sp::decode_as_unchecked_extrinsic::<B, Mem, Meta>(buf, mem, m) {
            Ok(UncheckedExtrinsic::Signed { address, signature, extra, call: c }) => {
                let o = Good::Signed(ext(&address), ext(&signature), ext(&extra), call(&c));
                good(o, alloc::vec![Keep::X(address, true), Keep::X(signature, true), Keep::X(extra, true), Keep::C(c)])
            }
            Ok(UncheckedExtrinsic::Unsigned { call: c }) => good(Good::Unsigned(call(&c)), alloc::vec![Keep::C(c)]),
            Err(e) => fail(uerr(&e), e.to_string()),
        },
        Entry::Storage { entry } => match sp::decode_as_storage_entry::<B, Mem, Meta>(buf, buf2, mem, entry, &m.reg) {
            Ok(s) => {
                let k = key_of(&s.key);
                let mut keep = alloc::vec![];
                let mut part = |p: KeyPart| {
                    if let KeyPart::Parsed(x) = p {
                        keep.push(Keep::X(x, false));
                    }
                };
                match s.key {
                    KeyData::Plain => {}
                    KeyData::SingleHash { content } => part(content),
                    KeyData::TupleHash { content, .. } => content.into_iter().for_each(part),
                }
                let v = ext(&s.value);
                keep.push(Keep::X(s.value, false));
                good(Good::Store(k, v, s.docs.clone()), keep)
            }
            Err(e) => fail(sterr(&e), e.to_string()),
        },
        Entry::Compact { width, start } => {
            use sp::compacts::get_compact;
            let mut pos = *start;
            let r = match width {
                1 => get_compact::<u8, B, Mem>(buf, mem, &mut pos).map(|x| x as u128),
                2 => get_compact::<u16, B, Mem>(buf, mem, &mut pos).map(|x| x as u128),
                4 => get_compact::<u32, B, Mem>(buf, mem, &mut pos).map(|x| x as u128),
                8 => get_compact::<u64, B, Mem>(buf, mem, &mut pos).map(|x| x as u128),
                _ => get_compact::<u128, B, Mem>(buf, mem, &mut pos),
            };
            match r {
                Ok(v) => good(Good::Num(v, pos), Vec::new()),
                Err(e) => fail(Bad::Parse(perr(&e)), e.to_string()),
            }
        }
    }
}

// ---- comparison ----

pub fn project(p: Proj, o: &O) -> O {
    let mut o = o.clone();
    let none = || I { docs: String::new(), path: Vec::new() };
    if let Ok(g) = &mut o {
        match g {
            Good::Val(x, _) => p.x(x),
            Good::Ext(x, _) => x.iter_mut().for_each(|x| p.x(x)),
            Good::Call(c, _) | Good::Unsigned(c) => p.p(c),
            Good::Tx(c, x) => {
                x.iter_mut().for_each(|x| p.x(x));
                if let Ok(c) = c {
                    p.p(c);
                }
            }
            Good::Signed(a, b, c, d) => {
                p.x(a);
                p.x(b);
                p.x(c);
                p.p(d);
            }
            Good::Store(k, x, d) => {
                p.x(x);
                if !p.info {
                    d.clear();
                }
                let one = |q: &mut Part| {
                    if let Part::Parsed(x) = q {
                        p.x(x);
                    }
                };
                match k {
                    Key::Plain => {}
                    Key::One(q) => one(q),
                    Key::Many(v, i) => {
                        v.iter_mut().for_each(one);
                        if !p.info {
                            *i = none();
                        }
                    }
                }
            }
            Good::Num(..) => {}
        }
    }
    o
}

/// How exactly errors are compared.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Errs {
    /// any error is as good as any other
    Any,
    /// extension conditions, split, storage conditions exactly; parse errors alike
    Kind,
    Exact,
}

fn kind(b: &Bad) -> Bad {
    match b {
        Bad::Parse(_) => Bad::Parse(RE::Fault),
        Bad::Key(_) => Bad::Key(RE::Fault),
        Bad::Value(_) => Bad::Value(RE::Fault),
        b => b.clone(),
    }
}

fn same_bad(a: &Bad, b: &Bad, errs: Errs) -> bool {
    if let Bad::AnyOf(l) = b {
        return errs == Errs::Any || l.contains(a);
    }
    match errs {
        Errs::Any => true,
        Errs::Kind => kind(a) == kind(b),
        Errs::Exact => a == b,
    }
}

pub fn same(real: &O, want: &O, p: Proj, errs: Errs) -> bool {
    match (real, want) {
        (Err(a), Err(b)) => same_bad(a, b, errs),
        (Ok(_), Ok(_)) => {
            let (a, b) = (project(p, real), project(p, want));
            match (&a, &b) {
                (Ok(Good::Tx(Err(e), x)), Ok(Good::Tx(Err(f), y))) => x == y && same_bad(e, f, errs),
                _ => a == b,
            }
        }
        _ => false,
    }
}

/// Numbers an error text has to show.
fn must_show(e: &RE) -> Vec<String> {
    match e {
        RE::OutOfRange(a, b) | RE::Short(a, b) => alloc::vec![a.to_string(), b.to_string()],
        RE::NoCompact(a) | RE::Unused(a) | RE::BadVariant(a) => alloc::vec![a.to_string()],
        RE::TypeFail(a, _) => alloc::vec![a.to_string()],
        RE::Cyclic(a) | RE::NotOrder(a) | RE::NotStore(a) | RE::NoType(a) | RE::CompactIn(a) => alloc::vec![a.to_string()],
        RE::Fault | RE::Blowup => Vec::new(),
    }
}
/// All maximal digit groups of a text.
fn numbers(t: &str) -> Vec<&str> {
    t.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).collect()
}
/// Words without which a text does not name the condition (small letters; one of the alternatives in each).
fn must_name(b: &Bad) -> Vec<&'static str> {
    let inner = |e: &RE| match e {
        RE::NoCompact(_) => "compact",
        RE::Unused(_) => "unused|not used",
        RE::BadVariant(_) => "variant",
        RE::TypeFail(_, t) => t,
        RE::Cyclic(_) => "cycl",
        RE::NotOrder(_) => "order",
        RE::NotStore(_) => "store",
        RE::NoType(_) => "resolve",
        RE::CompactIn(_) => "compact",
        _ => "",
    };
    match b {
        Bad::Parse(e) => alloc::vec![inner(e)],
        Bad::Key(e) => alloc::vec![inner(e), "key"],
        Bad::Value(e) => alloc::vec![inner(e), "value"],
        Bad::Cut => alloc::vec!["separat|split|cut"],
        Bad::ExtList(k) => match *k {
            "BlockHashTwice" => alloc::vec!["block hash", "more than one|twice"],
            "EraTwice" => alloc::vec!["era", "more than one|twice"],
            "GenesisHashTwice" => alloc::vec!["genesis", "more than one|twice"],
            "SpecVersionTwice" => alloc::vec!["version", "more than one|twice"],
            "NoGenesisHash" => alloc::vec!["genesis", "not include|no genesis"],
            _ => alloc::vec!["version", "not include|no spec"],
        },
        Bad::Immortal => alloc::vec!["immortal", "hash"],
        Bad::NotACall(_) => alloc::vec!["call"],
        Bad::UnusedCall(..) => alloc::vec!["call", "unused|not used"],
        Bad::UnusedExt(_) => alloc::vec!["extension", "unused|not used"],
        Bad::WrongGenesis(..) => alloc::vec!["genesis"],
        Bad::WrongSpec(..) => alloc::vec!["version"],
        Bad::NoLength => alloc::vec!["compact|length"],
        Bad::Version(..) => alloc::vec!["version"],
        Bad::CallTy(_) => alloc::vec!["call"],
        Bad::KeyMismatch => alloc::vec!["hash", "match"],
        Bad::KeyUnused => alloc::vec!["key", "unused|not used"],
        Bad::KeyShort => alloc::vec!["key", "short"],
        Bad::KeyNotTuple => alloc::vec!["tuple"],
        Bad::KeyNumber => alloc::vec!["number"],
        Bad::KeyExceeds => alloc::vec!["key", "prefix"],
        Bad::Meta(_) | Bad::AnyOf(_) => alloc::vec![],
    }
}
fn text_shows(b: &Bad, text: &str) -> Result<(), String> {
    let small = text.to_lowercase();
    for w in must_name(b) {
        if !w.split('|').any(|w| small.contains(&w.to_lowercase())) {
            return Err(format!("error text {text:?} does not tell of {w:?}, although the error is {b:?}"));
        }
    }
    let want = match b {
        Bad::Parse(e) | Bad::Key(e) | Bad::Value(e) => must_show(e),
        Bad::NotACall(a) | Bad::CallTy(a) => alloc::vec![a.to_string()],
        Bad::UnusedCall(a, b) => alloc::vec![a.to_string(), b.to_string()],
        Bad::UnusedExt(a) => alloc::vec![a.to_string()],
        Bad::WrongGenesis(a, b) => {
            for h in [a, b] {
                if !text.contains(&hex::encode(h)) {
                    return Err(format!("error text {text:?} does not show hash {}", hex::encode(h)));
                }
            }
            Vec::new()
        }
        Bad::WrongSpec(a, b) => alloc::vec![a.clone(), b.clone()],
        Bad::Version(a, b) => alloc::vec![a.to_string(), b.to_string()],
        _ => Vec::new(),
    };
    if text.is_empty() {
        return Err(format!("empty error text for {b:?}"));
    }
    let have = numbers(text);
    for w in want {
        if w.chars().all(|c| c.is_ascii_digit()) && !have.contains(&w.as_str()) || !text.contains(&w) {
            return Err(format!("error text {text:?} does not show {w}"));
        }
    }
    if let Bad::UnusedCall(a, z) = b {
        let at = |n: &usize| have.iter().position(|h| *h == n.to_string());
        if at(a) > at(z) {
            return Err(format!("error text {text:?} turns the range {a}..{z} around"));
        }
    }
    Ok(())
}

/// Which derived executions accompany each explored one.
#[derive(Clone, Debug)]
pub struct Opts {
    pub proj: Proj,
    pub errs: Errs,
    pub text: bool,
    /// total length offered in the lazy run
    pub total: usize,
    /// the offered length becomes the used one
    pub fit: bool,
    /// exact-length run, one trailing byte
    pub exact: bool,
    /// every shorter input
    pub cuts: bool,
    /// same bytes at another start
    pub shift: bool,
    /// other bytes where nothing was read
    pub fill: bool,
    /// paged memory
    pub paged: bool,
    /// fault at every access
    pub faults: bool,
    /// another parse inside every access
    pub nested: bool,
    /// memory taken stays in proportion to the data
    pub memory: bool,
    /// cards and text
    pub cards: bool,
    /// data left after the call of an unchecked extrinsic is a violation
    pub tail: bool,
    /// results are compared with the reference (otherwise only with each other)
    pub base: bool,
}
impl Opts {
    /// Many executions are derived from each one: fewer base executions are taken.
    pub fn slim(&self) -> bool {
        self.paged || self.faults || self.nested
    }
    pub fn new(proj: Proj, errs: Errs) -> Opts {
        Opts { proj, errs, text: false, total: 160, fit: false, exact: false, cuts: false, shift: false, fill: false, paged: false, faults: false, nested: false, memory: false, cards: false, tail: false, base: true }
    }
}

pub fn end_of(g: &Good) -> usize {
    match g {
        Good::Val(_, p) | Good::Ext(_, p) | Good::Call(_, p) | Good::Num(_, p) => *p,
        _ => 0,
    }
}

fn show(o: &O) -> String {
    let mut s = format!("{o:?}");
    if s.len() > 1500 {
        s.truncate(1500);
        s.push_str("...");
    }
    s
}

pub struct Case<'a> {
    pub e: Entry,
    pub types: Rc<Types>,
    pub data: &'a [u8],
    pub data2: &'a [u8],
    pub m: Meta,
}
impl Case<'_> {
    pub fn reference(&self) -> O {
        reference(
            &self.e,
            &Fixed { types: &self.types, data: self.data },
            self.data.len(),
            &Fixed { types: &self.types, data: self.data2 },
            self.data2.len(),
            &self.m,
        )
    }
    pub fn real(&self, mem: &mut Mem) -> Result<Real, String> {
        guard(|| real::<&[u8]>(&self.e, &self.data, &self.data2, mem, &self.m))
    }
    /// Every read and every type lookup is a counted access.
    pub fn paged(&self, mem: &mut Mem) -> Result<Real, String> {
        let (p, p2) = (Paged::new(self.data, 1 << 20, 0), Paged::new(self.data2, 1 << 20, 0));
        guard(|| real(&self.e, &p, &p2, mem, &self.m))
    }
    pub fn describe(&self) -> String {
        format!("{:?} on data {} {} with types {}", self.e, hex::encode(self.data), hex::encode(self.data2), types_text(&self.types))
    }
    /// One execution of the real code against the reference.
    pub fn check(&self, st: &mut Stats, o: &Opts, what: &str) -> Result<Option<(O, Real)>, super::explore::Viol> {
        let want = self.reference();
        if blown(&want) {
            st.skipped += 1;
            return Ok(None);
        }
        let mut mem = Mem::new();
        memory::forget();
        let r = match self.real(&mut mem) {
            Ok(r) => r,
            Err(p) => viol!("{what}: panic: {p}\n expected {}\n in {}", show(&want), self.describe()),
        };
        if o.memory {
            frugal(self.data.len() + self.data2.len(), || self.describe())?;
        }
        account(st, &mem, &r);
        if o.cards {
            check_cards(st, &r, true)?;
        }
        if o.base && !same(&r.o, &want, o.proj, o.errs) {
            if is_tail(&self.e, &Fixed { types: &self.types, data: self.data }, self.data.len(), &self.m, &r.o, &want, o) {
                if o.tail {
                    if st.aside.is_none() {
                        st.aside = Some(super::explore::Viol { msg: format!("{what}: got {}\n although data is left after the call\n in {}", show(&project(o.proj, &r.o)), self.describe()), key: TAIL.into() });
                    }
                }
                return Ok(Some((want, r)));
            }
            viol!("{what}: got {}\n expected {}\n in {}", show(&project(o.proj, &r.o)), show(&project(o.proj, &want)), self.describe());
        }
        texts(&r, o, || self.describe())?;
        if o.fill {
            unneeded_runs(st, self, &r)?;
        }
        if o.paged {
            paged_runs(st, self, &r)?;
        }
        if o.faults || o.nested {
            let mut mm = Mem::new();
            match self.paged(&mut mm) {
                Ok(p) => {
                    if p.o != r.o || p.text != r.text {
                        viol!("{what}: result from external memory {}\n instead of {}\n in {}", show(&p.o), show(&r.o), self.describe());
                    }
                }
                Err(p) => viol!("{what}: panic on external memory: {p}\n in {}", self.describe()),
            }
            if o.faults {
                fault_runs(st, self, mm.n, &r.o)?;
            }
            if o.nested {
                nested_runs(st, self, mm.n, &r.o)?;
            }
        }
        Ok(Some((want, r)))
    }
}
/// No piece of memory is far larger than anything the data could fill.
fn frugal(len: usize, d: impl Fn() -> String) -> Res {
    let (got, limit) = (memory::biggest(), (1 << 20) + 1024 * len);
    if got > limit {
        viol!("{got} bytes of memory are taken at once for {len} bytes of data\n in {}", d());
    }
    Ok(())
}
pub fn types_text(t: &Types) -> String {
    let mut s = String::new();
    for (k, v) in &t.map {
        s.push_str(&format!("\n   {k}: path {:?} docs {:?} {:?}", v.path.segments, v.docs, v.type_def));
    }
    if s.len() > 6000 {
        s.truncate(6000);
    }
    s
}

pub fn account(st: &mut Stats, mem: &Mem, r: &Real) {
    st.transitions += mem.n as u64;
    st.traces += 1;
    if r.o.is_ok() {
        st.accepted += 1;
    }
    let h = hash_of(&r.o);
    st.outcome(h);
    if super::explore::want_log() {
        st.log.push(format!("{:?} {}", r.o, r.text.chars().take(300).collect::<String>()));
    }
    st.digest = st.digest.wrapping_add(h ^ hash_of(&r.text).rotate_left(17));
}

fn texts(r: &Real, o: &Opts, d: impl Fn() -> String) -> Res {
    if o.text {
        let bad = match &r.o {
            Err(b) => Some(b),
            Ok(Good::Tx(Err(b), _)) => Some(b),
            _ => None,
        };
        if let Some(b) = bad {
            if let Err(m) = text_shows(b, &r.text) {
                viol!("{m}\n in {}", d());
            }
        }
    }
    Ok(())
}

pub const SPECS: [Specs<'static>; 3] = [
    Specs { prefix: 42, decimals: 12, unit: "WND", chain: "westend" },
    Specs { prefix: 0, decimals: 0, unit: "", chain: "" },
    Specs { prefix: 12345, decimals: 18, unit: "U.n-it", chain: "a b" },
];

pub fn check_cards(st: &mut Stats, r: &Real, all: bool) -> Res {
    for (i, s) in SPECS.iter().enumerate() {
        if !all && i != 0 {
            break;
        }
        check_cards_for(st, r, s, if i == 1 { 3 } else { 0 }, i == 2)?;
    }
    Ok(())
}
/// Cards and texts of the delivered result for one chain; `flip`: balances the other way.
pub fn check_cards_for(st: &mut Stats, r: &Real, s: &Specs, indent: u32, flip: bool) -> Res {
    let short = s.short();
    for k in &r.keep {
        let (cards, want, what) = match guard(|| match k {
            Keep::X(x, bal) => {
                let bal = *bal != flip;
                (x.card(indent, bal, &short, s.chain), refcards::cards_x(&ext(x), indent, bal, s), format!("{:?}", ext(x)))
            }
            Keep::Tx(c, x, marked) => {
                let want_x: Vec<_> = x.iter().flat_map(|x| refcards::cards_x(&ext(x), 0, true, s)).collect();
                let want_c = c.as_ref().map(|c| refcards::cards_call(&call(c), 0, s)).unwrap_or_default();
                let (got_x, got_c) = if *marked {
                    let t = substrate_parser::TransactionParsed::<Mem, Meta> { call_result: c.clone().ok_or(SignableError::CutSignable), extensions: x.clone() }.card(&short, s.chain);
                    assert!(t.call_result.is_ok() == c.is_some(), "cards of a transaction lose its call");
                    (t.extensions, t.call_result.unwrap_or_default())
                } else {
                    let t = substrate_parser::TransactionUnmarkedParsed { call: c.clone().expect("HARNESS: call"), extensions: x.clone() }.card(&short, s.chain);
                    (t.extensions, t.call)
                };
                assert!(got_x.len() == want_x.len(), "extensions make {} cards, expected {}", got_x.len(), want_x.len());
                let got: Vec<_> = got_x.into_iter().chain(got_c).collect();
                let want: Vec<_> = want_x.into_iter().chain(want_c).collect();
                (got, want, format!("{:?}", (c.as_ref().map(call), x.iter().map(ext).collect::<Vec<_>>())))
            }
            Keep::C(c) => (c.card(indent, &short, s.chain), refcards::cards_call(&call(c), indent, s), format!("{:?}", call(c))),
        }) {
            Ok(x) => x,
            Err(p) => viol!("cards: panic: {p}"),
        };
        st.traces += 1;
        st.digest = st.digest.wrapping_add(hash_of(&want));
        match guard(|| refcards::compare(&cards, &want)) {
            Ok(Ok(())) => {}
            Ok(Err(m)) => viol!("{m}\n for value {what}"),
            Err(p) => viol!("cards: panic: {p}"),
        }
    }
    Ok(())
}

/// Explores one entry over the lazily chosen environment, then the derived executions.
pub fn explore(ctx: &mut Ctx, env: &Rc<Env>, e: Entry, m: &Meta, o: &Opts) -> Res {
    let out = explore_inner(env, e, m, o);
    env.finish(ctx);
    let (st, r) = out;
    ctx.stats.add(&st);
    r
}
fn explore_inner(env: &Rc<Env>, e: Entry, m: &Meta, o: &Opts) -> (Stats, Res) {
    let mut st = Stats::default();
    let r = explore_body(&mut st, env, e, m, o);
    (st, r)
}
fn explore_body(st: &mut Stats, env: &Rc<Env>, e: Entry, m: &Meta, o: &Opts) -> Res {
    let mut total = o.total;
    let mut want = reference(&e, &**env, total, &**env, 0, m);
    if o.fit {
        if let Err(Bad::UnusedExt(p)) = want {
            total = p;
            want = reference(&e, &**env, total, &**env, 0, m);
        }
    }
    if blown(&want) {
        st.skipped += 1;
        return Ok(());
    }
    env.stop_branching();
    let buf = LazyBuf { env: env.clone(), len: total };
    let none = LazyBuf { env: env.clone(), len: 0 };
    let mut mem = Mem::new();
    memory::forget();
    let r = match guard(|| real(&e, &buf, &none, &mut mem, m)) {
        Ok(r) => r,
        Err(p) => viol!("panic: {p}\n expected {}\n in {}", show(&want), describe(env, &e)),
    };
    if o.memory {
        frugal(total, || describe(env, &e))?;
    }
    account(st, &mem, &r);
    if o.base && !same(&r.o, &want, o.proj, o.errs) {
        let tail = is_tail(&e, &**env, total, m, &r.o, &want, o);
        if tail && o.tail {
            return Err(super::explore::Viol { msg: format!("got {}\n although data is left after the call\n in {}", show(&project(o.proj, &r.o)), describe(env, &e)), key: TAIL.into() });
        }
        if !tail {
        viol!("got {}\n expected {}\n in {}", show(&project(o.proj, &r.o)), show(&project(o.proj, &want)), describe(env, &e));
        }
    }
    texts(&r, o, || describe(env, &e))?;
    if o.cards {
        check_cards(st, &r, true)?;
    }
    derived(st, env, &e, m, o, total, &want, &r)
}
fn describe(env: &Env, e: &Entry) -> String {
    let n = env.st.borrow().bytes.len();
    let d: Vec<String> = {
        let s = env.st.borrow();
        (0..n).map(|i| s.bytes[i].map(|b| format!("{b:02x}")).unwrap_or_else(|| "..".into())).collect()
    };
    format!("{e:?} on data {} with types {}", d.concat(), types_text(&env.known_types()))
}

fn at_start(e: &Entry, k: usize) -> Option<Entry> {
    Some(match e {
        Entry::Type { id, start } => Entry::Type { id: *id, start: start + k },
        Entry::Ext { start, genesis } => Entry::Ext { start: start + k, genesis: *genesis },
        Entry::Call { start } => Entry::Call { start: start + k },
        Entry::Compact { width, start } => Entry::Compact { width: *width, start: start + k },
        _ => return None,
    })
}

#[allow(clippy::too_many_arguments)]
fn derived(st: &mut Stats, env: &Rc<Env>, e: &Entry, m: &Meta, o: &Opts, total: usize, want: &O, first: &Real) -> Res {
    let need = o.exact || o.cuts || o.shift || o.fill || o.paged || o.faults || o.nested;
    if !need {
        return Ok(());
    }
    let types = Rc::new(env.known_types());
    let mut fm = m.clone();
    fm.reg = Reg::Fixed(types.clone());
    let data = env.known_bytes(total, 0);
    let case = |e: Entry, data: &[u8], f: &mut dyn FnMut(Case) -> Res| f(Case { e, types: types.clone(), data, data2: &[], m: fm.clone() });
    // the frozen run must be the explored one
    let mut plain = Mem::new();
    let base = Case { e: e.clone(), types: types.clone(), data: &data, data2: &[], m: fm.clone() };
    let b = match base.real(&mut plain) {
        Ok(r) => r,
        Err(p) => viol!("panic on the same input in a slice: {p}\n in {}", base.describe()),
    };
    account(st, &plain, &b);
    if b.o != first.o {
        viol!("result from slice {}\n differs from the one from lazily read memory {}\n in {}", show(&b.o), show(&first.o), base.describe());
    }
    if o.fill {
        for fill in [0xffu8, 0xa5] {
            let d = env.known_bytes(total, fill);
            case(e.clone(), &d, &mut |c| {
                let mut mm = Mem::new();
                match c.real(&mut mm) {
                    Ok(r) => {
                        account(st, &mm, &r);
                        if r.o != first.o {
                            viol!("bytes never read change the result: {} instead of {}\n in {}", show(&r.o), show(&first.o), c.describe());
                        }
                    }
                    Err(p) => viol!("panic when bytes never read change: {p}\n in {}", c.describe()),
                }
                Ok(())
            })?;
        }
    }
    if o.paged {
        paged_runs(st, &base, &b)?;
    }
    if o.faults || o.nested {
        let mut mm = Mem::new();
        match base.paged(&mut mm) {
            Ok(r) => {
                if r.o != first.o {
                    viol!("result from external memory {}\n instead of {}\n in {}", show(&r.o), show(&first.o), base.describe());
                }
            }
            Err(x) => viol!("panic on external memory: {x}\n in {}", base.describe()),
        }
        if o.faults {
            fault_runs(st, &base, mm.n, &first.o)?;
        }
        if o.nested {
            nested_runs(st, &base, mm.n, &first.o)?;
        }
    }
    if let Ok(g) = want {
        let end = end_of(g);
        if o.exact && end > 0 {
            case(e.clone(), &data[..end], &mut |c| c.check(st, o, "exact length").map(|_| ()))?;
            if let (Entry::Ext { .. }, true) = (e, o.base) {
                for other in [end + 1, end - 1] {
                    let mut d = data[..end].to_vec();
                    d.resize(other, 4);
                    case(e.clone(), &d, &mut |c| {
                        if let Some((Ok(_), _)) = c.check(st, o, "other length")? {
                            viol!("HARNESS: extensions of another length accepted by the reference");
                        }
                        Ok(())
                    })?;
                }
            }
            if let Entry::Type { id, start: 0 } = e {
                for extra in [0usize, 1, 2] {
                    let mut d = data[..end].to_vec();
                    d.resize(end + extra, 4);
                    case(Entry::All { id: *id }, &d, &mut |c| {
                        let r = c.check(st, o, "whole input")?;
                        if let Some((w, _)) = r {
                            if w.is_ok() != (extra == 0) {
                                viol!("HARNESS: whole input rule in the reference");
                            }
                        }
                        Ok(())
                    })?;
                }
            }
        }
        if o.exact && end == 0 {
            if let Entry::Type { id, start: 0 } = e {
                for d in [&[][..], &[0u8][..]] {
                    case(Entry::All { id: *id }, d, &mut |c| c.check(st, o, "whole input").map(|_| ()))?;
                }
            }
        }
        if o.cuts && end > 0 {
            for cut in 0..end {
                case(e.clone(), &data[..cut], &mut |c| c.check(st, o, "cut input").map(|_| ()))?;
            }
        }
        if o.shift {
            for k in [1usize, 5] {
                if let Some(e2) = at_start(e, k) {
                    let mut d = alloc::vec![0x08u8; k];
                    d.extend_from_slice(&data);
                    case(e2, &d, &mut |c| {
                        c.check(st, o, "shifted start")?;
                        Ok(())
                    })?;
                }
            }
        }
    }
    Ok(())
}

/// Notes the bytes asked for.
struct Asked<'a> {
    w: Fixed<'a>,
    seen: core::cell::RefCell<Vec<bool>>,
}
impl<'a> Asked<'a> {
    fn new(types: &'a Types, data: &'a [u8]) -> Asked<'a> {
        Asked { w: Fixed { types, data }, seen: core::cell::RefCell::new(alloc::vec![false; data.len()]) }
    }
    fn others(&self, f: impl Fn(u8) -> u8) -> Vec<u8> {
        self.w.data.iter().zip(self.seen.borrow().iter()).map(|(b, s)| if *s { *b } else { f(*b) }).collect()
    }
}
impl World for Asked<'_> {
    fn ty(&self, id: u32) -> Option<Rc<T>> {
        self.w.ty(id)
    }
    fn bytes(&self, pos: usize, n: usize) -> Vec<u8> {
        self.seen.borrow_mut()[pos..pos + n].iter_mut().for_each(|s| *s = true);
        self.w.bytes(pos, n)
    }
}
/// Bytes the encoding does not need are replaced by others.
fn unneeded_runs(st: &mut Stats, base: &Case, first: &Real) -> Res {
    let (a, b) = (Asked::new(&base.types, base.data), Asked::new(&base.types, base.data2));
    let _ = reference(&base.e, &a, base.data.len(), &b, base.data2.len(), &base.m);
    let all = |x: &Asked| x.seen.borrow().iter().all(|s| *s);
    if all(&a) && all(&b) {
        return Ok(());
    }
    let change: [fn(u8) -> u8; 3] = [|b| b ^ 0xff, |b| b ^ 1, |_| 0x80];
    for f in change {
        let (d, d2) = (a.others(f), b.others(f));
        let c = Case { e: base.e.clone(), types: base.types.clone(), data: &d, data2: &d2, m: base.m.clone() };
        let mut mm = Mem::new();
        match c.real(&mut mm) {
            Ok(r) => {
                account(st, &mm, &r);
                if r.o != first.o || r.text != first.text {
                    viol!("bytes the value does not need change the result: {}\n instead of {} from {}\n in {}", show(&r.o), show(&first.o), hex::encode(base.data), c.describe());
                }
            }
            Err(p) => viol!("panic when bytes the value does not need change: {p}\n in {}", c.describe()),
        }
    }
    Ok(())
}

/// The same bytes from memory delivered in pages.
pub fn paged_runs(st: &mut Stats, base: &Case, first: &Real) -> Res {
    for (page, skew) in [(1usize, 0usize), (2, 1), (3, 2), (32, 5), (1024, 0)] {
        let p = Paged::new(base.data, page, skew);
        let p2 = Paged::new(base.data2, page, skew);
        let mut mm = Mem::new();
        match guard(|| real(&base.e, &p, &p2, &mut mm, &base.m)) {
            Ok(r) => {
                account(st, &mm, &r);
                if r.o != first.o || r.text != first.text {
                    viol!("result from memory with page size {page}, skew {skew}: {}\n instead of {}\n in {}", show(&r.o), show(&first.o), base.describe());
                }
            }
            Err(x) => viol!("panic on paged memory: {x}\n in {}", base.describe()),
        }
    }
    Ok(())
}

/// Every single access fails, once or from then on.
pub fn fault_runs(st: &mut Stats, base: &Case, accesses: usize, clean: &O) -> Res {
    for k in 0..accesses {
        for persistent in [false, true] {
            let mut mm = Mem::failing(k, persistent);
            match base.paged(&mut mm) {
                Ok(r) => {
                    st.traces += 1;
                    st.faults += 1;
                    st.transitions += mm.n as u64;
                    if mm.failed == 0 {
                        viol!("HARNESS: injected fault not reached");
                    }
                    let swallowed = match &r.o {
                        Ok(Good::Tx(Err(_), _)) | Err(_) => false,
                        Ok(_) => true,
                    };
                    // the other half of a partly failed transaction must be the same
                    let half = match (&r.o, clean) {
                        (Ok(Good::Tx(Err(_), x)), Ok(Good::Tx(_, y))) => x != y,
                        (Ok(Good::Tx(Err(_), _)), Err(_)) => true,
                        _ => false,
                    };
                    if swallowed || half {
                        viol!(
                            "access {k} failed ({}), yet the parse delivers {}\n without the fault: {}\n in {}",
                            if persistent { "from then on" } else { "once" },
                            show(&r.o),
                            show(clean),
                            base.describe()
                        );
                    }
                }
                Err(p) => viol!("access {k} failed ({}): panic: {p}\n in {}", if persistent { "from then on" } else { "once" }, base.describe()),
            }
        }
    }
    Ok(())
}

/// A whole other parse runs inside every single access.
pub fn nested_runs(st: &mut Stats, base: &Case, accesses: usize, clean: &O) -> Res {
    for k in 0..accesses {
        for other in 0..2 {
            let (e, types, data, data2, m) = (base.e.clone(), base.types.clone(), base.data.to_vec(), base.data2.to_vec(), base.m.clone());
            let seen: Rc<core::cell::RefCell<Option<Result<O, String>>>> = Rc::new(core::cell::RefCell::new(None));
            let put = seen.clone();
            let mut mm = Mem::new();
            mm.hook_at = k;
            mm.hook = Some(Box::new(move || {
                let cut = if other == 0 { data.len() } else { data.len().min(2) };
                let c = Case { e: e.clone(), types: types.clone(), data: &data[..cut], data2: &data2, m: m.clone() };
                let r = c.paged(&mut Mem::new()).map(|r| r.o);
                *put.borrow_mut() = Some(r);
            }));
            match base.paged(&mut mm) {
                Ok(r) => {
                    st.traces += 2;
                    st.transitions += mm.n as u64;
                    if r.o != *clean {
                        viol!("parse inside access {k} changes the outer result to {}\n from {}\n in {}", show(&r.o), show(clean), base.describe());
                    }
                    match seen.borrow_mut().take() {
                        Some(Ok(i)) => {
                            if other == 0 && i != *clean {
                                viol!("parse inside access {k} gives {}\n alone: {}\n in {}", show(&i), show(clean), base.describe());
                            }
                        }
                        Some(Err(p)) => viol!("parse inside access {k}: panic {p}\n in {}", base.describe()),
                        None => viol!("HARNESS: hook not reached"),
                    }
                }
                Err(p) => viol!("parse inside access {k}: panic {p}\n in {}", base.describe()),
            }
        }
    }
    Ok(())
}

// ---- type families ----

pub const ROOT: u32 = 1000;
pub const DANGLING: u32 = 900_000;

pub struct Kids<'a> {
    pub g: &'a mut Graph,
    pub gen: &'a Gen,
}
impl Kids<'_> {
    fn fresh(&mut self) -> u32 {
        let id = self.g.next_fresh;
        self.g.next_fresh += 1;
        self.g.handed.push(id);
        id
    }
    /// A child: one of the leaves, a fresh node, an earlier node, or an id that does not exist.
    pub fn pick(&mut self, ctx: &mut Ctx) -> u32 {
        if self.gen.late {
            // decided when visited, or one of the first or the last ones
            let h = self.g.handed.len();
            let back: Vec<u32> = if !self.gen.back {
                Vec::new()
            } else if h <= 4 {
                self.g.handed.clone()
            } else {
                alloc::vec![self.g.handed[0], self.g.handed[1], self.g.handed[h - 2], self.g.handed[h - 1]]
            };
            let c = ctx.choose(1 + back.len());
            return if c == 0 { self.fresh() } else { back[c - 1] };
        }
        let leaves = self.gen.kids.len();
        let fresh = (self.g.nodes_left > 0) as usize;
        let back = if self.gen.back { self.g.handed.len() } else { 0 };
        let n = leaves + fresh + back + self.gen.dangle as usize;
        let c = ctx.choose(n);
        if c < leaves {
            self.gen.kids[c]
        } else if c < leaves + fresh {
            self.g.nodes_left -= 1;
            self.fresh()
        } else if c < leaves + fresh + back {
            self.g.handed[c - leaves - fresh]
        } else {
            DANGLING
        }
    }
}
pub type Tpl = Box<dyn Fn(&mut Ctx, &mut Kids) -> T + Send + Sync>;

/// Families of registries: fixed types, and containers built by choice.
pub struct Gen {
    pub fixed: BTreeMap<u32, T>,
    pub kids: Vec<u32>,
    pub templates: Vec<Tpl>,
    pub back: bool,
    pub dangle: bool,
    /// children are decided when first resolved
    pub late: bool,
    /// the root may be a leaf
    pub root_leaves: bool,
}
impl Gen {
    pub fn new() -> Gen {
        Gen { fixed: BTreeMap::new(), kids: Vec::new(), templates: Vec::new(), back: false, dangle: false, late: true, root_leaves: true }
    }
    pub fn add(&mut self, id: u32, t: T) -> &mut Self {
        self.fixed.insert(id, t);
        self
    }
    pub fn leaf(&mut self, id: u32, t: T) -> &mut Self {
        self.fixed.insert(id, t);
        self.kids.push(id);
        self
    }
    pub fn tpl(&mut self, f: impl Fn(&mut Ctx, &mut Kids) -> T + Send + Sync + 'static) -> &mut Self {
        self.templates.push(Box::new(f));
        self
    }
}
/// Shared by the threads; each run wraps it.
#[derive(Clone)]
pub struct GenRef(pub alloc::sync::Arc<Gen>);
impl TypePolicy for GenRef {
    fn choose_type(&self, ctx: &mut Ctx, g: &mut Graph, id: u32) -> Option<T> {
        if let Some(t) = self.0.fixed.get(&id) {
            return Some(t.clone());
        }
        if !g.handed.contains(&id) {
            return None;
        }
        let n = self.0.templates.len();
        let k = if self.0.late && id != ROOT {
            let leaves = self.0.kids.len();
            let n = if g.nodes_left > 0 { n } else { 0 };
            let k = ctx.choose(leaves + n + self.0.dangle as usize);
            if k < leaves {
                return self.0.fixed.get(&self.0.kids[k]).cloned();
            }
            if k == leaves + n {
                return None;
            }
            g.nodes_left -= 1;
            k - leaves
        } else {
            let leaves = if self.0.root_leaves { self.0.kids.len() } else { 0 };
            let k = ctx.choose(leaves + n);
            if k < leaves {
                return self.0.fixed.get(&self.0.kids[k]).cloned();
            }
            k - leaves
        };
        let mut kids = Kids { g, gen: &self.0 };
        Some((self.0.templates[k])(ctx, &mut kids))
    }
}

/// A lazily explored environment over a family, with `ROOT` to be chosen and `nodes` more containers.
pub fn env_of(ctx: &mut Ctx, gen: &alloc::sync::Arc<Gen>, bp: &BytePolicy, nodes: usize) -> Rc<Env> {
    let env = Env::new(ctx, Rc::new(GenRef(gen.clone())), bp.clone(), ROOT + 1, nodes);
    env.st.borrow_mut().graph.handed.push(ROOT);
    env
}
