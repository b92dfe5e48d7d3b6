//! Registries of real chains: the metadata files that come with the repository.
use super::drive::*;
use super::env::*;
use super::explore::*;
use super::fam3::hash_part;
use super::refdec::enc_compact;
use super::tyb::*;
use alloc::format;
use alloc::rc::Rc;
use alloc::string::{String, ToString};
use alloc::vec;
use alloc::vec::Vec;
use frame_metadata::v14::{StorageEntryMetadata, StorageEntryType};
use frame_metadata::{v14, v15, RuntimeMetadata, RuntimeMetadataPrefixed};
use parity_scale_codec::Decode;
use std::cell::RefCell;
use std::sync::{Arc, Mutex, OnceLock};
use substrate_parser::traits::{AsCompleteMetadata, ResolveType};

pub enum Source {
    V14(v14::RuntimeMetadataV14),
    V15(v15::RuntimeMetadataV15),
}
pub struct Chain {
    pub file: &'static str,
    pub source: Source,
    pub types: Vec<(u32, T)>,
    /// how many levels a value of the type has at least; None: there is no finite value
    pub least: std::collections::BTreeMap<u32, u32>,
    pub spec: Option<(String, String)>,
    pub exts: Vec<(String, u32, u32)>,
    /// address, call, signature, extra
    pub params: [Option<u32>; 4],
    pub version: u8,
    pub storage: Vec<StorageEntryMetadata<PortableForm>>,
}

/// V14 and V15 files, the smallest first.
pub const FILES: [&str; 10] = ["acala2200", "westmint9270", "statemint1002000", "astar66", "westend9111", "polkadot1000001_v15", "acala2012", "bifrost982", "polkadot9430", "polkadot1003003_v15"];

fn least(types: &[(u32, T)]) -> std::collections::BTreeMap<u32, u32> {
    let mut m: std::collections::BTreeMap<u32, u32> = Default::default();
    loop {
        let mut changed = false;
        for (id, t) in types {
            let of = |i: u32| m.get(&i).copied();
            let all = |v: &mut dyn Iterator<Item = u32>| -> Option<u32> {
                let mut h = 0;
                for i in v {
                    h = h.max(of(i)? + 1);
                }
                Some(h)
            };
            let h = match &t.type_def {
                TypeDef::Composite(c) => all(&mut c.fields.iter().map(|f| f.ty.id)),
                TypeDef::Variant(v) => v.variants.iter().filter_map(|x| all(&mut x.fields.iter().map(|f| f.ty.id))).min().map(|h| h + 1),
                TypeDef::Tuple(t) => all(&mut t.fields.iter().map(|f| f.id)),
                TypeDef::Array(a) if a.len > 0 => all(&mut core::iter::once(a.type_param.id)),
                TypeDef::Compact(c) => all(&mut core::iter::once(c.type_param.id)),
                _ => Some(0),
            };
            if let Some(h) = h {
                if m.get(id) != Some(&h) {
                    m.insert(*id, h);
                    changed = true;
                }
            }
        }
        if !changed {
            return m;
        }
    }
}

impl Chain {
    pub fn call(&self) -> u32 {
        self.params[1].expect("HARNESS: call type")
    }
}
fn load(file: &'static str) -> Chain {
    let text = std::fs::read_to_string(format!("/repo/for_tests/{file}")).unwrap_or_else(|e| panic!("HARNESS: {file}: {e}"));
    let raw = hex::decode(text.trim()).expect("HARNESS: hex");
    let source = match RuntimeMetadataPrefixed::decode(&mut &raw[..]).expect("HARNESS: metadata").1 {
        RuntimeMetadata::V14(m) => Source::V14(m),
        RuntimeMetadata::V15(m) => Source::V15(m),
        _ => panic!("HARNESS: metadata version"),
    };
    let reg = match &source {
        Source::V14(m) => &m.types,
        Source::V15(m) => &m.types,
    };
    let types: Vec<(u32, T)> = reg.types.iter().map(|t| (t.id, t.ty.clone())).collect();
    let (exts, params, version, storage) = match &source {
        Source::V14(m) => {
            let of = |id: u32| &types.iter().find(|t| t.0 == id).expect("HARNESS: extrinsic").1;
            // the wrapped extrinsic type names the parameters
            let mut x = of(m.extrinsic.ty.id);
            while !x.type_params.iter().any(|p| p.name == "Address") {
                match &x.type_def {
                    TypeDef::Composite(c) if c.fields.len() == 1 => x = of(c.fields[0].ty.id),
                    _ => break,
                }
            }
            let p = |n: &str| x.type_params.iter().find(|p| p.name == n).and_then(|p| p.ty).map(|t| t.id);
            (
                m.extrinsic.signed_extensions.iter().map(|x| (x.identifier.clone(), x.ty.id, x.additional_signed.id)).collect(),
                [p("Address"), p("Call"), p("Signature"), p("Extra")],
                m.extrinsic.version,
                m.pallets.iter().filter_map(|p| p.storage.as_ref()).flat_map(|s| s.entries.iter().cloned()).collect(),
            )
        }
        Source::V15(m) => (
            m.extrinsic.signed_extensions.iter().map(|x| (x.identifier.clone(), x.ty.id, x.additional_signed.id)).collect(),
            [m.extrinsic.address_ty.id, m.extrinsic.call_ty.id, m.extrinsic.signature_ty.id, m.extrinsic.extra_ty.id].map(Some),
            m.extrinsic.version,
            m.pallets.iter().filter_map(|p| p.storage.as_ref()).flat_map(|s| s.entries.iter().cloned()).collect(),
        ),
    };
    // the name of the file tells what the metadata must say
    let stem = file.trim_end_matches("_v15");
    let cut = stem.find(|c: char| c.is_ascii_digit()).unwrap_or(stem.len());
    let name = if &stem[..cut] == "bifrost" { "bifrost_polkadot" } else { &stem[..cut] };
    let spec = Some((name.to_string(), stem[cut..].to_string()));
    Chain { file, least: least(&types), types, spec, exts, params, version, storage, source }
}
/// The chain, decoded once.
pub fn chain(k: usize) -> Arc<Chain> {
    static C: OnceLock<Vec<Mutex<Option<Arc<Chain>>>>> = OnceLock::new();
    let all = C.get_or_init(|| FILES.iter().map(|_| Mutex::new(None)).collect());
    let mut g = all[k].lock().unwrap_or_else(|e| e.into_inner());
    g.get_or_insert_with(|| Arc::new(load(FILES[k]))).clone()
}
std::thread_local! {
    static TYPES: RefCell<Vec<Option<Rc<Types>>>> = const { RefCell::new(Vec::new()) };
}
/// Its registry, for this thread.
pub fn registry(k: usize) -> Rc<Types> {
    TYPES.with(|t| {
        let mut t = t.borrow_mut();
        t.resize(FILES.len(), None);
        t[k].get_or_insert_with(|| Rc::new(Types { map: chain(k).types.iter().map(|(i, t)| (*i, Rc::new(t.clone()))).collect() })).clone()
    })
}
pub fn meta_of(k: usize) -> Meta {
    let c = chain(k);
    let mut m = Meta::plain(Reg::Fixed(registry(k)));
    let (name, version) = c.spec.clone().unwrap_or_default();
    m.name = name;
    m.version = version;
    m.call_ty = c.call();
    m.exts = c.exts.clone();
    m.params = c.params.map(|p| p.unwrap_or(u32::MAX));
    m.ext_version = c.version;
    m
}

/// Values of registry types, chosen piece by piece. The first `full` enumerations branch in full,
/// everything else departs from its default at the cost of a deviation.
pub struct Maker<'a> {
    pub c: &'a Chain,
    pub types: &'a Types,
    pub full: u32,
    pub out: Vec<u8>,
    pub max: usize,
}
impl Maker<'_> {
    fn some(&mut self, n: usize, k: usize) {
        for i in 0..n {
            let p = self.out.len();
            self.out.push(match k {
                0 => (p as u8).wrapping_mul(37).wrapping_add(11),
                1 => 0xff,
                2 => 0,
                3 => (i == 0) as u8,
                _ => 0x80u8 >> (i % 8),
            });
        }
    }
    fn number(&mut self, ctx: &mut Ctx, n: usize) {
        let k = ctx.choose_dev(5);
        self.some(n, k);
    }
    fn compact_number(&mut self, ctx: &mut Ctx, n: usize) {
        let max = if n == 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
        const V: [u128; 9] = [5, 0, 63, 64, 16_383, 16_384, (1 << 30) - 1, 1 << 30, (1 << 62) + 5];
        let k = ctx.choose_dev(V.len() + 2);
        match k {
            9 => self.out.extend(enc_compact(max)),
            10 => self.out.extend([0x01, 0x00]),
            _ => self.out.extend(enc_compact(V[k])),
        }
    }
    pub fn value(&mut self, ctx: &mut Ctx, id: u32, compact: bool, depth: u32) {
        if depth > 60 || self.out.len() > self.max {
            return;
        }
        let Some(t) = self.types.map.get(&id).cloned() else { return };
        match &t.type_def {
            TypeDef::Composite(c) => {
                for f in &c.fields {
                    self.value(ctx, f.ty.id, compact, depth + 1);
                }
            }
            TypeDef::Tuple(c) => {
                for f in &c.fields {
                    self.value(ctx, f.id, compact, depth + 1);
                }
            }
            TypeDef::Variant(v) => {
                let n = v.variants.len();
                if n == 0 {
                    ctx.note(|| "no variants".into());
                    self.out.push(0);
                    return;
                }
                let height = |i: usize| v.variants[i].fields.iter().map(|f| self.c.least.get(&f.ty.id).copied().unwrap_or(1000)).max().unwrap_or(0);
                let i = if self.full > 0 {
                    self.full -= 1;
                    let i = ctx.choose(n + 1);
                    if i < n && height(i) >= 1000 { n } else { i }
                } else {
                    let smallest = (0..n).min_by_key(|i| height(*i)).unwrap_or(0);
                    // the shortest one first, then all others, then an index without variant
                    match ctx.choose_dev(n + 1) {
                        0 => smallest,
                        k if k <= smallest => k - 1,
                        k => k,
                    }
                };
                if i >= n {
                    let free = (0..=255u8).rev().find(|b| v.variants.iter().all(|x| x.index != *b)).unwrap_or(0);
                    self.out.push(free);
                    return;
                }
                self.out.push(v.variants[i].index);
                for f in &v.variants[i].fields {
                    self.value(ctx, f.ty.id, false, depth + 1);
                }
            }
            TypeDef::Sequence(s) => {
                let byte = matches!(self.types.map.get(&s.type_param.id).map(|t| t.type_def.clone()), Some(TypeDef::Primitive(Pr::U8)));
                let deep = depth > 8 || self.c.least.get(&s.type_param.id).is_none();
                let lens: &[usize] = if byte { &[3, 0, 1, 64] } else if deep { &[0, 1, 2] } else { &[1, 0, 2, 3] };
                let n = lens[ctx.choose_dev(lens.len())];
                self.out.extend(enc_compact(n as u128));
                for _ in 0..n {
                    self.value(ctx, s.type_param.id, false, depth + 1);
                }
            }
            TypeDef::Array(a) => {
                let whole = a.len > 8;
                if whole {
                    // long arrays: one choice for all elements
                    if let Some(TypeDef::Primitive(Pr::U8)) = self.types.map.get(&a.type_param.id).map(|t| t.type_def.clone()) {
                        return self.number(ctx, a.len as usize);
                    }
                }
                let left = ctx.dev_left;
                for i in 0..a.len {
                    if whole && i >= 2 {
                        ctx.dev_left = 0;
                    }
                    self.value(ctx, a.type_param.id, compact, depth + 1);
                }
                if whole && ctx.dev_left == 0 && a.len > 2 {
                    // deviations spent in the first two elements stay spent
                    ctx.dev_left = left.min(ctx.dev_left);
                }
            }
            TypeDef::Primitive(p) => {
                let n = match p {
                    Pr::Bool => {
                        let b = [1u8, 0, 2][ctx.choose_dev(3)];
                        return self.out.push(b);
                    }
                    Pr::Char => {
                        let c = ['a' as u32, 0x10_ffff, 0xd800][ctx.choose_dev(3)];
                        return self.out.extend(c.to_le_bytes());
                    }
                    Pr::Str => {
                        let s: &[u8] = [&b"ab"[..], b"", "\u{e9}\u{20ac}".as_bytes(), b"\xff"][ctx.choose_dev(4)];
                        self.out.extend(enc_compact(s.len() as u128));
                        return self.out.extend_from_slice(s);
                    }
                    Pr::U8 | Pr::I8 => 1,
                    Pr::U16 | Pr::I16 => 2,
                    Pr::U32 | Pr::I32 => 4,
                    Pr::U64 | Pr::I64 => 8,
                    Pr::U128 | Pr::I128 => 16,
                    Pr::U256 | Pr::I256 => 32,
                };
                if compact { self.compact_number(ctx, n.min(16)) } else { self.number(ctx, n) }
            }
            TypeDef::Compact(c) => self.value(ctx, c.type_param.id, true, depth + 1),
            TypeDef::BitSequence(b) => {
                let unit = match self.types.map.get(&b.bit_store_type.id).map(|t| t.type_def.clone()) {
                    Some(TypeDef::Primitive(Pr::U16)) => 2,
                    Some(TypeDef::Primitive(Pr::U32)) => 4,
                    Some(TypeDef::Primitive(Pr::U64)) => 8,
                    _ => 1,
                };
                let n = [9usize, 0, 1, 8, 64, 65][ctx.choose_dev(6)];
                self.out.extend(enc_compact(n as u128));
                self.number(ctx, n.div_ceil(8 * unit) * unit);
            }
        }
    }
}
fn make(ctx: &mut Ctx, c: &Chain, types: &Types, id: u32, full: u32) -> Vec<u8> {
    let mut m = Maker { c, types, full, out: Vec::new(), max: 3000 };
    m.value(ctx, id, false, 0);
    m.out
}

/// Every type of a chain, its values within a deviation bound, whole, cut and followed by other data.
pub fn real_types(name: &str, files: &'static [usize], dev: u32, o: Opts) -> Scenario {
    let bound = format!("every type of the registries of {:?}: default value and up to {dev} departures (variant, length, number pattern, compact form)", files.iter().map(|k| FILES[*k]).collect::<Vec<_>>());
    Scenario::new(name, bound, move |ctx| {
        let k = *ctx.pick(files);
        let c = chain(k);
        let id = c.types[ctx.choose(c.types.len())].0;
        let types = registry(k);
        ctx.dev_left = dev;
        let data = make(ctx, &c, &types, id, 0);
        ctx.note(|| format!("{} type {id} value {}", c.file, hex::encode(&data)));
        let m = meta_of(k);
        one_type(&mut ctx.stats, id, &types, &data, &m, &o)
    })
}
fn one_type(st: &mut Stats, id: u32, types: &Rc<Types>, data: &[u8], m: &Meta, o: &Opts) -> Res {
    let mut plain = o.clone();
    (plain.exact, plain.cuts) = (false, false);
    let case = |e: Entry, d: &[u8], st: &mut Stats, what: &str| Case { e, types: types.clone(), data: d, data2: &[], m: m.clone() }.check(st, &plain, what).map(|_| ());
    let more = [data, &[0x08, 0x00, 0x01]].concat();
    case(Entry::Type { id, start: 0 }, &more, st, "value and more")?;
    if o.exact {
        case(Entry::All { id }, data, st, "whole input")?;
        case(Entry::All { id }, &more[..data.len() + 1], st, "one byte too many")?;
        if !data.is_empty() {
            case(Entry::All { id }, &data[..data.len() - 1], st, "one byte short")?;
        }
    }
    if o.cuts {
        for n in (0..data.len()).filter(|n| *n < 12 || data.len() - *n < 4) {
            case(Entry::Type { id, start: 0 }, &data[..n], st, "cut input")?;
        }
    }
    Ok(())
}

const GENESIS: [u8; 32] = [0xcd; 32];
/// Extension bytes: the chain's own answers where the extension asks for them.
fn extensions(ctx: &mut Ctx, c: &Chain, types: &Types) -> Vec<u8> {
    let mut m = Maker { c, types, full: 0, out: Vec::new(), max: 3000 };
    for (_, ty, _) in &c.exts {
        m.value(ctx, *ty, false, 0);
    }
    for (name, _, ty) in &c.exts {
        let at = m.out.len();
        match name.as_str() {
            "CheckSpecVersion" => {
                let v: u32 = c.spec.as_ref().and_then(|s| s.1.parse().ok()).unwrap_or(0);
                let v = v.wrapping_add([0, 1, 256, 1 << 16, 1 << 31][ctx.choose_dev(5)]);
                m.out.extend(v.to_le_bytes());
            }
            "CheckGenesis" => {
                m.out.extend(GENESIS);
                if ctx.choose_dev(2) == 1 {
                    m.out[at + 31] ^= 1;
                }
            }
            "CheckMortality" | "CheckEra" => {
                m.out.extend(GENESIS);
                match ctx.choose_dev(3) {
                    1 => m.out[at] ^= 0x80,
                    2 => m.out[at..].copy_from_slice(&[7; 32]),
                    _ => {}
                }
            }
            _ => m.value(ctx, *ty, false, 0),
        }
    }
    m.out
}
/// Signable transactions of real chains.
pub fn real_transactions(name: &str, files: &'static [usize], dev: u32, o: Opts) -> Scenario {
    let bound = format!("signable transactions of {:?}: every call of every pallet, up to {dev} departures in call and extensions, genesis right or absent, prefix right or one off, whole or cut", files.iter().map(|k| FILES[*k]).collect::<Vec<_>>());
    Scenario::new(name, bound, move |ctx| {
        let k = *ctx.pick(files);
        let c = chain(k);
        let types = registry(k);
        let m = meta_of(k);
        ctx.dev_left = dev;
        let mut full = Maker { c: &c, types: &types, full: 2, out: Vec::new(), max: 2000 };
        full.value(ctx, c.call(), false, 0);
        let call = full.out;
        let ext = extensions(ctx, &c, &types);
        let plain = [&call[..], &ext[..]].concat();
        let genesis = if ctx.choose_dev(2) == 0 { Some(GENESIS) } else { None };
        let n = call.len() as i64 + [0, 1, -1][ctx.choose_dev(3)];
        let mut data = enc_compact(n.max(0) as u128);
        data.extend_from_slice(&plain);
        ctx.note(|| format!("{} call {} extensions {}", c.file, hex::encode(&call), hex::encode(&ext)));
        let st = &mut ctx.stats;
        let case = |e: Entry, d: &[u8], st: &mut Stats, what: &str| Case { e, types: types.clone(), data: d, data2: &[], m: m.clone() }.check(st, &o, what).map(|_| ());
        case(Entry::Tx { genesis }, &data, st, "prefixed")?;
        case(Entry::TxPlain { genesis }, &plain, st, "unprefixed")?;
        case(Entry::Tx { genesis }, &data[..data.len() - 1], st, "prefixed, cut")?;
        case(Entry::Tx { genesis }, &[&data[..], &[0]].concat(), st, "prefixed, one byte more")?;
        case(Entry::Ext { start: 0, genesis }, &ext, st, "extensions")?;
        Ok(())
    })
}
/// Unchecked extrinsics of real chains.
pub fn real_unchecked(name: &str, files: &'static [usize], dev: u32, o: Opts) -> Scenario {
    let bound = format!("unchecked extrinsics of {:?}, signed and not: every call of every pallet, up to {dev} departures, length right or one off, version byte", files.iter().map(|k| FILES[*k]).collect::<Vec<_>>());
    Scenario::new(name, bound, move |ctx| {
        let k = *ctx.pick(files);
        let c = chain(k);
        let types = registry(k);
        let m = meta_of(k);
        ctx.dev_left = dev;
        let signed = ctx.flag();
        let v = c.version ^ [0u8, 1, 0x40][ctx.choose_dev(3)];
        let mut body = vec![v | if signed { 0x80 } else { 0 }];
        if signed {
            for i in [0, 2, 3] {
                body.extend(make(ctx, &c, &types, m.params[i], 0));
            }
        }
        let mut full = Maker { c: &c, types: &types, full: 2, out: Vec::new(), max: 2000 };
        full.value(ctx, c.call(), false, 0);
        body.extend(full.out);
        let n = body.len() as i64 + [0, 1, -1][ctx.choose_dev(3)];
        let mut data = enc_compact(n as u128);
        data.extend_from_slice(&body);
        ctx.note(|| format!("{} extrinsic {}", c.file, hex::encode(&data)));
        Case { e: Entry::Unchecked, types, data: &data, data2: &[], m }.check(&mut ctx.stats, &o, "extrinsic").map(|_| ())
    })
}
/// Storage entries of real chains.
pub fn real_storage(name: &str, files: &'static [usize], dev: u32, o: Opts) -> Scenario {
    let bound = format!("every storage entry of {:?}: key and value within {dev} departures, key cut, longer and with a bit flipped at either end of each part", files.iter().map(|k| FILES[*k]).collect::<Vec<_>>());
    Scenario::new(name, bound, move |ctx| {
        let k = *ctx.pick(files);
        let c = chain(k);
        let types = registry(k);
        let m = meta_of(k);
        let e = c.storage[ctx.choose(c.storage.len())].clone();
        ctx.dev_left = dev;
        let mut key: Vec<u8> = (0..32).collect();
        let mut ends = vec![32];
        let value_ty = match &e.ty {
            StorageEntryType::Plain(v) => v.id,
            StorageEntryType::Map { hashers, key: kt, value } => {
                let parts: Vec<u32> = if hashers.len() == 1 {
                    vec![kt.id]
                } else {
                    match types.map.get(&kt.id).map(|t| t.type_def.clone()) {
                        Some(TypeDef::Tuple(t)) => t.fields.iter().map(|f| f.id).collect(),
                        Some(TypeDef::Composite(t)) => t.fields.iter().map(|f| f.ty.id).collect(),
                        Some(TypeDef::Array(a)) => vec![a.type_param.id; a.len as usize],
                        _ => Vec::new(),
                    }
                };
                for (h, p) in hashers.iter().zip(parts) {
                    let b = make(ctx, &c, &types, p, 0);
                    key.extend(hash_part(h, &b));
                    ends.push(key.len());
                }
                value.id
            }
        };
        let value = make(ctx, &c, &types, value_ty, 0);
        ctx.note(|| format!("{} entry {} key {} value {}", c.file, e.name, hex::encode(&key), hex::encode(&value)));
        let e = Entry::Storage { entry: Rc::new(e) };
        let st = &mut ctx.stats;
        let case = |kd: &[u8], vd: &[u8], st: &mut Stats, what: &str| Case { e: e.clone(), types: types.clone(), data: kd, data2: vd, m: m.clone() }.check(st, &o, what).map(|_| ());
        case(&key, &value, st, "entry")?;
        case(&key, &[&value[..], &[0]].concat(), st, "longer value")?;
        case(&[&key[..], &[0]].concat(), &value, st, "longer key")?;
        case(&key[..key.len() - 1], &value, st, "shorter key")?;
        if !value.is_empty() {
            case(&key, &value[..value.len() - 1], st, "shorter value")?;
        }
        for w in ends.windows(2) {
            for at in [w[0], w[1].max(1) - 1] {
                if w[0] < w[1] {
                    let mut kd = key.clone();
                    kd[at] ^= 0x10;
                    case(&kd, &value, st, "key with another bit")?;
                }
            }
        }
        Ok(())
    })
}
fn same_facts<M: AsCompleteMetadata<Mem>>(c: &Chain, m: &M, st: &mut Stats) -> Res
where
    M::MetaStructureError: core::fmt::Debug,
{
    let reg = m.types();
    let last = c.types.iter().map(|t| t.0).max().unwrap_or(0);
    for i in (0..=last + 3).chain([u32::MAX]) {
        let got = match guard(|| reg.resolve_ty(i, &mut Mem::new()).ok()) {
            Ok(g) => g,
            Err(p) => viol!("{}: type {i}: panic: {p}", c.file),
        };
        let want = c.types.iter().find(|t| t.0 == i).map(|t| &t.1);
        st.transitions += 1;
        st.traces += 1;
        if got.as_ref() != want {
            viol!("{}: type {i} resolves to {got:?}, expected {want:?}", c.file);
        }
    }
    let r = guard(|| {
        (
            m.spec_name_version().map(|s| (s.spec_name, s.printed_spec_version)).map_err(|e| format!("{e:?}")),
            m.call_ty().map(|t| t.id).map_err(|e| format!("{e:?}")),
            m.signed_extensions().map(|v| v.into_iter().map(|x| (x.identifier, x.ty.id, x.additional_signed.id)).collect::<Vec<_>>()).map_err(|e| format!("{e:?}")),
            m.extrinsic_version().map_err(|e| format!("{e:?}")),
            m.extrinsic_type_params().map(|p| [p.address_ty.id, p.call_ty.id, p.signature_ty.id, p.extra_ty.id]).map_err(|e| format!("{e:?}")),
        )
    });
    st.traces += 5;
    st.transitions += 5;
    // without all four parameters there is no call type (V14)
    let all: Option<Vec<u32>> = c.params.iter().copied().collect();
    let params = all.map(|v| [v[0], v[1], v[2], v[3]]);
    let r = r.map(|(a, b, x, v, p)| (a.ok(), b.ok(), x.ok(), v.ok(), p.ok()));
    let want = (c.spec.clone(), params.map(|p| p[1]), Some(c.exts.clone()), Some(c.version), params);
    match r {
        Ok(r) if r == want => Ok(()),
        Ok(r) => viol!("{}: metadata facts {r:?}\n expected {want:?}", c.file),
        Err(p) => viol!("{}: panic: {p}", c.file),
    }
}
/// Facts read from real metadata.
pub fn real_facts(name: &str) -> Scenario {
    Scenario::new(name, format!("{FILES:?}: name and version, extrinsic parameters, extensions and every type id"), move |ctx| {
        let c = chain(ctx.choose(FILES.len()));
        let st = &mut ctx.stats;
        match &c.source {
            Source::V14(m) => same_facts(&c, m, st),
            Source::V15(m) => same_facts(&c, m, st),
        }
    })
}
