//! Reference presentation: cards and text of a decoded value.
use super::val::*;
use alloc::format;
use alloc::string::{String, ToString};
use alloc::vec;
use alloc::vec::Vec;
use bitvec::prelude::{BitOrder, BitStore, BitVec};
use substrate_parser::additional_types::Era;
use substrate_parser::cards as c;
use substrate_parser::cards::ParserCard as PC;
use substrate_parser::ShortSpecs;

/// Docs and path of one described type, as shown.
pub type Inf = (Option<String>, Option<String>);

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Card {
    pub indent: u32,
    pub kind: &'static str,
    /// exact content
    pub data: String,
    pub info: Vec<Inf>,
    pub elem: Vec<Inf>,
}

fn inf(i: &I) -> Inf {
    ((!i.docs.is_empty()).then(|| i.docs.clone()), (!i.path.is_empty()).then(|| i.path.join(" >> ")))
}
fn infs(i: &[I]) -> Vec<Inf> {
    i.iter().map(inf).collect()
}
fn doc(d: &str) -> Vec<Inf> {
    if d.is_empty() { vec![] } else { vec![(Some(d.to_string()), None)] }
}

pub struct Specs<'a> {
    pub prefix: u16,
    pub decimals: u8,
    pub unit: &'a str,
    pub chain: &'a str,
}
impl Specs<'_> {
    pub fn short(&self) -> ShortSpecs {
        ShortSpecs { base58prefix: self.prefix, decimals: self.decimals, unit: self.unit.to_string() }
    }
}

// ---- SS58 ----
const B58: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
fn base58(data: &[u8]) -> String {
    let mut digits: Vec<u8> = Vec::new();
    for b in data {
        let mut carry = *b as u32;
        for d in digits.iter_mut() {
            carry += (*d as u32) << 8;
            *d = (carry % 58) as u8;
            carry /= 58;
        }
        while carry > 0 {
            digits.push((carry % 58) as u8);
            carry /= 58;
        }
    }
    let zeros = data.iter().take_while(|b| **b == 0).count();
    let mut s = String::new();
    for _ in 0..zeros {
        s.push('1');
    }
    for d in digits.iter().rev() {
        s.push(B58[*d as usize] as char);
    }
    s
}
pub fn ss58(prefix: u16, body: &[u8]) -> String {
    let p = prefix & 0x3fff;
    let mut d: Vec<u8> = if p < 64 {
        vec![p as u8]
    } else {
        vec![((p & 0xfc) >> 2) as u8 | 0x40, (p >> 8) as u8 | ((p & 3) << 6) as u8]
    };
    d.extend_from_slice(body);
    let mut pre = b"SS58PRE".to_vec();
    pre.extend_from_slice(&d);
    let h = sp_crypto_hashing::blake2_512(&pre);
    d.extend_from_slice(&h[..2]);
    base58(&d)
}

fn bits_text(bits: &[bool]) -> String {
    let mut s = String::from("[");
    for (i, b) in bits.iter().enumerate() {
        if i > 0 {
            s.push_str(", ");
        }
        s.push(if *b { '1' } else { '0' });
    }
    s.push(']');
    s
}

/// Unsigned / two's complement 256-bit text.
fn u256_text(le: &[u8]) -> String {
    let mut n = le.to_vec();
    let mut out = Vec::new();
    while n.iter().any(|b| *b != 0) {
        let mut rem = 0u32;
        for b in n.iter_mut().rev() {
            let cur = rem << 8 | *b as u32;
            *b = (cur / 10) as u8;
            rem = cur % 10;
        }
        out.push(b'0' + rem as u8);
    }
    if out.is_empty() {
        out.push(b'0');
    }
    out.reverse();
    String::from_utf8(out).expect("HARNESS: digits")
}
fn i256_text(le: &[u8]) -> String {
    if le[31] < 0x80 {
        return u256_text(le);
    }
    let mut n: Vec<u8> = le.iter().map(|b| !*b).collect();
    for b in n.iter_mut() {
        let (x, c) = b.overflowing_add(1);
        *b = x;
        if !c {
            break;
        }
    }
    format!("-{}", u256_text(&n))
}

struct Out<'a> {
    v: Vec<Card>,
    s: &'a Specs<'a>,
}

impl Out<'_> {
    fn put(&mut self, indent: u32, kind: &'static str, data: String, info: Vec<Inf>) {
        self.v.push(Card { indent, kind, data, info, elem: vec![] });
    }
    fn blob(&mut self, indent: u32, b: &[u8], info: Vec<Inf>, elem: Vec<Inf>) {
        let (kind, data) = match core::str::from_utf8(b) {
            Ok(t) => ("bytes-text", format!("{}|{}", hex::encode(b), t)),
            Err(_) => ("bytes", hex::encode(b)),
        };
        self.v.push(Card { indent, kind, data, info, elem });
    }
    fn fieldset(&mut self, f: &[F], indent: u32, bal: bool) {
        for (i, f) in f.iter().enumerate() {
            match &f.name {
                Some(n) => self.put(indent, "Field Name", n.clone(), doc(&f.docs)),
                None => self.put(indent, "Field Number", (i + 1).to_string(), doc(&f.docs)),
            }
            self.value(&f.x.v, infs(&f.x.info), indent + 1, bal);
        }
    }
    fn single(&mut self, f: &F, mut info: Vec<Inf>, indent: u32, bal: bool) {
        info.extend(doc(&f.docs));
        info.extend(infs(&f.x.info));
        self.value(&f.x.v, info, indent, bal);
    }
    fn members(&mut self, f: &[F], indent: u32, bal: bool) {
        if f.len() == 1 && f[0].name.is_none() {
            self.single(&f[0], vec![], indent, bal);
        } else {
            self.fieldset(f, indent, bal);
        }
    }
    fn item(&mut self, p: &P, kind: &'static str, indent: u32) {
        let bal = p.pallet == "Balances" || p.pallet == "Staking";
        self.put(indent, "Pallet", p.pallet.clone(), vec![inf(&p.info)]);
        self.put(indent + 1, kind, p.name.clone(), doc(&p.docs));
        self.members(&p.fields, indent + 2, bal);
    }
    fn value(&mut self, v: &V, info: Vec<Inf>, indent: u32, bal: bool) {
        match v {
            V::Bits { store, msb, bits } => {
                let kind = match (store, msb) {
                    (8, false) => "BitVec<u8, Lsb0>",
                    (16, false) => "BitVec<u16, Lsb0>",
                    (32, false) => "BitVec<u32, Lsb0>",
                    (_, false) => "BitVec<u64, Lsb0>",
                    (8, true) => "BitVec<u8, Msb0>",
                    (16, true) => "BitVec<u16, Msb0>",
                    (32, true) => "BitVec<u32, Msb0>",
                    (_, true) => "BitVec<u64, Msb0>",
                };
                self.put(indent, kind, bits_text(bits), info);
            }
            V::Bytes(k, b) => match k {
                BK::Id => self.put(indent, "Id", ss58(self.s.prefix, b), info),
                BK::PubEd => self.put(indent, "PublicKey Ed25519", ss58(self.s.prefix, b), info),
                BK::PubSr => self.put(indent, "PublicKey Sr25519", ss58(self.s.prefix, b), info),
                BK::PubEc => self.put(indent, "PublicKey Ecdsa", ss58(self.s.prefix, b), info),
                BK::BlockHash => self.put(indent, "Block Hash", hex::encode(b), info),
                BK::GenesisHash => self.put(indent, "Genesis Hash", hex::encode(b), info),
                BK::H160 => self.put(indent, "H160", hex::encode(b), info),
                BK::H256 => self.put(indent, "H256", hex::encode(b), info),
                BK::H512 => self.put(indent, "H512", hex::encode(b), info),
                BK::SigEd => self.put(indent, "Signature Ed25519", hex::encode(b), info),
                BK::SigSr => self.put(indent, "Signature Sr25519", hex::encode(b), info),
                BK::SigEc => self.put(indent, "Signature Ecdsa", hex::encode(b), info),
            },
            V::Call(p) => self.item(p, "Call", indent),
            V::Event(p) => self.item(p, "Event", indent),
            V::Comp(f) => {
                if f.is_empty() {
                } else if f.len() == 1 && f[0].name.is_none() {
                    self.single(&f[0], info, indent, bal);
                } else {
                    self.put(indent, "Struct", format!("{} field(s)", f.len()), info);
                    self.fieldset(f, indent + 1, bal);
                }
            }
            V::Empty => self.put(indent, "Enum With No Variants", String::new(), info),
            V::Era(None) => self.put(indent, "Era", "Immortal".into(), info),
            V::Era(Some((p, h))) => self.put(indent, "Era", format!("Mortal, phase: {h}, period: {p}"), info),
            V::Per(k, n) => {
                let kind = match k {
                    PK::PerU16 => "PerU16",
                    PK::Percent => "Percent",
                    PK::Permill => "Permill",
                    PK::Perbill => "Perbill",
                    PK::Perquintill => "Perquintill",
                };
                self.put(indent, kind, n.to_string(), info);
            }
            V::Bool(b) => self.put(indent, "Bool", b.to_string(), info),
            V::Char(b) => self.put(indent, "Char", b.to_string(), info),
            V::Int(w, n) => {
                let kind = match w {
                    8 => "i8",
                    16 => "i16",
                    32 => "i32",
                    64 => "i64",
                    _ => "i128",
                };
                self.put(indent, kind, n.to_string(), info);
            }
            V::I256(b) => self.put(indent, "BigInt", i256_text(b), info),
            V::U256(b) => self.put(indent, "BigUint", u256_text(b), info),
            V::UInt(w, n, s) => {
                let kind = uint_kind(*w);
                let money = |s: &Specs| {
                    let cur = currency(*n, s.decimals, s.unit);
                    format!("{} {}", cur.0, cur.1)
                };
                match s {
                    Sp::None => self.put(indent, kind, n.to_string(), info),
                    Sp::Balance if bal => self.put(indent, "Balance", money(self.s), info),
                    Sp::Balance => self.put(indent, "Balance Raw", n.to_string(), info),
                    Sp::Tip => self.put(indent, "Tip", money(self.s), info),
                    Sp::TipAsset => self.put(indent, "Tip Asset", n.to_string(), info),
                    Sp::Nonce => self.put(indent, "Nonce", n.to_string(), info),
                    Sp::SpecVersion => self.put(indent, "Chain", format!("{}{}", self.s.chain, n), info),
                    Sp::TxVersion => self.put(indent, "Tx Version", n.to_string(), info),
                }
            }
            V::Nums(8, e, n) => {
                let b: Vec<u8> = n.iter().map(|x| *x as u8).collect();
                self.blob(indent, &b, info, infs(e));
            }
            V::Nums(w, e, n) => {
                self.v.push(Card { indent, kind: "Sequence", data: format!("{} element(s)", n.len()), info, elem: infs(e) });
                for x in n {
                    self.put(indent + 1, uint_kind(*w), x.to_string(), vec![]);
                }
            }
            V::VecU8 { info: e, inner, data } => {
                self.v.push(Card { indent, kind: "Sequence", data: format!("{} element(s)", data.len()), info, elem: infs(e) });
                for b in data {
                    self.blob(indent + 1, b, vec![], infs(inner));
                }
            }
            V::Raw(e, d) => {
                self.v.push(Card { indent, kind: "Sequence", data: format!("{} element(s)", d.len()), info, elem: infs(e) });
                for x in d {
                    self.value(x, vec![], indent + 1, bal);
                }
            }
            V::Text(t, spec) => self.put(indent, if *spec { "Spec Name" } else { "Text" }, t.clone(), info),
            V::Tup(t) => {
                if !t.is_empty() {
                    self.put(indent, "Tuple", format!("{} element(s)", t.len()), info);
                    for x in t {
                        self.value(&x.v, infs(&x.info), indent + 1, bal);
                    }
                }
            }
            V::Var { name, docs, fields } => {
                self.put(indent, "Enum", String::new(), info);
                self.put(indent + 1, "Enum Variant Name", name.clone(), doc(docs));
                self.members(fields, indent + 2, bal);
            }
        }
    }
}

fn uint_kind(w: u8) -> &'static str {
    match w {
        8 => "u8",
        16 => "u16",
        32 => "u32",
        64 => "u64",
        _ => "u128",
    }
}

/// Balance text. Unit choice is not fixed by the property; the exactness check of the balance property
/// decides it, here the library's own formatting is taken.
fn currency(n: u128, decimals: u8, unit: &str) -> (String, String) {
    use substrate_parser::printing_balance::AsBalance;
    let c = <u128>::convert_balance_pretty(n, decimals, unit);
    (c.number, c.units)
}

pub fn cards_x(x: &X, indent: u32, bal: bool, s: &Specs) -> Vec<Card> {
    let mut o = Out { v: vec![], s };
    o.value(&x.v, infs(&x.info), indent, bal);
    o.v
}
pub fn cards_call(p: &P, indent: u32, s: &Specs) -> Vec<Card> {
    let mut o = Out { v: vec![], s };
    o.item(p, "Call", indent);
    o.v
}

fn opt<'a>(o: &'a Option<String>) -> &'a str {
    o.as_deref().unwrap_or("None")
}
impl Card {
    fn payload(&self) -> (&'static str, &str) {
        match self.kind {
            "bytes-text" => ("Text", self.data.split_once('|').expect("HARNESS: blob").1),
            "bytes" => ("Sequence u8", &self.data),
            k => (k, &self.data),
        }
    }
    pub fn text(&self) -> String {
        let (k, d) = self.payload();
        let pad = "  ".repeat(self.indent as usize);
        match k {
            "Enum" | "Enum With No Variants" => format!("{pad}{k}"),
            _ => format!("{pad}{k}: {d}"),
        }
    }
    pub fn text_docs(&self) -> String {
        let mut s = self.text();
        if !self.elem.is_empty() {
            let e: Vec<String> = self.elem.iter().map(|(d, p)| format!("(docs: {}, path: {})", opt(d), opt(p))).collect();
            s.push_str(&format!(", element info: [{}]", e.join(",")));
        }
        for (d, p) in &self.info {
            s.push_str(&format!("\n{}(docs: {}, path: {})", "  ".repeat(self.indent as usize), opt(d), opt(p)));
        }
        s
    }
}

// ---- reading the real cards ----

fn rinf(i: &[c::InfoFlat]) -> Vec<Inf> {
    i.iter().map(|x| (x.docs.clone(), x.path_flat.clone())).collect()
}
fn rbits<T: BitStore, O: BitOrder>(b: &BitVec<T, O>) -> String {
    bits_text(&b.iter().map(|x| *x).collect::<Vec<bool>>())
}

pub fn real(card: &c::ExtendedCard) -> Card {
    let mut elem = vec![];
    let money = |m: &substrate_parser::printing_balance::Currency| format!("{} {}", m.number, m.units);
    let (kind, data): (&'static str, String) = match &card.parser_card {
        PC::Balance(m) => ("Balance", money(m)),
        PC::BalanceRaw(s) => ("Balance Raw", s.clone()),
        PC::BitVecU8Lsb0(b) => ("BitVec<u8, Lsb0>", rbits(b)),
        PC::BitVecU16Lsb0(b) => ("BitVec<u16, Lsb0>", rbits(b)),
        PC::BitVecU32Lsb0(b) => ("BitVec<u32, Lsb0>", rbits(b)),
        PC::BitVecU64Lsb0(b) => ("BitVec<u64, Lsb0>", rbits(b)),
        PC::BitVecU8Msb0(b) => ("BitVec<u8, Msb0>", rbits(b)),
        PC::BitVecU16Msb0(b) => ("BitVec<u16, Msb0>", rbits(b)),
        PC::BitVecU32Msb0(b) => ("BitVec<u32, Msb0>", rbits(b)),
        PC::BitVecU64Msb0(b) => ("BitVec<u64, Msb0>", rbits(b)),
        PC::BlockHash(h) => ("Block Hash", hex::encode(h.0)),
        PC::CallName(s) => ("Call", s.clone()),
        PC::CompositeAnnounced(n) => ("Struct", format!("{n} field(s)")),
        PC::EmptyEnum => ("Enum With No Variants", String::new()),
        PC::EnumAnnounced => ("Enum", String::new()),
        PC::EnumVariantName(s) => ("Enum Variant Name", s.clone()),
        PC::Era(Era::Immortal) => ("Era", "Immortal".to_string()),
        PC::Era(Era::Mortal(p, h)) => ("Era", format!("Mortal, phase: {h}, period: {p}")),
        PC::EventName(s) => ("Event", s.clone()),
        PC::FieldName(s) => ("Field Name", s.clone()),
        PC::FieldNumber(n) => ("Field Number", n.to_string()),
        PC::GenesisHash(h) => ("Genesis Hash", hex::encode(h.0)),
        PC::H160(h) => ("H160", hex::encode(h.0)),
        PC::H256(h) => ("H256", hex::encode(h.0)),
        PC::H512(h) => ("H512", hex::encode(h.0)),
        PC::Id(d) => ("Id", d.base58.clone()),
        PC::NameSpecVersion { name, version } => ("Chain", format!("{name}{version}")),
        PC::Nonce(s) => ("Nonce", s.clone()),
        PC::PalletName(s) => ("Pallet", s.clone()),
        PC::PerU16(p) => ("PerU16", p.deconstruct().to_string()),
        PC::Percent(p) => ("Percent", p.deconstruct().to_string()),
        PC::Permill(p) => ("Permill", p.deconstruct().to_string()),
        PC::Perbill(p) => ("Perbill", p.deconstruct().to_string()),
        PC::Perquintill(p) => ("Perquintill", p.deconstruct().to_string()),
        PC::PrimitiveBool(x) => ("Bool", x.to_string()),
        PC::PrimitiveChar(x) => ("Char", x.to_string()),
        PC::PrimitiveI8(x) => ("i8", x.to_string()),
        PC::PrimitiveI16(x) => ("i16", x.to_string()),
        PC::PrimitiveI32(x) => ("i32", x.to_string()),
        PC::PrimitiveI64(x) => ("i64", x.to_string()),
        PC::PrimitiveI128(x) => ("i128", x.to_string()),
        PC::PrimitiveI256(x) => ("BigInt", x.to_string()),
        PC::PrimitiveU8(x) => ("u8", x.to_string()),
        PC::PrimitiveU16(x) => ("u16", x.to_string()),
        PC::PrimitiveU32(x) => ("u32", x.to_string()),
        PC::PrimitiveU64(x) => ("u64", x.to_string()),
        PC::PrimitiveU128(x) => ("u128", x.to_string()),
        PC::PrimitiveU256(x) => ("BigUint", x.to_string()),
        PC::PublicEd25519(d) => ("PublicKey Ed25519", d.base58.clone()),
        PC::PublicSr25519(d) => ("PublicKey Sr25519", d.base58.clone()),
        PC::PublicEcdsa(d) => ("PublicKey Ecdsa", d.base58.clone()),
        PC::SequenceAnnounced { len, element_info_flat } => {
            elem = rinf(element_info_flat);
            ("Sequence", format!("{len} element(s)"))
        }
        PC::SequenceU8 { hex, text, element_info_flat } => {
            elem = rinf(element_info_flat);
            match text {
                Some(t) => ("bytes-text", format!("{hex}|{t}")),
                None => ("bytes", hex.clone()),
            }
        }
        PC::SignatureEd25519(s) => ("Signature Ed25519", hex::encode(s.0)),
        PC::SignatureSr25519(s) => ("Signature Sr25519", hex::encode(s.0)),
        PC::SignatureEcdsa(s) => ("Signature Ecdsa", hex::encode(s.0)),
        PC::SpecName(s) => ("Spec Name", s.clone()),
        PC::Text(s) => ("Text", s.clone()),
        PC::Tip(m) => ("Tip", money(m)),
        PC::TipAsset(s) => ("Tip Asset", s.clone()),
        PC::TupleAnnounced(n) => ("Tuple", format!("{n} element(s)")),
        PC::TxVersion(s) => ("Tx Version", s.clone()),
    };
    Card { indent: card.indent, kind, data, info: rinf(&card.info_flat), elem }
}

/// Compares the real cards with the reference ones, including both text forms.
pub fn compare(real_cards: &[c::ExtendedCard], want: &[Card]) -> Result<(), String> {
    if real_cards.len() != want.len() {
        return Err(format!(
            "{} cards, expected {}: {:?} vs expected {:?}",
            real_cards.len(),
            want.len(),
            real_cards.iter().map(|c| c.show()).collect::<Vec<_>>(),
            want.iter().map(|c| c.text()).collect::<Vec<_>>()
        ));
    }
    for (i, (r, w)) in real_cards.iter().zip(want).enumerate() {
        let m = real(r);
        if m != *w {
            return Err(format!("card {i} is {m:?}, expected {w:?}"));
        }
        if r.show() != w.text() {
            return Err(format!("card {i} shown as {:?}, expected {:?}", r.show(), w.text()));
        }
        if r.show_with_docs() != w.text_docs() {
            return Err(format!("card {i} shown with docs as {:?}, expected {:?}", r.show_with_docs(), w.text_docs()));
        }
    }
    Ok(())
}
