//! Families: compacts, era, balances, metadata, histories, wild entries.
use super::drive::*;
use super::env::*;
use super::explore::*;
use super::fam::*;
use super::fam3::*;
use super::refdec::*;
use super::fam6::{twist, TWISTS};
use super::tyb::*;
use super::val::*;
use alloc::format;
use alloc::rc::Rc;
use alloc::string::{String, ToString};
use alloc::vec;
use alloc::vec::Vec;
use substrate_parser::additional_types::Era;

fn plain_case(e: Entry, types: &Rc<Types>, data: &[u8], st: &mut Stats, o: &Opts, what: &str) -> Res {
    let c = Case { e, types: types.clone(), data, data2: &[], m: Meta::plain(Reg::Fixed(types.clone())) };
    c.check(st, o, what)?;
    Ok(())
}

/// Types with a number of every width below a compact, and the holders of length prefixes.
pub(super) fn compact_types() -> Rc<Types> {
    let mut g = base();
    for (i, p) in [U8, U16, U32, U64, U128, UNIT, PERBILL, PERCENT].into_iter().enumerate() {
        g.add(600 + i as u32, ty(&[], &[], compact(p)));
    }
    for (i, n) in ["Perbill", "Percent", "PerU16", "Permill", "Perquintill"].into_iter().enumerate() {
        let inner = [U32, U8, U16, U32, U64][i];
        g.add(620 + i as u32, ty(&["sp_arithmetic", "per_things", n], &[], comp(vec![fld(None, None, inner)])));
        g.add(610 + i as u32, ty(&[], &[], compact(620 + i as u32)));
    }
    g.add(630, ty(&[], &[], seq(U8)));
    g.add(631, ty(&[], &[], seq(UNIT)));
    g.add(632, ty(&[], &[], bitseq(U8, LSB)));
    g.add(633, ty(&[], &[], bitseq(U32, MSB)));
    g.add(634, ty(&[], &[], seq(BOOL)));
    frozen(&g.fixed)
}
const COMPACT_ENTRIES: usize = 5 + 5 + 5 + 6;
fn compact_entry(k: usize, start: usize) -> Entry {
    match k {
        0..=4 => Entry::Compact { width: 1 << k, start },
        5..=9 => Entry::Type { id: 600 + k as u32 - 5, start },
        10..=14 => Entry::Type { id: 610 + k as u32 - 10, start },
        15..=19 => Entry::Type { id: [STR, 630, 632, 633, 634][k - 15], start },
        _ => Entry::Type { id: VECU8, start },
    }
}
/// Every first byte with structured rests, at every length.
pub fn compact_bytes(name: &str, level: usize, o: Opts) -> Scenario {
    let w = compact_types();
    let _ = &w;
    Scenario::new(
        name,
        format!("{COMPACT_ENTRIES} readers (widths, compact numbers and fractions, length prefixes) x all 256 first bytes x structured rests (level {level}) x every length up to one byte more x starts 0, 1, at the end, beyond"),
        move |ctx| {
            let types = compact_types();
            let mut st = Stats::default();
            let k = ctx.choose(COMPACT_ENTRIES);
            let b0 = ctx.choose(256) as u8;
            let mut data = vec![b0];
            match b0 & 3 {
                0 => data.push(0),
                1 => data.push(ctx.choose(256) as u8),
                2 => {
                    let a: &[u8] = [&[0u8, 1, 0x80, 0xff][..], &[0, 1, 0x40, 0x7f, 0x80, 0xff]][level.min(1)];
                    for _ in 0..3 {
                        data.push(*ctx.pick(a));
                    }
                }
                _ => {
                    let n = (b0 >> 2) as usize + 4;
                    let (fill, at) = match ctx.choose(3) {
                        0 => (0u8, ctx.choose(n.min(20) + 1)),
                        1 => (0xff, ctx.choose(n.min(20) + 1)),
                        _ => (0x5a, n),
                    };
                    let v = *ctx.pick(&[1u8, 0x80, 0xff, 0x00, 0x3f, 0x40][..if at < n { 6 } else { 1 }]);
                    let mut rest = vec![fill; n];
                    if at < n {
                        rest[at] = v;
                    }
                    data.extend(rest);
                }
            }
            let r = (|| {
                // what follows must not matter
                let mut more = data.clone();
                more.extend_from_slice(&[0x55; 8]);
                let heavy = k >= 15;
                let w = ref_len(&data);
                if heavy && w > 200_000 && !(k == 15 || k == 17 || k == 18) {
                    // long sequences: the bytes end, so nothing is spent
                }
                for start in 0..2usize {
                    let mut d = vec![0x04; start];
                    d.extend_from_slice(&more);
                    plain_case(compact_entry(k, start), &types, &d, &mut st, &o, "compact")?;
                    for cut in 0..=data.len().min(18) {
                        plain_case(compact_entry(k, start), &types, &d[..start + cut], &mut st, &o, "compact, cut input")?;
                    }
                    for far in [d.len(), d.len() + 1, usize::MAX] {
                        plain_case(compact_entry(k, far), &types, &d, &mut st, &o, "compact, start at the end or beyond")?;
                    }
                }
                Ok(())
            })();
            ctx.note(|| format!("reader {k} bytes {}", hex::encode(&data)));
            ctx.stats.add(&st);
            r
        },
    )
}
fn ref_len(d: &[u8]) -> u128 {
    compact_at(4, |i| d.get(i).copied()).map(|x| x.0).unwrap_or(0)
}
/// Every number near a boundary, in every encoding that spells it.
pub fn compact_numbers(name: &str, span: u32, o: Opts) -> Scenario {
    let mut nums: Vec<u128> = Vec::new();
    for bit in 0..128u32 {
        for d in 0..=span {
            let p = 1u128 << bit;
            nums.push(p.wrapping_add(d as u128));
            nums.push(p.wrapping_sub(d as u128 + 1));
        }
    }
    nums.extend([u128::MAX, u128::MAX - 1, 100, 101, 999_999_999, 1_000_000_000, 1_000_000_001, 1_000_000, 1_000_001, 65_535, 1_000_000_000_000_000_000, 1_000_000_000_000_000_001]);
    nums.sort();
    nums.dedup();
    let n = nums.len();
    Scenario::new(
        name,
        format!("{n} numbers (all powers of two +-{span}, bounds of the fractions) x every spelling (each mode, each byte count, canonical or not) x {} readers", 15),
        move |ctx| {
            let types = compact_types();
            let mut st = Stats::default();
            let v = nums[ctx.choose(nums.len())];
            let mut forms: Vec<Vec<u8>> = Vec::new();
            if v < 1 << 6 {
                forms.push(vec![(v << 2) as u8]);
            }
            if v < 1 << 14 {
                forms.push(((v << 2 | 1) as u16).to_le_bytes().to_vec());
            }
            if v < 1 << 30 {
                forms.push(((v << 2 | 2) as u32).to_le_bytes().to_vec());
            }
            for len in 4..=18usize {
                if len < 16 && v >> (8 * len) != 0 {
                    continue;
                }
                let mut f = vec![((len - 4) << 2 | 3) as u8];
                let b = v.to_le_bytes();
                f.extend((0..len).map(|i| b.get(i).copied().unwrap_or(0)));
                forms.push(f);
            }
            let k = ctx.choose(15);
            let mut d = forms[ctx.choose(forms.len())].clone();
            ctx.note(|| format!("number {v} reader {k} bytes {}", hex::encode(&d)));
            let tail = d.len();
            d.extend_from_slice(&[0xff; 3]);
            let r = plain_case(compact_entry(k, 0), &types, &d, &mut st, &o, "compact number").and_then(|_| plain_case(compact_entry(k, 0), &types, &d[..tail], &mut st, &o, "compact number at the end"));
            ctx.stats.add(&st);
            r
        },
    )
}

/// All byte pairs as era.
pub fn era_pairs(name: &str, o: Opts) -> Scenario {
    Scenario::new(name, "all 65536 byte pairs, each at every length 0..=3 and two starts, alone and inside a struct and a list; encoding back; displayed text", move |ctx| {
        let mut g = base();
        g.add(700, ty(&["CheckMortality"], &[], comp(vec![fld(None, None, ERA)])));
        g.add(701, ty(&[], &[], seq(ERA)));
        let types = frozen(&g.fixed);
        let (hi, lo) = (ctx.choose(256) as u8, ctx.choose(256) as u8);
        let mut st = Stats::default();
        let r = (|| {
            let d = [lo, hi, 0x77];
            for len in 0..=3 {
                plain_case(Entry::Type { id: ERA, start: 0 }, &types, &d[..len], &mut st, &o, "era")?;
            }
            let e = [0xffu8, lo, hi];
            plain_case(Entry::Type { id: ERA, start: 1 }, &types, &e, &mut st, &o, "era")?;
            plain_case(Entry::Type { id: 700, start: 1 }, &types, &e, &mut st, &o, "era in a struct")?;
            plain_case(Entry::All { id: ERA }, &types, &d[..1], &mut st, &o, "era as the whole input")?;
            plain_case(Entry::All { id: ERA }, &types, &d[..2], &mut st, &o, "era as the whole input")?;
            plain_case(Entry::Type { id: 701, start: 0 }, &types, &[8, lo, hi, lo, hi], &mut st, &o, "two eras")?;
            // the type itself
            use parity_scale_codec::{Decode, Encode};
            let mut input = &d[..];
            let got = match guard(|| Era::decode(&mut input).ok()) {
                Ok(x) => x,
                Err(p) => viol!("Era::decode panics on {}: {p}", hex::encode(d)),
            };
            let used = 3 - input.len();
            let want = if lo == 0 { Some((None, 1)) } else { era(lo, hi).map(|x| (Some(x), 2)) };
            let seen = got.map(|e| {
                (
                    match e {
                        Era::Immortal => None,
                        Era::Mortal(a, b) => Some((a, b)),
                    },
                    used,
                )
            });
            st.traces += 1;
            if seen != want {
                viol!("Era::decode of {} gives {seen:?}, expected {want:?}", hex::encode(d));
            }
            if let Some(e) = got {
                let back = match guard(|| e.encode()) {
                    Ok(b) => b,
                    Err(p) => viol!("encoding {e:?} panics: {p}"),
                };
                if back != d[..used] {
                    viol!("{e:?} decoded from {} encodes as {}", hex::encode(&d[..used]), hex::encode(back));
                }
            }
            Ok(())
        })();
        ctx.note(|| format!("bytes {lo:02x}{hi:02x}"));
        ctx.stats.add(&st);
        r
    })
}

// ---- balances ----

/// The displayed amount is exactly `value / 10^decimals`.
pub fn exact_balance(digits: &str, decimals: u8, unit: &str, number: &str, units: &str) -> Result<(), String> {
    let Some(prefix) = units.strip_suffix(unit) else { return Err(format!("units {units:?} do not end with {unit:?}")) };
    let exp: i32 = match prefix {
        "a" => -18,
        "f" => -15,
        "p" => -12,
        "n" => -9,
        "u" => -6,
        "m" => -3,
        "" => 0,
        "k" => 3,
        "M" => 6,
        "G" => 9,
        "T" => 12,
        _ => return Err(format!("unknown prefix {prefix:?}")),
    };
    let (int, frac) = match number.split_once('.') {
        Some((a, b)) => {
            if b.is_empty() {
                return Err(format!("number {number:?} ends with a point"));
            }
            (a, b)
        }
        None => (number, ""),
    };
    let all = |s: &str| s.bytes().all(|c| c.is_ascii_digit());
    if int.is_empty() || !all(int) || !all(frac) || (int.len() > 1 && int.starts_with('0')) {
        return Err(format!("number {number:?} is not well-formed"));
    }
    let shown: String = format!("{int}{frac}");
    let (shown, want) = (shown.trim_start_matches('0'), digits.trim_start_matches('0'));
    if shown == want && (exp - frac.len() as i32 == -(decimals as i32)) {
        return Ok(());
    }
    if shown.is_empty() && want.is_empty() {
        return Ok(());
    }
    // zeros behind all digits of the value, because the prefix asks for them
    if let Some(z) = shown.strip_prefix(want) {
        if !want.is_empty() && z.bytes().all(|c| c == b'0') && exp - frac.len() as i32 + z.len() as i32 == -(decimals as i32) {
            return Ok(());
        }
    }
    Err(format!("{number} {units} is not {digits} / 10^{decimals}"))
}
const SAMPLE_DIGITS: [&str; 6] = ["1", "9", "12", "105", "9999", "1000001"];
/// Decimal lengths, digit patterns, zeros, all decimals.
pub fn balances(name: &str, all_decimals: bool) -> Scenario {
    Scenario::new(
        name,
        format!("every number of digits 1..=39 (of the u128 range) x {} digit patterns and every power of ten +-1 x decimals {} x 5 integer widths x 3 units", 8 + SAMPLE_DIGITS.len(), if all_decimals { "0..=255" } else { "0..=45 and 10 larger" }),
        move |ctx| {
            let len = 1 + ctx.choose(39);
            let pat = ctx.choose(8 + SAMPLE_DIGITS.len() + 2);
            let s: String = match pat {
                0 => (0..len).map(|i| char::from(b'1' + (i % 9) as u8)).collect(),
                1 => core::iter::repeat('9').take(len).collect(),
                2 => core::iter::once('1').chain(core::iter::repeat('0').take(len - 1)).collect(),
                3 => core::iter::once('1').chain(core::iter::repeat('0').take(len.saturating_sub(2))).chain((len > 1).then_some('1')).collect(),
                4 => core::iter::repeat('3').take(len).collect(),
                5 => (0..len).map(|i| if i % 3 == 0 { '7' } else { '0' }).collect(),
                6 => (0..len).map(|i| if i + 3 >= len { '0' } else { '8' }).collect(),
                7 => (0..len).map(|i| if i == len / 2 || i == 0 { '5' } else { '0' }).collect(),
                8 => "0".into(),
                9 => u128::MAX.to_string(),
                p => {
                    let d = SAMPLE_DIGITS[p - 10];
                    let mut s = d.to_string();
                    while s.len() < len {
                        s.push('0');
                    }
                    s
                }
            };
            let Ok(v) = s.parse::<u128>() else { return Ok(()) };
            let s = v.to_string();
            let mut st = Stats::default();
            let r = (|| {
                let extra = [50u8, 60, 64, 99, 100, 127, 128, 200, 254, 255];
                let list: Vec<u8> = if all_decimals { (0..=255).collect() } else { (0..=45).chain(extra).collect() };
                for decimals in list {
                    for unit in ["DOT", "", "m.x"] {
                        use substrate_parser::printing_balance::AsBalance;
                        let mut outs = Vec::new();
                        let run = guard(|| {
                            outs.push(<u128>::convert_balance_pretty(v, decimals, unit));
                            if let Ok(x) = u64::try_from(v) {
                                outs.push(<u64>::convert_balance_pretty(x, decimals, unit));
                            }
                            if let Ok(x) = u32::try_from(v) {
                                outs.push(<u32>::convert_balance_pretty(x, decimals, unit));
                            }
                            if let Ok(x) = u16::try_from(v) {
                                outs.push(<u16>::convert_balance_pretty(x, decimals, unit));
                            }
                            if let Ok(x) = u8::try_from(v) {
                                outs.push(<u8>::convert_balance_pretty(x, decimals, unit));
                            }
                        });
                        if let Err(p) = run {
                            viol!("balance {v} with {decimals} decimals: panic: {p}");
                        }
                        for c in outs {
                            st.traces += 1;
                            st.transitions += 1;
                            let h = hash_of(&(&c.number, &c.units));
                            st.outcome(h);
                            st.digest = st.digest.wrapping_add(h);
                            if let Err(e) = exact_balance(&s, decimals, unit, &c.number, &c.units) {
                                viol!("balance {v}, decimals {decimals}, unit {unit:?} is shown as {:?} {:?}: {e}", c.number, c.units);
                            }
                        }
                    }
                }
                Ok(())
            })();
            ctx.note(|| format!("value {v}"));
            ctx.stats.add(&st);
            r
        },
    )
}
/// Balances where they are shown: in extensions and in calls of Balances and Staking.
pub fn balances_shown(name: &str) -> Scenario {
    Scenario::new(name, "tip extension, asset tip, balance fields in Balances/Staking calls and elsewhere, 4 integer widths, 9 values, decimals 0..=30 and 255, two units", |ctx| {
        let mut g = base();
        let w = *ctx.pick(&[U8, U16, U32, U64, U128]);
        let pallet = *ctx.pick(&["Balances", "Staking", "Other"]);
        g.add(800, ty(&["rt", "RuntimeCall"], &[], vars(vec![var(pallet, 0, vec![fld(None, None, 801)])])));
        g.add(801, ty(&["pallet", "Call"], &[], vars(vec![var("c", 0, vec![fld(Some("value"), Some("T::Balance"), w)])])));
        let types = frozen(&g.fixed);
        let bytes = match w {
            U8 => 1,
            U16 => 2,
            U32 => 4,
            U64 => 8,
            _ => 16,
        };
        let k = ctx.choose(9);
        let mut num: Vec<u8> = match k {
            0 => vec![0; 16],
            1 => vec![0xff; 16],
            2 => 1u128.to_le_bytes().to_vec(),
            3 => 10u128.to_le_bytes().to_vec(),
            4 => 1_000u128.to_le_bytes().to_vec(),
            5 => 12_345_678_901_234_567_890u128.to_le_bytes().to_vec(),
            6 => 1_000_000_000_000u128.to_le_bytes().to_vec(),
            7 => 200u128.to_le_bytes().to_vec(),
            _ => 100_500u128.to_le_bytes().to_vec(),
        };
        num.truncate(bytes);
        let v = num.iter().rev().fold(0u128, |a, b| a << 8 | *b as u128);
        let mut m = Meta::plain(Reg::Fixed(types.clone()));
        m.call_ty = 800;
        m.exts = vec![("ChargeTransactionPayment".into(), w, UNIT), ("CheckSpecVersion".into(), UNIT, U8), ("CheckGenesis".into(), UNIT, H256)];
        m.version = "7".into();
        let mut data = vec![0u8, 0];
        data.extend_from_slice(&num);
        data.extend_from_slice(&num);
        data.push(7);
        data.extend_from_slice(&[9; 32]);
        let mut st = Stats::default();
        let r = (|| {
            let mut mm = Mem::new();
            let e = guard(|| substrate_parser::parse_transaction_unmarked::<&[u8], Mem, Meta>(&data.as_slice(), &mut mm, &m, None));
            let t = match e {
                Ok(Ok(t)) => t,
                Ok(Err(e)) => viol!("transaction with a {w} balance refused: {e}"),
                Err(p) => viol!("panic: {p}"),
            };
            for decimals in (0..=30u8).chain([255]) {
                for unit in ["WND", ""] {
                    let short = substrate_parser::ShortSpecs { base58prefix: 42, decimals, unit: unit.to_string() };
                    let again = substrate_parser::TransactionUnmarkedParsed { call: t.call.clone(), extensions: t.extensions.clone() };
                    let c = match guard(|| again.card(&short, "x")) {
                        Ok(c) => c,
                        Err(p) => viol!("cards: panic: {p}"),
                    };
                    use substrate_parser::cards::ParserCard as PC;
                    let mut shown = 0;
                    for card in c.extensions.iter().chain(&c.call) {
                        match &card.parser_card {
                            PC::Balance(x) | PC::Tip(x) => {
                                shown += 1;
                                st.traces += 1;
                                if let Err(e) = exact_balance(&v.to_string(), decimals, unit, &x.number, &x.units) {
                                    viol!("{v} with {decimals} decimals is shown as {:?} {:?}: {e}", x.number, x.units);
                                }
                            }
                            PC::BalanceRaw(x) => {
                                shown += 1;
                                st.traces += 1;
                                if *x != v.to_string() {
                                    viol!("{v} is shown raw as {x}");
                                }
                            }
                            _ => {}
                        }
                    }
                    st.transitions += 1;
                    if shown != 2 {
                        viol!("tip and balance make {shown} amounts");
                    }
                }
            }
            Ok(())
        })();
        ctx.note(|| format!("value {v} width {w} pallet {pallet}"));
        ctx.stats.add(&st);
        r
    })
}
// ---- metadata ----

use frame_metadata::{v14, v15};
use scale_info::{PortableRegistry, PortableType, TypeParameter};
use substrate_parser::error::{MetaStructureErrorV14 as E14, MetaVersionErrorPallets as EV};
use substrate_parser::traits::{AsCompleteMetadata, AsMetadata};

fn portable(t: &[T]) -> PortableRegistry {
    PortableRegistry { types: t.iter().enumerate().map(|(i, t)| PortableType { id: i as u32, ty: t.clone() }).collect() }
}
pub(super) struct Pal {
    pub name: &'static str,
    pub consts: Vec<(&'static str, u32, Vec<u8>)>,
}
pub(super) struct Ex {
    pub ty: u32,
    pub version: u8,
    pub exts: Vec<(&'static str, u32, u32)>,
    pub declared: [u32; 4],
}
pub(super) fn m14(t: &[T], p: &[Pal], e: &Ex) -> v14::RuntimeMetadataV14 {
    v14::RuntimeMetadataV14 {
        types: portable(t),
        pallets: p
            .iter()
            .enumerate()
            .map(|(i, p)| v14::PalletMetadata {
                name: p.name.to_string(),
                storage: None,
                calls: None,
                event: None,
                constants: p.consts.iter().map(|(n, t, v)| v14::PalletConstantMetadata { name: n.to_string(), ty: sym(*t), value: v.clone(), docs: vec![] }).collect(),
                error: None,
                index: i as u8,
            })
            .collect(),
        extrinsic: v14::ExtrinsicMetadata {
            ty: sym(e.ty),
            version: e.version,
            signed_extensions: e.exts.iter().map(|(n, a, b)| v14::SignedExtensionMetadata { identifier: n.to_string(), ty: sym(*a), additional_signed: sym(*b) }).collect(),
        },
        ty: sym(0),
    }
}
pub(super) fn m15(t: &[T], p: &[Pal], e: &Ex) -> v15::RuntimeMetadataV15 {
    v15::RuntimeMetadataV15 {
        types: portable(t),
        pallets: p
            .iter()
            .enumerate()
            .map(|(i, p)| v15::PalletMetadata {
                name: p.name.to_string(),
                storage: None,
                calls: None,
                event: None,
                constants: p.consts.iter().map(|(n, t, v)| v15::PalletConstantMetadata { name: n.to_string(), ty: sym(*t), value: v.clone(), docs: vec![] }).collect(),
                error: None,
                index: i as u8,
                docs: vec![],
            })
            .collect(),
        extrinsic: v15::ExtrinsicMetadata {
            version: e.version,
            address_ty: sym(e.declared[0]),
            call_ty: sym(e.declared[1]),
            signature_ty: sym(e.declared[2]),
            extra_ty: sym(e.declared[3]),
            signed_extensions: e.exts.iter().map(|(n, a, b)| v15::SignedExtensionMetadata { identifier: n.to_string(), ty: sym(*a), additional_signed: sym(*b) }).collect(),
        },
        ty: sym(0),
        apis: vec![],
        outer_enums: v15::OuterEnums { call_enum_ty: sym(0), event_enum_ty: sym(0), error_enum_ty: sym(0) },
        custom: v15::CustomMetadata { map: Default::default() },
    }
}
/// (name, version) or the set of right complaints
type Ver = Result<(String, String), Vec<&'static str>>;

fn ev(e: &EV) -> &'static str {
    match e {
        EV::NoSpecNameIdentifier => "no name",
        EV::NoSpecVersionIdentifier => "no version",
        EV::NoSystemPallet => "no System",
        EV::NoVersionInConstants => "no Version",
        EV::RuntimeVersionNotDecodeable => "not decodeable",
        EV::SpecNameIdentifierTwice => "name twice",
        EV::SpecVersionIdentifierTwice => "version twice",
        EV::UnexpectedRuntimeVersionFormat => "not a struct",
    }
}
fn ref_version(types: &[T], p: &[Pal]) -> Ver {
    let Some(s) = p.iter().find(|p| p.name == "System") else { return Err(vec!["no System"]) };
    let Some((_, id, value)) = s.consts.iter().find(|c| c.0 == "Version") else { return Err(vec!["no Version"]) };
    let w = Types::from_vec(types.to_vec());
    let o = reference(&Entry::All { id: *id }, &Fixed { types: &w, data: value }, value.len(), &Fixed { types: &w, data: &[] }, 0, &Meta::plain(Reg::Fixed(Rc::new(Types::default()))));
    let x = match o {
        Ok(Good::Val(x, _)) => x,
        _ => return Err(vec!["not decodeable"]),
    };
    let V::Comp(f) = x.v else { return Err(vec!["not a struct"]) };
    let (mut names, mut vers) = (Vec::new(), Vec::new());
    for x in &f {
        match &x.x.v {
            V::Text(s, true) => names.push(s.clone()),
            V::UInt(_, n, Sp::SpecVersion) => vers.push(n.to_string()),
            _ => {}
        }
    }
    let mut bad = Vec::new();
    if names.len() > 1 {
        bad.push("name twice");
    }
    if vers.len() > 1 {
        bad.push("version twice");
    }
    if names.is_empty() {
        bad.push("no name");
    }
    if vers.is_empty() {
        bad.push("no version");
    }
    if bad.is_empty() {
        Ok((names.remove(0), vers.remove(0)))
    } else {
        Err(bad)
    }
}
pub(super) fn check_version(types: &[T], p: &[Pal], e: &Ex, st: &mut Stats) -> Res {
    check_version_of(&m14(types, p, e), &m15(types, p, e), types, p, st)
}
pub(super) fn check_version_of(a: &v14::RuntimeMetadataV14, b: &v15::RuntimeMetadataV15, types: &[T], p: &[Pal], st: &mut Stats) -> Res {
    let want = ref_version(types, p);
    let got: Vec<(&str, Result<Result<(String, String), &'static str>, String>)> = vec![
        (
            "V14",
            guard(|| {
                <v14::RuntimeMetadataV14 as AsMetadata<Mem>>::spec_name_version(a).map(|s| (s.spec_name, s.printed_spec_version)).map_err(|e| match &e {
                    E14::Version(v) => ev(v),
                    _ => "other",
                })
            }),
        ),
        ("V15", guard(|| <v15::RuntimeMetadataV15 as AsMetadata<Mem>>::spec_name_version(b).map(|s| (s.spec_name, s.printed_spec_version)).map_err(|e| ev(&e)))),
        ("V14 (no memory)", guard(|| <v14::RuntimeMetadataV14 as AsMetadata<()>>::spec_name_version(a).map(|s| (s.spec_name, s.printed_spec_version)).map_err(|_| "?"))),
    ];
    for (which, g) in got {
        st.traces += 1;
        st.transitions += types.len() as u64;
        match g {
            Err(p) => viol!("{which}: panic: {p}"),
            Ok(g) => {
                if g.is_ok() {
                    st.accepted += 1;
                }
                let h = hash_of(&g);
                st.outcome(h);
                st.digest = st.digest.wrapping_add(h);
                let right = match (&g, &want) {
                    (Ok(a), Ok(b)) => a == b,
                    (Err("?"), Err(_)) => true,
                    (Err(a), Err(b)) => b.contains(a),
                    _ => false,
                };
                if !right {
                    viol!("{which}: spec name and version are {g:?}, expected {want:?}\n pallets {:?}\n types {types:?}", p.iter().map(|p| (p.name, &p.consts)).collect::<Vec<_>>());
                }
            }
        }
    }
    Ok(())
}
// fixed type ids
pub(super) const MU8: u32 = 0;
pub(super) const MU32: u32 = 1;
pub(super) const MSTR: u32 = 2;
pub(super) const MVEC: u32 = 3;
pub(super) fn meta_types() -> Vec<T> {
    let mut v = vec![prim(Pr::U8), prim(Pr::U32), prim(Pr::Str), ty(&[], &[], seq(MU8)), prim(Pr::U16), prim(Pr::U64), prim(Pr::U128)];
    v.push(ty(&[], &[], compact(MU32))); // 7
    v.push(ty(&["W"], &[], comp(vec![fld(None, None, MU32)]))); // 8
    v.push(ty(&["W"], &[], comp(vec![fld(Some("spec_version"), None, MU32)]))); // 9
    v.push(ty(&[], &[], tup(&[]))); // 10
    v.push(prim(Pr::Char)); // 11
    v
}
const VF: [(Option<&str>, u32); 16] = [
    (Some("spec_name"), MSTR),
    (Some("spec_version"), MU32),
    (Some("impl_name"), MSTR),
    (Some("transaction_version"), MU32),
    (Some("spec_version"), MU8),
    (Some("spec_version"), 7),
    (Some("spec_name"), MU32),
    (Some("spec_version"), MSTR),
    (Some("spec_version"), 8),
    (None, 9),
    (Some("spec_version"), 4),
    (Some("spec_version"), 5),
    (Some("spec_version"), 6),
    (None, MSTR),
    (Some("apis"), MVEC),
    (Some("x"), 99),
];
fn value_of(id: u32, k: usize) -> Vec<u8> {
    match (id, k) {
        (MU8, 0) => vec![7],
        (MU8, _) => vec![0xff],
        (MSTR, 0) => vec![0x0c, b'a', b'b', b'c'],
        (MSTR, _) => vec![0],
        (MVEC, 0) => vec![8, 1, 2],
        (MVEC, _) => vec![0],
        (4, k) => vec![k as u8 * 9, 1],
        (5, k) => vec![k as u8, 0, 0, 0, 0, 0, 0, 0x80],
        (6, k) => (0..16).map(|i| (i * k) as u8).collect(),
        (7, 0) => vec![0x28],
        (7, _) => vec![0x02, 0x09, 0x3d, 0x00],
        (_, 0) => vec![0x0a, 0, 0, 0],
        _ => vec![0xff, 0xff, 0xff, 0xff],
    }
}
/// A name and any two or three of the other fields, in every order: given twice in different widths, equal or not.
pub fn meta_version_pairs(name: &str, thorough: bool) -> Scenario {
    let more = if thorough { VF.len() + 1 } else { 4 };
    Scenario::new(name, format!("version structs of a spec name and all pairs out of {} fields, one of {} more, the name at every place, same or other values, V14 and V15", VF.len(), more - 1), move |ctx| {
        let mut f: Vec<(Option<&str>, u32)> = (0..2).map(|_| VF[ctx.choose(VF.len())]).collect();
        let third = ctx.choose(more);
        if third > 0 {
            f.push(VF[third - 1]);
        }
        f.insert(ctx.choose(f.len() + 1), VF[0]);
        let k = ctx.choose(4);
        let data: Vec<u8> = f.iter().enumerate().flat_map(|(i, f)| value_of(f.1, if k < 2 { k } else { (k + i) % 2 })).collect();
        let mut types = meta_types();
        let root = types.len() as u32;
        types.push(ty(&["sp_version", "RuntimeVersion"], &[], comp(f.iter().map(|f| fld(f.0, None, f.1)).collect())));
        ctx.note(|| format!("fields {f:?} data {}", hex::encode(&data)));
        let mut st = Stats::default();
        let r = check_version(&types, &[Pal { name: "System", consts: vec![("Version", root, data)] }], &Ex { ty: 0, version: 4, exts: vec![], declared: [0; 4] }, &mut st);
        ctx.stats.add(&st);
        r
    })
}
/// All version structs out of a field alphabet, exact and damaged bytes.
pub fn meta_version(name: &str, slots: usize, kinds: usize) -> Scenario {
    Scenario::new(name, format!("all version structs of 0..={slots} fields out of {kinds} (names, widths, texts, wrappers, unresolvable), 2 values each, bytes exact / short / long, wrapped in 5 ways, V14 and V15"), move |ctx| {
        let n = ctx.choose(slots + 1);
        let f: Vec<(Option<&str>, u32)> = (0..n).map(|_| VF[ctx.choose(kinds)]).collect();
        let k = ctx.choose(2);
        let mut data: Vec<u8> = f.iter().enumerate().flat_map(|(i, f)| value_of(f.1, (k + i) % 2)).collect();
        match ctx.choose(3) {
            1 => data.push(0),
            2 => {
                data.pop();
            }
            _ => {}
        }
        let mut types = meta_types();
        let root = types.len() as u32;
        types.push(ty(&["sp_version", "RuntimeVersion"], &[], comp(f.iter().map(|f| fld(f.0, None, f.1)).collect())));
        let id = match if n < 3 { ctx.choose(6) } else { 0 } {
            0 => root,
            1 => {
                types.push(ty(&["Wrap"], &[], comp(vec![fld(None, None, root)])));
                root + 1
            }
            2 => {
                types.push(ty(&[], &[], tup(&f.iter().map(|f| f.1).collect::<Vec<_>>())));
                root + 1
            }
            3 => {
                types.push(ty(&[], &[], compact(root)));
                root + 1
            }
            4 => {
                types.push(ty(&[], &[], tup(&[root])));
                root + 1
            }
            _ => {
                types.push(ty(&["E"], &[], vars(vec![var("A", 10, f.iter().map(|f| fld(f.0, None, f.1)).collect()), var("B", 0, f.iter().map(|f| fld(f.0, None, f.1)).collect())])));
                root + 1
            }
        };
        ctx.note(|| format!("fields {f:?} data {}", hex::encode(&data)));
        let p = [Pal { name: "Balances", consts: vec![("Version", MU32, vec![1, 0, 0, 0])] }, Pal { name: "System", consts: vec![("SS58Prefix", MU8, vec![42]), ("Version", id, data), ("Versions", MU8, vec![3])] }];
        let e = Ex { ty: 0, version: 4, exts: vec![], declared: [0; 4] };
        let mut st = Stats::default();
        let r = check_version(&types, &p, &e, &mut st);
        ctx.stats.add(&st);
        r
    })
}
/// Layouts of pallets and constants, extrinsic facts delivered unchanged.
pub fn meta_layout(name: &str) -> Scenario {
    Scenario::new(name, "all lists of up to 3 pallets out of 8 kinds (System with/without/with misnamed Version, lookalikes); extensions lists, versions, declared types for V14 and V15", |ctx| {
        let mut types = meta_types();
        let good = types.len() as u32;
        types.push(ty(&["RuntimeVersion"], &[], comp(vec![fld(Some("spec_name"), None, MSTR), fld(Some("spec_version"), None, MU32)])));
        let val = |n: u8, v: u8| vec![0x04, b'a' + n, v, 0, 0, 0];
        let n = ctx.choose(4);
        let mut p = Vec::new();
        let mut system = false;
        for i in 0..n as u8 {
            let mut k = ctx.choose(8);
            if k < 4 {
                // one System pallet only
                if system {
                    k = 4;
                }
                system = true;
            }
            p.push(match k {
                0 => Pal { name: "System", consts: vec![("Version", good, val(i, 10 + i))] },
                1 => Pal { name: "System", consts: vec![] },
                2 => Pal { name: "System", consts: vec![("version", good, val(i, 1)), ("Versio", good, val(i, 2)), ("Version", good, val(i, 3)), ("VersionX", good, val(i, 4))] },
                3 => Pal { name: "System", consts: vec![("version", good, val(i, 1)), ("SpecVersion", good, val(i, 4))] },
                4 => Pal { name: "system", consts: vec![("Version", good, val(i, 20 + i))] },
                5 => Pal { name: "SystemX", consts: vec![("Version", good, val(i, 30 + i))] },
                6 => Pal { name: "Balances", consts: vec![("Version", good, val(i, 40 + i)), ("System", good, val(i, 50))] },
                _ => Pal { name: "", consts: vec![("Version", 99, vec![])] },
            });
        }
        let exts: Vec<(&'static str, u32, u32)> = match ctx.choose(8) {
            0 => vec![],
            1 => vec![("A", 1, 2), ("B", 3, 4), ("A", 5, 6)],
            3 => vec![("A", 1, 2), ("A", 3, 4), ("A", 1, 2), ("B", 1, 2), ("B", 1, 2)],
            4 => vec![("", 1, 2), ("", 1, 2)],
            5 => (0..70).map(|i| (["CheckNonce", "CheckEra", "Z", "a"][i % 4], i as u32, 100 - i as u32)).collect(),
            6 => vec![("CheckSpecVersion", 10, 1), ("CheckTxVersion", 10, 10), ("CheckGenesis", 10, 10), ("Empty", 10, 10), ("checknonce", 0, 0)],
            2 => vec![("CheckNonce", 7, 0), ("", 0, 7)],
            _ => vec![("Z", 9, 9)],
        };
        let version = *ctx.pick(&[4u8, 0, 5, 127, 128, 255]);
        let declared = *ctx.pick(&[[1u32, 2, 3, 4], [4, 3, 2, 1], [9, 9, 9, 1000]]);
        let xt = types.len() as u32;
        let mut x = ty(&["sp_runtime", "generic", "unchecked_extrinsic", "UncheckedExtrinsic"], &[], comp(vec![fld(None, None, MVEC)]));
        x.type_params = [("Address", declared[0]), ("Call", declared[1]), ("Signature", declared[2]), ("Extra", declared[3])].iter().map(|(n, i)| TypeParameter::<PortableForm>::new_portable(n.to_string(), Some(sym(*i)))).collect();
        types.push(x);
        let e = Ex { ty: xt, version, exts, declared };
        let mut st = Stats::default();
        let r = check_version(&types, &p, &e, &mut st).and_then(|_| {
            let (a, b) = (m14(&types, &p, &e), m15(&types, &p, &e));
            facts("V14", &a, &e, &types, &mut st)?;
            facts("V15", &b, &e, &types, &mut st)
        });
        ctx.stats.add(&st);
        r
    })
}
pub(super) fn facts<M: AsCompleteMetadata<Mem>>(which: &str, m: &M, e: &Ex, types: &[T], st: &mut Stats) -> Res
where
    M::MetaStructureError: core::fmt::Debug,
{
    st.traces += 1;
    let r = guard(|| {
        (
            m.call_ty().map(|t| t.id).map_err(|e| format!("{e:?}")),
            m.signed_extensions().map(|v| v.into_iter().map(|x| (x.identifier, x.ty.id, x.additional_signed.id)).collect::<Vec<_>>()).map_err(|e| format!("{e:?}")),
            m.extrinsic_version().map_err(|e| format!("{e:?}")),
            m.extrinsic_type_params().map(|p| [p.address_ty.id, p.call_ty.id, p.signature_ty.id, p.extra_ty.id]).map_err(|e| format!("{e:?}")),
        )
    });
    let (call, exts, ver, params) = match r {
        Ok(x) => x,
        Err(p) => viol!("{which}: panic: {p}"),
    };
    if call != Ok(e.declared[1]) {
        viol!("{which}: call type {call:?}, expected {}", e.declared[1]);
    }
    let want: Vec<(String, u32, u32)> = e.exts.iter().map(|(n, a, b)| (n.to_string(), *a, *b)).collect();
    if exts != Ok(want) {
        viol!("{which}: extensions {exts:?}, expected {:?}", e.exts);
    }
    if ver != Ok(e.version) {
        viol!("{which}: extrinsic version {ver:?}, expected {}", e.version);
    }
    if params != Ok(e.declared) {
        viol!("{which}: extrinsic parameters {params:?}, expected {:?}", e.declared);
    }
    let reg = m.types();
    use substrate_parser::traits::ResolveType;
    for i in 0..types.len() as u32 + 2 {
        let got = reg.resolve_ty(i, &mut Mem::new()).ok();
        if got.as_ref() != types.get(i as usize) {
            viol!("{which}: type {i} resolves to {got:?}");
        }
    }
    Ok(())
}
/// V14 extrinsic types and their parameters.
pub fn meta_extrinsic(name: &str, slots: usize) -> Scenario {
    Scenario::new(name, format!("14 shapes of the extrinsic type x all parameter lists of 0..={slots} distinct names out of 8 kinds in any order, with and without a type"), move |ctx| {
        let mut types = meta_types();
        let id = types.len() as u32;
        let shape = ctx.choose(14);
        const UX: [&str; 4] = ["sp_runtime", "generic", "unchecked_extrinsic", "UncheckedExtrinsic"];
        // 0: opaque bytes, parameters must be delivered; 1: either they or an error; 2: an error
        let (def, path, level): (TypeDef<PortableForm>, &[&str], u8) = match shape {
            0 => (comp(vec![fld(None, None, MVEC)]), &UX, 0),
            1 => (seq(MU8), &[], 0),
            2 => (seq(MU8), &UX, 0),
            3 => (comp(vec![fld(None, None, MVEC)]), &["Other"], 1),
            4 => (seq(MU32), &[], 2),
            5 => (comp(vec![fld(None, None, MVEC), fld(None, None, MVEC)]), &UX, 2),
            6 => (comp(vec![fld(None, None, MU8)]), &UX, 2),
            7 => (comp(vec![fld(None, None, 99)]), &UX, 2),
            8 => (comp(vec![]), &UX, 2),
            9 => (arr(3, MU8), &[], 2),
            10 => (tup(&[MVEC, MVEC]), &UX, 2),
            11 => (TypeDef::Primitive(Pr::U8), &UX, 2),
            12 => (seq(99), &UX, 2),
            _ => (vars(vec![var("A", 0, vec![fld(None, None, MVEC)])]), &UX, 2),
        };
        let mut t = ty(path, &[], def);
        let n = ctx.choose(slots + 1);
        let mut left: Vec<(&str, Option<u32>)> = vec![("Address", Some(11)), ("Call", Some(12)), ("Signature", Some(13)), ("Extra", Some(14)), ("Call", None), ("Extra", None), ("address", Some(21)), ("Other", Some(22))];
        let mut ps: Vec<(&str, Option<u32>)> = Vec::new();
        for _ in 0..n {
            if left.is_empty() {
                break;
            }
            let c = ctx.choose(left.len());
            let x = left[c];
            left.retain(|y| y.0 != x.0);
            ps.push(x);
        }
        t.type_params = ps.iter().map(|(n, i)| TypeParameter::<PortableForm>::new_portable(n.to_string(), i.map(sym))).collect();
        types.push(t);
        let e = Ex { ty: if ctx.flag() { id } else { types.push(ty(&["X"], &[], comp(vec![fld(None, None, id)]))); id + 1 }, version: 4, exts: vec![], declared: [0; 4] };
        let level = if e.ty != id && level == 0 { 1 } else { level };
        let a = m14(&types, &[], &e);
        let mut st = Stats::default();
        let get = |n: &str| ps.iter().find(|p| p.0 == n).and_then(|p| p.1);
        let all = [get("Address"), get("Call"), get("Signature"), get("Extra")];
        let r = (|| {
            let got = guard(|| <v14::RuntimeMetadataV14 as AsCompleteMetadata<Mem>>::extrinsic_type_params(&a).map(|p| [p.address_ty.id, p.call_ty.id, p.signature_ty.id, p.extra_ty.id]));
            let call = guard(|| <v14::RuntimeMetadataV14 as AsMetadata<Mem>>::call_ty(&a).map(|t| t.id));
            let (got, call) = match (got, call) {
                (Ok(a), Ok(b)) => (a, b),
                (Err(p), _) | (_, Err(p)) => viol!("panic: {p}"),
            };
            st.traces += 2;
            st.transitions += 2;
            let h = hash_of(&format!("{got:?}"));
            st.outcome(h);
            st.digest = st.digest.wrapping_add(h);
            match (&got, &call) {
                (Ok(p), Ok(c)) if *c == p[1] => {}
                (Err(x), Err(y)) if x == y => {}
                _ => viol!("parameters {got:?}, call type {call:?}"),
            }
            let complete = all.iter().all(|x| x.is_some());
            let right = match &got {
                Ok(p) => level < 2 && complete && p.iter().zip(&all).all(|(a, b)| Some(*a) == *b),
                Err(x) => {
                    let named = match x {
                        E14::NoAddressParam => all[0].is_none(),
                        E14::NoCallParam => all[1].is_none(),
                        E14::NoSignatureParam => all[2].is_none(),
                        E14::NoExtraParam => all[3].is_none(),
                        E14::UnexpectedExtrinsicType { .. } | E14::ExtrinsicTypeNotResolved(_) => level > 0,
                        E14::Version(_) => false,
                    };
                    match level {
                        0 => named && !complete,
                        1 => true,
                        _ => matches!(x, E14::UnexpectedExtrinsicType { .. } | E14::ExtrinsicTypeNotResolved(_)),
                    }
                }
            };
            if !right {
                viol!("shape {shape}: extrinsic parameters {got:?} from {ps:?}");
            }
            Ok(())
        })();
        ctx.note(|| format!("shape {shape} parameters {ps:?}"));
        ctx.stats.add(&st);
        r
    })
}

// ---- histories ----

/// An operation on the library, owning its arguments.
pub struct Op {
    pub name: &'static str,
    pub e: Entry,
    pub types: Rc<Types>,
    pub data: Vec<u8>,
    pub data2: Vec<u8>,
    pub m: Meta,
    pub fail_at: usize,
    pub spec: usize,
}
impl Op {
    pub fn case(&self) -> Case<'_> {
        Case { e: self.e.clone(), types: self.types.clone(), data: &self.data, data2: &self.data2, m: self.m.clone() }
    }
    /// Everything observable, as one number: result, error text, cards.
    pub fn run(&self) -> Result<(u64, usize, Real), String> {
        let mut mm = if self.fail_at < usize::MAX { Mem::failing(self.fail_at, true) } else { Mem::new() };
        let r = self.case().paged(&mut mm)?;
        let mut h = hash_of(&(&r.o, &r.text));
        let (short, chain) = (SPECS[self.spec].short(), SPECS[self.spec].chain);
        for k in &r.keep {
            let cards = match k {
                Keep::X(x, b) => guard(|| x.card(0, *b, &short, chain))?,
                Keep::C(c) => guard(|| c.card(0, &short, chain))?,
                Keep::Tx(c, x, _) => guard(|| {
                    let mut v: Vec<_> = x.iter().flat_map(|x| x.card(0, true, &short, chain)).collect();
                    if let Some(c) = c {
                        v.extend(c.card(0, &short, chain));
                    }
                    v
                })?,
            };
            for c in cards {
                h = hash_of(&(h, c.show(), c.show_with_docs()));
            }
        }
        Ok((h, mm.n, r))
    }
}
pub fn pool() -> Vec<Op> {
    let mut v = Vec::new();
    let rt = frozen(&g_runtime().fixed);
    let m = runtime_meta(&rt);
    let tx = |call: usize, ext: usize| {
        let c = call_samples()[call].clone();
        let mut d = enc_compact(c.len() as u128);
        d.extend(c);
        d.extend(ext_samples()[ext].clone());
        d
    };
    let op = |name, e: Entry, types: &Rc<Types>, data: Vec<u8>, m: &Meta| Op { name, e, types: types.clone(), data, data2: vec![], m: m.clone(), fail_at: usize::MAX, spec: 0 };
    v.push(op("transaction", Entry::Tx { genesis: Some([0; 32]) }, &rt, tx(2, 0), &m));
    v.push(op("transaction with a nested call, mortal", Entry::Tx { genesis: None }, &rt, tx(5, 1), &m));
    v.push(op("transaction for another spec version", Entry::Tx { genesis: None }, &rt, tx(2, 4), &m));
    v.push(op("transaction with a broken call", Entry::Tx { genesis: None }, &rt, tx(12, 0), &m));
    // the same type ids mean something else
    let mut g = g_runtime();
    g.add(VECU8, ty(&["Other"], &["other"], comp(vec![fld(Some("balance"), Some("Balance"), U32), fld(Some("who"), None, ACC)])));
    g.add(ERA, ty(&["E"], &[], vars(vec![var("A", 0, vec![]), var("B", 0x15, vec![fld(None, None, U8)])])));
    g.add(U8, prim(Pr::U16));
    let other = frozen(&g.fixed);
    let mut m2 = m.clone();
    m2.reg = Reg::Fixed(other.clone());
    m2.name = "other".into();
    v.push(op("transaction under other metadata", Entry::Tx { genesis: None }, &other, tx(2, 0), &m2));
    let mut d = call_samples()[2].clone();
    d.extend(ext_samples()[0].clone());
    v.push(op("unprefixed transaction", Entry::TxPlain { genesis: None }, &rt, d, &m));
    // types
    let mut g = base();
    g.add(ROOT, ty(&["S"], &["docs"], comp(vec![fld(Some("nonce"), None, U32), fld(Some("value"), Some("Balance"), U128), fld(None, None, 37)])));
    g.add(37, ty(&["sp_runtime", "MultiSignature"], &[], vars(vec![var("Ed25519", 0, vec![fld(None, Some("ed25519::Signature"), 38)]), var("Sr25519", 1, vec![fld(None, Some("sr25519::Signature"), 38)])])));
    g.add(38, ty(&[], &[], arr(64, U8)));
    let a = frozen(&g.fixed);
    let plain = Meta::plain(Reg::Fixed(a.clone()));
    v.push(op("struct with a signature", Entry::Type { id: ROOT, start: 0 }, &a, vec![1; 100], &plain));
    v.push(op("cut struct", Entry::Type { id: ROOT, start: 0 }, &a, vec![1; 30], &plain));
    let mut g = base();
    g.add(ROOT, ty(&["S"], &["other docs"], tup(&[ROOT + 1, U8])));
    g.add(ROOT + 1, ty(&[], &[], comp(vec![fld(None, None, ROOT)])));
    g.add(37, ty(&[], &[], seq(STR)));
    let b = frozen(&g.fixed);
    let plain_b = Meta::plain(Reg::Fixed(b.clone()));
    v.push(op("cyclic type", Entry::Type { id: ROOT, start: 0 }, &b, vec![1; 40], &plain_b));
    v.push(op("texts under an id used otherwise elsewhere", Entry::All { id: 37 }, &b, vec![8, 8, b'a', b'b', 4, b'c'], &plain_b));
    v.push(op("compact", Entry::Compact { width: 8, start: 1 }, &b, vec![0, 0x13, 1, 2, 3, 4, 5, 6, 7, 8], &plain_b));
    let mut f = op("memory failing in the middle", Entry::Tx { genesis: None }, &rt, tx(5, 1), &m);
    f.fail_at = 40;
    v.push(f);
    // storage
    use frame_metadata::v14::{StorageEntryMetadata, StorageEntryModifier, StorageEntryType, StorageHasher};
    let entry = |key: u32, h: StorageHasher| {
        Rc::new(StorageEntryMetadata { name: "Account".to_string(), modifier: StorageEntryModifier::Default, ty: StorageEntryType::Map { hashers: vec![h], key: sym(key), value: sym(ROOT) }, default: vec![], docs: vec!["entry".to_string()] })
    };
    let mut s = op("storage entry", Entry::Storage { entry: entry(U32, StorageHasher::Blake2_128Concat) }, &a, { let mut k = vec![9u8; 32]; k.extend(hash_part(&StorageHasher::Blake2_128Concat, &[1, 2, 3, 4])); k }, &plain);
    s.data2 = vec![1; 85];
    v.push(s);
    // bits and one unchecked extrinsic
    let mut g = base();
    g.add(ROOT, ty(&[], &[], bitseq(U32, MSB)));
    let c = frozen(&g.fixed);
    v.push(op("bits", Entry::All { id: ROOT }, &c, vec![0x28, 0xa5, 0x5a, 0, 0], &Meta::plain(Reg::Fixed(c.clone()))));
    let u = frozen(&g_unchecked().fixed);
    let mu = runtime_meta(&u);
    for (i, name) in [(1, "transaction shown for another network"), (2, "transaction shown for a third network")] {
        let mut o = op(name, Entry::Tx { genesis: Some([0; 32]) }, &rt, tx(2, 0), &m);
        o.spec = i;
        v.push(o);
    }
    v.push(op("transaction of another chain", Entry::Tx { genesis: Some([1; 32]) }, &rt, tx(2, 0), &m));
    let mut m3 = m.clone();
    m3.version = "8".into();
    v.push(op("transaction of another version", Entry::Tx { genesis: Some([0; 32]) }, &rt, tx(2, 0), &m3));
    v.push(op("unchecked extrinsic", Entry::Unchecked, &u, { let c = call_samples()[5].clone(); let mut d = enc_compact(1 + c.len() as u128); d.push(4); d.extend(c); d }, &mu));
    v
}
/// One operation runs whole inside each access of another one.
pub fn nested_pool(name: &str) -> Scenario {
    let n = pool().len();
    Scenario::new(name, format!("all {n}x{n} pairs of operations, the second one run inside every single memory access of the first one"), move |ctx| {
        let p = pool();
        let (a, b) = (ctx.choose(p.len()), ctx.choose(p.len()));
        let mut st = Stats::default();
        let r = (|| {
            let (ha, n, _) = match p[a].run() {
                Ok(x) => x,
                Err(e) => viol!("{}: panic: {e}", p[a].name),
            };
            let hb = match p[b].run() {
                Ok(x) => x.0,
                Err(e) => viol!("{}: panic: {e}", p[b].name),
            };
            for k in 0..n {
                let seen: Rc<core::cell::RefCell<Option<Result<u64, String>>>> = Rc::new(core::cell::RefCell::new(None));
                let put = seen.clone();
                let pb = pool();
                let mut mm = if p[a].fail_at < usize::MAX { Mem::failing(p[a].fail_at, true) } else { Mem::new() };
                mm.hook_at = k;
                mm.hook = Some(alloc::boxed::Box::new(move || *put.borrow_mut() = Some(pb[b].run().map(|x| x.0))));
                let outer = match p[a].case().paged(&mut mm) {
                    Ok(r) => r,
                    Err(e) => viol!("{} with {} inside access {k}: panic: {e}", p[a].name, p[b].name),
                };
                st.traces += 2;
                st.transitions += mm.n as u64;
                let alone = match p[a].run() {
                    Ok(x) => x.2,
                    Err(e) => viol!("{}: panic: {e}", p[a].name),
                };
                if outer.o != alone.o || outer.text != alone.text {
                    viol!("{} with {} inside access {k} gives {:?}, alone {:?}", p[a].name, p[b].name, outer.o, alone.o);
                }
                let inner = seen.borrow_mut().take();
                if inner != Some(Ok(hb)) {
                    viol!("{} inside access {k} of {} differs from the same parse alone", p[b].name, p[a].name);
                }
            }
            let again = p[a].run().map(|x| x.0);
            if again != Ok(ha) {
                viol!("{} differs after the nested runs", p[a].name);
            }
            Ok(())
        })();
        ctx.note(|| format!("{} inside {}", p[b].name, p[a].name));
        ctx.stats.add(&st);
        r
    })
}
/// Operations besides the decoding entries: metadata, eras, compacts, amounts, plain slices.
#[cfg(feature = "host")]
pub fn more_ops() -> Vec<(&'static str, fn() -> String)> {
    fn meta(name: u8, version: u8, swap: bool, before: usize) -> (v14::RuntimeMetadataV14, v15::RuntimeMetadataV15) {
        let mut types = meta_types();
        let id = types.len() as u32;
        let mut f = vec![fld(Some("spec_name"), None, MSTR), fld(Some("spec_version"), None, MU32)];
        let mut d = vec![0x04, name, version, 0, 0, 0];
        if swap {
            f.swap(0, 1);
            d.rotate_left(2);
        }
        types.push(ty(&["RuntimeVersion"], &[], comp(f)));
        let k = version as u32;
        let mut x = ty(&["UncheckedExtrinsic"], &[], comp(vec![fld(None, None, MVEC)]));
        x.type_params = [("Address", k), ("Call", k + 1), ("Signature", k + 2), ("Extra", k + 3)].iter().map(|(n, i)| TypeParameter::<PortableForm>::new_portable(n.to_string(), Some(sym(*i)))).collect();
        types.push(x);
        let mut p: Vec<Pal> = (0..before).map(|i| Pal { name: ["Timestamp", "Balances"][i % 2], consts: vec![("Version", MU8, vec![3]); i] }).collect();
        let mut consts = vec![("SS58Prefix", MU8, vec![42]); before];
        consts.push(("Version", id, d));
        p.push(Pal { name: "System", consts });
        let e = Ex { ty: id + 1, version: 4, exts: vec![("CheckNonce", k, k)], declared: [k, k + 1, k + 2, k + 3] };
        (m14(&types, &p, &e), m15(&types, &p, &e))
    }
    fn of(name: u8, version: u8, swap: bool, before: usize) -> String {
        let (a, b) = meta(name, version, swap, before);
        format!(
            "{:?} {:?} {:?} {:?} {:?} {:?}",
            <v14::RuntimeMetadataV14 as AsMetadata<Mem>>::spec_name_version(&a),
            <v15::RuntimeMetadataV15 as AsMetadata<Mem>>::spec_name_version(&b),
            <v14::RuntimeMetadataV14 as AsCompleteMetadata<Mem>>::extrinsic_type_params(&a),
            <v15::RuntimeMetadataV15 as AsCompleteMetadata<Mem>>::extrinsic_type_params(&b),
            <v14::RuntimeMetadataV14 as AsMetadata<Mem>>::signed_extensions(&a),
            <v14::RuntimeMetadataV14 as AsMetadata<Mem>>::call_ty(&a),
        )
    }
    fn amount(v: u128, decimals: u8, unit: &str) -> String {
        use substrate_parser::printing_balance::AsBalance;
        let a = <u128>::convert_balance_pretty(v, decimals, unit);
        let b = <u8>::convert_balance_pretty(v as u8, decimals, unit);
        format!("{} {} {} {}", a.number, a.units, b.number, b.units)
    }
    fn eras(f: usize) -> String {
        use parity_scale_codec::{Decode, Encode};
        let l: Vec<_> = (0..64u8).map(|i| Era::decode(&mut [i.wrapping_mul(f as u8), i][..].as_ref()).map(|e| (e, e.encode())).map_err(|e| format!("{e}"))).collect();
        format!("{l:?}")
    }
    fn slice(b: u8) -> String {
        let mut g = base();
        g.add(ROOT, ty(&["S"], &["docs"], comp(vec![fld(Some("a"), None, VECU8), fld(Some("b"), None, ERA), fld(Some("c"), None, ACC)])));
        let t = frozen(&g.fixed);
        let mut d = vec![8, b, b, b, 1];
        d.extend([b; 32]);
        let e = Entry::All { id: ROOT };
        let c = Case { e, types: t.clone(), data: &d, data2: &[], m: Meta::plain(Reg::Fixed(t)) };
        match c.real(&mut Mem::new()) {
            Ok(r) => format!("{:?} {:?}", r.o, r.text),
            Err(e) => format!("panic {e}"),
        }
    }
    vec![
        ("metadata", || of(b'a', 7, false, 2)),
        ("metadata of another chain", || of(b'b', 7, false, 0)),
        ("metadata of another version, fields swapped", || of(b'a', 9, true, 1)),
        ("amount", || amount(1_234_567, 12, "WND")),
        ("amount with other decimals and unit", || amount(1_234_567, 3, "DOT")),
        ("eras", || eras(1)),
        ("other eras", || eras(5)),
        ("plain slice", || slice(5)),
        ("plain slice of other bytes", || slice(9)),
    ]
}
#[cfg(feature = "host")]
fn op_names() -> Vec<&'static str> {
    pool().iter().map(|p| p.name).chain(more_ops().iter().map(|p| p.0)).collect()
}
/// Runs the operations (index, repetitions) in a process of its own: one line each.
#[cfg(feature = "host")]
fn fresh(ops: &[(usize, usize)]) -> Result<Vec<String>, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let out = std::process::Command::new(exe).arg("history").args(ops.iter().map(|o| format!("{}*{}", o.0, o.1))).output().map_err(|e| e.to_string())?;
    if !out.status.success() {
        return Err(format!("ended with {:?}: {}", out.status, String::from_utf8_lossy(&out.stderr)));
    }
    Ok(String::from_utf8_lossy(&out.stdout).lines().map(|l| l.to_string()).collect())
}
#[cfg(feature = "host")]
fn alone() -> Result<&'static Vec<String>, String> {
    static ALONE: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    let alone = ALONE.get_or_init(|| (0..op_names().len()).map(|i| fresh(&[(i, 1)]).map(|v| v.first().cloned().unwrap_or_default()).unwrap_or_else(|e| format!("ERR {e}"))).collect());
    match alone.iter().position(|a| a.starts_with("ERR") || a.is_empty()) {
        Some(i) => Err(format!("operation {:?} alone in a fresh process: {}", op_names()[i], alone[i])),
        None => Ok(alone),
    }
}
#[cfg(feature = "host")]
fn check_history(ops: &[(usize, usize)], ctx: &mut Ctx) -> Res {
    let names = || ops.iter().map(|o| (op_names()[o.0], o.1)).collect::<Vec<_>>();
    let alone = match alone() {
        Ok(a) => a,
        Err(e) => viol!("{e}"),
    };
    let got = match fresh(ops) {
        Ok(g) => g,
        Err(e) => viol!("operations {:?} in one process: {e}", names()),
    };
    let n: u64 = ops.iter().map(|o| o.1 as u64).sum();
    let mut st = Stats { traces: 1, transitions: n, ..Default::default() };
    for g in &got {
        st.outcome(hash_of(g));
        st.digest = st.digest.wrapping_add(hash_of(g));
    }
    ctx.stats.add(&st);
    ctx.note(|| format!("{:?}", names()));
    for (k, o) in ops.iter().enumerate() {
        if got.get(k) != Some(&alone[o.0]) {
            viol!("operation {k} of {:?} gives another result than alone: {:?}", names(), got.get(k));
        }
    }
    Ok(())
}
/// All sequences of operations, each sequence in a process of its own.
#[cfg(feature = "host")]
pub fn histories(name: &str, len: usize) -> Scenario {
    let n = op_names().len();
    Scenario::new(name, format!("all sequences of {len} operations out of {n} (successful, failing, cyclic, faulty; several metadata sharing type ids; three networks; metadata, eras, amounts, slices), each in a fresh process, every result compared with that of the operation alone in a fresh process"), move |ctx| {
        let ops: Vec<(usize, usize)> = (0..len).map(|_| (ctx.choose(n), 1)).collect();
        check_history(&ops, ctx)
    })
}
/// One operation many times, then each operation once.
#[cfg(feature = "host")]
pub fn pumped(name: &str, counts: &'static [usize], pairs: bool) -> Scenario {
    let n = op_names().len();
    Scenario::new(name, format!("each of {n} operations{} repeated {counts:?} times in a fresh process, every repetition and then one run of each operation compared with the operation alone", if pairs { ", and each alternation of two," } else { "" }), move |ctx| {
        let c = *ctx.pick(counts);
        let a = ctx.choose(n);
        let b = if pairs { ctx.choose(n) } else { a };
        let mut ops: Vec<(usize, usize)> = if a == b { vec![(a, c)] } else { (0..c.min(64)).flat_map(|_| [(a, 1), (b, 1)]).collect() };
        ops.extend((0..n).map(|i| (i, 1)));
        check_history(&ops, ctx)
    })
}
/// Body of the fresh process.
#[cfg(feature = "host")]
pub fn history_main(ops: &[(usize, usize)]) {
    let p = pool();
    let more = more_ops();
    let one = |o: usize| match p.get(o) {
        Some(p) => match p.run() {
            Ok((h, ..)) => format!("{h:016x}"),
            Err(e) => format!("ERR panic {e}"),
        },
        None => match guard(more[o - p.len()].1) {
            Ok(s) => format!("{:016x}", hash_of(&s)),
            Err(e) => format!("ERR panic {e}"),
        },
    };
    for (o, n) in ops {
        let first = one(*o);
        match (1..*n).map(|k| (k, one(*o))).find(|(_, r)| *r != first) {
            Some((k, _)) => std::println!("{first}, but another result at repetition {k}"),
            None => std::println!("{first}"),
        }
    }
}

// ---- wild use ----

/// Start positions anywhere, from the end of the data to the end of the address space.
pub fn wild_starts(name: &str, o: Opts) -> Scenario {
    let mut g = base();
    let ids: Vec<u32> = {
        let mut v: Vec<u32> = prims().iter().map(|p| p.0).collect();
        v.extend([UNIT, H256, ACC, ERA, PERBILL, PERCENT, BYTES32, VECU8, 900, 901, 902, 903, 904, 905, 906, 907, 908, 909, DANGLING]);
        v
    };
    g.add(900, ty(&[], &[], bitseq(U8, LSB)));
    g.add(901, ty(&[], &[], bitseq(U32, MSB)));
    g.add(902, ty(&[], &[], compact(U128)));
    g.add(903, ty(&["Option"], &[], vars(vec![var("None", 0, vec![]), var("Some", 1, vec![fld(None, None, U8)])])));
    g.add(904, ty(&[], &[], arr(2, U8)));
    g.add(905, ty(&[], &[], arr(0, U8)));
    g.add(906, ty(&["rt", "RuntimeCall"], &[], vars(vec![var("A", 0, vec![fld(None, None, 907)])])));
    g.add(907, ty(&["a", "Call"], &[], vars(vec![var("a", 0, vec![])])));
    g.add(908, ty(&["sp_runtime", "MultiSignature"], &[], vars(vec![var("Ed25519", 0, vec![fld(None, Some("ed25519::Signature"), ARR64)])])));
    g.add(909, ty(&[], &[], bitseq(U64, MSB)));
    let fixed = g.fixed;
    Scenario::new(name, format!("{} types x inputs of 0..=6 bytes of 4 kinds x start positions 0..=8 and within 20 of the top of the address space, and at half of it; type, call and extension entry points", ids.len()), move |ctx| {
        let types = frozen(&fixed);
        let len = ctx.choose(7);
        let b = *ctx.pick(&[0u8, 0xff, 0x04, 0x03]);
        let data = vec![b; len];
        let k = ctx.choose(33);
        let start = match k {
            0..=8 => k,
            9..=28 => usize::MAX - (k - 9),
            29 => isize::MAX as usize,
            30 => isize::MAX as usize + 1,
            31 => usize::MAX / 4,
            _ => u32::MAX as usize,
        };
        let mut st = Stats::default();
        let r = (|| {
            for id in &ids {
                let c = Case { e: Entry::Type { id: *id, start }, types: types.clone(), data: &data, data2: &[], m: Meta::plain(Reg::Fixed(types.clone())) };
                c.check(&mut st, &o, "start")?;
                if k < 9 {
                    let mut p = o.clone();
                    p.paged = true;
                    c.check(&mut st, &p, "start")?;
                }
            }
            let mut m = Meta::plain(Reg::Fixed(types.clone()));
            m.call_ty = 906;
            m.exts = vec![("CheckMortality".into(), ERA, H256), ("CheckNonce".into(), 902, UNIT)];
            for e in [Entry::Call { start }, Entry::Ext { start, genesis: None }] {
                Case { e, types: types.clone(), data: &data, data2: &[], m: m.clone() }.check(&mut st, &o, "start")?;
            }
            Ok(())
        })();
        ctx.note(|| format!("{len} bytes {b:02x}, start {start}"));
        ctx.stats.add(&st);
        r
    })
}
/// Whole registries of three types, every definition in every place, in cycles or not.
pub fn wild_graphs(name: &str, reads: usize, alphabet: usize, o: Opts) -> Scenario {
    let mut g = base();
    g.late = true;
    g.back = true;
    g.dangle = true;
    g.kids = vec![U8, U128, STR];
    g.root_leaves = false;
    for path in [&[][..], &["RuntimeCall"], &["sp_runtime", "MultiSignature"], &["H256"], &["Perbill"], &["Era"], &["sp_runtime", "generic", "unchecked_extrinsic", "UncheckedExtrinsic"], &["Option"]] {
        let p: Vec<&'static str> = path.to_vec();
        for k in 0..8usize {
            let p = p.clone();
            g.tpl(move |c, kids| {
                let d = match k {
                    0 => comp(vec![fld(Some("nonce"), Some("ed25519::Signature"), kids.pick(c))]),
                    1 => comp(vec![fld(None, None, kids.pick(c)), fld(Some("spec_version"), Some("Balance"), kids.pick(c))]),
                    2 => tup(&[kids.pick(c)]),
                    3 => seq(kids.pick(c)),
                    4 => arr(2, kids.pick(c)),
                    5 => compact(kids.pick(c)),
                    6 => vars(vec![var("Ed25519", 0, vec![fld(None, Some("ed25519::Signature"), kids.pick(c))]), var("b", 1, vec![])]),
                    _ => {
                        let a = kids.pick(c);
                        bitseq(a, kids.pick(c))
                    }
                };
                ty(&p, &["d"], d)
            });
        }
    }
    typed(name, g, bp(&[0x00, 0x04, 0xff, 0x01, 0x08, 0x03][..alphabet], reads, 2), 1, o)
}
/// Metadata that answers with errors, at every question, for every entry point.
pub fn wild_meta(name: &str, o: Opts) -> Scenario {
    Scenario::new(name, "every whole-transaction entry point x 6 metadata answers (none or one failing) x call, address, signature, extra and extension types existing, of any kind, or missing x 12 inputs", move |ctx| {
        let types = frozen(&g_unchecked().fixed);
        let mut m = runtime_meta(&types);
        m.broken = *ctx.pick(&[None, Some(MetaQ::SpecNameVersion), Some(MetaQ::CallTy), Some(MetaQ::SignedExtensions), Some(MetaQ::Params), Some(MetaQ::Version)]);
        let odd = *ctx.pick(&[None, Some(DANGLING), Some(U8), Some(H256), Some(VECU8), Some(UNIT)]);
        if let Some(t) = odd {
            match ctx.choose(6) {
                0 => m.call_ty = t,
                1 => m.params[0] = t,
                2 => m.params[1] = t,
                3 => m.params[2] = t,
                4 => m.params[3] = t,
                _ => m.exts = vec![("CheckMortality".into(), t, t), ("CheckGenesis".into(), t, t), ("CheckSpecVersion".into(), t, t)],
            }
        }
        let k = ctx.choose(12);
        let data: Vec<u8> = match k {
            0 => vec![],
            1 => vec![0],
            2 => vec![0xff; 3],
            3 => vec![0xff; 200],
            4 => vec![0x04, 0x04],
            5 => vec![0x08, 0x84, 0],
            6 => {
                let mut d = vec![0x08, 0, 0];
                d.extend(ext_samples()[0].clone());
                d
            }
            7 => vec![0x03, 0xff, 0xff, 0xff, 0xff],
            8 => vec![0xfe, 0xff, 0xff, 0xff, 4],
            9 => vec![0; 200],
            10 => {
                let mut d = vec![0u8, 0];
                d.extend(ext_samples()[0].clone());
                d
            }
            _ => vec![0x0c, 0x04, 0, 0],
        };
        let mut st = Stats::default();
        let r = (|| {
            for e in [Entry::Tx { genesis: None }, Entry::Tx { genesis: Some([1; 32]) }, Entry::TxPlain { genesis: None }, Entry::Unchecked, Entry::Call { start: 0 }, Entry::Call { start: 500 }, Entry::Ext { start: 0, genesis: None }, Entry::Ext { start: 3, genesis: None }] {
                Case { e, types: types.clone(), data: &data, data2: &[], m: m.clone() }.check(&mut st, &o, "metadata")?;
            }
            Ok(())
        })();
        ctx.note(|| format!("broken {:?} odd {odd:?} data {}", m.broken, hex::encode(&data)));
        ctx.stats.add(&st);
        r
    })
}
/// V14 extrinsic types over every element type, and many parameters.
pub fn meta_elements(name: &str) -> Scenario {
    Scenario::new(name, "V14 extrinsic type: 7 wrappings of a sequence x 30 element types (15 primitives, wrappers, containers, unresolvable) x 6 parameter lists; exactly the vector of u8 gives parameters", |ctx| {
        use Pr::*;
        let prims = [U8, Bool, Char, Str, U16, U32, U64, U128, U256, I8, I16, I32, I64, I128, I256];
        const UX: [&str; 4] = ["sp_runtime", "generic", "unchecked_extrinsic", "UncheckedExtrinsic"];
        let mut types: Vec<T> = prims.iter().map(|p| prim(p.clone())).collect();
        types.push(ty(&["W"], &[], comp(vec![fld(None, None, 0)]))); // 15
        types.push(ty(&[], &[], tup(&[0])));
        types.push(ty(&[], &[], compact(0)));
        types.push(ty(&[], &[], arr(1, 0)));
        types.push(ty(&[], &[], seq(0)));
        types.push(ty(&[], &[], tup(&[])));
        types.push(ty(&[], &[], tup(&[0, 0])));
        types.push(ty(&["U"], &[], comp(vec![])));
        types.push(ty(&["u8"], &[], comp(vec![fld(Some("u8"), Some("u8"), 9)])));
        types.push(ty(&["E"], &[], vars(vec![var("A", 0, vec![fld(None, None, 0)])])));
        types.push(ty(&["E"], &[], vars(vec![])));
        types.push(ty(&["sp_core", "crypto", "AccountId32"], &[], comp(vec![fld(None, None, 18)])));
        types.push(ty(&[], &[], arr(0, 0)));
        types.push(ty(&[], &[], seq(7)));
        let k = ctx.choose(types.len() + 1);
        let el = if k == types.len() { 99 } else { k as u32 };
        let wrap = ctx.choose(7);
        let s = types.len() as u32;
        types.push(ty(if wrap == 6 { &["Vec"] } else { &[] }, &[], seq(el)));
        let ps: Vec<(String, Option<u32>)> = {
            let std: Vec<(String, Option<u32>)> = [("Address", 11), ("Call", 12), ("Signature", 13), ("Extra", 14)].iter().map(|(n, i)| (n.to_string(), Some(*i))).collect();
            match ctx.choose(6) {
                0 => std,
                1 => std.into_iter().rev().collect(),
                2 => (0..30).map(|i| (format!("P{i}"), Some(i))).chain(std).collect(),
                3 => std.into_iter().flat_map(|p| [(format!("{}X", p.0), Some(1)), (p.0.to_lowercase(), Some(2)), p]).collect(),
                4 => std.into_iter().map(|p| (p.0, p.1.map(|i| i * 0x0123_4567))).collect(),
                _ => std.into_iter().map(|p| (p.0, Some(7))).collect(),
            }
        };
        let tp: Vec<_> = ps.iter().map(|(n, i)| TypeParameter::<PortableForm>::new_portable(n.clone(), i.map(sym))).collect();
        // 0: must give the parameters, 1: may give them, 2: must not
        let (id, level) = match wrap {
            0 | 6 => {
                types[s as usize].type_params = tp;
                (s, 0)
            }
            1 | 2 => {
                let mut t = ty(if wrap == 1 { &UX } else { &[] }, &[], comp(vec![fld(None, None, s)]));
                t.type_params = tp;
                types.push(t);
                (s + 1, if wrap == 1 { 0 } else { 1 })
            }
            3 => {
                types.push(ty(&["In"], &[], comp(vec![fld(Some("a"), None, s)])));
                let mut t = ty(&UX, &[], comp(vec![fld(None, None, s + 1)]));
                t.type_params = tp;
                types.push(t);
                (s + 2, 1)
            }
            4 => {
                let mut t = ty(&UX, &[], tup(&[s]));
                t.type_params = tp;
                types.push(t);
                (s + 1, 1)
            }
            _ => {
                let mut t = ty(&UX, &[], comp(vec![fld(None, None, s), fld(None, None, 20)]));
                t.type_params = tp;
                types.push(t);
                (s + 1, 2)
            }
        };
        let level = match (el, level) {
            (0, l) => l,
            // a byte in a plain wrapper
            (15 | 16 | 25, 0 | 1) => 1,
            _ => 2,
        };
        let e = Ex { ty: id, version: 4, exts: vec![], declared: [0; 4] };
        let a = m14(&types, &[], &e);
        let get = |n: &str| ps.iter().find(|p| p.0 == n).and_then(|p| p.1).unwrap_or(0);
        let want = [get("Address"), get("Call"), get("Signature"), get("Extra")];
        let got = guard(|| <v14::RuntimeMetadataV14 as AsCompleteMetadata<Mem>>::extrinsic_type_params(&a).map(|p| [p.address_ty.id, p.call_ty.id, p.signature_ty.id, p.extra_ty.id]));
        ctx.note(|| format!("element type {el} {:?}, wrapping {wrap}, parameters {ps:?}", types.get(el as usize)));
        let got = match got {
            Ok(g) => g,
            Err(p) => viol!("panic: {p}"),
        };
        let mut st = Stats { traces: 1, transitions: 1, ..Default::default() };
        let h = hash_of(&format!("{got:?}"));
        st.outcome(h);
        st.digest = st.digest.wrapping_add(h);
        let right = match &got {
            Ok(p) => *p == want && level < 2,
            Err(E14::UnexpectedExtrinsicType { .. } | E14::ExtrinsicTypeNotResolved(_)) => level > 0,
            // seen through a wrapper without parameters of its own
            Err(_) => level == 1,
        };
        ctx.stats.add(&st);
        if !right {
            viol!("extrinsic parameters {got:?}, declared {want:?}");
        }
        Ok(())
    })
}
/// Many pallets, constants, extensions, fields; every extrinsic version.
pub fn meta_wide(name: &str) -> Scenario {
    Scenario::new(name, "System pallet at each place among up to 40 pallets, Version constant at each place among up to 40, name and version fields at each pair of places among up to 12, up to 40 extensions, all 256 extrinsic versions; V14 and V15", |ctx| {
        let mut types = meta_types();
        let good = types.len() as u32;
        types.push(ty(&["RuntimeVersion"], &[], comp(vec![fld(Some("spec_name"), None, MSTR), fld(Some("spec_version"), None, MU32)])));
        let val = |n: u8, v: u8| vec![0x04, b'a' + n % 26, v, 0, 0, 0];
        let mut e = Ex { ty: 0, version: 4, exts: vec![], declared: [1, 2, 3, 4] };
        let mut sys = Pal { name: "System", consts: vec![("Version", good, val(25, 77))] };
        let mut pals: Vec<Pal> = Vec::new();
        const NAMES: [&str; 6] = ["Balances", "Staking", "system", "Sys", "SystemV", "ParachainSystem"];
        const CONSTS: [&str; 6] = ["BlockHashCount", "version", "Versions", "SS58Prefix", "DbWeight", ""];
        match ctx.choose(4) {
            0 => {
                let n = *ctx.pick(&[1usize, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40]);
                let at = ctx.choose(n);
                for i in 0..n {
                    pals.push(if i == at { Pal { name: "System", consts: vec![("Version", good, val(25, 77))] } } else { Pal { name: NAMES[i % 6], consts: vec![("Version", good, val(i as u8, i as u8))] } });
                }
            }
            1 => {
                let n = *ctx.pick(&[1usize, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40]);
                let at = ctx.choose(n);
                sys.consts = (0..n).map(|i| if i == at { ("Version", good, val(25, 77)) } else { (CONSTS[i % 6], good, val(i as u8, i as u8)) }).collect();
                pals.push(sys);
            }
            2 => {
                let n = 2 + ctx.choose(11);
                let a = ctx.choose(n);
                let b = ctx.choose(n);
                if a == b {
                    return Ok(());
                }
                let w = *ctx.pick(&[MU8, 4, MU32, 5, 6, 7]);
                let mut data = Vec::new();
                let f: Vec<_> = (0..n)
                    .map(|i| {
                        let (nm, t, k) = if i == a {
                            ("spec_name", MSTR, 0)
                        } else if i == b {
                            ("spec_version", w, 0)
                        } else {
                            [("impl_name", MSTR, 1), ("impl_version", MU32, 1), ("apis", MVEC, 0), ("authoring_version", MU32, 0), ("state_version", MU8, 0)][i % 5]
                        };
                        data.extend(value_of(t, k));
                        fld(Some(nm), None, t)
                    })
                    .collect();
                let id = types.len() as u32;
                types.push(ty(&["RuntimeVersion"], &[], comp(f)));
                sys.consts = vec![("Version", id, data)];
                pals.push(sys);
            }
            _ => {
                pals.push(sys);
                e.version = ctx.choose(256) as u8;
                let n = *ctx.pick(&[0usize, 1, 8, 16, 17, 33, 40]);
                e.exts = (0..n).map(|i| (["CheckNonce", "A", "CheckGenesis", "", "CheckMortality"][i % 5], i as u32 * 3, 1000 - i as u32)).collect();
            }
        }
        let xt = types.len() as u32;
        let mut x = ty(&["sp_runtime", "generic", "unchecked_extrinsic", "UncheckedExtrinsic"], &[], comp(vec![fld(None, None, MVEC)]));
        x.type_params = [("Address", 1), ("Call", 2), ("Signature", 3), ("Extra", 4)].iter().map(|(n, i)| TypeParameter::<PortableForm>::new_portable(n.to_string(), Some(sym(*i)))).collect();
        types.push(x);
        e.ty = xt;
        let mut st = Stats::default();
        let r = check_version(&types, &pals, &e, &mut st).and_then(|_| {
            let (a, b) = (m14(&types, &pals, &e), m15(&types, &pals, &e));
            facts("V14", &a, &e, &types, &mut st)?;
            facts("V15", &b, &e, &types, &mut st)
        });
        ctx.stats.add(&st);
        r
    })
}

/// Inputs that need stack or memory out of proportion, each in a process of its own.
#[cfg(feature = "host")]
const PROBES: [(&str, &str); 10] = [
    ("list of the given depth", "deep-recursion"),
    ("tree of the given depth", "deep-recursion"),
    ("optional tuples of the given depth", "deep-recursion"),
    ("calls of the given depth", "deep-recursion"),
    ("arrays of the given depth", "deep-recursion"),
    ("sequence of the given number of ()", "count-blowup"),
    ("array of the given number of ()", "count-blowup"),
    ("sequence of the given number of empty structs", "count-blowup"),
    ("sequence of the given number of u64, no data", ""),
    ("text and byte vector of the given length, no data", ""),
];
/// Body of the process of a probe.
#[cfg(feature = "host")]
pub fn probe_main(kind: usize, n: usize) {
    let (g, data) = match kind {
        0..=4 => super::fam2::deep_case(kind, n),
        _ => {
            let mut g = base();
            g.add(300, ty(&["Empty"], &[], comp(vec![])));
            g.add(ROOT, match kind {
                5 => ty(&[], &[], seq(UNIT)),
                6 => ty(&[], &[], arr(n as u32, UNIT)),
                7 => ty(&[], &[], seq(300)),
                8 => ty(&[], &[], seq(U64)),
                _ => ty(&[], &[], tup(&[STR, VECU8])),
            });
            (g, if kind == 6 { vec![] } else { enc_compact(n as u128) })
        }
    };
    let types = frozen(&g.fixed);
    let mut mm = Mem::new();
    match substrate_parser::decode_all_as_type::<&[u8], Mem, Meta>(&sym(ROOT), &data.as_slice(), &mut mm, &Reg::Fixed(types)) {
        Ok(x) => {
            let cards = x.card(0, true, &SPECS[0].short(), "x").len();
            std::println!("value {cards}");
        }
        Err(e) => std::println!("error {e}"),
    }
}
#[cfg(feature = "host")]
pub fn probes(name: &str) -> Scenario {
    Scenario::new(name, "10 kinds of input that nest or count without bound, each at 8 sizes from 0 to 2^30-1, each in a process of its own with 8 MiB of stack and 1.5 GB of memory: it must end with a value or an error, and small sizes must give the value", |ctx| {
        let k = ctx.choose(PROBES.len());
        let n = *ctx.pick(&[0usize, 1, 16, 64, 128, 1000, 200_000, (1 << 30) - 1]);
        if k < 5 && n > 1 << 20 {
            return Ok(());
        }
        let out = std::process::Command::new("bash")
            .arg("-c")
            .arg("ulimit -c 0; ulimit -v 1500000; exec timeout 100 \"$0\" probe \"$@\"")
            .arg(std::env::current_exe().expect("HARNESS: exe"))
            .args([k.to_string(), n.to_string()])
            .output()
            .expect("HARNESS: probe");
        let said = String::from_utf8_lossy(&out.stdout).trim().to_string();
        let value = said.starts_with("value ");
        let mut st = Stats { traces: 1, transitions: 1, accepted: value as u64, ..Default::default() };
        st.outcome(hash_of(&(k, &said)));
        ctx.stats.add(&st);
        ctx.note(|| format!("{} ({n}): {said:?} {:?}", PROBES[k].0, out.status));
        let small = n <= 128;
        if !out.status.success() {
            return Err(Viol {
                msg: format!("{} ({n}): the process ends with {} {}", PROBES[k].0, out.status, String::from_utf8_lossy(&out.stderr).chars().take(300).collect::<String>()),
                key: if small { String::new() } else { PROBES[k].1.to_string() },
            });
        }
        if small && k < 8 && !value {
            viol!("{} ({n}) is refused: {said}", PROBES[k].0);
        }
        if k >= 8 && value && (n > 0 || k == 9) {
            viol!("{} ({n}) gives a value without data", PROBES[k].0);
        }
        Ok(())
    })
}

/// Pallets, constants, fields and parameters with names close to the recognised ones.
pub fn meta_near(name: &str) -> Scenario {
    const SITES: [&str; 8] = ["System", "Version", "spec_name", "spec_version", "Address", "Call", "Signature", "Extra"];
    const PRE: [&str; 8] = ["", "Old", "T::", "r#", "_", "frame_system::", "pallet_", "\u{feff}"];
    Scenario::new(name, format!("each of {SITES:?} in {TWISTS} spellings and with {} prefixes, in place of the right one, before it and behind it, with other values; V14 and V15", PRE.len()), move |ctx| {
        let site = ctx.choose(SITES.len());
        let k = ctx.choose(TWISTS + PRE.len());
        let near = if k < TWISTS { twist(SITES[site], k) } else { format!("{}{}", PRE[k - TWISTS], SITES[site]) };
        let place = ctx.choose(3);
        if near == SITES[site] && place != 0 {
            return Ok(());
        }
        let near: &'static str = alloc::boxed::Box::leak(near.into_boxed_str());
        // the names at a site, with a number telling them apart
        let at = |i: usize| -> Vec<(&'static str, u8)> {
            if i != site {
                return vec![(SITES[i], 0)];
            }
            match place {
                0 => vec![(near, 1)],
                1 => vec![(near, 1), (SITES[i], 0)],
                _ => vec![(SITES[i], 0), (near, 1)],
            }
        };
        ctx.note(|| format!("{near:?} for {} at place {place}", SITES[site]));
        let mut types = meta_types();
        let id = types.len() as u32;
        let (mut f, mut d) = (Vec::new(), Vec::new());
        for (n, v) in at(2) {
            f.push(fld(Some(n), None, MSTR));
            d.extend([4, b'a' + v]);
        }
        for (n, v) in at(3) {
            f.push(fld(Some(n), None, MU32));
            d.extend([7 + v, 0, 0, 0]);
        }
        types.push(ty(&["sp_version", "RuntimeVersion"], &[], comp(f)));
        let p: Vec<Pal> = at(0)
            .into_iter()
            .map(|(n, v)| Pal {
                name: n,
                consts: at(1)
                    .into_iter()
                    .map(|(c, w)| {
                        let mut d = d.clone();
                        // another name of the chain for each constant
                        d[1] += 2 * v + 4 * w;
                        (c, id, d)
                    })
                    .collect(),
            })
            .collect();
        let mut x = ty(&["sp_runtime", "generic", "unchecked_extrinsic", "UncheckedExtrinsic"], &[], comp(vec![fld(None, None, MVEC)]));
        let mut want: [Option<u32>; 4] = [None; 4];
        for i in 0..4 {
            for (n, v) in at(4 + i) {
                let t = 20 + 2 * i as u32 + v as u32;
                if n == SITES[4 + i] {
                    want[i] = Some(t);
                }
                x.type_params.push(TypeParameter::<PortableForm>::new_portable(n.to_string(), Some(sym(t))));
            }
        }
        types.push(x);
        let e = Ex { ty: id + 1, version: 4, exts: vec![], declared: [1, 2, 3, 4] };
        let st = &mut ctx.stats;
        check_version(&types, &p, &e, st)?;
        let a = m14(&types, &p, &e);
        let got = guard(|| <v14::RuntimeMetadataV14 as AsCompleteMetadata<Mem>>::extrinsic_type_params(&a).map(|p| [p.address_ty.id, p.call_ty.id, p.signature_ty.id, p.extra_ty.id]));
        st.traces += 1;
        st.transitions += 1;
        // two parameters of the same recognised name never arise here
        let all: Option<Vec<u32>> = want.iter().copied().collect();
        let right = match (&got, &all) {
            (Ok(Ok(p)), Some(w)) => p[..] == w[..],
            (Ok(Err(x)), None) => matches!((x, want.iter().position(|w| w.is_none())), (E14::NoAddressParam, Some(0)) | (E14::NoCallParam, Some(1)) | (E14::NoSignatureParam, Some(2)) | (E14::NoExtraParam, Some(3))),
            _ => false,
        };
        if !right {
            viol!("extrinsic parameters {got:?} instead of {want:?}");
        }
        Ok(())
    })
}
