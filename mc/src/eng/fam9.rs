//! Containers in containers in every place, odd texts, era and hash products, calls of every length, keys anywhere.
use super::drive::*;
use super::env::*;
use super::explore::*;
use super::fam::*;
use super::fam3::*;
use super::fam5::*;
use super::refdec::*;
use super::val::*;
use super::tyb::*;
use alloc::collections::BTreeMap;
use alloc::format;
use alloc::rc::Rc;
use alloc::string::{String, ToString};
use alloc::vec;
use alloc::vec::Vec;
use frame_metadata::v14::{StorageEntryMetadata, StorageEntryModifier, StorageEntryType, StorageHasher};

pub(super) type Enc = Rc<dyn Fn(usize) -> Vec<u8>>;
pub const WRAPS: [&str; 30] = [
    "struct",
    "named struct of type Balance",
    "nonce field",
    "documented struct of two",
    "one-tuple",
    "array of 2",
    "list",
    "enum of one variant",
    "option",
    "enum with tip field",
    "call argument in Balances",
    "event argument in System",
    "compact",
    "struct with path CheckNonce",
    "struct of two with path ChargeAssetTxPayment",
    "array of 0",
    "documented struct with path",
    "struct with an empty field",
    "spec_version field",
    "struct with path CheckGenesis",
    "struct, other first",
    "result",
    "two-tuple",
    "struct with path ChargeTransactionPayment",
    "Perbill path",
    "call argument in a pallet without name evidence",
    "tuple with number",
    "single-variant enum with named field",
    "enum variant with two",
    "spec_name field",
];
pub(super) fn wrap(w: usize, x: u32, id: u32, g: &mut BTreeMap<u32, T>, inner: Enc) -> Enc {
    let one = |n: Option<&str>, t: Option<&str>| comp(vec![fld(n, t, x)]);
    let mut plain = |t: T| {
        g.insert(id, t);
    };
    let twice = |i: Enc| -> Enc { Rc::new(move |k| [i(k), i(k + 1)].concat()) };
    let before = |b: &'static [u8], i: Enc| -> Enc { Rc::new(move |k| [b, &i(k)[..]].concat()) };
    let after = |i: Enc| -> Enc { Rc::new(move |k| [&i(k)[..], &[k as u8 + 7][..]].concat()) };
    match w {
        0 => plain(ty(&["a", "S"], &[], one(None, None))),
        1 => plain(ty(&[], &[], one(Some("value"), Some("Balance")))),
        2 => plain(ty(&[], &[], one(Some("nonce"), None))),
        3 => {
            plain(ty(&["a", "Pair"], &["pair docs"], comp(vec![fldd(Some("l"), None, x, &["l docs"]), fld(Some("r"), Some("BalanceOf<T>"), x)])));
            return twice(inner);
        }
        4 => plain(ty(&[], &[], tup(&[x]))),
        5 => {
            plain(ty(&[], &[], arr(2, x)));
            return twice(inner);
        }
        6 => {
            plain(ty(&[], &["list docs"], seq(x)));
            return Rc::new(move |k| match k % 3 {
                0 => [&[8u8][..], &inner(k), &inner(k + 1)].concat(),
                1 => vec![0],
                _ => [&[4u8][..], &inner(k)].concat(),
            });
        }
        7 => {
            plain(ty(&["a", "E1"], &[], vars(vec![var("Only", 3, vec![fld(None, None, x)])])));
            return before(&[3], inner);
        }
        8 => {
            plain(ty(&["Option"], &[], vars(vec![var("None", 0, vec![]), var("Some", 1, vec![fld(None, None, x)])])));
            return Rc::new(move |k| if k % 3 == 1 { vec![0] } else { [&[1u8][..], &inner(k)].concat() });
        }
        9 => {
            plain(ty(&["a", "E2"], &["enum docs"], vars(vec![var("A", 0, vec![fld(Some("tip"), None, x)]), vard("B", 9, vec![fld(None, Some("Balance"), U8)], &["b docs"])])));
            return before(&[0], inner);
        }
        10 | 25 => {
            let name = if w == 10 { "Balances" } else { "Other" };
            g.insert(id + 1, ty(&["p", "Call"], &["pallet docs"], vars(vec![var("idle", 0, vec![]), vard("send", 4, vec![fld(Some("to"), None, U8), fld(Some("value"), Some("T::Balance"), x)], &["call docs"])])));
            g.insert(id, ty(&["rt", "RuntimeCall"], &[], vars(vec![var(name, 2, vec![fld(None, None, id + 1)])])));
            return before(&[2, 4, 6], inner);
        }
        11 => {
            g.insert(id + 1, ty(&["s", "Event"], &[], vars(vec![vard("Done", 1, vec![fld(None, Some("Balance"), x), fld(Some("nonce"), None, x)], &["event docs"])])));
            g.insert(id, ty(&["rt", "RuntimeEvent"], &["events"], vars(vec![var("System", 0, vec![fld(None, None, id + 1)])])));
            return before(&[0, 1], twice(inner));
        }
        12 => {
            plain(ty(&[], &[], compact(x)));
            return Rc::new(|k| enc_compact([5u128, 70, 20_000][k % 3]));
        }
        13 => plain(ty(&["frame_system", "CheckNonce"], &[], one(None, None))),
        14 => {
            plain(ty(&["p", "ChargeAssetTxPayment"], &[], comp(vec![fld(Some("tip"), Some("BalanceOf"), x), fld(Some("asset_id"), None, U8)])));
            return after(inner);
        }
        15 => {
            plain(ty(&[], &[], arr(0, x)));
            return Rc::new(|_| vec![]);
        }
        16 => plain(ty(&["b", "Docs"], &["line one", "line two"], comp(vec![fldd(None, Some("Inner"), x, &["field docs"])]))),
        17 => plain(ty(&["a", "Marked"], &[], comp(vec![fld(Some("it"), None, x), fld(Some("marker"), Some("PhantomData<T>"), UNIT)]))),
        18 => plain(ty(&[], &[], one(Some("spec_version"), Some("u32")))),
        19 => plain(ty(&["frame_system", "CheckGenesis"], &[], one(None, None))),
        20 => {
            plain(ty(&["a", "Second"], &[], comp(vec![fld(None, Some("Balance"), U8), fld(None, Some("Balance"), x)])));
            return before(&[9], inner);
        }
        21 => {
            plain(ty(&["Result"], &[], vars(vec![var("Ok", 0, vec![fld(None, None, x)]), var("Err", 1, vec![fld(None, None, U8)])])));
            return Rc::new(move |k| if k % 3 == 2 { vec![1, 8] } else { [&[0u8][..], &inner(k)].concat() });
        }
        22 => {
            plain(ty(&[], &["tuple docs"], tup(&[x, x])));
            return twice(inner);
        }
        23 => plain(ty(&["p", "ChargeTransactionPayment"], &[], one(None, Some("BalanceOf<T>")))),
        24 => {
            plain(ty(&["sp_arithmetic", "per_things", "Perbill"], &["parts"], one(None, None)));
            return Rc::new(|k| ((k as u32 + 3) * 1_000_003).to_le_bytes().to_vec());
        }
        26 => {
            plain(ty(&[], &[], tup(&[x, U8])));
            return after(inner);
        }
        27 => {
            plain(ty(&["a", "Named1"], &[], vars(vec![var("Only", 0, vec![fld(Some("inner"), None, x)])])));
            return before(&[0], inner);
        }
        28 => {
            plain(ty(&["a", "E3"], &[], vars(vec![var("X", 1, vec![]), var("Y", 0, vec![fld(None, None, x), fldd(None, Some("Balance"), x, &["second"])])])));
            return before(&[0], twice(inner));
        }
        _ => plain(ty(&[], &[], one(Some("spec_name"), None))),
    }
    inner
}
const LEAVES: [usize; 24] = [22, 7, 16, 6, 2, 0, 30, 11, 18, 5, 8, 1, 20, 3, 21, 26, 28, 31, 32, 23, 24, 17, 15, 25];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Place {
    Blob,
    Included,
    Additional,
    Value,
    Key,
    Argument,
    Signer,
}
use Place::*;
pub const PLACES: [Place; 6] = [Included, Additional, Value, Key, Argument, Signer];

pub(super) fn small_base() -> BTreeMap<u32, T> {
    let g = g_wide().fixed;
    let mut out = base().fixed;
    for e in LEAVES.iter().map(|i| &ELS[*i]) {
        out.insert(e.id, g[&e.id].clone());
    }
    for k in [W_PAIR, W_DOC, U8, W_TUP1] {
        out.insert(k, g[&k].clone());
    }
    // what the calls need
    out.extend(g.iter().filter(|(k, _)| (500..600).contains(*k)).map(|(k, t)| (*k, t.clone())));
    out
}

/// Every stack of `depth` wrappers over a leaf, in a place of the transaction, storage or extrinsic.
pub fn composed(name: &str, depth: usize, wraps: usize, leaves: usize, places: &'static [Place], o: Opts) -> Scenario {
    let base = small_base();
    let bound = format!(
        "every stack of {depth} out of {wraps} wrappers ({}) over {leaves} leaf types ({}), in place {places:?}; 3 values, one byte more, one byte less{}",
        WRAPS[..wraps].join(", "),
        LEAVES[..leaves].iter().map(|i| ELS[*i].name).collect::<Vec<_>>().join(", "),
        if places == [Blob] { "" } else { "; 8 extension identifiers, 7 hashers" }
    );
    Scenario::new(name, bound, move |ctx| {
        let place = *ctx.pick(places);
        let mut names = Vec::new();
        let stack: Vec<usize> = (0..depth).map(|_| ctx.choose(wraps)).collect();
        let which = match place {
            Included | Additional => ctx.choose(8),
            Key => ctx.choose(7),
            Signer => ctx.choose(3),
            _ => 0,
        };
        for i in &LEAVES[..leaves] {
            let el = ELS[*i];
            let mut g = base.clone();
            let f = el.enc;
            let mut enc: Enc = Rc::new(move |k| f(k));
            let mut id = el.id;
            for (n, w) in stack.iter().enumerate().rev() {
                let next = if n == 0 { ROOT } else { 2000 + 2 * n as u32 };
                enc = wrap(*w, id, next, &mut g, enc);
                id = next;
            }
            // the root may take ROOT + 1 as well
            if names.is_empty() {
                names = stack.iter().map(|w| WRAPS[*w]).collect();
                ctx.note(|| format!("{names:?} in {place:?} {which}"));
            }
            let what = el.name;
            let types = frozen(&g);
            for k in 0..3 {
                let x = enc(k);
                placed(&mut ctx.stats, &types, id, &x, place, which, &o, what)?;
            }
        }
        Ok(())
    })
}
pub(super) fn map_entry(ty: StorageEntryType<PortableForm>) -> Rc<StorageEntryMetadata<PortableForm>> {
    Rc::new(StorageEntryMetadata { name: "Entry".into(), modifier: StorageEntryModifier::Default, ty, default: vec![], docs: strs(&["entry docs"]) })
}
pub(super) fn placed(st: &mut Stats, types: &Rc<Types>, id: u32, x: &[u8], place: Place, which: usize, o: &Opts, what: &str) -> Res {
    let mut m = Meta::plain(Reg::Fixed(types.clone()));
    let slim = o.slim();
    let run = |st: &mut Stats, e: Entry, d: &[u8], d2: &[u8], m: &Meta| -> Res { Case { e, types: types.clone(), data: d, data2: d2, m: m.clone() }.check(st, o, what).map(|_| ()) };
    let versions: Vec<Vec<u8>> = if slim { vec![x.to_vec()] } else if x.is_empty() { vec![vec![], vec![1]] } else { vec![x.to_vec(), [x, &[1][..]].concat(), x[..x.len() - 1].to_vec()] };
    for x in &versions {
        match place {
            Blob => run(st, Entry::All { id }, x, &[], &m)?,
            Included | Additional => {
                let ident = ["Unknown", "CheckSpecVersion", "CheckTxVersion", "CheckGenesis", "CheckMortality", "CheckNonce", "ChargeAssetTxPayment", "ChargeTransactionPayment"][which];
                let inc = place == Included;
                m.version = "16909060".into();
                m.exts = vec![("CheckSpecVersion".into(), UNIT, U32), (ident.into(), if inc { id } else { UNIT }, if inc { UNIT } else { id }), ("CheckGenesis".into(), UNIT, H256)];
                let v = 16909060u32.to_le_bytes();
                let d = if inc { [&x[..], &v, &[3; 32]].concat() } else { [&v[..], x, &[3; 32]].concat() };
                run(st, Entry::Ext { start: 0, genesis: None }, &d, &[], &m)?;
            }
            Value => {
                let e = map_entry(StorageEntryType::Plain(sym(id)));
                run(st, Entry::Storage { entry: e }, &[7; 32], x, &m)?;
            }
            Key => {
                let h = HASHERS[which].clone();
                let mut d = vec![7; 32];
                d.extend(hash_part(&h, x));
                let e = map_entry(StorageEntryType::Map { hashers: vec![h], key: sym(id), value: sym(U8) });
                run(st, Entry::Storage { entry: e }, &d, &[1], &m)?;
            }
            Argument => {
                m = runtime_meta(types);
                m.call_ty = 3000;
                m.exts = vec![("CheckSpecVersion".into(), UNIT, U32), ("CheckGenesis".into(), UNIT, H256)];
                let mut g: BTreeMap<u32, Rc<T>> = types.map.clone();
                g.insert(3000, Rc::new(ty(&["rt", "RuntimeCall"], &[], vars(vec![var("Staking", 1, vec![fld(None, None, 3001)])]))));
                g.insert(3001, Rc::new(ty(&["p", "Call"], &[], vars(vec![var("bond", 2, vec![fld(Some("arg"), Some("Compact<BalanceOf<T>>"), id), fld(Some("flag"), None, U8)])]))));
                let types = Rc::new(Types { map: g });
                m.reg = Reg::Fixed(types.clone());
                let call = [&[1, 2][..], x, &[5]].concat();
                let ext = [&[0u8; 4][..], &[3; 32]].concat();
                let d = [&enc_compact(call.len() as u128)[..], &call, &ext].concat();
                let c = Case { e: Entry::Tx { genesis: None }, types: types.clone(), data: &d, data2: &[], m: m.clone() };
                c.check(st, o, what)?;
                let d = [&call[..], &ext].concat();
                Case { e: Entry::TxPlain { genesis: None }, types, data: &d, data2: &[], m: m.clone() }.check(st, o, what)?;
            }
            Signer => {
                m = runtime_meta(types);
                m.params = [U8, RT, U16, U32];
                m.params[[0, 2, 3][which]] = id;
                let mut d = vec![0x84u8];
                for (i, p) in [&[1u8][..], &[2, 3], &[4, 5, 6, 7]].iter().enumerate() {
                    d.extend(if i == which { &x[..] } else { p });
                }
                d.extend([0, 0]);
                let d = [&enc_compact(d.len() as u128)[..], &d].concat();
                run(st, Entry::Unchecked, &d, &[], &m)?;
            }
        }
    }
    Ok(())
}

pub const ODD: [&str; 36] = [
    "", " ", "\n", "\t", "_", "r#type", "\u{e9}", "a b", "\"", "\\", "'", "{}", "{0}", "%s", "<T>", "Option<T>", "None", "Some", "null", "0", "\0", "a\0b", "\u{feff}", "\u{200b}", "nonce ", " nonce", "NONCE", "Balance ", "\u{202e}", "::", "a::b", ".", ",", "\r\n", "\u{1f600}", "\u{301}",
];
/// Unusual names, type names and documentation.
pub fn odd_texts(name: &str, o: Opts) -> Scenario {
    let base = small_base();
    Scenario::new(name, format!("{} unusual texts (empty, blank, quotes, braces, control and joining characters, near-misses) as field name, type name, variant name, path segment, docs (in 6 lists of lines) of type, field, variant, of structs of one and two fields, variants, calls, events, pallets, and as extension identifier, metadata version, chain name, storage entry name and docs; storage values and keys as well", ODD.len()), move |ctx| {
        let t = *ctx.pick(&ODD);
        let site = ctx.choose(21);
        let form = if matches!(site, 1 | 4 | 7 | 9 | 11 | 12 | 16 | 17 | 20) { ctx.choose(6) } else { 0 };
        ctx.note(|| format!("{t:?} at {site}"));
        let s = |k: usize| if site == k { Some(t) } else { None };
        let s_or = |k: usize, d: &'static str| if site == k { t } else { d };
        let ds = |k: usize| -> Vec<&str> { if site == k { [vec![t], vec![t, "x"], vec!["x", t], vec!["x", t, "y"], vec![t, t], vec![t, "x", t]][form].clone() } else { vec![] } };
        let mut g = base.clone();
        g.insert(ROOT, ty(&["a", s_or(0, "S")], &ds(1), comp(vec![fldd(s(2), s(3), U32, &ds(4))])));
        g.insert(ROOT + 1, ty(&[s_or(0, "a"), "S"], &ds(1), comp(vec![fldd(s(2), s(3), U32, &ds(4)), fldd(s(5), s(6), STR, &ds(7))])));
        g.insert(ROOT + 2, ty(&[s_or(0, "E")], &ds(1), vars(vec![vard(s_or(8, "V"), 0, vec![fldd(s(2), s(3), U32, &ds(4))], &ds(9)), vard(s_or(10, "W"), 1, vec![fldd(s(5), s(6), STR, &ds(7)), fld(s(2), s(3), U8)], &ds(11))])));
        g.insert(ROOT + 3, ty(&["p", "Call"], &ds(1), vars(vec![vard(s_or(8, "call"), 0, vec![fldd(s(2), s(3), U32, &ds(4))], &ds(9)), vard(s_or(10, "other"), 1, vec![fldd(s(5), s(6), STR, &ds(7)), fld(s(2), s(3), U8)], &ds(11))])));
        g.insert(ROOT + 4, ty(&["rt", "RuntimeCall"], &ds(12), vars(vec![vard(s_or(13, "P"), 0, vec![fldd(s(14), s(15), ROOT + 3, &ds(16))], &ds(17))])));
        g.insert(ROOT + 5, ty(&["p", "Event"], &ds(1), vars(vec![vard(s_or(8, "event"), 0, vec![fldd(s(2), s(3), U32, &ds(4))], &ds(9)), vard(s_or(10, "other"), 1, vec![fldd(s(5), s(6), STR, &ds(7)), fld(s(2), s(3), U8)], &ds(11))])));
        g.insert(ROOT + 6, ty(&["rt", "RuntimeEvent"], &ds(12), vars(vec![vard(s_or(13, "P"), 0, vec![fldd(s(14), s(15), ROOT + 5, &ds(16))], &ds(17))])));
        g.insert(ROOT + 7, ty(&[], &ds(1), tup(&[ROOT, ROOT])));
        g.insert(ROOT + 8, ty(&[], &ds(1), seq(ROOT)));
        g.insert(ROOT + 9, ty(&[], &ds(1), arr(2, ROOT + 1)));
        g.insert(ROOT + 10, ty(&[], &ds(1), compact(ROOT)));
        let types = frozen(&g);
        let one: &[u8] = &[1, 2, 3, 4];
        let two: &[u8] = &[1, 2, 3, 4, 4, b'z'];
        let a: Vec<(u32, Vec<u8>)> = vec![
            (0, one.to_vec()),
            (1, two.to_vec()),
            (2, [&[0], one].concat()),
            (2, vec![1, 4, b'z', 9]),
            (4, [&[0, 0], one].concat()),
            (4, vec![0, 1, 4, b'z', 9]),
            (6, [&[0, 0], one].concat()),
            (6, vec![0, 1, 4, b'z', 9]),
            (7, [one, one].concat()),
            (8, [&[8], one, one].concat()),
            (9, [two, two].concat()),
            (10, vec![0xfd, 0xff]),
        ];
        let st = &mut ctx.stats;
        let m = Meta::plain(Reg::Fixed(types.clone()));
        for (id, d) in &a {
            Case { e: Entry::All { id: ROOT + id }, types: types.clone(), data: d, data2: &[], m: m.clone() }.check(st, &o, "value")?;
        }
        for (id, d) in &a {
            let mut e = (*map_entry(StorageEntryType::Plain(sym(ROOT + id)))).clone();
            e.docs = strs(&ds(20));
            e.name = s_or(18, "Entry").into();
            Case { e: Entry::Storage { entry: Rc::new(e.clone()) }, types: types.clone(), data: &[5; 32], data2: d, m: m.clone() }.check(st, &o, "storage value")?;
            e.ty = StorageEntryType::Map { hashers: vec![StorageHasher::Identity], key: sym(ROOT + id), value: sym(U8) };
            Case { e: Entry::Storage { entry: Rc::new(e) }, types: types.clone(), data: &[&[5; 32][..], d].concat(), data2: &[8], m: m.clone() }.check(st, &o, "storage key")?;
        }
        let mut m = m;
        m.version = s_or(18, "67305985").into();
        m.name = s_or(18, "chain").into();
        m.exts = vec![("CheckSpecVersion".into(), UNIT, U32), (s_or(19, "Other").into(), ROOT, ROOT + 1), ("CheckGenesis".into(), UNIT, H256)];
        let d = [one, one, two, &[6; 32]].concat();
        Case { e: Entry::Ext { start: 0, genesis: None }, types: types.clone(), data: &d, data2: &[], m: m.clone() }.check(st, &o, "extensions")?;
        m.exts = vec![("CheckSpecVersion".into(), UNIT, ROOT), (s_or(19, "Other").into(), U32, U32), ("CheckGenesis".into(), UNIT, H256)];
        let d = [one, one, one, &[6; 32]].concat();
        Case { e: Entry::Ext { start: 0, genesis: None }, types: types.clone(), data: &d, data2: &[], m }.check(st, &o, "extensions")?;
        Ok(())
    })
}

/// Eras of every period against hashes, versions and expectations.
pub fn era_products(name: &str, all: bool, o: Opts) -> Scenario {
    let types = g_ext().fixed;
    Scenario::new(name, format!("immortal era, {} against block hash equal to the genesis hash or not, genesis expected or not or another, spec version right or not; in 3 orders of extensions, with an enclosed era or not", if all { "all 65536 byte pairs" } else { "mortal eras of all 16 low nibbles (two invalid) with 8 phases each" }), move |ctx| {
        let types = frozen(&types);
        let mut m = Meta::plain(Reg::Fixed(types.clone()));
        let order = ctx.choose(3);
        let same = ctx.flag();
        let wrong = ctx.choose(3);
        let list: Vec<Vec<u8>> = if all {
            let hi = ctx.choose(256) as u8;
            (0..=255u8).map(|lo| vec![lo, hi]).chain([vec![0]]).collect()
        } else {
            let n = ctx.choose(16) as u16;
            [0u16, 1, 2, 3, 0x7ff, 0x800, 0xffe, 0xfff].iter().map(|p| (p << 4 | n).to_le_bytes().to_vec()).chain([vec![0]]).collect()
        };
        let g = [7u8; 32];
        let b = if same { g } else { [8u8; 32] };
        let v: u32 = if wrong == 1 { 2 } else { 1 };
        ctx.note(|| format!("order {order} block hash same {same} {wrong}"));
        let st = &mut ctx.stats;
        for e in &list {
            let era = if e[0] == 0 { vec![0u8] } else { e.clone() };
            let (exts, parts): (Vec<(&str, u32, u32)>, Vec<Vec<u8>>) = match order {
                0 => (vec![("CheckSpecVersion", UNIT, U32), ("CheckGenesis", UNIT, H256), ("CheckMortality", ERA, H256)], vec![era, v.to_le_bytes().to_vec(), g.to_vec(), b.to_vec()]),
                1 => (vec![("CheckMortality", 403, H256), ("CheckGenesis", UNIT, H256), ("CheckSpecVersion", UNIT, U32)], vec![era, b.to_vec(), g.to_vec(), v.to_le_bytes().to_vec()]),
                _ => (vec![("CheckGenesis", UNIT, H256), ("Foo", U8, UNIT), ("CheckMortality", ERA, UNIT), ("CheckSpecVersion", U32, UNIT)], vec![vec![0], era, v.to_le_bytes().to_vec(), g.to_vec()]),
            };
            m.exts = exts.into_iter().map(|(a, b, c)| (a.to_string(), b, c)).collect();
            let d = parts.concat();
            for genesis in [None, Some(g), Some([if wrong == 2 { 9 } else { 7 }; 32])] {
                Case { e: Entry::Ext { start: 0, genesis }, types: types.clone(), data: &d, data2: &[], m: m.clone() }.check(st, &o, "era and hashes")?;
            }
        }
        Ok(())
    })
}

/// Calls of every number of arguments and length beside right and wrong extensions, with and without prefix.
pub fn call_lengths(name: &str, level: usize, o: Opts) -> Scenario {
    let max = [40usize, 80, 300][level];
    let base = small_base();
    Scenario::new(name, format!("calls with 0..={max} arguments of 0, 1, 2 bytes, and with a byte argument of 0..={} bytes, exact, one byte more or less, beside extensions that are right, of another version, of another genesis, cut or too long; prefixed, unprefixed and piecewise", 3 * max), move |ctx| {
        let mut g = base.clone();
        let kind = ctx.choose(4);
        let n = ctx.choose(if kind == 3 { 3 * max + 1 } else { max + 1 });
        let (id, one): (u32, &[u8]) = [(U8, &[5][..]), (U16, &[6, 7]), (UNIT, &[]), (VECU8, &[])][kind];
        let args: Vec<Fl> = if kind == 3 { vec![fld(Some("data"), None, id)] } else { (0..n).map(|i| fld([None, Some("f")][i % 2], None, id)).collect() };
        g.insert(3001, ty(&["p", "Call"], &[], vars(vec![var("go", 2, args)])));
        g.insert(3000, ty(&["rt", "RuntimeCall"], &[], vars(vec![var("P", 1, vec![fld(None, None, 3001)])])));
        let types = frozen(&g);
        let mut m = Meta::plain(Reg::Fixed(types.clone()));
        m.call_ty = 3000;
        m.exts = vec![("CheckMortality".into(), ERA, H256), ("CheckSpecVersion".into(), UNIT, U32), ("CheckGenesis".into(), UNIT, H256)];
        let body = if kind == 3 { [enc_compact(n as u128), (0..n).map(|i| i as u8).collect()].concat() } else { one.repeat(n) };
        let whole = [&[1, 2][..], &body].concat();
        ctx.note(|| format!("kind {kind} number {n}"));
        let st = &mut ctx.stats;
        let right = |v: u8, g: u8| [&[0u8][..], &[7; 32], &[v, 0, 0, 0], &[g; 32]].concat();
        let exts = [right(1, 7), right(2, 7), right(1, 8), right(1, 7)[..40].to_vec(), [right(1, 7), vec![0]].concat(), vec![]];
        let calls = [whole.clone(), [&whole[..], &[0]].concat(), whole[..whole.len() - 1].to_vec()];
        for (c, call) in calls.iter().enumerate() {
            for (e, ext) in exts.iter().enumerate() {
                let plain = [&call[..], ext].concat();
                let d = [&enc_compact(call.len() as u128)[..], &plain].concat();
                let tx = Case { e: Entry::Tx { genesis: Some([7; 32]) }, types: types.clone(), data: &d, data2: &[], m: m.clone() };
                let a = tx.check(st, &o, "prefixed")?;
                marked(st, &tx, &o, a.as_ref().map(|x| &x.1))?;
                let b = Case { e: Entry::TxPlain { genesis: Some([7; 32]) }, types: types.clone(), data: &plain, data2: &[], m: m.clone() }.check(st, &o, "unprefixed")?;
                if let (0, 0, Some((_, a)), Some((_, b))) = (c, e, &a, &b) {
                    if a.o != b.o || a.o.is_err() {
                        viol!("the same transaction prefixed and unprefixed: {:?} and {:?}\n for {}", a.o, b.o, hex::encode(&d));
                    }
                }
            }
        }
        Ok(())
    })
}

/// Mapped keys from any position, in keys of any length.
pub fn key_places(name: &str, o: Opts) -> Scenario {
    let base = small_base();
    Scenario::new(name, "process_key_mapped with every list of up to 2 out of 7 hashers, 5 key part types, right key parts behind 0..=34 other bytes, whole, cut at every place or longer, read from every position from 0 to behind the end and 4 positions up to half the address space", move |ctx| {
        let n = ctx.choose(3);
        let hs: Vec<StorageHasher> = (0..n).map(|_| ctx.pick(&HASHERS).clone()).collect();
        let (id, x): (u32, Vec<u8>) = [(U8, vec![9]), (UNIT, vec![]), (VECU8, vec![8, 1, 2]), (ACC, vec![3; 32]), (STR, vec![4, b'k'])][ctx.choose(5)].clone();
        let mut g = base.clone();
        g.insert(ROOT, ty(&["K"], &["key docs"], tup(&vec![id; n])));
        let types = frozen(&g);
        let reg = Reg::Fixed(types.clone());
        let key = if n == 1 { id } else { ROOT };
        let lead = *ctx.pick(&[32usize, 0, 1, 31, 34]);
        ctx.note(|| format!("{hs:?} of type {id} behind {lead}"));
        let mut full: Vec<u8> = (0..lead).map(|i| i as u8).collect();
        for h in &hs {
            full.extend(hash_part(h, &x));
        }
        full.push(0x77);
        let st = &mut ctx.stats;
        for len in 0..=full.len() {
            if len > 6 && len + 6 < full.len() && len.abs_diff(lead) > 3 && len % 7 != 0 {
                continue;
            }
            let d = &full[..len];
            let w = Fixed { types: &types, data: d };
            let mut starts: Vec<usize> = (0..=len + 2).filter(|s| *s < 4 || *s + 4 > len || s.abs_diff(lead) < 4).collect();
            starts.extend([len + 33, 70_000, usize::MAX / 2, usize::MAX / 4]);
            for at in starts {
                let want = ref_key(&w, len, at, &hs, key);
                let got = match guard(|| real_key(&hs, key, d, at, &reg)) {
                    Ok(g) => g,
                    Err(p) => viol!("process_key_mapped panics at {at} of {len}: {p}\n for {}", hex::encode(d)),
                };
                st.traces += 1;
                st.transitions += 1;
                st.accepted += got.is_ok() as u64;
                st.outcome(hash_of(&got));
                let same = match (&got, &want) {
                    (Ok(a), Ok(b)) => a == b,
                    (Err(a), Err(b)) => o.errs == Errs::Any || core::mem::discriminant(a) == core::mem::discriminant(b),
                    _ => false,
                };
                if o.base && !same {
                    viol!("process_key_mapped at {at} of {len}: {got:?}\n expected {want:?}\n for {}", hex::encode(d));
                }
            }
        }
        Ok(())
    })
}

/// Every kind of value behind every number of other bytes.
pub fn positions(name: &str, level: usize, o: Opts) -> Scenario {
    let base = small_base();
    let mut at: Vec<usize> = (0..=[300usize, 2_200, 9_000][level]).collect();
    for k in [12u32, 13, 14, 15, 16, 17, 20] {
        let span = [3usize, 18, 70][level];
        at.extend((1usize << k) - span..(1usize << k) + 4);
    }
    if level == 0 {
        at.extend([512usize, 1000, 1024, 2000, 2048].iter().flat_map(|x| x - 34..x + 2));
    }
    at.sort_unstable();
    at.dedup();
    at.retain(|p| *p < [20_000usize, 70_000, 1_100_000][level]);
    const STEP: usize = 64;
    Scenario::new(name, format!("{} kinds of values at {} positions up to {}, exact and one byte short", LEAVES.len() + 6, at.len(), at[at.len() - 1]), move |ctx| {
        let types = frozen(&base);
        let k = ctx.choose(LEAVES.len() + 6);
        let (id, x): (u32, Vec<u8>) = match k.checked_sub(LEAVES.len()) {
            None => {
                let el = &ELS[LEAVES[k]];
                (el.id, (el.enc)(1))
            }
            Some(0) => (I128, (1..17).collect()),
            Some(1) => (U256, (1..33).collect()),
            Some(2) => (U64, (1..9).collect()),
            Some(3) => (STR, [vec![80], (0..20).map(|i| b'a' + i).collect()].concat()),
            Some(4) => (ARR64, (1..65).collect()),
            _ => (U16, vec![1, 2]),
        };
        let block = ctx.choose(at.len().div_ceil(STEP));
        let part = &at[block * STEP..((block + 1) * STEP).min(at.len())];
        ctx.note(|| format!("type {id} {} at {}..", hex::encode(&x), part[0]));
        let st = &mut ctx.stats;
        let m = Meta::plain(Reg::Fixed(types.clone()));
        for p in part {
            let mut d: Vec<u8> = (0..*p).map(|i| (i * 7 + 3) as u8).collect();
            d.extend(&x);
            for cut in [0usize, 1] {
                if cut < x.len() || cut == 0 {
                    Case { e: Entry::Type { id, start: *p }, types: types.clone(), data: &d[..d.len() - cut], data2: &[], m: m.clone() }.check(st, &o, "value behind other bytes")?;
                }
            }
        }
        Ok(())
    })
}

/// Key parts and keys of every length.
pub fn key_sizes(name: &str, level: usize, o: Opts) -> Scenario {
    let base = small_base();
    let mut lens: Vec<usize> = (0..=[80usize, 300, 1100][level]).collect();
    for k in [8u32, 9, 10, 11, 12, 13, 14, 16] {
        if k < [12, 15, 17][level] {
            let b = 1usize << k;
            lens.extend([b - 40, b - 34, b - 33, b - 32, b - 18, b - 17, b - 16, b - 10, b - 4, b - 2, b - 1, b, b + 1, b + 2, b + 100]);
        }
    }
    lens.extend([500, 1000, 1500, 3000]);
    lens.sort_unstable();
    lens.dedup();
    Scenario::new(name, format!("storage keys with one part, or with another before or behind, whose byte vector has {} lengths, over 7 hashers; right, with its first, middle or last byte changed, with each of the first and last hash bytes changed, cut, longer", lens.len()), move |ctx| {
        let n = lens[ctx.choose(lens.len())];
        let h = ctx.pick(&HASHERS).clone();
        let shape = ctx.choose(3);
        let mut g = base.clone();
        let x = [enc_compact(n as u128), (0..n).map(|i| (i * 11 + i / 256 + 1) as u8).collect()].concat();
        let part = hash_part(&h, &x);
        let small = hash_part(&StorageHasher::Twox64Concat, &[9]);
        let (hashers, ids, body, from) = match shape {
            0 => (vec![h.clone()], vec![VECU8], part.clone(), 32),
            1 => (vec![StorageHasher::Twox64Concat, h.clone()], vec![U8, VECU8], [&small[..], &part].concat(), 32 + small.len()),
            _ => (vec![h.clone(), StorageHasher::Twox64Concat], vec![VECU8, U8], [&part[..], &small].concat(), 32),
        };
        g.insert(ROOT, ty(&[], &[], tup(&ids)));
        let types = frozen(&g);
        let key = if shape == 0 { VECU8 } else { ROOT };
        let e = map_entry(StorageEntryType::Map { hashers, key: sym(key), value: sym(U8) });
        let m = Meta::plain(Reg::Fixed(types.clone()));
        ctx.note(|| format!("{h:?} {n} shape {shape}"));
        let good = [&[1u8; 32][..], &body].concat();
        let st = &mut ctx.stats;
        let run = |st: &mut Stats, d: &[u8]| -> Res { Case { e: Entry::Storage { entry: e.clone() }, types: types.clone(), data: d, data2: &[1], m: m.clone() }.check(st, &o, "key").map(|_| ()) };
        run(st, &good)?;
        if !o.slim() {
            let end = from + part.len();
            let body_at = end - if part.len() > x.len() { x.len() } else { part.len() };
            for i in [from, from + 7.min(part.len() - 1), body_at, (body_at + end) / 2, end - 2.min(part.len()), end - 1, from + 15.min(part.len() - 1)] {
                if i < good.len() {
                    let mut d = good.clone();
                    d[i] ^= 0x10;
                    run(st, &d)?;
                }
            }
            run(st, &good[..good.len() - 1])?;
            run(st, &[&good[..], &[0]].concat())?;
        }
        Ok(())
    })
}

/// Several inputs in one and the same buffer, one after another.
pub fn same_buffer(name: &str, o: Opts) -> Scenario {
    let base = small_base();
    Scenario::new(name, format!("{} kinds of values, in ordered pairs of equal length out of: 4 values, each with any byte changed in 3 ways; put one after the other into one and the same buffer and parsed there, then the first again", LEAVES.len()), move |ctx| {
        let types = frozen(&base);
        let el = &ELS[LEAVES[ctx.choose(LEAVES.len())]];
        let first = (el.enc)(ctx.choose(4));
        let mut all: Vec<Vec<u8>> = (0..6).map(|k| (el.enc)(k)).filter(|x| x.len() == first.len()).collect();
        for i in 0..first.len().min(40) {
            for v in [0xffu8, 0x80, 1] {
                let mut d = first.clone();
                d[i] ^= v;
                all.push(d);
            }
        }
        ctx.note(|| format!("{} {}", el.name, hex::encode(&first)));
        let mut buf = first.clone();
        let st = &mut ctx.stats;
        let m = Meta::plain(Reg::Fixed(types.clone()));
        let run = |st: &mut Stats, d: &[u8]| -> Res { Case { e: Entry::All { id: el.id }, types: types.clone(), data: d, data2: &[], m: m.clone() }.check(st, &o, "value in a buffer used before").map(|_| ()) };
        for x in &all {
            buf.copy_from_slice(&first);
            run(st, &buf)?;
            buf.copy_from_slice(x);
            run(st, &buf)?;
            run(st, &buf)?;
        }
        buf.copy_from_slice(&first);
        run(st, &buf)
    })
}

const UNITS: [&str; 34] = [
    "", "k", "M", "G", "T", "m", "u", "n", "p", "f", "a", "kDOT", "mDOT", "uatom", "aevmos", "Tether", "P", "E", "\u{3bc}", "\u{b5}DOT", " DOT", "DOT ", ".", "0", "1inch", "e18", "-", "%", "\u{e9}t\u{e9}", "\u{1f600}", "A\nB", "UNIT", "kk", "\u{0}",
];
fn shown_exactly(st: &mut Stats, v: u128, decimals: u8, unit: &str) -> Res {
    use super::fam4::exact_balance;
    use substrate_parser::printing_balance::AsBalance;
    let mut outs = Vec::new();
    let run = guard(|| {
        outs.push(<u128>::convert_balance_pretty(v, decimals, unit));
        if let Ok(x) = u64::try_from(v) {
            outs.push(<u64>::convert_balance_pretty(x, decimals, unit));
        }
        if let Ok(x) = u32::try_from(v) {
            outs.push(<u32>::convert_balance_pretty(x, decimals, unit));
        }
        if let Ok(x) = u16::try_from(v) {
            outs.push(<u16>::convert_balance_pretty(x, decimals, unit));
        }
        if let Ok(x) = u8::try_from(v) {
            outs.push(<u8>::convert_balance_pretty(x, decimals, unit));
        }
    });
    if let Err(p) = run {
        viol!("balance {v} with {decimals} decimals in {unit:?}: panic: {p}");
    }
    for c in outs {
        st.traces += 1;
        st.transitions += 1;
        let h = hash_of(&(&c.number, &c.units));
        st.outcome(h);
        st.digest = st.digest.wrapping_add(h);
        if let Err(e) = exact_balance(&v.to_string(), decimals, unit, &c.number, &c.units) {
            viol!("balance {v}, decimals {decimals}, unit {unit:?} is shown as {:?} {:?}: {e}", c.number, c.units);
        }
    }
    Ok(())
}
/// Every small balance; sums of two powers of ten with any digits; bits.
pub fn balance_values(name: &str, level: usize) -> Scenario {
    let small = [2_000u128, 66_000, 1_100_000][level];
    const STEP: u128 = 500;
    let blocks = small.div_ceil(STEP) as usize;
    Scenario::new(name, format!("every balance below {small}, every sum of two powers of ten times a digit each (and one less), every sum and difference of two powers of two; decimals 0..=40, 64, 255"), move |ctx| {
        let list: Vec<u128> = match ctx.choose(3) {
            0 => {
                let b = ctx.choose(blocks) as u128;
                (b * STEP..((b + 1) * STEP).min(small)).collect()
            }
            1 => {
                let (a, d) = (ctx.choose(39) as u32, 1 + ctx.choose(9) as u128);
                let Some(x) = 10u128.pow(a).checked_mul(d) else { return Ok(()) };
                let mut v = Vec::new();
                for b in 0..=a {
                    for e in if level == 0 { vec![0u128, 1, 5, 9] } else { (0..10).collect() } {
                        let Some(y) = 10u128.pow(b).checked_mul(e).and_then(|y| y.checked_add(x)) else { continue };
                        v.extend([y, y - 1]);
                    }
                }
                v
            }
            _ => {
                let a = ctx.choose(128);
                (0..128).flat_map(|b| [(1u128 << a) ^ (1 << b), (1u128 << a).wrapping_sub(1 << b), (1u128 << a).saturating_add(1 << b)]).collect()
            }
        };
        ctx.note(|| format!("balances {:?}..", list.first()));
        for v in list {
            for d in (0..=40u8).chain([64, 255]) {
                shown_exactly(&mut ctx.stats, v, d, "DOT")?;
            }
        }
        Ok(())
    })
}
/// Units of every kind.
pub fn balance_units(name: &str) -> Scenario {
    Scenario::new(name, format!("{} units (every prefix letter, units that begin with one, digits, points, blanks, other scripts) and units of 1..=300 letters x 40 values x all 256 decimals", UNITS.len()), move |ctx| {
        let k = ctx.choose(UNITS.len() + 30);
        let unit = if k < UNITS.len() { UNITS[k].to_string() } else { "x".repeat([1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 300][k - UNITS.len()]) };
        let mut values: Vec<u128> = (0..39).map(|k| 10u128.pow(k)).collect();
        values.extend([0, 7, 123, 1_000_001, 999_999_999_999, u128::MAX, u64::MAX as u128]);
        ctx.note(|| format!("unit {unit:?}"));
        for v in values {
            for d in 0..=255u8 {
                shown_exactly(&mut ctx.stats, v, d, &unit)?;
            }
        }
        Ok(())
    })
}

/// Type ids, path lengths, numbers of documentation lines.
pub fn numbered(name: &str, level: usize, o: Opts) -> Scenario {
    let base = g_wide().fixed;
    const IDS: [u32; 22] = [1_000_000, 126, 127, 128, 254, 255, 256, 257, 511, 512, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 0xff_ffff, 0x100_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff];
    let most = [12usize, 130, 300][level];
    Scenario::new(name, format!("registries whose types have ids out of {} (up to u32::MAX, in pairs, also equal ones: cyclic) in 10 shapes; paths of 0..={most} segments that end in, begin with or contain each of 12 known names; 0..={most} lines of documentation in 5 places, 0..={most} type parameters", IDS.len()), move |ctx| {
        let mut g = base.clone();
        let mut cases: Vec<(u32, Vec<u8>)> = Vec::new();
        match ctx.choose(3) {
            0 => {
                let (a, b) = (*ctx.pick(&IDS), *ctx.pick(&IDS));
                let shape = ctx.choose(10);
                g.insert(b, prim(Pr::U16));
                let (t, d): (T, Vec<u8>) = match shape {
                    0 => (ty(&["S"], &[], comp(vec![fld(Some("x"), Some("Balance"), b)])), vec![1, 2]),
                    1 => (ty(&[], &[], tup(&[b, b])), vec![1, 2, 3, 4]),
                    2 => (ty(&[], &[], seq(b)), vec![8, 1, 2, 3, 4]),
                    3 => (ty(&[], &[], arr(2, b)), vec![1, 2, 3, 4]),
                    4 => (ty(&[], &[], compact(b)), vec![1, 2]),
                    5 => (ty(&["Option"], &[], vars(vec![var("None", 0, vec![]), var("Some", 1, vec![fld(None, None, b)])])), vec![1, 2, 3]),
                    6 => (ty(&[], &[], bitseq(b, LSB)), vec![20, 1, 2]),
                    7 => (ty(&["rt", "RuntimeCall"], &[], vars(vec![var("P", 0, vec![fld(None, None, b)])])), vec![0, 1, 2]),
                    8 => (ty(&["sp_runtime", "MultiSignature"], &[], vars(vec![var("Ed25519", 0, vec![fld(None, Some("ed25519::Signature"), b)])])), vec![0, 1, 2]),
                    _ => (ty(&["S"], &[], comp(vec![fld(None, None, b), fld(None, None, DANGLING)])), vec![1, 2]),
                };
                ctx.note(|| format!("types {a} and {b} in shape {shape}"));
                g.insert(a, t);
                for cut in 0..=d.len() {
                    cases.push((a, d[..cut].to_vec()));
                }
                cases.push((a ^ 1, d.clone()));
                cases.push((a.wrapping_add(256), d.clone()));
                cases.push((a.wrapping_add(65_536), d));
            }
            1 => {
                const KNOWN: [&str; 12] = ["AccountId32", "H160", "H256", "H512", "Era", "PerU16", "Perbill", "RuntimeCall", "Event", "Option", "CheckNonce", "BTreeMap"];
                let known = *ctx.pick(&KNOWN);
                let n = ctx.choose(most + 1);
                let at = *ctx.pick(&[n.saturating_sub(1), 0, n / 2]);
                let segs: Vec<String> = (0..n).map(|i| if i == at { known.to_string() } else { format!("m{i}") }).collect();
                let s: Vec<&str> = segs.iter().map(|s| s.as_str()).collect();
                ctx.note(|| format!("{known} at {at} of {n}"));
                g.insert(ROOT, ty(&s, &[], comp(vec![fld(None, None, U32)])));
                g.insert(ROOT + 1, ty(&s, &[], vars(vec![var("A", 0, vec![fld(None, None, ROOT + 2)])])));
                g.insert(ROOT + 2, ty(&s, &[], vars(vec![var("B", 0, vec![fld(None, None, U8)])])));
                let mut bare: Vec<&str> = s.clone();
                if known == "H160" || known == "AccountId32" {
                    bare.insert(0, "sp_core");
                }
                g.insert(ROOT + 3, ty(&bare, &[], seq(ROOT)));
                let d: Vec<u8> = (0..70).map(|i| if i < 2 { 0 } else { i }).collect();
                for id in 0..4 {
                    for len in [0usize, 1, 2, 3, 4, 8, 20, 32, 64] {
                        cases.push((ROOT + id, d[..len].to_vec()));
                    }
                }
                cases.push((ROOT + 3, vec![4, 1, 2, 3, 4]));
            }
            _ => {
                let n = ctx.choose(most + 1);
                let site = ctx.choose(5);
                let lines: Vec<String> = (0..n).map(|i| format!("line {i}")).collect();
                let l: Vec<&str> = lines.iter().map(|s| s.as_str()).collect();
                let d = |s: usize| -> &[&str] { if s == site { &l } else { &[] } };
                ctx.note(|| format!("{n} lines at {site}"));
                g.insert(ROOT, ty(&["m", "S"], d(0), comp(vec![fldd(Some("a"), None, U8, d(1))])));
                g.insert(ROOT + 1, ty(&["rt", "RuntimeCall"], &[], vars(vec![var("P", 0, vec![fld(None, None, ROOT + 2)])])));
                g.insert(ROOT + 2, ty(&["p", "Call"], d(2), vars(vec![vard("c", 0, vec![fldd(Some("a"), None, U8, d(1))], d(3))])));
                let mut t = ty(&["m", "Generic"], d(4), seq(ROOT));
                t.type_params = (0..n).map(|i| scale_info::TypeParameter { name: format!("T{i}"), ty: (i % 2 == 0).then_some(sym(U8)) }).collect();
                g.insert(ROOT + 3, t);
                g.insert(ROOT + 4, ty(&["m", "E"], d(0), vars(vec![vard("V", 0, vec![fldd(None, None, ROOT, d(1))], d(3))])));
                cases = vec![(ROOT, vec![1]), (ROOT + 1, vec![0, 0, 5]), (ROOT + 3, vec![8, 1, 2]), (ROOT + 4, vec![0, 3])];
            }
        }
        let types = frozen(&g);
        let m = Meta::plain(Reg::Fixed(types.clone()));
        for (id, d) in &cases {
            Case { e: Entry::All { id: *id }, types: types.clone(), data: d, data2: &[], m: m.clone() }.check(&mut ctx.stats, &o, "value")?;
        }
        Ok(())
    })
}
