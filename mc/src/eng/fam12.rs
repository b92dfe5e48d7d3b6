//! Many of everything: layers, extensions, key parts, bytes left over; all address prefixes, units, decimals, indents.
use super::drive::*;
use super::env::*;
use super::explore::*;
use super::fam::*;
use super::fam2::run_fixed;
use super::fam3::*;
use super::fam9::*;
use super::refcards::Specs;
use super::refdec::*;
use super::tyb::*;
use alloc::format;
use alloc::string::{String, ToString};
use alloc::vec;
use alloc::vec::Vec;
use frame_metadata::v14::{StorageEntryType, StorageHasher};

fn counts(most: usize, far: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=most).collect();
    for k in 4..20u32 {
        for n in [(1usize << k) - 1, 1 << k, (1 << k) + 1] {
            if n > most && n <= far {
                v.push(n);
            }
        }
    }
    v
}

/// One value under many layers of one kind.
pub fn stacks(name: &str, most: usize, far: usize, o: Opts) -> Scenario {
    const LAYERS: [&str; 10] = ["described struct", "plain struct", "one-tuple", "array of one", "option", "list of one", "one-variant enum", "described struct with named field", "struct and tuple in turn", "struct and compact in turn"];
    const FIELDS: [(Option<&str>, Option<&str>); 5] = [(None, None), (Some("nonce"), None), (None, Some("BalanceOf<T>")), (Some("spec_version"), Some("Balance")), (Some("spec_name"), None)];
    let leaves: Vec<(u32, Vec<u8>)> = vec![(U128, (5_000_000_000_000u128).to_le_bytes().to_vec()), (ACC, (0..32).collect()), (ERA, vec![0x15, 0]), (H256, vec![9; 32]), (STR, vec![8, b'a', b'b']), (VECU8, vec![12, 1, 2, 3]), (U32, vec![4, 3, 2, 1])];
    let ns = counts(most, far);
    let base = base().fixed;
    Scenario::new(name, format!("{} leaves under 0..={most} and, about powers of two, up to {far} layers of each of {LAYERS:?}; compact outside or inside or not at all; {} field names at the outermost or innermost layer; as blob, list element, extension part", leaves.len(), FIELDS.len()), move |ctx| {
        let kind = ctx.choose(LAYERS.len());
        let n = ns[ctx.choose(ns.len())];
        let (leaf, enc) = &leaves[ctx.choose(leaves.len())];
        let field = *ctx.pick(&FIELDS);
        let inner_named = ctx.flag();
        let pressed = ctx.choose(3);
        ctx.note(|| format!("{n} of {}, leaf {leaf}, {field:?} inner {inner_named}, compact {pressed}", LAYERS[kind]));
        let mut g = base.clone();
        let mut enc = enc.clone();
        let mut id = *leaf;
        let mut next = 5000u32;
        let mut add = |g: &mut alloc::collections::BTreeMap<u32, T>, t: T| -> u32 {
            next += 1;
            g.insert(next, t);
            next
        };
        if pressed == 2 {
            id = add(&mut g, ty(&[], &[], compact(id)));
        }
        for i in 0..n {
            // layer 0 is innermost
            let named = if inner_named { i == 0 } else { i + 1 == n };
            let f = if named { field } else { (None, None) };
            let t = match kind {
                0 => ty(&["m", "Layer"], &[if i % 2 == 0 { "even" } else { "odd" }], comp(vec![fldd(f.0, f.1, id, &["field"])])),
                2 => ty(&[], &[], tup(&[id])),
                3 => ty(&[], &[], arr(1, id)),
                4 => ty(&["Option"], &[], vars(vec![var("None", 0, vec![]), var("Some", 1, vec![fld(None, None, id)])])),
                5 => ty(&[], &[], seq(id)),
                6 => ty(&["E"], &[], vars(vec![vard("V", 7, vec![fld(f.0, f.1, id)], &["v"])])),
                7 => ty(&["m", "Layer"], &[], comp(vec![fld(f.0.or(Some("it")), f.1.or(Some("It")), id)])),
                8 if i % 2 == 0 => ty(&[], &["tuple"], tup(&[id])),
                9 if i % 2 == 1 => ty(&[], &[], compact(id)),
                _ => ty(&[], &[], comp(vec![fld(f.0, f.1, id)])),
            };
            match kind {
                4 => enc.insert(0, 1),
                5 => enc.insert(0, 4),
                6 => enc.insert(0, 7),
                _ => {}
            }
            id = add(&mut g, t);
        }
        if pressed == 1 {
            id = add(&mut g, ty(&[], &[], compact(id)));
        }
        if pressed > 0 || kind == 9 && n > 1 {
            enc = [&enc[..enc.len().min(if (4..7).contains(&kind) { n } else { 0 })], &[0x02, 0x09, 0x3d, 0x00]].concat();
        }
        g.insert(ROOT, ty(&[], &[], seq(id)));
        g.insert(ROOT + 1, ty(&["Around"], &[], comp(vec![fld(Some("a"), None, U8), fld(field.0, field.1, id)])));
        let types = frozen(&g);
        let mut m = Meta::plain(Reg::Fixed(types.clone()));
        m.version = "16909060".into();
        let st = &mut ctx.stats;
        let mut run = |e: Entry, d: &[u8], m: &Meta| -> Res {
            Case { e, types: types.clone(), data: d, data2: &[], m: m.clone() }.check(st, &o, "many layers").map(|_| ())
        };
        run(Entry::All { id }, &enc, &m)?;
        run(Entry::All { id: ROOT }, &[&[8u8][..], &enc, &enc].concat(), &m)?;
        if n % 8 != 5 {
            return Ok(());
        }
        run(Entry::All { id }, &[&enc[..], &[0]].concat(), &m)?;
        run(Entry::All { id }, &enc[..enc.len() - 1], &m)?;
        run(Entry::All { id: ROOT }, &[0], &m)?;
        run(Entry::All { id: ROOT + 1 }, &[&[8u8][..], &enc].concat(), &m)?;
        for ident in ["Other", "CheckSpecVersion", "CheckGenesis", "CheckMortality", "CheckNonce"] {
            m.exts = vec![("CheckSpecVersion".into(), UNIT, U32), (ident.into(), id, UNIT), ("CheckGenesis".into(), UNIT, H256)];
            run(Entry::Ext { start: 0, genesis: Some([9; 32]) }, &[&enc[..], &[4, 3, 2, 1], &[9; 32]].concat(), &m)?;
        }
        Ok(())
    })
}

/// Many extensions, the decisive ones anywhere among them.
pub fn many_exts(name: &str, most: usize, far: usize, o: Opts) -> Scenario {
    let ns: Vec<usize> = counts(most, far);
    let base = small_base();
    Scenario::new(name, format!("transactions with 0..={most} and, about powers of two, up to {far} further extensions of 3 kinds; spec version, genesis hash, era and block hash at the first, middle, last or last but one place, included or additional; right, wrong, missing, given twice"), move |ctx| {
        let n = ns[ctx.choose(ns.len())];
        let filler = ctx.choose(3);
        let places = [0, n / 2, n.saturating_sub(1), n];
        let at: Vec<usize> = (0..2).map(|_| *ctx.pick(&places)).collect();
        let included = ctx.flag();
        ctx.note(|| format!("{n} of kind {filler}, {at:?}, included {included}"));
        let types = frozen(&base);
        let st = &mut ctx.stats;
        #[derive(Clone, Copy)]
        struct E(&'static str, u32, &'static [u8], bool);
        let fill: E = [E("Other", U8, &[7], true), E("Empty", UNIT, &[], false), E("CheckTxVersion", U32, &[1, 2, 3, 4], false)][filler];
        for variant in 0..13 {
            let mut list: Vec<E> = vec![fill; n];
            let v = E("CheckSpecVersion", U32, &[4, 3, 2, 1], included);
            let h = E("CheckGenesis", H256, &[5; 32], included);
            let era = E("CheckMortality", ERA, if variant == 5 { &[0x15, 0] } else { &[0] }, true);
            let block = E("CheckMortality", H256, if variant == 4 || variant == 5 { &[6; 32] } else { &[5; 32] }, false);
            let mut put = |e: E, p: usize| {
                let p = p.min(list.len());
                list.insert(p, e);
            };
            let (mut genesis, mut version) = (Some([5u8; 32]), "16909060");
            if variant != 1 {
                put(v, at[0]);
            }
            if variant != 2 {
                put(h, at[1]);
            }
            put(era, at[1]);
            put(block, at[0]);
            match variant {
                3 => version = "16909061",
                6 => genesis = Some([4; 32]),
                7 => put(v, n + 4),
                8 => put(h, 0),
                9 => put(era, n + 2),
                10 => put(block, 0),
                11 => genesis = None,
                _ => {}
            }
            let mut m = runtime_meta(&types);
            m.version = version.into();
            m.exts = list.iter().map(|e| (e.0.to_string(), if e.3 { e.1 } else { UNIT }, if e.3 { UNIT } else { e.1 })).collect();
            let mut d: Vec<u8> = list.iter().filter(|e| e.3).flat_map(|e| e.2.to_vec()).collect();
            d.extend(list.iter().filter(|e| !e.3).flat_map(|e| e.2.to_vec()));
            if variant == 12 {
                d.push(0);
            }
            Case { e: Entry::Ext { start: 0, genesis }, types: types.clone(), data: &d, data2: &[], m: m.clone() }.check(st, &o, "many extensions")?;
            if variant < 2 {
                let call: &[u8] = &[0, 1, 8, 5, 6];
                let d1 = [&enc_compact(call.len() as u128)[..], call, &d].concat();
                Case { e: Entry::Tx { genesis }, types: types.clone(), data: &d1, data2: &[], m: m.clone() }.check(st, &o, "many extensions")?;
                let d2 = [call, &d].concat();
                Case { e: Entry::TxPlain { genesis }, types: types.clone(), data: &d2, data2: &[], m: m.clone() }.check(st, &o, "many extensions")?;
                Case { e: Entry::TxPlain { genesis }, types: types.clone(), data: &d2[..d2.len() - 1], data2: &[], m }.check(st, &o, "many extensions")?;
            }
        }
        Ok(())
    })
}

/// Keys of many parts.
pub fn many_parts(name: &str, most: usize, far: usize, o: Opts) -> Scenario {
    const HASHERS: [StorageHasher; 7] = [StorageHasher::Blake2_128, StorageHasher::Blake2_256, StorageHasher::Blake2_128Concat, StorageHasher::Twox128, StorageHasher::Twox256, StorageHasher::Twox64Concat, StorageHasher::Identity];
    let ns: Vec<usize> = counts(most, far);
    let base = small_base();
    Scenario::new(name, format!("keys of 1..={most} and, about powers of two, up to {far} parts of 4 types, hashers all equal (7) or in turn (2 orders); right, one byte of each part changed (of the first, middle, last parts if many), one hasher more or less, bytes more or less, parts exchanged"), move |ctx| {
        let n = ns[ctx.choose(ns.len())].max(1);
        let pattern = ctx.choose(9);
        let shape = ctx.choose(3);
        let hashers: Vec<StorageHasher> = (0..n).map(|i| HASHERS[match pattern { 7 => i % 7, 8 => (6 * i + 3) % 7, k => k }].clone()).collect();
        let ids: Vec<u32> = (0..n).map(|i| match shape { 0 => U16, 1 => [U8, U16, STR, UNIT][i % 4], _ => [STR, U16][i % 2] }).collect();
        ctx.note(|| format!("{n} parts, hashers {pattern}, types {shape}"));
        let x = |i: usize| -> Vec<u8> { match ids[i] { U8 => vec![i as u8], U16 => vec![i as u8, 200], STR => vec![8, b'a' + (i % 26) as u8, b'z'], _ => vec![] } };
        let parts: Vec<Vec<u8>> = (0..n).map(|i| hash_part(&hashers[i], &x(i))).collect();
        let mut g = base.clone();
        g.insert(ROOT, ty(&["k", "Key"], &["key docs"], tup(&ids)));
        let types = frozen(&g);
        let m = Meta::plain(Reg::Fixed(types.clone()));
        let st = &mut ctx.stats;
        let mut run = |h: Vec<StorageHasher>, key: u32, parts: &[Vec<u8>], more: &[u8]| -> Res {
            let d = [&[7u8; 32][..], &parts.concat(), more].concat();
            let e = map_entry(StorageEntryType::Map { hashers: h, key: sym(key), value: sym(U8) });
            Case { e: Entry::Storage { entry: e }, types: types.clone(), data: &d, data2: &[1], m: m.clone() }.check(st, &o, "many parts").map(|_| ())
        };
        run(hashers.clone(), ROOT, &parts, &[])?;
        run(hashers.clone(), ROOT, &parts, &[0])?;
        run(hashers[..n - 1].to_vec(), ROOT, &parts, &[])?;
        run(hashers[..n - 1].to_vec(), ROOT, &parts[..n - 1], &[])?;
        run([&hashers[..], &hashers[..1]].concat(), ROOT, &parts, &[])?;
        run([&hashers[..], &hashers[..1]].concat(), ROOT, &[&parts[..], &parts[..1]].concat(), &[])?;
        run(hashers.clone(), ROOT, &parts[..n - 1], &[])?;
        for i in 0..n {
            if n > 12 && i > 2 && i + 3 < n && i != n / 2 && i != 8 && i != 16 {
                continue;
            }
            for b in [0usize, 7, 15, 31, usize::MAX] {
                let b = if b == usize::MAX { parts[i].len().wrapping_sub(1) } else { b };
                if b < parts[i].len() {
                    let mut p = parts.clone();
                    p[i][b] ^= 1;
                    run(hashers.clone(), ROOT, &p, &[])?;
                }
            }
            if i + 1 < n {
                let mut p = parts.clone();
                p.swap(i, i + 1);
                run(hashers.clone(), ROOT, &p, &[])?;
            }
        }
        // one hasher over the whole tuple
        let whole: Vec<u8> = (0..n).flat_map(x).collect();
        let h = hashers[n - 1].clone();
        run(vec![h.clone()], ROOT, &[hash_part(&h, &whole)], &[])
    })
}

/// Any number of bytes left over, in every reader that has to use up its input.
pub fn left_counts(name: &str, most: usize, far: usize, o: Opts) -> Scenario {
    let mut ns = counts(most, far);
    ns.retain(|n| *n > 0);
    ns.extend([100, 1000, 10_000]);
    let base = g_unchecked().fixed;
    Scenario::new(name, format!("1..={most} and, about powers of two, up to {far} bytes left over, of 4 fillings (zeros, 0xff, counting, the input again), in 10 readers"), move |ctx| {
        let mut g = base.clone();
        g.insert(2000, ty(&[], &[], tup(&[])));
        g.insert(2001, ty(&["S"], &[], comp(vec![fld(Some("a"), None, U16), fld(Some("b"), None, STR)])));
        let types = frozen(&g);
        let mut m = runtime_meta(&types);
        m.params = [512, RT, 510, 511];
        let n = ns[ctx.choose(ns.len())];
        let kind = ctx.choose(12);
        let fill = ctx.choose(4);
        let call = call_samples()[1 + ctx.choose(2)].clone();
        let ext = ext_samples()[1].clone();
        let more = |d: &[u8]| -> Vec<u8> {
            match fill {
                0 => vec![0; n],
                1 => vec![0xff; n],
                2 => (0..n).map(|i| i as u8).collect(),
                _ => d.iter().copied().cycle().take(n).collect(),
            }
        };
        let key = map_entry(StorageEntryType::Map { hashers: vec![StorageHasher::Twox64Concat], key: sym(U16), value: sym(U16) });
        let ident = map_entry(StorageEntryType::Map { hashers: vec![StorageHasher::Identity], key: sym(U16), value: sym(U16) });
        let plain = map_entry(StorageEntryType::Plain(sym(U16)));
        let mut data2 = vec![];
        let with = |d: Vec<u8>| -> Vec<u8> { let m = more(&d); [d, m].concat() };
        let good_key = [&[7u8; 32][..], &hash_part(&StorageHasher::Twox64Concat, &[7, 1])].concat();
        let (e, data) = match kind {
            0 => (Entry::All { id: 2001 }, with(vec![1, 2, 8, b'x', b'y'])),
            1 => (Entry::All { id: 2000 }, with(vec![])),
            2 => (Entry::All { id: RT }, with(call.clone())),
            3 => (Entry::Ext { start: 0, genesis: None }, with(ext.clone())),
            4 => (Entry::Tx { genesis: None }, with([&enc_compact(call.len() as u128)[..], &call, &ext].concat())),
            5 => {
                let c = with(call.clone());
                (Entry::Tx { genesis: None }, [&enc_compact(c.len() as u128)[..], &c, &ext].concat())
            }
            6 => (Entry::TxPlain { genesis: None }, with([&call[..], &ext].concat())),
            7 => {
                let body = [&[4u8][..], &call].concat();
                (Entry::Unchecked, with([&enc_compact(body.len() as u128)[..], &body].concat()))
            }
            8 => {
                data2 = vec![1, 2];
                (Entry::Storage { entry: key }, with(good_key))
            }
            9 => {
                data2 = vec![1, 2];
                (Entry::Storage { entry: ident }, with([&[7u8; 32][..], &[7, 1]].concat()))
            }
            10 => {
                data2 = with(vec![1, 2]);
                (Entry::Storage { entry: key }, good_key)
            }
            _ => {
                data2 = with(vec![1, 2]);
                (Entry::Storage { entry: plain }, vec![7; 32])
            }
        };
        ctx.note(|| format!("{n} left over, reader {kind}, filling {fill}"));
        Case { e, types, data: &data, data2: &data2, m }.check(&mut ctx.stats, &o, "left over").map(|_| ())
    })
}

/// Cards for all networks.
pub fn networks(name: &str, level: usize) -> Scenario {
    let mut g = small_base();
    g.insert(700, ty(&["sp_core", "ed25519", "Public"], &[], comp(vec![fld(None, None, BYTES32)])));
    g.insert(701, ty(&["sp_core", "sr25519", "Public"], &[], comp(vec![fld(None, None, BYTES32)])));
    g.insert(702, ty(&["sp_core", "ecdsa", "Public"], &[], comp(vec![fld(None, None, 703)])));
    g.insert(703, ty(&[], &[], arr(33, U8)));
    g.insert(ROOT, ty(&[], &[], tup(&[ACC, 700, 701, 702])));
    g.insert(ROOT + 2, ty(&["p", "Call"], &["pallet docs"], vars(vec![vard("send", 0, vec![fldd(Some("value"), Some("T::Balance"), U128, &["how much"]), fld(Some("nonce"), None, U32), fld(Some("to"), None, ACC), fld(Some("list"), None, ROOT + 3), fld(Some("text"), None, VECU8)], &["call docs"])])));
    g.insert(ROOT + 1, ty(&["rt", "RuntimeCall"], &[], vars(vec![var("Balances", 0, vec![fld(None, None, ROOT + 2)])])));
    g.insert(ROOT + 3, ty(&["m", "List"], &["list docs"], seq(U16)));
    const INDENTS: [u32; 19] = [0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 60, 127, 128, 255, 256];
    Scenario::new(name, format!("accounts and keys of {} contents under {} address prefixes 0..=65535; a call with balance, nonce, account, list and text: units of {} texts x 24 numbers of decimals, chain names, indents {INDENTS:?}; all 256 numbers of decimals x 9 values", [1, 3][level], ["1700 (0..=700, 16300..16500, about powers of two, multiples of 97) of the", "all"][level], ODD.len()), move |ctx| {
        let types = frozen(&g);
        let m = Meta::plain(Reg::Fixed(types.clone()));
        let part = ctx.choose(4);
        ctx.note(|| format!("part {part}"));
        let shown = |st: &mut Stats, id: u32, d: &[u8]| -> Result<Real, Viol> {
            let mut none = Opts::new(FULL, Errs::Any);
            none.cards = false;
            match (Case { e: Entry::All { id }, types: types.clone(), data: d, data2: &[], m: m.clone() }).check(st, &none, "for cards")? {
                Some((_, r)) if r.o.is_ok() => Ok(r),
                _ => viol!("HARNESS: not decoded"),
            }
        };
        let keys = |k: u8| -> Vec<u8> { (0..129usize).map(|i| match k { 0 => 0, 1 => 0xff, _ => (i * 29 + 3) as u8 }).collect() };
        let a_call = |v: u128| -> Vec<u8> { [&[0u8, 0][..], &v.to_le_bytes(), &[9, 0, 0, 0], &[0x21; 32], &[8, 1, 0, 2, 0], &[12, b'a', b'b', b'c']].concat() };
        match part {
            0 => {
                let block = ctx.choose(64) as u16;
                let k = ctx.choose([1usize, 3][level]);
                let st = &mut ctx.stats;
                let r = shown(st, ROOT, &keys(2 - k as u8))?;
                for p in block * 1024..=block * 1024 + 1023 {
                    // pictures are slow to make
                    if level == 0 && p > 700 && p % 97 != 0 && (p & p.wrapping_add(1)) != 0 && !p.is_power_of_two() && !(16_300..16_500).contains(&p) {
                        continue;
                    }
                    check_cards_for(st, &r, &Specs { prefix: p, decimals: 3, unit: "X", chain: "c" }, 0, false)?;
                }
            }
            1 => {
                let unit = *ctx.pick(&ODD);
                let st = &mut ctx.stats;
                for v in [0u128, 1, 999, 1_500_000_000_000, u128::MAX] {
                    let r = shown(st, ROOT + 1, &a_call(v))?;
                    for decimals in (0..=18).chain([24, 38, 39, 100, 255]) {
                        check_cards_for(st, &r, &Specs { prefix: 42, decimals, unit, chain: unit }, 0, false)?;
                    }
                }
            }
            2 => {
                let indent = INDENTS[ctx.choose(INDENTS.len())];
                let st = &mut ctx.stats;
                let r = shown(st, ROOT + 1, &a_call(12_345_678))?;
                {
                    for chain in ["", "westend", "a b"] {
                        check_cards_for(st, &r, &Specs { prefix: 0, decimals: 6, unit: "U", chain }, indent, false)?;
                        check_cards_for(st, &r, &Specs { prefix: 0, decimals: 6, unit: "U", chain }, indent, true)?;
                    }
                }
            }
            _ => {
                let v = *ctx.pick(&[0u128, 1, 10, 1000, 123_456, 1_000_000, 10u128.pow(18), 10u128.pow(30) + 7, u128::MAX]);
                let st = &mut ctx.stats;
                {
                    let r = shown(st, ROOT + 1, &a_call(v))?;
                    for decimals in 0..=255 {
                        check_cards_for(st, &r, &Specs { prefix: 5, decimals, unit: "KSM", chain: "kusama" }, 2, false)?;
                    }
                }
            }
        }
        Ok(())
    })
}

/// Structs, tuples and enum variants with many members, each in turn cut or changed.
pub fn many_members(name: &str, most: usize, far: usize, o: Opts) -> Scenario {
    let ns = counts(most, far);
    let base = small_base();
    Scenario::new(name, format!("structs, tuples, variants and call arguments of 0..={most} and, about powers of two, up to {far} members of mixed types, with and without names and docs; whole, cut at 6 places, followed by more"), move |ctx| {
        let n = ns[ctx.choose(ns.len())];
        let shape = ctx.choose(6);
        const IDS: [u32; 5] = [U8, U16, STR, BOOL, U32];
        let id = |i: usize| IDS[i % 5];
        let mut d = Vec::new();
        let names: Vec<String> = (0..n).map(|i| format!("f{i}")).collect();
        for i in 0..n {
            d.extend(match id(i) { U8 => vec![i as u8], U16 => vec![i as u8, 3], STR => vec![4, b'a' + (i % 26) as u8], BOOL => vec![(i % 3 == 0) as u8], _ => vec![i as u8, 0, (i >> 8) as u8, 1] });
        }
        let mut g = base.clone();
        let f = |named: bool, docs: bool| -> Vec<Fl> { (0..n).map(|i| fldd(named.then(|| names[i].as_str()), if i % 7 == 3 { Some("Balance") } else { None }, id(i), if docs && i % 2 == 0 { &["d"] } else { &[] })).collect() };
        let head: &[u8] = match shape {
            3 | 4 => &[2],
            5 => &[1, 2],
            _ => &[],
        };
        g.insert(ROOT, match shape {
            0 => ty(&["S"], &["s"], comp(f(true, true))),
            1 => ty(&[], &[], comp(f(false, true))),
            2 => ty(&[], &[], tup(&(0..n).map(id).collect::<Vec<_>>())),
            3 => ty(&["E"], &[], vars(vec![var("A", 0, vec![]), vard("B", 2, f(true, false), &["b"])])),
            4 => ty(&["E"], &[], vars(vec![vard("B", 2, f(false, true), &[]), var("A", 0, vec![])])),
            _ => ty(&["rt", "RuntimeCall"], &[], vars(vec![var("Staking", 1, vec![fld(None, None, ROOT + 1)])])),
        });
        g.insert(ROOT + 1, ty(&["p", "Call"], &["p"], vars(vec![vard("c", 2, f(true, true), &["c"])])));
        let types = frozen(&g);
        let m = Meta::plain(Reg::Fixed(types.clone()));
        ctx.note(|| format!("{n} members in shape {shape}"));
        let d = [head, &d].concat();
        let st = &mut ctx.stats;
        let mut run = |d: &[u8]| -> Res { Case { e: Entry::All { id: ROOT }, types: types.clone(), data: d, data2: &[], m: m.clone() }.check(st, &o, "many members").map(|_| ()) };
        run(&d)?;
        if o.slim() {
            return Ok(());
        }
        run(&[&d[..], &[0]].concat())?;
        for cut in [0, 1, d.len() / 3, d.len() / 2, d.len().saturating_sub(2), d.len().saturating_sub(1)] {
            if cut < d.len() {
                run(&d[..cut])?;
            }
        }
        Ok(())
    })
}

/// Texts and lists of bytes of many lengths that are, or are not quite, valid text.
pub fn long_texts(name: &str, most: usize, far: usize, o: Opts) -> Scenario {
    const KINDS: [&str; 9] = ["ASCII", "two-byte characters", "three-byte characters", "four-byte characters", "ASCII, last byte not text", "ASCII, first byte not text", "ASCII, middle byte not text", "cut in the last character", "quotes, backslashes, zeros and line ends"];
    let ns = counts(most, far);
    let g = base().fixed;
    Scenario::new(name, format!("text, list of bytes, list of bytes in a described struct or in one of name spec_name, list of lists of bytes; {KINDS:?}; 0..={most} characters and, about powers of two, up to {far}; whole, one byte less"), move |ctx| {
        let kind = ctx.choose(KINDS.len());
        let n = ns[ctx.choose(ns.len())];
        let place = ctx.choose(5);
        let mut g = g.clone();
        let mut text: Vec<u8> = Vec::with_capacity(4 * n);
        for i in 0..n {
            let last = i + 1 == n;
            match kind {
                1 => text.extend("é".as_bytes()),
                2 => text.extend("€".as_bytes()),
                3 => text.extend("🦀".as_bytes()),
                4 if last => text.push(0xff),
                5 if i == 0 => text.push(0xc0),
                6 if i == n / 2 => text.push(0x80),
                7 if last => text.extend(&"🦀".as_bytes()[..3]),
                8 => text.push(b"\"\\\0\n\r\t'{"[i % 8]),
                _ => text.push(b'a' + (i % 26) as u8),
            }
        }
        let mut data = enc_compact(text.len() as u128);
        data.extend(text);
        let id = if place == 0 { STR } else { VECU8 };
        match place {
            2 => drop(g.insert(ROOT, ty(&["Described"], &[], comp(vec![fld(None, None, id)])))),
            3 => drop(g.insert(ROOT, ty(&["Described"], &[], comp(vec![fld(Some("spec_name"), None, id)])))),
            4 => {
                g.insert(ROOT, ty(&[], &[], seq(id)));
                data.splice(0..0, [4]);
            }
            _ => {}
        }
        run_fixed(ctx, Gen { fixed: g, ..base() }, Entry::All { id: if place < 2 { id } else { ROOT } }, data, &o, &[0, 1])
    })
}
