//! Values of one kind inside everything, extrinsics of every length, plain keys of every length, texts of the metadata, many pallets.
use super::drive::*;
use super::env::*;
use super::explore::*;
use super::fam::*;
use super::fam3::*;
use super::fam4::*;
use super::fam9::*;
use super::refdec::*;
use super::tyb::*;
use alloc::collections::BTreeMap;
use alloc::format;
use alloc::rc::Rc;
use alloc::string::{String, ToString};
use alloc::vec;
use alloc::vec::Vec;
use frame_metadata::v14::StorageEntryType;

pub struct Kind {
    name: String,
    id: u32,
    encs: Vec<Vec<u8>>,
}
fn kinds_base() -> BTreeMap<u32, T> {
    let mut g = small_base();
    for (k, t) in &compact_types().map {
        g.insert(*k, (**t).clone());
    }
    for (i, s) in [U8, U16, U32, U64].into_iter().enumerate() {
        for (j, o) in [LSB, MSB].into_iter().enumerate() {
            g.insert(650 + (2 * i + j) as u32, ty(&[], &[], bitseq(s, o)));
        }
    }
    g
}
pub fn eras() -> Vec<Kind> {
    let e: &[&[u8]] = &[&[0], &[0x15, 0], &[0xb5, 1], &[0x1f, 0xff], &[1, 0], &[0x0f, 0], &[0x11, 0], &[0x20, 0xff], &[0xff, 0xff], &[0x10, 0]];
    vec![Kind { name: "Era".into(), id: ERA, encs: e.iter().map(|x| x.to_vec()).collect() }]
}
pub fn compacts() -> Vec<Kind> {
    let mut f: Vec<Vec<u8>> = [0u128, 63, 64, 100, 255, 256, 16_383, 16_384, 65_535, 65_536, (1 << 30) - 1, 1 << 30, 999_999_999, u32::MAX as u128, 1 << 32, u64::MAX as u128, 1 << 64, u128::MAX].iter().map(|n| enc_compact(*n)).collect();
    let odd: &[&[u8]] = &[&[1, 0], &[2, 0, 0, 0], &[3, 1, 0, 0, 0], &[3, 0xff, 0xff, 0xff, 0x3f], &[7, 1, 0, 0, 0x40, 0], &[0x33, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], &[0x37, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17]];
    f.extend(odd.iter().map(|x| x.to_vec()));
    let ids = [(600, "u8"), (601, "u16"), (602, "u32"), (603, "u64"), (604, "u128"), (610, "Perbill"), (611, "Percent"), (612, "PerU16"), (613, "Permill"), (614, "Perquintill")];
    let mut v: Vec<Kind> = ids.iter().map(|(id, n)| Kind { name: format!("Compact<{n}>"), id: *id, encs: f.clone() }).collect();
    // lengths
    let lens: Vec<Vec<u8>> = [0usize, 1, 5, 63, 64, 65].iter().map(|n| [enc_compact(*n as u128), (0..*n).map(|i| b'a' + (i % 26) as u8).collect()].concat()).collect();
    let odd: &[&[u8]] = &[&[1, 0], &[5, 0, b'x'], &[2, 0, 0, 0], &[6, 0, 0, 0, b'x'], &[3, 1, 0, 0, 0, b'x'], &[0xff, 0xff, 0xff, 0xff, 0xff], &[7, 1, 0, 0, 0, 0, b'x']];
    let mut all = lens;
    all.extend(odd.iter().map(|x| x.to_vec()));
    for (id, n) in [(STR, "str"), (VECU8, "Vec<u8>"), (634, "Vec<bool>"), (631, "Vec<()>")] {
        let mut e = all.clone();
        if id == 634 {
            e.iter_mut().for_each(|x| x.iter_mut().skip(1).for_each(|b| *b = if *b >= b'a' { *b & 1 } else { *b }));
        }
        v.push(Kind { name: n.to_string(), id, encs: e });
    }
    v
}
pub fn bit_lists() -> Vec<Kind> {
    let mut v = Vec::new();
    for i in 0..8u32 {
        let w = 1usize << (i / 2);
        let encs = [0usize, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 130].iter().map(|n| [enc_compact(*n as u128), (0..n.div_ceil(8 * w) * w).map(|k| (k * 37 + 0x93) as u8).collect()].concat()).collect();
        v.push(Kind { name: format!("bits in {}-byte elements, order {}", w, i % 2), id: 650 + i, encs });
    }
    v
}
pub fn finals() -> Vec<Kind> {
    // values whose end may be mistaken
    let k = |name: &str, id: u32, encs: &[&[u8]]| Kind { name: name.into(), id, encs: encs.iter().map(|x| x.to_vec()).collect() };
    vec![
        k("bool", BOOL, &[&[0], &[1], &[2], &[0x80], &[0xff]]),
        k("char", CHAR, &[&[0x41, 0, 0, 0], &[0, 0xd8, 0, 0], &[0xff, 0xdf, 0, 0], &[0, 0xe0, 0, 0], &[0xff, 0xff, 0x10, 0], &[0, 0, 0x11, 0], &[0, 0, 0, 1]]),
        k("str", STR, &[&[0], &[4, b'a'], &[8, 0xc3, 0xa9], &[4, 0xc3], &[8, 0xc3, 0x28], &[12, 0xe2, 0x82, 0xac], &[12, 0xed, 0xa0, 0x80], &[16, 0xf0, 0x9f, 0x98, 0x80], &[8, 0xc0, 0x80], &[4, 0]]),
        k("u16", U16, &[&[1, 2], &[0xff, 0xff]]),
        k("i64", I64, &[&[1, 2, 3, 4, 5, 6, 7, 0x88], &[0xff; 8]]),
        k("u256", U256, &[&[7; 32], &[0xff; 32]]),
        k("H256", H256, &[&[7; 32], &[0; 32]]),
    ]
}

/// Values of one kind, right and wrong ones, in everything that holds values.
pub fn inside(name: &str, kinds: fn() -> Vec<Kind>, second: usize, o: Opts) -> Scenario {
    let base = kinds_base();
    let names: Vec<String> = kinds().into_iter().map(|k| k.name).collect();
    Scenario::new(name, format!("{names:?}: right and wrong encodings alone, inside each of {} wrappers and each pair of one with the first {second}; every cut, one byte more, behind 0, 1, 2, 3, 7 other bytes, in 6 places of a transaction, storage or extrinsic", WRAPS.len()), move |ctx| {
        let all = kinds();
        let kind = &all[ctx.choose(all.len())];
        let mut n = kind.encs.len();
        n += (n % 3 == 0) as usize;
        let encs = Rc::new(kind.encs.clone());
        let mut g = base.clone();
        let mut enc: Enc = {
            let encs = encs.clone();
            Rc::new(move |k| encs[(k % n).min(encs.len() - 1)].clone())
        };
        let mut id = kind.id;
        let w1 = ctx.choose(WRAPS.len() + 1);
        let mut rounds = 1;
        if w1 < WRAPS.len() {
            enc = wrap(w1, id, 2002, &mut g, enc);
            id = 2002;
            rounds = 3;
            let w2 = ctx.choose(second + 1);
            if w2 < second {
                enc = wrap(w2, id, ROOT, &mut g, enc);
                id = ROOT;
            }
            ctx.note(|| format!("{} in {} in {}", kind.name, WRAPS[w1], if w2 < second { WRAPS[w2] } else { "nothing" }));
        } else {
            ctx.note(|| format!("{} alone", kind.name));
        }
        let types = frozen(&g);
        let m = Meta::plain(Reg::Fixed(types.clone()));
        let st = &mut ctx.stats;
        for k in 0..rounds * n {
            let x = enc(k);
            for start in [0usize, 1, 2, 3, 7] {
                let mut d = vec![0x5au8; start];
                d.extend(&x);
                let lens = if o.slim() { x.len()..x.len() + 1 } else if start < 3 { 0..x.len() + 1 } else { x.len().saturating_sub(2)..x.len() + 1 };
                for l in lens {
                    Case { e: Entry::Type { id, start }, types: types.clone(), data: &d[..start + l], data2: &[], m: m.clone() }.check(st, &o, "inside")?;
                }
                d.push(1);
                Case { e: Entry::Type { id, start }, types: types.clone(), data: &d, data2: &[], m: m.clone() }.check(st, &o, "inside, more behind")?;
            }
            placed(st, &types, id, &x, Place::Blob, 0, &o, &kind.name)?;
            if id != ROOT {
                for p in PLACES {
                    let w = match p {
                        Place::Included | Place::Additional => 8,
                        Place::Key => 7,
                        Place::Signer => 3,
                        _ => 1,
                    };
                    for w in 0..w {
                        placed(st, &types, id, &x, p, w, &o, &kind.name)?;
                    }
                }
            }
        }
        Ok(())
    })
}

/// Unchecked extrinsics of every length about the modes of the length prefix.
pub fn large_unchecked(name: &str, level: usize, o: Opts) -> Scenario {
    let fixed = super::fam5::g_wide().fixed;
    let mut ns: Vec<usize> = (5..=[70usize, 300, 1100][level]).chain(16_378..=16_390).chain(65_530..=65_541).collect();
    ns.extend([126, 127, 128, 254, 255, 256, 257, 258, 511, 512, 1023, 1024, 1025, 4_095, 4_096, 4_097, 8_192, 10_000, 32_767, 32_768, 32_769]);
    if level > 0 {
        ns.extend([100_000, 131_071, 131_072, 131_073, 1 << 20, (1 << 20) + 1]);
    }
    ns.sort_unstable();
    ns.dedup();
    Scenario::new(name, format!("signed and unsigned extrinsics of {} lengths (every one up to {}, around powers of two up to {}), a byte vector in address, signature, extra or call taking the rest; length prefix right, off by 1, 64, 2^8, 2^14, 2^16, in all wider forms; bytes added or lacking", ns.len(), [70, 300, 1100][level], ns[ns.len() - 1]), move |ctx| {
        let types = frozen(&fixed);
        let n = ns[ctx.choose(ns.len())];
        let at = ctx.choose(4);
        let mut m = runtime_meta(&types);
        m.params = [U8, RT, U16, U8];
        let (head, tail): (Vec<u8>, Vec<u8>) = match at {
            0 => (vec![4, 0, 1], vec![]),
            1 => {
                m.params[0] = VECU8;
                (vec![0x84], vec![1, 2, 3, 0, 0])
            }
            2 => {
                m.params[2] = VECU8;
                (vec![0x84, 9], vec![3, 0, 0])
            }
            _ => {
                m.params[3] = VECU8;
                (vec![0x84, 9, 1, 2], vec![0, 0])
            }
        };
        let around = head.len() + tail.len();
        let Some(inner) = [1usize, 2, 4].iter().filter_map(|k| (n.checked_sub(around + k)).filter(|i| enc_compact(*i as u128).len() == *k)).next() else { return Ok(()) };
        let body = [&head[..], &enc_compact(inner as u128), &(0..inner).map(|i| (i * 7 + i / 256 + 1) as u8).collect::<Vec<_>>(), &tail].concat();
        if body.len() != n {
            viol!("HARNESS: extrinsic of {} instead of {n}", body.len());
        }
        ctx.note(|| format!("extrinsic of {n}, vector at {at}"));
        let st = &mut ctx.stats;
        let mut run = |pre: &[u8], b: &[u8]| -> Res {
            let d = [pre, b].concat();
            Case { e: Entry::Unchecked, types: types.clone(), data: &d, data2: &[], m: m.clone() }.check(st, &o, "extrinsic of a given length").map(|_| ())
        };
        let right = enc_compact(n as u128);
        run(&right, &body)?;
        if o.slim() {
            return Ok(());
        }
        for off in [1i64, -1, 2, -2, 64, -64, 1 << 8, -(1 << 8), 1 << 14, -(1 << 14), 1 << 16, -(1 << 16), 1 << 30] {
            let l = n as i64 + off;
            if l >= 0 {
                run(&enc_compact(l as u128), &body)?;
            }
        }
        for l in [n as u64 + (1 << 32), (n as u64) << 8, (n as u64) << 32] {
            run(&enc_compact(l as u128), &body)?;
        }
        if n < 1 << 14 {
            run(&((n as u16) << 2 | 1).to_le_bytes(), &body)?;
        }
        run(&((n as u32) << 2 | 2).to_le_bytes(), &body)?;
        run(&[&[3u8][..], &(n as u32).to_le_bytes()].concat(), &body)?;
        run(&[&[7u8][..], &(n as u64).to_le_bytes()[..5]].concat(), &body)?;
        run(&[&[19u8][..], &(n as u64).to_le_bytes()].concat(), &body)?;
        for more in [1usize, 2, 64, 256] {
            let longer = [&body[..], &vec![0; more]].concat();
            run(&right, &longer)?;
            run(&enc_compact((n + more) as u128), &longer)?;
            if n > more {
                run(&right, &body[..n - more])?;
                run(&enc_compact((n - more) as u128), &body[..n - more])?;
            }
        }
        Ok(())
    })
}

/// Keys of every length where no part is expected, and values of every length.
pub fn plain_keys(name: &str, level: usize, o: Opts) -> Scenario {
    let base = small_base();
    let mut lens: Vec<usize> = (0..=[300usize, 1_100, 5_000][level]).collect();
    for k in 9..[14u32, 17, 19][level] {
        lens.extend([(1 << k) - 1, 1usize << k, (1 << k) + 1, (1 << k) + 32]);
    }
    lens.sort_unstable();
    lens.dedup();
    Scenario::new(name, format!("plain entries, entries without hashers, and entries with one hasher over types without content, keys of {} lengths up to {}, three fillings, 3 values; values of the same lengths", lens.len(), lens[lens.len() - 1]), move |ctx| {
        let n = lens[ctx.choose(lens.len())];
        let shape = ctx.choose(10);
        let mut g = base.clone();
        g.insert(ROOT, ty(&[], &[], tup(&[])));
        let types = frozen(&g);
        let m = Meta::plain(Reg::Fixed(types.clone()));
        let e = map_entry(match shape {
            0 => StorageEntryType::Plain(sym(VECU8)),
            1 => StorageEntryType::Map { hashers: vec![], key: sym(ROOT), value: sym(VECU8) },
            2 => StorageEntryType::Map { hashers: vec![], key: sym(U8), value: sym(VECU8) },
            k => StorageEntryType::Map { hashers: vec![HASHERS[k - 3].clone()], key: sym(UNIT), value: sym(VECU8) },
        });
        ctx.note(|| format!("shape {shape}, key of {n}"));
        let st = &mut ctx.stats;
        let mut run = |k: &[u8], v: &[u8]| -> Res { Case { e: Entry::Storage { entry: e.clone() }, types: types.clone(), data: k, data2: v, m: m.clone() }.check(st, &o, "key of a given length").map(|_| ()) };
        let good = if shape < 3 { vec![] } else { hash_part(&HASHERS[shape - 3], &[]) };
        let prefix = vec![0x3cu8; 32];
        for fill in 0..3 {
            let mut k: Vec<u8> = match fill {
                0 => (0..n).map(|i| (i * 5 + 1) as u8).collect(),
                1 => vec![0; n],
                // the right key again and again
                _ => [&prefix[..], &good].concat().into_iter().cycle().take(n).collect(),
            };
            run(&k, &[0])?;
            if fill == 2 {
                run(&k, &[4, 9])?;
                run(&k, &[4])?;
                k = [&prefix[..], &good].concat();
                let v: Vec<u8> = [enc_compact(n as u128), vec![7; n]].concat();
                run(&k, &v)?;
                run(&k, &v[..v.len() - 1])?;
                run(&k, &[&v[..], &[0]].concat())?;
            }
        }
        Ok(())
    })
}

/// Texts and numbers of the metadata themselves.
pub fn meta_texts(name: &str, level: usize) -> Scenario {
    let most = [130usize, 600][level];
    Scenario::new(name, format!("spec names: {} unusual texts, one of each length up to {most}, near 2^6, 2^8, 2^14, 2^16, every single character below 0x300; spec versions of every width: every power of two and its neighbours, in both orders of fields, with other texts and numbers around; V14 and V15", ODD.len()), move |ctx| {
        let mut st = Stats::default();
        let mut types = meta_types();
        let root = types.len() as u32;
        let mut run = |f: &[(Option<&str>, u32)], data: Vec<u8>, types: &mut Vec<T>| -> Res {
            types.truncate(root as usize);
            types.push(ty(&["sp_version", "RuntimeVersion"], &[], comp(f.iter().map(|f| fld(f.0, None, f.1)).collect())));
            let p = [Pal { name: "System", consts: vec![("Version", root, data)] }];
            let e = Ex { ty: 0, version: 4, exts: vec![], declared: [0; 4] };
            check_version(types, &p, &e, &mut st)
        };
        let part = ctx.choose(4 + 4);
        let text = |t: &[u8]| [enc_compact(t.len() as u128), t.to_vec()].concat();
        let r = (|| {
            let mut names: Vec<Vec<u8>> = Vec::new();
            match part {
                0 => names.extend(ODD.iter().map(|t| t.as_bytes().to_vec())),
                1 => {
                    for n in (0..=most).chain([1023, 1024, 1025, 16_383, 16_384, 65_535, 65_536]) {
                        names.push((0..n).map(|i| b'a' + (i % 26) as u8).collect());
                        names.push(vec![b' '; n]);
                    }
                }
                2 => names.extend((0u32..0x300).filter_map(char::from_u32).flat_map(|c| [c.to_string(), format!("{c}x"), format!("x{c}")]).map(|s| s.into_bytes())),
                3 => names.extend([&[0xffu8][..], &[0xc3], &[b'a', 0x80], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[b'a', 0]].iter().map(|x| x.to_vec())),
                k => {
                    let (id, w) = [(MU8, 1usize), (4, 2), (MU32, 4), (5, 8)][k - 4];
                    let mut vs: Vec<u128> = vec![0, 10, 100, 1000, 9_999, 99_999, 1_000_000];
                    for b in 0..128 {
                        vs.extend([1u128 << b, (1u128 << b) - 1, (1u128 << b).wrapping_add(1)]);
                    }
                    for v in vs {
                        if w < 16 && v >> (8 * w) != 0 {
                            continue;
                        }
                        let n = v.to_le_bytes()[..w].to_vec();
                        run(&[(Some("spec_name"), MSTR), (Some("spec_version"), id)], [text(b"n"), n.clone()].concat(), &mut types)?;
                        run(&[(Some("spec_version"), id), (Some("spec_name"), MSTR), (Some("spec_versions"), id)], [n.clone(), text(b"10"), n.clone()].concat(), &mut types)?;
                        run(&[(Some("spec_name"), MSTR), (Some("impl_version"), id), (Some("spec_version"), id), (Some("transaction_version"), id)], [text(b"n"), vec![1; w], n, vec![3; w]].concat(), &mut types)?;
                    }
                }
            }
            for t in names {
                run(&[(Some("spec_name"), MSTR), (Some("spec_version"), MU32)], [text(&t), vec![9, 0, 0, 0]].concat(), &mut types)?;
                run(&[(Some("spec_version"), MU32), (Some("impl_name"), MSTR), (Some("spec_name"), MSTR)], [vec![9, 0, 0, 0], text(b"impl"), text(&t)].concat(), &mut types)?;
                run(&[(Some("spec_name"), MSTR), (Some("impl_name"), MSTR), (Some("spec_version"), MU32)], [text(b"name"), text(&t), vec![9, 0, 0, 0]].concat(), &mut types)?;
            }
            Ok(())
        })();
        ctx.note(|| format!("part {part}"));
        ctx.stats.add(&st);
        r
    })
}

/// Several pallets and items with plain, odd and equal names.
pub fn many_items(name: &str, count: usize, o: Opts) -> Scenario {
    const NAMES: [&str; 7] = ["", "A", "B", " ", "Balances", "balances", "A "];
    Scenario::new(name, format!("calls and events of {count} pallets named out of {NAMES:?} (equal ones too), with indices in 3 orders, sharing or not the item type; 3 items named alike; every pallet and item selected, also as a field"), move |ctx| {
        let names: Vec<&str> = (0..count).map(|_| *ctx.pick(&NAMES)).collect();
        let events = ctx.flag();
        let shared = ctx.flag();
        let order = ctx.choose(3);
        let [inner, outer] = if events { ["Event", "RuntimeEvent"] } else { ["Call", "RuntimeCall"] };
        let index = |i: usize| match order {
            0 => i as u8,
            1 => (count - i) as u8 * 3,
            _ => [200u8, 0, 255, 1][i % 4],
        };
        let mut g = base().fixed;
        let mut ps = Vec::new();
        for (i, n) in names.iter().enumerate() {
            let id = ROOT + 100 + if shared { 0 } else { i as u32 };
            let mut v = Vec::new();
            for j in 0..3usize {
                let k = if shared { 0 } else { i };
                let docs = ["", "item docs", "more"][(j + k) % 3];
                v.push(vard(names[(j + k) % count], index(j), vec![fldd(Some(if j == 0 { "value" } else { "to" }), Some("T::Balance"), U128, &[docs])][..if j == 1 { 0 } else { 1 }].to_vec(), &[docs]));
            }
            g.insert(id, ty(&["p", inner], &[["pallet one", "pallet two", "pallet three"][i % 3]], vars(v)));
            ps.push(vard(n, index(i), vec![fldd(Some("f"), Some("Named"), id, &["field docs"])], &[["first", "", "third"][i % 3]]));
        }
        g.insert(ROOT, ty(&["rt", outer], &["all"], vars(ps)));
        g.insert(ROOT + 1, ty(&["S"], &[], comp(vec![fld(Some("tip"), None, ROOT), fld(Some("b"), Some("Balance"), U8)])));
        g.insert(ROOT + 2, ty(&[], &[], seq(ROOT)));
        let types = frozen(&g);
        let m = Meta::plain(Reg::Fixed(types.clone()));
        ctx.note(|| format!("{names:?} events {events} shared {shared} order {order}"));
        let st = &mut ctx.stats;
        let mut run = |id: u32, d: &[u8]| -> Res {
            if let Some((_, r)) = (Case { e: Entry::All { id }, types: types.clone(), data: d, data2: &[], m: m.clone() }).check(st, &o, "item")? {
                if o.cards {
                    check_cards(st, &r, false)?;
                }
            }
            Ok(())
        };
        let mut list = vec![(count * 3 * 4) as u8];
        for i in 0..count {
            for j in 0..3 {
                let mut d = vec![index(i), index(j)];
                if j != 1 {
                    d.extend((1_000_000_000_000u128 + (i * 3 + j) as u128).to_le_bytes());
                }
                run(ROOT, &d)?;
                run(ROOT, &d[..d.len() - 1])?;
                list.extend(&d);
                d.push(4);
                run(ROOT + 1, &d)?;
                run(ROOT, &d)?;
            }
            run(ROOT, &[index(i), 77])?;
        }
        run(ROOT, &[77, 0])?;
        run(ROOT + 2, &list)
    })
}
