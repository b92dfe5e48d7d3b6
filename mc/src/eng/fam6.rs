//! Long histories of look-alikes, large values on display, long rings of types, large calls, texts across borders.
use super::drive::*;
use super::env::*;
use super::explore::*;
use super::fam::*;
use super::fam3::*;
use super::fam5::*;
use super::refcards::Specs;
use super::refdec::*;
use super::tyb::*;
use alloc::format;
use alloc::string::{String, ToString};
use alloc::vec;
use alloc::vec::Vec;

/// The same type id means another type in the next parse.
pub fn colliding(name: &str, o: Opts) -> Scenario {
    // ids 700.. are redefined from parse to parse
    fn inner(k: usize, path: &[&str]) -> T {
        match k {
            0..=14 => {
                let mut t = prim(prims()[k].1.clone());
                t.path = pathv(strs(path));
                t
            }
            15 => ty(&["bitvec", "order", "Lsb0"], &[], comp(vec![])),
            16 => ty(&["bitvec", "order", "Msb0"], &[], comp(vec![])),
            17 => ty(&["primitive_types", "H256"], &[], comp(vec![fld(None, None, BYTES32)])),
            18 => ty(&["sp_core", "crypto", "AccountId32"], &[], comp(vec![fld(None, None, BYTES32)])),
            19 => ty(&["sp_runtime", "generic", "era", "Era"], &[], vars(vec![])),
            20 => ty(path, &[], comp(vec![])),
            21 => ty(path, &[], comp(vec![fld(Some("nonce"), None, U8)])),
            22 => ty(path, &["docs"], comp(vec![fld(None, Some("Balance"), U16)])),
            23 => ty(path, &[], comp(vec![fld(Some("l"), None, U8), fld(Some("r"), None, U8)])),
            24 => ty(path, &[], vars(vec![var("A", 0, vec![]), var("B", 4, vec![fld(None, None, U8)])])),
            25 => ty(path, &["other docs"], vars(vec![var("C", 4, vec![]), var("D", 1, vec![fld(None, None, U8)])])),
            26 => ty(path, &[], seq(U8)),
            27 => ty(path, &[], arr(2, U8)),
            28 => ty(path, &[], tup(&[U8, U16])),
            29 => ty(path, &[], compact(U32)),
            30 => ty(path, &[], comp(vec![fld(None, None, ARR64)])),
            31 => ty(&["rt", "Call"], &[], vars(vec![vard("x", 4, vec![], &["x"])])),
            _ => ty(path, &[], comp(vec![fld(None, None, 700)])),
        }
    }
    const INNER: usize = 33;
    fn root(k: usize) -> T {
        match k {
            0 => ty(&[], &[], comp(vec![fld(None, None, 700)])),
            1 => ty(&[], &[], tup(&[700, 700])),
            2 => ty(&[], &[], seq(700)),
            3 => ty(&[], &[], arr(2, 700)),
            4 => ty(&[], &[], compact(700)),
            5 => ty(&["Option"], &[], vars(vec![var("None", 0, vec![]), var("Some", 1, vec![fld(None, None, 700)]), var("More", 4, vec![fld(None, None, 700)])])),
            6 => ty(&[], &[], bitseq(700, LSB)),
            7 => ty(&[], &[], bitseq(U8, 700)),
            8 => ty(&["rt", "RuntimeCall"], &[], vars(vec![var("P", 4, vec![fld(None, None, 700)])])),
            9 => ty(&["sp_runtime", "MultiSignature"], &[], vars(vec![var("Ed25519", 4, vec![fld(None, Some("ed25519::Signature"), 700)])])),
            _ => ty(&[], &[], seq(701)),
        }
    }
    const ROOTS: usize = 11;
    Scenario::new(name, format!("{ROOTS} containers x every ordered pair of {INNER} types under the same id, with the same path or without one: the first, the second and the first again are decoded from the same bytes"), move |ctx| {
        let r = ctx.choose(ROOTS);
        let path: &[&str] = *ctx.pick(&[&[][..], &["some", "Thing"][..]]);
        let (a, b) = (ctx.choose(INNER), ctx.choose(INNER));
        let reg = |k: usize| {
            let mut g = base();
            g.add(ROOT, root(r));
            g.add(700, inner(k, path));
            g.add(701, ty(path, &[], comp(vec![fld(None, None, 700)])));
            frozen(&g.fixed)
        };
        let (ra, rb) = (reg(a), reg(b));
        ctx.note(|| format!("root {r}, {a} then {b} then {a}, path {path:?}"));
        for d in [[4u8; 140], [1; 140]] {
            for t in [&ra, &rb, &ra] {
                let c = Case { e: Entry::Type { id: ROOT, start: 0 }, types: t.clone(), data: &d, data2: &[], m: Meta::plain(Reg::Fixed(t.clone())) };
                c.check(&mut ctx.stats, &o, "look-alike registries")?;
            }
        }
        Ok(())
    })
}

/// One value shown for one chain and then for another.
pub fn shown_twice(name: &str, decimals: &'static [u8]) -> Scenario {
    let g = g_wide().fixed;
    Scenario::new(name, format!("4 values (balance, tip, account, nested transaction) x every ordered pair of chains out of {} decimals x 3 units x 4 address prefixes (one changed at a time, or all), each shown for the first, the second and the first chain", decimals.len()), move |ctx| {
        let types = frozen(&g);
        let mut m = runtime_meta(&types);
        m.exts = vec![("ChargeTransactionPayment".into(), U128, UNIT), ("CheckSpecVersion".into(), UNIT, U32), ("CheckGenesis".into(), UNIT, H256)];
        let k = ctx.choose(4);
        let amount = 1_234_567_890_123_450_000u128.to_le_bytes();
        let (e, data) = match k {
            0 => (Entry::Type { id: W_BAL, start: 0 }, amount.to_vec()),
            1 => (Entry::Type { id: ACC, start: 0 }, (1..=32u8).collect()),
            2 => (Entry::TxPlain { genesis: None }, [&[0u8, 2, 9, 0xfd, 0x04][..], &amount, &[0; 36]].concat()),
            _ => (Entry::Tx { genesis: None }, [&[20u8, 3, 2, 9, 0xfd, 0x04][..], &amount, &[0; 36]].concat()),
        };
        const UNITS: [&str; 3] = ["WND", "mUnit", ""];
        const PREFIXES: [u16; 4] = [42, 0, 63, 16000];
        let spec = |d: usize, u: usize, p: usize| Specs { prefix: PREFIXES[p], decimals: decimals[d], unit: UNITS[u], chain: "chain" };
        let a = (ctx.choose(decimals.len()), ctx.choose(3), ctx.choose(4));
        let b = match ctx.choose(4) {
            0 => (ctx.choose(decimals.len()), a.1, a.2),
            1 => (a.0, ctx.choose(3), a.2),
            2 => (a.0, a.1, ctx.choose(4)),
            _ => ((a.0 + 1) % decimals.len(), (a.1 + 1) % 3, (a.2 + 1) % 4),
        };
        let c = Case { e, types: types.clone(), data: &data, data2: &[], m };
        let mut mem = Mem::new();
        let r = match c.real(&mut mem) {
            Ok(r) => r,
            Err(p) => viol!("panic: {p}\n in {}", c.describe()),
        };
        if r.o.is_err() {
            viol!("HARNESS: refused {:?} in {}", r.o, c.describe());
        }
        ctx.note(|| format!("value {k}, chains {a:?} {b:?}"));
        let st = &mut ctx.stats;
        account(st, &mem, &r);
        for s in [a, b, a] {
            check_cards_for(st, &r, &spec(s.0, s.1, s.2), 0, false)?;
        }
        Ok(())
    })
}

/// Values of many parts and of many levels on display.
pub fn big(name: &str, level: usize, o: Opts) -> Scenario {
    let g = g_wide().fixed;
    let ns: Vec<usize> = match level {
        0 => vec![64, 256, 257, 300],
        1 => vec![64, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 300, 1000, 1001],
        _ => (60..=300).chain([511, 512, 513, 999, 1000, 1001, 2049, 4097, 10_001, 65_537]).collect(),
    };
    let list_ns: Vec<usize> = match level {
        0 => vec![255, 256, 257, 1025, 2049],
        1 => vec![63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000],
        _ => vec![63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8193, 16_383, 16_384, 16_385, 32_769, 65_535, 65_536, 65_537, 100_000],
    };
    Scenario::new(name, format!("6 containers (tuple, struct, named struct, variant, call, event) with {ns:?} parts of 3 kinds; sequences of {list_ns:?} elements of {} kinds (accounts up to 257, parts without content up to 700)", ELS.len()), move |ctx| {
        let mut fixed = g.clone();
        let mut data = Vec::new();
        let (e, what);
        if ctx.flag() {
            let shape = ctx.choose(6);
            let el = ELS[[1, 0, 7][ctx.choose(3)]];
            let n = ns[ctx.choose(ns.len())];
            let names: Vec<String> = (0..n).map(|i| format!("f{i}")).collect();
            let f = |named: bool| -> Vec<Fl> { (0..n).map(|i| fld(if named { Some(&names[i]) } else { None }, None, el.id)).collect() };
            let t = match shape {
                0 => ty(&[], &[], tup(&vec![el.id; n])),
                1 => ty(&["w", "S"], &[], comp(f(false))),
                2 => ty(&["w", "S"], &[], comp(f(true))),
                3 => {
                    data.push(3);
                    ty(&["w", "E"], &[], vars(vec![var("V", 3, f(false))]))
                }
                4 | 5 => {
                    data.extend([3, 3]);
                    let (outer, inner) = if shape == 4 { ("RuntimeCall", "Call") } else { ("RuntimeEvent", "Event") };
                    fixed.insert(ROOT + 1, ty(&["p", inner], &[], vars(vec![var("v", 3, f(shape == 4))])));
                    ty(&["rt", outer], &[], vars(vec![var("P", 3, vec![fld(None, None, ROOT + 1)])]))
                }
                _ => unreachable!(),
            };
            fixed.insert(ROOT, t);
            data.extend((0..n).flat_map(|k| (el.enc)(k)));
            e = Entry::Type { id: ROOT, start: 0 };
            what = format!("{n} of {} in shape {shape}", el.name);
        } else {
            let el = ELS[ctx.choose(ELS.len())];
            // accounts are slow to draw; parts without content are declared without limit
            let most = if el.id == ACC { 257 } else if (el.enc)(1).is_empty() { 700 } else { usize::MAX };
            let fit = list_ns.iter().filter(|n| **n <= most).count();
            let n = list_ns[ctx.choose(fit)];
            fixed.insert(ROOT, ty(&["w", "List"], &["list docs"], seq(el.id)));
            data.extend(enc_compact(n as u128));
            data.extend((0..n).flat_map(|k| (el.enc)(k)));
            e = Entry::Type { id: ROOT, start: 0 };
            what = format!("list of {n} {}", el.name);
        }
        ctx.note(|| what.clone());
        let types = frozen(&fixed);
        let c = Case { e, types: types.clone(), data: &data, data2: &[], m: Meta::plain(Reg::Fixed(types)) };
        if let Some((Err(e), _)) = c.check(&mut ctx.stats, &o, &what)? {
            viol!("HARNESS: refused {e:?} {what}");
        }
        Ok(())
    })
}

/// Calls and events of pallets with all kinds of names, one in the other.
pub fn pallets(name: &str, o: Opts) -> Scenario {
    const P: [&str; 16] = ["Balances", "Staking", "balances", "Balance", "BalancesExt", "XBalances", "Staking2", "NominationStaking", "StakingX", "", "Balances ", " Staking", "BALANCES", "Assets", "Stak", "Balances::Staking"];
    Scenario::new(name, format!("calls and events of {} x {} pallets nested in each other (directly, in a list, in a struct; events in calls and calls in events), with balances before, inside and behind", P.len(), P.len()), move |ctx| {
        let mut g = base();
        let (pa, pb) = (*ctx.pick(&P), *ctx.pick(&P));
        let outer_event = ctx.flag();
        let inner_event = ctx.flag();
        let via = ctx.choose(3);
        let kind = |ev: bool| if ev { ("RuntimeEvent", "Event") } else { ("RuntimeCall", "Call") };
        let (oa, ia) = kind(outer_event);
        let (ob, ib) = kind(inner_event);
        g.add(800, ty(&["rt", ob], &[], vars(vec![var(pb, 4, vec![fld(None, None, 801)])])));
        g.add(801, ty(&["pallet", ib], &[], vars(vec![var("inner", 4, vec![fld(Some("balance"), None, U128), fld(None, Some("Balance"), W_PLAIN)])])));
        g.add(W_PLAIN, ty(&["S"], &[], comp(vec![fld(Some("x"), Some("T::Balance"), U16), fld(Some("y"), None, U8)])));
        let mid = match via {
            0 => 800,
            1 => {
                g.add(802, ty(&[], &[], seq(800)));
                802
            }
            _ => {
                g.add(802, ty(&["W"], &[], comp(vec![fld(Some("value"), Some("Balance"), U32), fld(Some("call"), None, 800)])));
                802
            }
        };
        g.add(803, ty(&["outer", ia], &[], vars(vec![var("outer", 4, vec![fld(Some("before"), Some("BalanceOf<T>"), U32), fld(Some("inside"), None, mid), fld(Some("behind"), Some("Balance"), U64)])])));
        g.add(ROOT, ty(&["rt", oa], &[], vars(vec![var(pa, 4, vec![fld(None, None, 803)])])));
        let types = frozen(&g.fixed);
        ctx.note(|| format!("{oa} of {pa:?} with {ob} of {pb:?} via {via}"));
        let c = Case { e: Entry::Type { id: ROOT, start: 0 }, types: types.clone(), data: &[4; 60], data2: &[], m: Meta::plain(Reg::Fixed(types.clone())) };
        if let Some((Err(e), _)) = c.check(&mut ctx.stats, &o, "pallets")? {
            viol!("HARNESS: refused {e:?}");
        }
        if !outer_event {
            let mut m = Meta::plain(Reg::Fixed(types.clone()));
            m.call_ty = ROOT;
            let c = Case { e: Entry::Call { start: 0 }, types: types.clone(), data: &[4; 60], data2: &[], m };
            c.check(&mut ctx.stats, &o, "pallets")?;
        }
        Ok(())
    })
}
const W_PLAIN: u32 = 804;

/// Transactions whose extensions look the same as their neighbours.
pub fn equal_exts(name: &str, o: Opts) -> Scenario {
    let g = g_wide().fixed;
    Scenario::new(name, format!("1..=4 extensions of {} kinds with equal or with different values, included or additional, before and behind an equal call argument; prefixed and unprefixed", ELS.len()), move |ctx| {
        let types = frozen(&g);
        let el = ELS[ctx.choose(ELS.len())];
        let n = 1 + ctx.choose(4);
        let differ = ctx.flag();
        let add = ctx.flag();
        let mut m = runtime_meta(&types);
        m.exts.clear();
        let (mut inc, mut extra) = (Vec::new(), Vec::new());
        for i in 0..n {
            let b = (el.enc)(if differ { i } else { 1 });
            let both = add && i > 0;
            m.exts.push((["Ext", "ExtB"][(i == 2) as usize].to_string(), el.id, if both { el.id } else { UNIT }));
            inc.extend(&b);
            if both {
                extra.extend(&b);
            }
        }
        m.exts.push(("CheckSpecVersion".into(), UNIT, U32));
        m.exts.push(("CheckGenesis".into(), UNIT, H256));
        extra.extend([0; 36]);
        let call = vec![0u8, 1, 8, 5, 6];
        let plain = [&call[..], &inc, &extra].concat();
        ctx.note(|| format!("{n} of {} differ {differ} additional {add}", el.name));
        let st = &mut ctx.stats;
        let c = Case { e: Entry::TxPlain { genesis: None }, types: types.clone(), data: &plain, data2: &[], m: m.clone() };
        c.check(st, &o, "equal extensions")?;
        let d = [&[20u8][..], &plain].concat();
        let c = Case { e: Entry::Tx { genesis: None }, types: types.clone(), data: &d, data2: &[], m: m.clone() };
        c.check(st, &o, "equal extensions")?;
        Ok(())
    })
}

/// Calls of every size around the borders of the length prefix, whole, shorter and longer.
pub fn large_calls(name: &str, level: usize, o: Opts) -> Scenario {
    let fixed = g_runtime().fixed;
    let mut ns: Vec<usize> = (56..=66).chain(16_378..=16_388).chain(65_527..=65_540).collect();
    if level > 1 {
        ns.extend([255, 256, 257, 4_096, 32_767, 32_768, 100_000, 131_072, 1 << 20, (1 << 20) + 1]);
    }
    Scenario::new(name, format!("calls of {} lengths (around 2^6, 2^14, 2^16{}) with a byte vector in front and equal or changing bytes; prefix right, longer and shorter by 1, 64, 2^14, 2^16, in all wider forms; a byte added or lacking", ns.len(), if level > 1 { ", up to 2^20" } else { "" }), move |ctx| {
        let types = frozen(&fixed);
        let n = ns[ctx.choose(ns.len())];
        let m = runtime_meta(&types);
        // the call has n bytes in all
        let inner = (0..4).map(|k| n - 2 - [1, 2, 4, 5][k]).find(|i| enc_compact(*i as u128).len() + i + 2 == n);
        let Some(inner) = inner else { return Ok(()) };
        let mut call = vec![0u8, 1];
        call.extend(enc_compact(inner as u128));
        call.extend((0..inner).map(|i| if ctx_even(n) { (i * 7 + i / 256) as u8 } else { 0 }));
        let ext = &ext_samples()[0];
        let p = ctx.choose(14);
        let declared = match p {
            0 => n as i64,
            1..=8 => n as i64 + [1, -1, 64, -64, 1 << 14, -(1 << 14), 1 << 16, -(1 << 16)][p - 1],
            _ => n as i64,
        };
        if declared < 0 {
            return Ok(());
        }
        let prefix = match p {
            9 => [&[3u8][..], &(n as u32).to_le_bytes()].concat(),
            10 => ((n as u32) << 2 | 2).to_le_bytes().to_vec(),
            11 => [&[7u8][..], &(n as u64).to_le_bytes()[..5]].concat(),
            12 => [&[7u8][..], &(n as u32).to_le_bytes(), &[1]].concat(),
            13 => [&[19u8][..], &(n as u64).to_le_bytes()].concat(),
            _ => enc_compact(declared as u128),
        };
        let tail = ctx.choose(3);
        let mut plain = [&call[..], ext].concat();
        match tail {
            1 => plain.push(0),
            2 => {
                plain.pop();
            }
            _ => {}
        }
        let d = [&prefix[..], &plain].concat();
        ctx.note(|| format!("call of {n}, prefix {}, tail {tail}", hex::encode(&prefix)));
        let st = &mut ctx.stats;
        let tx = Case { e: Entry::Tx { genesis: None }, types: types.clone(), data: &d, data2: &[], m: m.clone() };
        let one = tx.check(st, &o, "large call")?;
        marked(st, &tx, &o, one.as_ref().map(|x| &x.1))?;
        let un = Case { e: Entry::TxPlain { genesis: None }, types: types.clone(), data: &plain, data2: &[], m };
        un.check(st, &o, "large call without prefix")?;
        Ok(())
    })
}
fn ctx_even(n: usize) -> bool {
    n % 2 == 0
}

/// Texts whose characters lie across every place near a border.
pub fn border_texts(name: &str, level: usize, o: Opts) -> Scenario {
    let g = g_wide().fixed;
    let borders: &[usize] = [&[64usize, 256, 1024, 4096][..], &[16, 32, 64, 100, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 16_384, 65_536][..]][(level > 1) as usize];
    Scenario::new(name, format!("texts with one character of 2, 3 or 4 bytes starting 0..=4 bytes before {borders:?}, the rest ASCII or characters of 2, 3, 4 bytes; correct, with that character cut, overlong or surrogate"), move |ctx| {
        let b = *ctx.pick(borders);
        let back = ctx.choose(5);
        let ch: &[u8] = *ctx.pick(&[&[0xc3u8, 0xa9][..], &[0xe2, 0x82, 0xac][..], &[0xf0, 0x9f, 0x98, 0x80][..]]);
        let fill: &[u8] = *ctx.pick(&[&[0x61u8][..], &[0xc3, 0xa9][..], &[0xe2, 0x82, 0xac][..], &[0xf0, 0x9f, 0x98, 0x80][..]]);
        let fault = ctx.choose(4);
        let mut body = Vec::new();
        // ASCII up to a whole number of filling characters
        let before = b - back;
        body.extend(vec![0x62u8; before % fill.len()]);
        while body.len() < before {
            body.extend(fill);
        }
        match fault {
            0 => body.extend(ch),
            1 => body.extend(&ch[..ch.len() - 1]),
            2 => body.extend([0xc0, 0x80]),
            _ => body.extend([0xed, 0xa0, 0x80]),
        }
        while body.len() < b + 40 {
            body.extend(fill);
        }
        let types = frozen(&g);
        let d = [&enc_compact(body.len() as u128)[..], &body].concat();
        ctx.note(|| format!("border {b} back {back} fault {fault} char {} fill {}", hex::encode(ch), hex::encode(fill)));
        let c = Case { e: Entry::All { id: STR }, types: types.clone(), data: &d, data2: &[], m: Meta::plain(Reg::Fixed(types.clone())) };
        c.check(&mut ctx.stats, &o, "text across a border")?;
        Ok(())
    })
}

/// Rings of types: a tail of some types, then a cycle of some types.
pub fn rings(name: &str, max: usize, o: Opts) -> Scenario {
    let mut periods: Vec<usize> = (1..=12.min(max)).chain([15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 300].into_iter().filter(|x| *x > 12 && *x <= max)).collect();
    periods.dedup();
    Scenario::new(name, format!("a tail of 0, 1, 2, 64 types, then a ring of {periods:?} types, all of one of 9 kinds (one-field struct, named, two-field struct, one-tuple, array of 0, 1, 2, sequence, compact) or of two kinds alternating; and the ring closed by an option"), move |ctx| {
        let tail = *ctx.pick(&[0usize, 1, 2, 64]);
        let n = periods[ctx.choose(periods.len())];
        let (ka, kb) = (ctx.choose(9), ctx.choose(9));
        let open = ctx.flag();
        let mut g = base();
        for i in 0..tail + n {
            let next = if i + 1 == tail + n { ROOT + tail as u32 } else { ROOT + i as u32 + 1 };
            let k = if i + 1 == tail + n && open { 9 } else if i % 2 == 0 { ka } else { kb };
            let t = match k {
                0 => ty(&[], &[], comp(vec![fld(None, None, next)])),
                1 => ty(&["n", "Named"], &["docs"], comp(vec![fld(Some("nonce"), Some("Index"), next)])),
                2 => ty(&[], &[], comp(vec![fld(Some("a"), None, UNIT), fld(Some("b"), None, next)])),
                3 => ty(&[], &[], tup(&[next])),
                4 => ty(&[], &[], arr(0, next)),
                5 => ty(&[], &[], arr(1, next)),
                6 => ty(&[], &[], arr(2, next)),
                7 => ty(&[], &[], seq(next)),
                8 => ty(&[], &[], compact(next)),
                _ => ty(&["Option"], &[], vars(vec![var("None", 0, vec![]), var("Some", 4, vec![fld(None, None, next)])])),
            };
            g.add(ROOT + i as u32, t);
        }
        // two elements each double the work on every level
        if (ka == 6 || kb == 6) && n + tail > 12 {
            return Ok(());
        }
        let types = frozen(&g.fixed);
        ctx.note(|| format!("tail {tail} ring {n} kinds {ka} {kb} open {open}"));
        for d in [&[4u8, 4, 4, 0, 0, 0][..], &[0; 6], &[]] {
            let c = Case { e: Entry::Type { id: ROOT, start: 0 }, types: types.clone(), data: d, data2: &[], m: Meta::plain(Reg::Fixed(types.clone())) };
            c.check(&mut ctx.stats, &o, "ring")?;
        }
        Ok(())
    })
}

// ---- names that are almost the recognised ones ----

/// The string itself (0) and strings close to it.
pub const TWISTS: usize = 22;
pub fn twist(s: &str, k: usize) -> String {
    let cap = |f: fn(char) -> char| -> String {
        let mut c = s.chars();
        c.next().map(f).into_iter().chain(c).collect()
    };
    match k {
        0 => s.to_string(),
        1 => s.to_lowercase(),
        2 => s.to_uppercase(),
        3 => cap(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }),
        4 => format!("{s}x"),
        5 => format!("x{s}"),
        6 => s[..s.len().saturating_sub(1)].to_string(),
        7 => s[s.len().min(1)..].to_string(),
        8 => format!("{s} "),
        9 => format!(" {s}"),
        10 => format!("{s}s"),
        11 => format!("{s}<T>"),
        12 => s.replace("<T>", "<T, I>"),
        13 => s.replace(", ", ","),
        14 => format!("T::{s}"),
        15 => format!("{s}::{s}"),
        16 => s.replace('_', ""),
        17 => s.replace("<T", "<U"),
        18 => format!("{s}{s}"),
        19 => s.split("::").last().unwrap_or("").to_string(),
        20 => format!("sp_core::{s}"),
        _ => format!("{s}\u{301}"),
    }
}
const FIELD_NAMES: [&str; 7] = ["nonce", "spec_version", "spec_name", "tx_version", "transaction_version", "tip", "specVersion"];
const FIELD_TYPES: [&str; 14] = ["Balance", "T::Balance", "BalanceOf<T>", "BalanceOf<T, I>", "DepositBalance", "ExtendedBalance", "PalletBalanceOf<T>", "Nonce", "Index", "Tip", "GenesisHash", "<T as Config>::Balance", "BalanceOf<T, Instance1>", "Compact<Balance>"];
const IDENTIFIERS: [&str; 12] = ["CheckSpecVersion", "CheckTxVersion", "CheckGenesis", "CheckMortality", "CheckNonce", "ChargeAssetTxPayment", "ChargeTransactionPayment", "CheckEra", "CheckNonZeroSender", "CheckWeight", "CheckMetadataHash", "StorageWeightReclaim"];

/// Field names, field types, paths and extension names close to the recognised ones.
pub fn near_names(name: &str, o: Opts) -> Scenario {
    const LEAVES: [u32; 9] = [U8, U32, U64, U128, STR, H256, C_U128, W_BAL, W_PAIR];
    let g = g_wide().fixed;
    Scenario::new(
        name,
        format!(
            "{} field names, {} field types, {} extension identifiers (as identifier, last and first element of a path), each in {TWISTS} spellings (exact, other case, added, dropped and doubled letters, blanks, generics, namespaces) on {} values, inside one more struct, tuple, sequence, enum or compact, or directly",
            FIELD_NAMES.len(),
            FIELD_TYPES.len(),
            IDENTIFIERS.len(),
            LEAVES.len()
        ),
        move |ctx| {
            let mut fixed = g.clone();
            let place = ctx.choose(6);
            let k = ctx.choose(TWISTS);
            let list: &[&str] = match place {
                0 => &FIELD_NAMES,
                1 => &FIELD_TYPES,
                _ => &IDENTIFIERS,
            };
            let s = twist(ctx.pick(list), k);
            let leaf = *ctx.pick(&LEAVES);
            let (mut p, mut n, mut t, mut id): (Vec<&str>, Option<&str>, Option<&str>, &str) = (vec![], None, None, "Other");
            match place {
                0 => n = Some(&s),
                1 => t = Some(&s),
                2 => p = vec![&s],
                3 => p = vec!["frame_system", &s],
                4 => p = vec![&s, "Inner"],
                _ => id = &s,
            }
            fixed.insert(ROOT + 1, if place == 5 { ty(&[], &[], comp(vec![fld(None, None, leaf)])) } else { ty(&p, &[], comp(vec![fld(n, t, leaf)])) });
            let around = ctx.choose(7);
            let inner = ROOT + 1;
            let root = match around {
                0 => ty(&["Direct"], &[], comp(vec![fld(None, None, inner)])),
                1 => ty(&["S"], &[], comp(vec![fld(Some("a"), None, inner), fld(Some("b"), None, inner)])),
                2 => ty(&[], &[], tup(&[inner, U8])),
                3 => ty(&[], &[], seq(inner)),
                4 => ty(&["E"], &[], vars(vec![var("V", 4, vec![fld(None, None, inner)])])),
                5 => ty(&[], &[], compact(inner)),
                _ => ty(&["T"], &[], tup(&[inner])),
            };
            fixed.insert(ROOT, root);
            ctx.note(|| format!("{s:?} in place {place} on {leaf}, around {around}"));
            let types = frozen(&fixed);
            let mut m = Meta::plain(Reg::Fixed(types.clone()));
            let d = [4u8; 140];
            let st = &mut ctx.stats;
            if place != 5 {
                let c = Case { e: Entry::Type { id: ROOT, start: 0 }, types: types.clone(), data: &d, data2: &[], m: m.clone() };
                c.check(st, &o, "name")?;
                return Ok(());
            }
            m.version = "67372036".into();
            m.exts = vec![("CheckSpecVersion".into(), UNIT, U32), (id.into(), ROOT, UNIT), ("CheckGenesis".into(), UNIT, H256)];
            // as long as the extensions need
            let c = Case { e: Entry::Ext { start: 0, genesis: None }, types: types.clone(), data: &d, data2: &[], m: m.clone() };
            if let Err(Bad::UnusedExt(n)) = c.reference() {
                let c = Case { e: Entry::Ext { start: 0, genesis: None }, types: types.clone(), data: &d[..n], data2: &[], m };
                c.check(st, &o, "identifier")?;
            } else {
                c.check(st, &o, "identifier")?;
            }
            Ok(())
        },
    )
}

/// Paths close to those of the well-known types, and signature names close to the recognised ones.
pub fn near_paths(name: &str, o: Opts) -> Scenario {
    use super::fam2::*;
    let mut g = base();
    add_sig_types(&mut g);
    let g = g.fixed;
    const SIGS: [&str; 6] = ["ed25519::Signature", "sr25519::Signature", "ecdsa::Signature", "Signature", "ed25519", "sp_core::ed25519::Signature"];
    Scenario::new(
        name,
        format!("{} paths, their last or first element in {TWISTS} spellings, an element added in front, behind, doubled or left out, on 7 kinds of bodies, direct, in a sequence, in a struct; {} signature names in {TWISTS} spellings on 5 types", RIGHT.len(), SIGS.len()),
        move |ctx| {
            let mut fixed = g.clone();
            let id;
            if ctx.flag() {
                let mut p: Vec<String> = strs(ctx.pick(&RIGHT));
                let n = p.len();
                let k = ctx.choose(2 * TWISTS + 6);
                match k {
                    k if k < TWISTS => p[n - 1] = twist(&p[n - 1], k),
                    k if k < 2 * TWISTS => p[0] = twist(&p[0], k - TWISTS),
                    k => match k - 2 * TWISTS {
                        0 => p.insert(0, "more".into()),
                        1 => p.push("More".into()),
                        2 => p.insert(n - 1, p[n - 1].clone()),
                        3 => {
                            p.remove(0);
                        }
                        4 => {
                            p.pop();
                        }
                        _ => p.reverse(),
                    },
                }
                let p: Vec<&str> = p.iter().map(|x| x.as_str()).collect();
                let body = ctx.choose(7);
                ctx.note(|| format!("path {p:?} body {body}"));
                let t = match body {
                    0 => ty(&p, &[], comp(vec![fld(None, Some("[u8; 5]"), ARR5)])),
                    1 => ty(&p, &["docs"], arr(3, U8)),
                    2 => ty(&p, &[], TypeDef::Primitive(Pr::U16)),
                    3 => ty(&p, &[], vars(vec![var("A", 0, vec![]), var("B", 1, vec![fld(None, Some("ed25519::Signature"), ARR64)])])),
                    4 => ty(&p, &[], comp(vec![fld(Some("x"), None, U8), fld(Some("y"), None, U16)])),
                    5 => ty(&p, &[], tup(&[U8])),
                    _ => ty(&p, &[], seq(U8)),
                };
                fixed.insert(ROOT, t);
                fixed.insert(ROOT + 1, ty(&[], &[], seq(ROOT)));
                fixed.insert(ROOT + 2, ty(&["S"], &[], comp(vec![fld(Some("a"), None, ROOT), fld(Some("b"), None, U8)])));
                fixed.insert(ROOT + 3, ty(&[], &[], compact(ROOT)));
                id = ROOT + ctx.choose(4) as u32;
            } else {
                let k = ctx.choose(TWISTS);
                let s = twist(ctx.pick(&SIGS), k);
                let t = *ctx.pick(&[ARR64, ARR65, COMP_ARR64, COMP2_ARR65, U8]);
                let alone = ctx.flag();
                ctx.note(|| format!("signature {s:?} of {t} alone {alone}"));
                let mut v = vec![var("Ed25519", 0, vec![fld(None, Some("ed25519::Signature"), ARR64)]), var("Sr25519", 1, vec![fld(None, Some("sr25519::Signature"), ARR64)])];
                if alone {
                    v.clear();
                }
                v.push(var("Sig", 4, vec![fld(None, Some(&s), t)]));
                fixed.insert(ROOT, ty(&["sp_runtime", "MultiSignature"], &[], vars(v)));
                id = ROOT;
            }
            let types = frozen(&fixed);
            for b in [[4u8; 140], [1; 140]] {
                let c = Case { e: Entry::Type { id, start: 0 }, types: types.clone(), data: &b, data2: &[], m: Meta::plain(Reg::Fixed(types.clone())) };
                c.check(&mut ctx.stats, &o, "path")?;
            }
            Ok(())
        },
    )
}

/// Calls and events whose paths are close to the recognised ones, on both levels.
pub fn near_items(name: &str, o: Opts) -> Scenario {
    const ITEMS: [&str; 4] = ["RuntimeCall", "Call", "RuntimeEvent", "Event"];
    Scenario::new(name, format!("4 x 4 item names on the two levels, one of them in {TWISTS} spellings or at another place of its path; decoded as a value and as a call"), move |ctx| {
        let (a, b) = (*ctx.pick(&ITEMS), *ctx.pick(&ITEMS));
        let k = ctx.choose(TWISTS + 2);
        let first = ctx.flag();
        let t = |s: &str, on: bool| -> Vec<String> {
            match (on, k) {
                (true, k) if k < TWISTS => vec!["x".to_string(), twist(s, k)],
                (true, k) if k == TWISTS => vec![s.to_string(), "Inner".to_string()],
                (true, _) => vec!["x".to_string(), "pallet".to_string(), s.to_string(), s.to_string()],
                _ => vec!["x".to_string(), s.to_string()],
            }
        };
        let (pa, pb) = (t(a, first), t(b, !first));
        let mut g = base();
        let mut outer = ty(&[], &["outer"], vars(vec![var("P", 4, vec![fld(None, None, ROOT + 1)])]));
        outer.path = pathv(pa.clone());
        let mut inner = ty(&[], &["inner"], vars(vec![vard("v", 4, vec![fld(Some("x"), None, U16)], &["v docs"])]));
        inner.path = pathv(pb.clone());
        g.add(ROOT, outer);
        g.add(ROOT + 1, inner);
        let types = frozen(&g.fixed);
        ctx.note(|| format!("{pa:?} {pb:?}"));
        let mut m = Meta::plain(Reg::Fixed(types.clone()));
        m.call_ty = ROOT;
        for e in [Entry::Type { id: ROOT, start: 0 }, Entry::Call { start: 0 }] {
            let c = Case { e, types: types.clone(), data: &[4, 4, 5, 6], data2: &[], m: m.clone() };
            c.check(&mut ctx.stats, &o, "item")?;
        }
        Ok(())
    })
}

/// Address, signature, extra and call of every combination of kinds.
pub fn unchecked_parts(name: &str, level: usize, o: Opts) -> Scenario {
    let g = g_wide().fixed;
    let kinds: &[usize] = [&[0usize, 1, 2, 4, 8, 10, 6][..], &[0, 1, 2, 3, 4, 6, 7, 8, 10, 16, 17, 18, 31, 30, 34, 5][..]][(level > 1) as usize];
    Scenario::new(name, format!("address, signature and extra of {} kinds each (parts without content among them), 3 calls, signed and unsigned; exact, one byte less, one byte changed at every place", kinds.len()), move |ctx| {
        let types = frozen(&g);
        let p: Vec<El> = (0..3).map(|_| ELS[kinds[ctx.choose(kinds.len())]]).collect();
        let call: &[u8] = *ctx.pick(&[&[0u8, 0][..], &[0, 1, 8, 5, 6], &[3, 3, 4, 0, 2, 7, 8]]);
        let signed = ctx.flag();
        let mut m = runtime_meta(&types);
        m.params = [p[0].id, RT, p[1].id, p[2].id];
        let mut body = vec![if signed { 0x84 } else { 4 }];
        if signed {
            for (i, el) in p.iter().enumerate() {
                body.extend((el.enc)(3 * i + 1));
            }
        }
        body.extend(call);
        let d = [&enc_compact(body.len() as u128)[..], &body].concat();
        ctx.note(|| format!("{:?} {}", p.iter().map(|e| e.name).collect::<Vec<_>>(), hex::encode(&d)));
        let st = &mut ctx.stats;
        let mut run = |d: &[u8]| -> Res {
            let c = Case { e: Entry::Unchecked, types: types.clone(), data: d, data2: &[], m: m.clone() };
            c.check(st, &o, "extrinsic of parts")?;
            Ok(())
        };
        run(&d)?;
        let cut = [&enc_compact(body.len() as u128 - 1)[..], &body[..body.len() - 1]].concat();
        run(&cut)?;
        for i in 0..d.len().min(if level > 1 { 80 } else { 24 }) {
            let mut e = d.clone();
            e[i] ^= if i % 2 == 0 { 1 } else { 0x80 };
            run(&e)?;
        }
        Ok(())
    })
}

/// Compacts around structs and tuples of several parts, with and without content.
pub fn compact_fields(name: &str, level: usize, o: Opts) -> Scenario {
    let g = g_wide().fixed;
    const KINDS: [u32; 6] = [U8, UNIT, W_EMPTY, U128, PERBILL, ROOT + 1];
    const T: [Option<&str>; 5] = [None, Some("PhantomData<T>"), Some("u8"), Some("Balance"), Some("()")];
    let most = 2 + level;
    Scenario::new(name, format!("a compact around a struct or tuple of 0..={most} parts of {} kinds (some without content), {} type names, named or not; once more inside a struct of one part, a sequence, a compact", KINDS.len(), T.len()), move |ctx| {
        let mut fixed = g.clone();
        let n = ctx.choose(most + 1);
        let tuple = ctx.flag();
        let named = !tuple && ctx.flag();
        let tn = if tuple { None } else { *ctx.pick(&T) };
        let ids: Vec<u32> = (0..n).map(|_| *ctx.pick(&KINDS)).collect();
        fixed.insert(ROOT + 1, ty(&["core", "marker", "PhantomData"], &[], comp(vec![])));
        fixed.insert(ROOT + 2, if tuple { ty(&[], &[], tup(&ids)) } else { ty(&["S"], &[], comp(ids.iter().enumerate().map(|(i, t)| fld(named.then_some(["a", "b", "c", "d", "e", "f"][i]), tn, *t)).collect())) });
        fixed.insert(ROOT + 3, ty(&[], &[], compact(ROOT + 2)));
        fixed.insert(ROOT + 4, ty(&[], &[], comp(vec![fld(None, None, ROOT + 3)])));
        fixed.insert(ROOT + 5, ty(&[], &[], seq(ROOT + 3)));
        fixed.insert(ROOT + 6, ty(&[], &[], compact(ROOT + 4)));
        let types = frozen(&fixed);
        ctx.note(|| format!("parts {ids:?} tuple {tuple} named {named} type name {tn:?}"));
        for id in 3..7 {
            for d in [&[4u8, 4, 4, 4][..], &[]] {
                let c = Case { e: Entry::Type { id: ROOT + id, start: 0 }, types: types.clone(), data: d, data2: &[], m: Meta::plain(Reg::Fixed(types.clone())) };
                c.check(&mut ctx.stats, &o, "compact of parts")?;
            }
        }
        Ok(())
    })
}

/// Wrappers that carry the same or different paths and docs, one in another.
pub fn equal_infos(name: &str, level: usize, o: Opts) -> Scenario {
    const I: [(&[&str], &[&str]); 5] = [(&[], &[]), (&["p", "Q"], &["docs"]), (&["p", "Q"], &[]), (&[], &["docs"]), (&["p", "R"], &["docs", "more"])];
    let deep = 3 + level;
    Scenario::new(name, format!("chains of 1..={deep} wrappers (struct, named struct, tuple, compact, sequence, array, enum), each with one of 5 paths and docs, equal ones next to each other among them"), move |ctx| {
        let n = 1 + ctx.choose(deep);
        let mut g = base();
        for i in 0..n {
            let k = ctx.choose(7);
            // beyond three, wrappers repeat the first path and docs
            let (p, d) = if i < 3 { *ctx.pick(&I) } else { I[1] };
            let next = ROOT + i as u32 + 1;
            let def = match k {
                0 => comp(vec![fld(None, None, next)]),
                1 => comp(vec![fldd(Some("f"), Some("F"), next, &["docs"])]),
                2 => tup(&[next]),
                3 => compact(next),
                4 => seq(next),
                5 => arr(1, next),
                _ => vars(vec![vard("V", 4, vec![fldd(None, None, next, &["docs"])], &["docs"])]),
            };
            g.add(ROOT + i as u32, ty(p, d, def));
        }
        let (p, d) = I[[1, 0][ctx.choose(2)]];
        g.add(ROOT + n as u32, ty(p, d, TypeDef::Primitive(Pr::U8)));
        let types = frozen(&g.fixed);
        ctx.note(|| types_text(&types));
        let c = Case { e: Entry::Type { id: ROOT, start: 0 }, types: types.clone(), data: &[4; 12], data2: &[], m: Meta::plain(Reg::Fixed(types.clone())) };
        c.check(&mut ctx.stats, &o, "equal docs")?;
        Ok(())
    })
}
