//! Wide containers, nested lists, long lengths, text edges: well-formed values whose parts all differ, then damaged.
use super::drive::*;
use super::env::*;
use super::explore::*;
use super::fam::*;
use super::fam3::*;
use super::refdec::*;
use super::tyb::*;
use alloc::format;
use alloc::rc::Rc;
use alloc::string::{String, ToString};
use alloc::vec;
use alloc::vec::Vec;

/// What a container holds: a type and an encoding of its `k`th value.
#[derive(Clone, Copy)]
pub struct El {
    pub name: &'static str,
    pub id: u32,
    pub enc: fn(usize) -> Vec<u8>,
}
fn le(v: u128, n: usize) -> Vec<u8> {
    v.to_le_bytes()[..n].to_vec()
}
/// A number that differs in every byte and for every `k`.
fn num(k: usize, n: usize) -> Vec<u8> {
    (0..n).map(|i| (k as u8).wrapping_mul(29).wrapping_add((1 + 41 * i) as u8)).collect()
}
fn bytes_of(n: usize, k: usize) -> Vec<u8> {
    let mut v = enc_compact(n as u128);
    v.extend((0..n).map(|i| (k * 7 + i * 3 + 1) as u8));
    v
}
const CHARS: [u32; 5] = [0x61, 0xe9, 0x20ac, 0x1f600, 0x10ffff];
fn text_of(k: usize) -> Vec<u8> {
    let s = ["", "a", "\u{e9}b", "\u{20ac}", "x\u{1f600}y", "tab\tcd"][k % 6];
    let mut v = enc_compact(s.len() as u128);
    v.extend(s.as_bytes());
    v
}
fn mixed_compact(k: usize) -> Vec<u8> {
    enc_compact([k as u128, 64 + k as u128, 16384 + k as u128, (1 << 30) + k as u128][k % 4])
}

pub const W_EMPTY: u32 = 1100;
pub const W_SEQ16: u32 = 1101;
pub const W_COMPACT: u32 = 1102;
pub const W_OPT: u32 = 1103;
pub const W_ENUM: u32 = 1104;
pub const W_NEW: u32 = 1105;
pub const W_PAIR: u32 = 1106;
pub const W_TUP: u32 = 1107;
pub const W_ARR2: u32 = 1108;
pub const W_BITS: u32 = 1109;
pub const W_BAL: u32 = 1110;
pub const W_NONCE: u32 = 1111;
pub const W_SEQSEQ: u32 = 1112;
pub const W_ARR0: u32 = 1113;
pub const W_UNITS: u32 = 1114;
pub const W_FLAT: u32 = 1115;
pub const W_DOC: u32 = 1116;
pub const W_CBAL: u32 = 1117;
pub const W_SEQ8DOC: u32 = 1118;
pub const W_TUP1: u32 = 1119;

pub fn g_wide() -> Gen {
    let mut g = g_runtime();
    g.add(W_EMPTY, ty(&["w", "Phantom"], &[], comp(vec![])));
    g.add(W_SEQ16, ty(&[], &[], seq(U16)));
    g.add(W_COMPACT, ty(&[], &[], compact(U32)));
    g.add(W_OPT, ty(&["Option"], &[], vars(vec![var("None", 0, vec![]), var("Some", 1, vec![fld(None, None, U8)])])));
    g.add(W_ENUM, ty(&["w", "E"], &["enum docs"], vars(vec![vard("A", 9, vec![fldd(Some("p"), None, U8, &["p docs"]), fld(None, None, VECU8)], &["A docs"]), var("B", 0, vec![]), var("C", 3, vec![fld(None, Some("Balance"), U16)])])));
    g.add(W_NEW, ty(&["w", "New"], &["new docs"], comp(vec![fld(None, None, U8)])));
    g.add(W_PAIR, ty(&["w", "Pair"], &[], comp(vec![fld(Some("l"), None, U8), fld(Some("r"), Some("BalanceOf<T>"), U16)])));
    g.add(W_TUP, ty(&[], &[], tup(&[U8, U8])));
    g.add(W_ARR2, ty(&[], &[], arr(2, U8)));
    g.add(W_BITS, ty(&[], &[], bitseq(U8, LSB)));
    g.add(W_BAL, ty(&["w", "Bal"], &[], comp(vec![fld(None, Some("Balance"), U128)])));
    g.add(W_NONCE, ty(&["w", "Non"], &[], comp(vec![fld(Some("nonce"), None, U32)])));
    g.add(W_SEQSEQ, ty(&[], &[], seq(VECU8)));
    g.add(W_ARR0, ty(&[], &[], arr(0, U8)));
    g.add(W_UNITS, ty(&["w", "Units"], &[], comp(vec![fld(Some("a"), None, UNIT), fld(Some("b"), None, W_EMPTY)])));
    g.add(W_FLAT, ty(&["w", "Flat"], &[], vars(vec![var("X", 0, vec![]), var("Y", 1, vec![]), var("Z", 2, vec![])])));
    g.add(W_DOC, ty(&["w", "Documented"], &["one", "two"], TypeDef::Primitive(Pr::U8)));
    g.add(W_CBAL, ty(&["w", "CBal"], &[], comp(vec![fld(None, Some("BalanceOf<T>"), C_U128)])));
    g.add(W_SEQ8DOC, ty(&["w", "Docs"], &["list"], seq(W_DOC)));
    g.add(W_TUP1, ty(&[], &[], tup(&[W_PAIR])));
    g
}
pub const ELS: [El; 40] = [
    El { name: "()", id: UNIT, enc: |_| vec![] },
    El { name: "u8", id: U8, enc: |k| num(k, 1) },
    El { name: "Vec<u8>", id: VECU8, enc: |k| bytes_of((k + 1) % 3, k) },
    El { name: "u16", id: U16, enc: |k| num(k, 2) },
    El { name: "pair struct", id: W_PAIR, enc: |k| num(k, 3) },
    El { name: "balance", id: W_BAL, enc: |k| le(1_000_000_000_000 * (k as u128 + 1) + k as u128, 16) },
    El { name: "Compact<u32>", id: W_COMPACT, enc: mixed_compact },
    El { name: "str", id: STR, enc: text_of },
    El { name: "enum", id: W_ENUM, enc: |k| [vec![9, k as u8, 4, (3 * k) as u8], vec![0], vec![3, k as u8, 2]][k % 3].clone() },
    El { name: "(u8, u8)", id: W_TUP, enc: |k| num(k, 2) },
    El { name: "empty struct", id: W_EMPTY, enc: |_| vec![] },
    El { name: "bool", id: BOOL, enc: |k| vec![(k % 3 == 1) as u8] },
    El { name: "newtype u8", id: W_NEW, enc: |k| num(k, 1) },
    El { name: "nonce", id: W_NONCE, enc: |k| num(k, 4) },
    El { name: "Vec<Vec<u8>>", id: W_SEQSEQ, enc: |k| [vec![0], vec![4, 4, k as u8], vec![8, 0, 8, 1, 2], vec![8, 4, 9, 0]][k % 4].clone() },
    El { name: "call", id: RT, enc: |k| [vec![0, 0], vec![0, 1, 8, k as u8, 3], vec![0, 2, k as u8, 0x15, 1], vec![3, 3, 4, 0, 2, 7, 8]][k % 4].clone() },
    El { name: "AccountId32", id: ACC, enc: |k| num(k, 32) },
    El { name: "Option<u8>", id: W_OPT, enc: |k| if k % 2 == 0 { vec![1, k as u8] } else { vec![0] } },
    El { name: "bits", id: W_BITS, enc: |k| [enc_compact((k % 11) as u128), num(k, (k % 11).div_ceil(8))].concat() },
    El { name: "[u8; 0]", id: W_ARR0, enc: |_| vec![] },
    El { name: "u32", id: U32, enc: |k| num(k, 4) },
    El { name: "u64", id: U64, enc: |k| num(k, 8) },
    El { name: "u128", id: U128, enc: |k| num(k, 16) },
    El { name: "i8", id: I8, enc: |k| num(k, 1) },
    El { name: "i64", id: I64, enc: |k| num(k, 8) },
    El { name: "i128", id: I128, enc: |k| num(k, 16) },
    El { name: "u256", id: U256, enc: |k| num(k, 32) },
    El { name: "i256", id: I256, enc: |k| num(k, 32) },
    El { name: "char", id: CHAR, enc: |k| CHARS[k % 5].to_le_bytes().to_vec() },
    El { name: "Vec<u16>", id: W_SEQ16, enc: |k| [enc_compact((k % 3) as u128), num(k, 2 * (k % 3))].concat() },
    El { name: "H256", id: H256, enc: |k| num(k, 32) },
    El { name: "Era", id: ERA, enc: |k| if k % 2 == 0 { vec![0x15 + 16 * (k % 3) as u8, (k % 4) as u8] } else { vec![0] } },
    El { name: "Perbill", id: PERBILL, enc: |k| le(7_000_001 * (k as u128 % 100), 4) },
    El { name: "[u8; 2]", id: W_ARR2, enc: |k| num(k, 2) },
    El { name: "struct of empties", id: W_UNITS, enc: |_| vec![] },
    El { name: "flat enum", id: W_FLAT, enc: |k| vec![(k % 3) as u8] },
    El { name: "documented u8", id: W_DOC, enc: |k| num(k, 1) },
    El { name: "compact balance", id: W_CBAL, enc: mixed_compact },
    El { name: "documented list", id: W_SEQ8DOC, enc: |k| bytes_of(k % 3, k) },
    El { name: "((pair))", id: W_TUP1, enc: |k| num(k, 3) },
];

const CONTAINERS: [&str; 10] = ["tuple", "struct", "named struct", "array", "sequence", "one of many variants", "variant fields", "call arguments", "event fields", "struct with another in the middle"];

fn widths(level: usize) -> Vec<usize> {
    match level {
        0 => vec![0, 1, 2, 3, 4, 17],
        1 => vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 33],
        2 => vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 20, 31, 32, 33, 63, 64, 65, 100],
        _ => (0..=70).chain([99, 100, 101, 127, 128, 129, 200, 254, 255, 256, 257, 300]).collect(),
    }
}

/// Containers of every kind, width and element; whole, longer, shorter and damaged.
pub fn wide(name: &str, level: usize, o: Opts) -> Scenario {
    let ws = widths(level);
    let kinds = [12, 24, 34, ELS.len()][level.min(3)];
    let g = g_wide().fixed;
    let bound = format!(
        "{} containers ({}) x {kinds} kinds of element ({}) x {} widths {:?}; values differ at every position; exact, at another start, every one-byte extension (256 values up to width 2, 9 else), every cut, every byte changed in 5 ways (both up to 40 bytes, the first and last ones beyond)",
        CONTAINERS.len(),
        CONTAINERS.join(", "),
        ELS[..kinds].iter().map(|e| e.name).collect::<Vec<_>>().join(", "),
        ws.len(),
        ws
    );
    Scenario::new(name, bound, move |ctx| {
        let shape = ctx.choose(CONTAINERS.len());
        let el = ELS[ctx.choose(kinds)];
        let mut n = ws[ctx.choose(ws.len())];
        let mut fixed = g.clone();
        let mut data = Vec::new();
        let all = |n: usize| -> Vec<u8> { (0..n).flat_map(|k| (el.enc)(k)).collect() };
        let names: Vec<String> = (0..n).map(|i| format!("f{i}")).collect();
        // every third field is named or typed as a balance
        let named = |i: usize| fldd(Some(&names[i]), [None, Some("Ty"), Some("T::Balance")][i % 3], el.id, [&[][..], &["field docs"][..]][i % 2]);
        let root = match shape {
            0 => {
                data = all(n);
                ty(&[], &[], tup(&vec![el.id; n]))
            }
            1 => {
                data = all(n);
                ty(&["w", "S"], &["struct docs"], comp((0..n).map(|i| fld(None, [None, Some("Balance")][i % 2], el.id)).collect()))
            }
            2 => {
                data = all(n);
                ty(&["w", "N"], &[], comp((0..n).map(named).collect()))
            }
            3 => {
                data = all(n);
                ty(&[], &["array docs"], arr(n as u32, el.id))
            }
            4 => {
                data.extend(enc_compact(n as u128));
                data.extend(all(n));
                ty(&[], &[], seq(el.id))
            }
            5 => {
                // variant of one index among n, indices out of order
                let n_ = n.min(256);
                let index = |i: usize| (i * 37 + 11) as u8;
                let vs: Vec<Vr> = (0..n_).map(|i| vard(&format!("V{i}"), index(i), if i % 4 == 3 { vec![] } else { vec![fld(None, None, el.id)] }, [&[][..], &["v docs"][..]][i % 2])).collect();
                if n_ > 0 {
                    let i = if n_ <= 40 { ctx.choose(n_) } else { *ctx.pick(&[0, 1, 15, 16, 17, n_ / 2, n_ - 2, n_ - 1]) };
                    data.push(index(i));
                    if i % 4 != 3 {
                        data.extend((el.enc)(i));
                    }
                } else {
                    data.push(0);
                }
                ty(&["w", "Many"], &[], vars(vs))
            }
            6 => {
                data.push(2);
                data.extend(all(n));
                ty(&["w", "One"], &[], vars(vec![var("First", 0, vec![]), var("Second", 2, (0..n).map(named).collect())]))
            }
            7 | 8 => {
                let (p, q) = if shape == 7 { ("RuntimeCall", "Call") } else { ("RuntimeEvent", "Event") };
                data.extend([*ctx.pick(&[7u8, 8]), 1]);
                data.extend(all(n));
                fixed.insert(1200, ty(&["pallet", q], &["pallet docs"], vars(vec![vard("transfer", 1, (0..n).map(named).collect(), &["call docs"])])));
                ty(&["rt", p], &[], vars(vec![var("Balances", 7, vec![fld(None, None, 1200)]), var("Other", 8, vec![fld(None, None, 1200)])]))
            }
            _ => {
                // n fields, one of another kind at some place
                n = n.max(1);
                let other = ELS[*ctx.pick(&[0usize, 1, 2, 6])];
                let at = [0, n / 2, n - 1][ctx.choose(3)];
                let mut f: Vec<Fl> = Vec::new();
                for i in 0..n {
                    let e = if i == at { &other } else { &el };
                    f.push(fld(if i % 2 == 0 { Some("x") } else { None }, None, e.id));
                    data.extend((e.enc)(i));
                }
                ty(&["w", "Mixed"], &[], comp(f))
            }
        };
        fixed.insert(ROOT, root);
        let what = format!("{} of {n} {}", CONTAINERS[shape], el.name);
        ctx.note(|| format!("{what}: {}", hex::encode(&data)));
        damaged(ctx, frozen(&fixed), data, n <= 2, &o, &what)
    })
}

/// The data itself, at another start, one byte longer, every byte shorter, every byte changed.
pub fn damaged(ctx: &mut Ctx, types: Rc<Types>, data: Vec<u8>, every: bool, o: &Opts, what: &str) -> Res {
    let m = Meta::plain(Reg::Fixed(types.clone()));
    let slim = o.slim();
    // which derived input
    let mode = ctx.choose(4);
    let st = &mut ctx.stats;
    let mut run = |e: Entry, d: &[u8]| -> Res {
        let c = Case { e, types: types.clone(), data: d, data2: &[], m: m.clone() };
        c.check(st, o, what)?;
        Ok(())
    };
    let edge = |i: usize, n: usize| n <= 40 || i < 12 || i + 12 > n || i % 16 == 0;
    match mode {
        0 => {
            run(Entry::All { id: ROOT }, &data)?;
            if !slim {
                let mut d = vec![0x5a, 0x04, 0x00];
                d.extend_from_slice(&data);
                run(Entry::Type { id: ROOT, start: 3 }, &d)?;
                d.extend([0, 0xff]);
                run(Entry::Type { id: ROOT, start: 3 }, &d)?;
            }
        }
        1 => {
            let list: Vec<u8> = if slim { vec![0x0a] } else if every { (0..=255).collect() } else { vec![0, 1, 4, 8, 0x0a, 0x20, 0x30, 0x80, 0xff] };
            for b in list {
                let mut d = data.clone();
                d.push(b);
                run(Entry::All { id: ROOT }, &d)?;
            }
            if !slim {
                run(Entry::All { id: ROOT }, &[&data[..], &[0; 4]].concat())?;
                run(Entry::All { id: ROOT }, &[&data[..], &data[..]].concat())?;
            }
        }
        2 => {
            for cut in 0..data.len() {
                if edge(cut, data.len()) && (!slim || cut < 2 || cut + 2 > data.len()) {
                    run(Entry::All { id: ROOT }, &data[..cut])?;
                    if !slim {
                        run(Entry::Type { id: ROOT, start: 0 }, &data[..cut])?;
                    }
                }
            }
        }
        _ => {
            for i in 0..data.len() {
                if edge(i, data.len()) && (!slim || i < 2 || i + 2 > data.len()) {
                    let b = data[i];
                    for v in [b ^ 1, b ^ 0x80, 0xff, 0, 3, b.wrapping_add(4)] {
                        if v != b && (!slim || v == 0xff) {
                            let mut d = data.clone();
                            d[i] = v;
                            run(Entry::All { id: ROOT }, &d)?;
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// Lists of lists: every combination of inner lengths.
pub fn nested_lists(name: &str, level: usize, o: Opts) -> Scenario {
    let g = g_wide().fixed;
    let (outer, inner, kinds) = [(2, 3, 12), (3, 3, 14), (4, 3, 20), (5, 3, 24), (5, 4, ELS.len())][level.min(4)];
    Scenario::new(
        name,
        format!("6 nestings (list, array, tuple, wrapped list, named list, list in a list) of lists of {kinds} kinds of element, every combination of 0..={outer} lists of 0..{inner} elements; exact, longer, cut, changed"),
        move |ctx| {
            let el = ELS[ctx.choose(kinds)];
            let shape = ctx.choose(6);
            let n = ctx.choose(outer + 1);
            let lens: Vec<usize> = (0..n).map(|_| ctx.choose(inner)).collect();
            let mut fixed = g.clone();
            fixed.insert(1300, ty(&[], &["inner docs"], seq(el.id)));
            let mut k = 0;
            let mut one = |l: usize| {
                let mut v = enc_compact(l as u128);
                for _ in 0..l {
                    v.extend((el.enc)(k));
                    k += 1;
                }
                v
            };
            let body: Vec<u8> = lens.iter().flat_map(|l| one(*l)).collect();
            let mut data = if matches!(shape, 0 | 3 | 4 | 5) { enc_compact(n as u128) } else { vec![] };
            data.extend(body);
            let root = match shape {
                0 => ty(&[], &[], seq(1300)),
                1 => ty(&[], &[], arr(n as u32, 1300)),
                2 => ty(&[], &[], tup(&vec![1300; n])),
                3 => {
                    fixed.insert(1301, ty(&["w", "Wrapped"], &["wrap docs"], comp(vec![fld(Some("inner"), Some("Vec<T>"), 1300)])));
                    ty(&["w", "Outer"], &[], seq(1301))
                }
                4 => {
                    fixed.insert(1301, ty(&[], &[], seq(1300)));
                    ty(&["w", "S"], &[], comp(vec![fld(Some("lists"), Some("Balance"), 1301)]))
                }
                _ => {
                    fixed.insert(1301, ty(&[], &[], seq(1300)));
                    // one list of lists twice
                    data = [enc_compact(2), data.clone(), data].concat();
                    ty(&[], &[], seq(1301))
                }
            };
            fixed.insert(ROOT, root);
            let what = format!("nesting {shape} of lists of {} with lengths {lens:?}", el.name);
            ctx.note(|| format!("{what}: {}", hex::encode(&data)));
            damaged(ctx, frozen(&fixed), data, false, &o, &what)
        },
    )
}

fn noise(i: usize) -> u8 {
    let x = (i as u32).wrapping_mul(0x9e37_79b1);
    ((x >> 24) ^ (x >> 13)) as u8
}
/// Lengths around every change of the prefix form and of machine number widths.
pub fn long(name: &str, max: usize, bits_max: usize, o: Opts) -> Scenario {
    const AROUND: [usize; 9] = [63, 127, 255, 1023, 4095, 16383, 32767, 65535, 262_143];
    let g = g_wide().fixed;
    let lens: Vec<usize> = AROUND.iter().flat_map(|n| [*n, n + 1, n + 2]).filter(|n| *n <= max).collect();
    let blens: Vec<usize> = [63, 255, 511, 2047, 4095, 16383, 32767, 65535, 131_071, 524_287, 1_048_575, 2_097_151].iter().flat_map(|n: &usize| [*n, n + 1, n + 2]).filter(|n| *n <= bits_max).collect();
    let lens2 = lens.clone();
    let blens2 = blens.clone();
    Scenario::new(
        name,
        format!("lists, arrays and texts of {lens:?} elements (u8, u16, u64, bool, (), text, list of lists), bit sequences of {blens:?} bits with 8 store/order pairs (full, zero, one half of each element zero); whole, one byte longer, one byte and one element shorter, length prefix one more and less"),
        move |ctx| {
            let kind = ctx.choose(13 + 8);
            let mut fixed = g.clone();
            let mut data = Vec::new();
            let mut body: Vec<u8>;
            let n;
            let w;
            let what;
            if kind < 13 {
                n = lens2[ctx.choose(lens2.len())];
                let (id, width, is_arr) = [(U8, 1, false), (U16, 2, false), (U64, 8, false), (BOOL, 1, false), (U8, 1, true), (U16, 2, true), (STR, 1, false), (VECU8, 1, false), (I8, 1, false), (W_TUP, 2, false), (VECU8, 1, true), (U128, 16, false), (U32, 4, true)][kind];
                w = width;
                body = if id == VECU8 { (0..n).flat_map(|k| if k % 7 == 3 { vec![4, noise(k)] } else { vec![0] }).collect() } else { (0..n * w).map(noise).collect() };
                if id == BOOL {
                    body.iter_mut().for_each(|b| *b &= 1);
                }
                if kind == 6 {
                    body.iter_mut().for_each(|b| *b = b' ' + *b % 90);
                }
                if !is_arr {
                    data = enc_compact(n as u128);
                }
                let t = if kind == 6 { prim(Pr::Str) } else if is_arr { ty(&[], &[], arr(n as u32, id)) } else { ty(&[], &[], seq(id)) };
                fixed.insert(ROOT, t);
                what = format!("{n} elements of kind {kind}");
            } else {
                n = blens2[ctx.choose(blens2.len())];
                let (store, sw) = super::fam2::STORES[(kind - 13) / 2];
                w = sw;
                let bytes = n.div_ceil(8 * w) * w;
                // content, no content, halves without content
                body = match ctx.choose(4) {
                    0 => (0..bytes).map(noise).collect(),
                    1 => vec![0; bytes],
                    2 => (0..bytes).map(|i| if i / (w.div_ceil(2)) % 2 == 0 { noise(i) | 1 } else { 0 }).collect(),
                    _ => (0..bytes).map(|i| if i / (w.div_ceil(2)) % 2 == 1 { noise(i) | 1 } else { 0 }).collect(),
                };
                data = enc_compact(n as u128);
                fixed.insert(ROOT, ty(&[], &[], bitseq(store, if kind % 2 == 0 { MSB } else { LSB })));
                what = format!("{n} bits in {}-byte stores", w);
            }
            let head = data.len();
            data.extend(&body);
            let types = frozen(&fixed);
            let m = Meta::plain(Reg::Fixed(types.clone()));
            ctx.note(|| what.clone());
            let mode = ctx.choose(6);
            let d = match mode {
                0 => data,
                1 => [&data[..], &[10]].concat(),
                2 => data[..data.len() - 1].to_vec(),
                3 => data[..data.len() - w.min(data.len())].to_vec(),
                _ if head == 0 => return Ok(()),
                4 => [&enc_compact(n as u128 + 1)[..], &body].concat(),
                _ => [&enc_compact(n as u128 - 1)[..], &body].concat(),
            };
            let c = Case { e: Entry::All { id: ROOT }, types, data: &d, data2: &[], m };
            c.check(&mut ctx.stats, &o, &what)?;
            Ok(())
        },
    )
}

/// Texts out of pieces of characters, with bytes behind that would complete them.
pub fn texts(name: &str, max: usize, o: Opts) -> Scenario {
    const A: [u8; 12] = [0x61, 0xc3, 0xa9, 0xe2, 0x82, 0xac, 0xf0, 0x9f, 0x98, 0x80, 0xed, 0xff];
    let g = g_wide().fixed;
    Scenario::new(name, format!("every text of 0..={max} bytes out of 12 (leading, continuing, surrogate and invalid bytes of UTF-8), followed by each of 12 bytes, alone, in a list, before and behind bytes; chars of 300 code points around every limit"), move |ctx| {
        let types = frozen(&g);
        let st_run = |st: &mut Stats, e: Entry, d: &[u8], types: &Rc<Types>| -> Res {
            Case { e, types: types.clone(), data: d, data2: &[], m: Meta::plain(Reg::Fixed(types.clone())) }.check(st, &o, "text")?;
            Ok(())
        };
        if ctx.flag() {
            // single characters
            let base = *ctx.pick(&[0u32, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x200000, 0x7fffffff, 0x80000000, 0xffffffff]);
            let c = base.wrapping_add(ctx.choose(17) as u32).wrapping_sub(8);
            ctx.note(|| format!("char {c:x}"));
            let d = c.to_le_bytes();
            st_run(&mut ctx.stats, Entry::All { id: CHAR }, &d, &types)?;
            st_run(&mut ctx.stats, Entry::Type { id: CHAR, start: 1 }, &[&[0xff][..], &d, &[0x10]].concat(), &types)?;
            return st_run(&mut ctx.stats, Entry::All { id: CHAR }, &d[..3], &types);
        }
        let n = ctx.choose(max + 1);
        let body: Vec<u8> = (0..n).map(|_| *ctx.pick(&A)).collect();
        let slim = o.slim();
        let mut good = enc_compact(n as u128);
        good.extend(&body);
        ctx.note(|| format!("text {}", hex::encode(&good)));
        let mut fixed = g.clone();
        fixed.insert(ROOT, ty(&[], &[], tup(&[STR, U8])));
        fixed.insert(ROOT + 1, ty(&[], &[], seq(STR)));
        let types = frozen(&fixed);
        let st = &mut ctx.stats;
        st_run(st, Entry::All { id: STR }, &good, &types)?;
        for b in &A[..if slim { 6 } else { 12 }] {
            let d = [&good[..], &[*b]].concat();
            st_run(st, Entry::Type { id: STR, start: 0 }, &d, &types)?;
            if !slim {
                st_run(st, Entry::All { id: ROOT }, &d, &types)?;
                // the text continues in the next one
                let two = [&[8u8][..], &good, &[4, *b]].concat();
                st_run(st, Entry::All { id: ROOT + 1 }, &two, &types)?;
                st_run(st, Entry::All { id: STR }, &d, &types)?;
            }
        }
        for b in [0x82u8, 0xa9, 0x9f] {
            st_run(st, Entry::Type { id: STR, start: 2 }, &[&[0xc3, 0xe2][..], &good, &[b, 0xac, 0x80]].concat(), &types)?;
        }
        Ok(())
    })
}

/// Whole inputs of every kind with each possible byte left over, at every place a part ends.
pub fn leftover(name: &str, o: Opts) -> Scenario {
    let fixed = g_unchecked().fixed;
    Scenario::new(
        name,
        "6 whole-input readers (extensions, prefixed and unprefixed transaction, call part, storage key and value, unchecked extrinsic) x every one of 256 bytes appended behind each part (call, extensions, whole), and two bytes appended",
        move |ctx| {
            let types = frozen(&fixed);
            let mut m = runtime_meta(&types);
            m.params = [512, RT, 510, 511];
            let kind = ctx.choose(8);
            let calls = call_samples();
            let call = calls[ctx.choose(7)].clone();
            let ext = ext_samples()[ctx.choose(3)].clone();
            let b = ctx.choose(256) as u8;
            let extra: Vec<u8> = if ctx.flag() { vec![b, 0] } else { vec![b] };
            let st = &mut ctx.stats;
            let e;
            let mut data2 = vec![];
            let data = match kind {
                0 => {
                    e = Entry::Ext { start: 0, genesis: None };
                    [&ext[..], &extra].concat()
                }
                1 => {
                    e = Entry::Tx { genesis: None };
                    [&enc_compact(call.len() as u128)[..], &call, &ext, &extra].concat()
                }
                2 => {
                    e = Entry::Tx { genesis: None };
                    let c = [&call[..], &extra].concat();
                    [&enc_compact(c.len() as u128)[..], &c, &ext].concat()
                }
                3 => {
                    e = Entry::TxPlain { genesis: None };
                    [&call[..], &ext, &extra].concat()
                }
                4 => {
                    e = Entry::TxPlain { genesis: None };
                    [&call[..], &extra, &ext].concat()
                }
                5 => {
                    e = Entry::Unchecked;
                    // left over behind the call is the listed finding; here behind the declared length
                    let body = [&[4u8][..], &call].concat();
                    [&enc_compact(body.len() as u128)[..], &body, &extra].concat()
                }
                6 => {
                    e = storage_of(false);
                    data2 = vec![1, 2];
                    [&(0..32u8).collect::<Vec<_>>()[..], &[7, 1], &extra].concat()
                }
                _ => {
                    e = storage_of(true);
                    data2 = [&[1u8, 2][..], &extra].concat();
                    [&(0..32u8).collect::<Vec<_>>()[..], &sp_crypto_hashing::twox_64(&[7, 1]), &[7, 1]].concat()
                }
            };
            let c = Case { e, types, data: &data, data2: &data2, m };
            c.check(st, &o, "left over")?;
            Ok(())
        },
    )
}
fn storage_of(concat: bool) -> Entry {
    use frame_metadata::v14::{StorageEntryMetadata, StorageEntryModifier, StorageEntryType, StorageHasher};
    Entry::Storage {
        entry: Rc::new(StorageEntryMetadata {
            name: "Entry".into(),
            modifier: StorageEntryModifier::Default,
            ty: StorageEntryType::Map { hashers: vec![if concat { StorageHasher::Twox64Concat } else { StorageHasher::Identity }], key: sym(U16), value: sym(U16) },
            default: vec![],
            docs: vec!["entry docs".to_string()],
        }),
    }
}

/// Many extensions, many hashers.
pub fn wide_lists(name: &str, level: usize, o: Opts) -> Scenario {
    let g = g_wide().fixed;
    let ns: Vec<usize> = match level {
        0 => vec![0, 1, 3, 17],
        1 => vec![0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 20],
        _ => (0..=40).collect(),
    };
    let kinds = [10, 20, ELS.len()][level.min(2)];
    Scenario::new(
        name,
        format!("{ns:?} extensions of {kinds} kinds, alternating included and additional, the obligatory ones at the start, in the middle or at the end; identity-hashed keys of as many parts; whole, one byte more, less, changed"),
        move |ctx| {
            let n = ns[ctx.choose(ns.len())];
            let el = ELS[ctx.choose(kinds)];
            let at = [0, n / 2, n][ctx.choose(3)];
            let keys = ctx.flag();
            let mut fixed = g.clone();
            let (e, data, m);
            if keys {
                let n = n.max(1);
                let key = if n == 1 {
                    el.id
                } else {
                    fixed.insert(ROOT, ty(&["key"], &["key docs"], tup(&vec![el.id; n])));
                    ROOT
                };
                use frame_metadata::v14::{StorageEntryMetadata, StorageEntryModifier, StorageEntryType, StorageHasher};
                // the part at one place is hashed
                let mut d: Vec<u8> = (0..32).collect();
                let hashers: Vec<StorageHasher> = (0..n).map(|i| if i == at { StorageHasher::Blake2_128Concat } else { [StorageHasher::Identity, StorageHasher::Twox64Concat, StorageHasher::Twox128][i % 3].clone() }).collect();
                for (i, h) in hashers.iter().enumerate() {
                    d.extend(hash_part(h, &(el.enc)(i)));
                }
                e = Entry::Storage { entry: Rc::new(StorageEntryMetadata { name: "E".into(), modifier: StorageEntryModifier::Default, ty: StorageEntryType::Map { hashers, key: sym(key), value: sym(el.id) }, default: vec![], docs: vec![] }) };
                data = d;
                m = Meta::plain(Reg::Fixed(frozen(&fixed)));
            } else {
                let mut mm = Meta::plain(Reg::Fixed(frozen(&fixed)));
                mm.version = "0".into();
                let (mut inc, mut add) = (Vec::new(), Vec::new());
                for i in 0..=n {
                    if i == at {
                        mm.exts.push(("CheckSpecVersion".into(), UNIT, U32));
                        mm.exts.push(("CheckGenesis".into(), UNIT, H256));
                        add.extend([0u8; 36]);
                    }
                    if i < n {
                        let b = (el.enc)(i);
                        if i % 2 == 0 {
                            mm.exts.push((format!("Ext{i}"), el.id, UNIT));
                            inc.extend(b);
                        } else {
                            mm.exts.push((format!("Ext{i}"), UNIT, el.id));
                            add.extend(b);
                        }
                    }
                }
                e = Entry::Ext { start: 0, genesis: Some([0; 32]) };
                data = [inc, add].concat();
                m = mm;
            }
            let types = frozen(&fixed);
            let value = (el.enc)(1);
            let mode = ctx.choose(4);
            ctx.note(|| format!("{n} of {} keys {keys}: {}", el.name, hex::encode(&data)));
            let st = &mut ctx.stats;
            let mut run = |d: &[u8], v: &[u8]| -> Res {
                let c = Case { e: e.clone(), types: types.clone(), data: d, data2: if keys { v } else { &[] }, m: m.clone() };
                c.check(st, &o, "wide list")?;
                Ok(())
            };
            match mode {
                0 => run(&data, &value)?,
                1 => {
                    for b in [0u8, 1, 4, 10, 0x80, 0xff] {
                        run(&[&data[..], &[b]].concat(), &value)?;
                        if keys {
                            run(&data, &[&value[..], &[b]].concat())?;
                        }
                    }
                }
                2 => {
                    for cut in 1..=data.len().min(if o.slim() { 2 } else { 12 }) {
                        run(&data[..data.len() - cut], &value)?;
                    }
                    if keys && !value.is_empty() {
                        run(&data, &value[..value.len() - 1])?;
                    }
                }
                _ => {
                    let step = if o.slim() { 41 } else { 1 + data.len() / 60 };
                    for i in (0..data.len()).step_by(step) {
                        let mut d = data.clone();
                        d[i] ^= 1 << (i % 8);
                        run(&d, &value)?;
                    }
                }
            }
            Ok(())
        },
    )
}

/// Enums of many variants, listed in any order, indices dense and sparse.
pub fn many_variants(name: &str, level: usize, o: Opts) -> Scenario {
    let sizes: &'static [usize] = if level == 0 { &[2, 17, 33, 64, 129, 256] } else { &[1, 2, 3, 4, 5, 8, 15, 16, 17, 18, 31, 32, 33, 34, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256] };
    let g = g_wide().fixed;
    Scenario::new(
        name,
        format!("enums of {sizes:?} variants listed in 6 orders, indices dense, spread, at the upper end; plain, in a struct, a sequence, an array, as call of a pallet and as pallet of a call; all 256 variant bytes x 4 lengths of the rest"),
        move |ctx| {
            let n = *ctx.pick(sizes);
            let stride = *ctx.pick(&[1usize, 2, 3, 7]);
            if (n - 1) * stride > 255 {
                return Ok(());
            }
            let first = *ctx.pick(&[0usize, 1, 255]);
            let first = if first == 255 { 255 - (n - 1) * stride } else { first };
            if first + (n - 1) * stride > 255 {
                return Ok(());
            }
            let order = ctx.choose(6);
            let mut list: Vec<usize> = (0..n).collect();
            match order {
                0 => {}
                1 => list.reverse(),
                2 => list.rotate_left(n / 2),
                3 => list.sort_by_key(|i| (i % 2, *i)),
                4 => list.sort_by_key(|i| (i.wrapping_mul(0x9e37) & 0xff, *i)),
                // all but the last in order
                _ => list.rotate_right(1),
            }
            let shape = ctx.choose(6);
            let mut fixed = g.clone();
            let variants = list
                .iter()
                .map(|i| {
                    let f = match i % 4 {
                        0 => vec![],
                        1 => vec![fld(None, Some("Balance"), U16)],
                        2 => vec![fld(Some("a"), None, U8), fld(Some("nonce"), None, U16)],
                        _ => vec![fld(Some("s"), None, VECU8)],
                    };
                    let mut v = var(&format!("V{i}"), (first + i * stride) as u8, f);
                    if i % 3 == 0 {
                        v.docs = vec![format!("docs of {i}")];
                    }
                    v
                })
                .collect();
            let e = ty(if shape >= 4 { &["pallet_many", "pallet", "Call"] } else { &["m", "Many"] }, &["many docs"], vars(variants));
            let call = |ix: u8, id: u32| ty(&["rt", "RuntimeCall"], &[], vars(vec![var("Small", 7, vec![fld(None, None, W_ENUM)]), var("Many", ix, vec![fld(None, None, id)])]));
            let root = match shape {
                0 => e,
                1 => {
                    fixed.insert(1300, e);
                    ty(&["S"], &[], comp(vec![fld(Some("balance"), None, U8), fld(Some("x"), None, 1300), fld(Some("y"), None, 1300)]))
                }
                2 => {
                    fixed.insert(1300, e);
                    ty(&[], &[], seq(1300))
                }
                3 => {
                    fixed.insert(1300, e);
                    ty(&[], &[], arr(3, 1300))
                }
                4 => {
                    fixed.insert(1300, e);
                    call(9, 1300)
                }
                _ => {
                    fixed.insert(1300, ty(&["pallet_many", "pallet", "Call"], &["pallet docs"], vars(vec![var("act", 1, vec![fld(Some("value"), None, U8)])])));
                    let v = list.iter().map(|i| var(&format!("P{i}"), (first + i * stride) as u8, vec![fld(None, None, 1300)])).collect();
                    ty(&["rt", "RuntimeCall"], &[], vars(v))
                }
            };
            fixed.insert(ROOT, root);
            let types = frozen(&fixed);
            let m = Meta::plain(Reg::Fixed(types.clone()));
            let what = format!("{n} variants from {first} by {stride}, order {order}, shape {shape}");
            ctx.note(|| what.clone());
            let bytes: Vec<u8> = if o.slim() || level == 0 { (0..=255u8).filter(|b| b % 16 == 0 || b % 16 == 15 || (b % 16) as usize == first % 16).collect() } else { (0..=255).collect() };
            for b in bytes {
                let one: &[u8] = match (b as usize).checked_sub(first).map(|x| (x % stride, x / stride % 4)) {
                    Some((0, 0)) if shape != 5 => &[],
                    Some((0, 1)) if shape != 5 => &[b, 0x33],
                    Some((0, 2)) if shape != 5 => &[5, b, 1],
                    Some((0, 3)) if shape != 5 => &[8, 1, b],
                    _ => &[1, 200],
                };
                let one = [&[b][..], one].concat();
                let d = match shape {
                    0 | 5 => one,
                    1 => [&[6][..], &one, &one].concat(),
                    2 => [&[12][..], &one, &one, &one].concat(),
                    3 => [&one[..], &one, &one].concat(),
                    _ => [&[9][..], &one].concat(),
                };
                for d in [&d[..], &[&d[..], &[0]].concat(), &d[..d.len() - 1]] {
                    let c = Case { e: Entry::All { id: ROOT }, types: types.clone(), data: d, data2: &[], m: m.clone() };
                    c.check(&mut ctx.stats, &o, &what)?;
                }
            }
            Ok(())
        },
    )
}
