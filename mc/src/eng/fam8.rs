//! Pairs of values that are compared, every character, misplaced types in every context, far positions.
use super::drive::*;
use super::env::*;
use super::explore::*;
use super::fam::*;
use super::fam3::*;
use super::fam5::*;
use super::refdec::*;
use super::tyb::*;
use alloc::format;
use alloc::string::{String, ToString};
use alloc::sync::Arc;
use alloc::vec;
use alloc::vec::Vec;

/// The version of the metadata against the version in the extensions: all pairs.
pub fn version_pairs(name: &str, level: usize, o: Opts) -> Scenario {
    let mut vs: Vec<u128> = (0..=[40u128, 130, 256][level]).collect();
    for k in [8u32, 10, 16, 24, 31, 32, 33, 63, 64, 100, 127] {
        let b = 1u128 << k;
        vs.extend([b - 1, b, b + 1]);
    }
    for k in 2..=38u32 {
        let b = 10u128.pow(k);
        vs.extend([b - 1, b, b + 1, b * 3]);
    }
    vs.extend([9111, 91110, 911, 1_002_000, 1_003_003, 100_300, u128::MAX]);
    vs.sort_unstable();
    vs.dedup();
    let mut texts: Vec<String> = vs.iter().map(|v| v.to_string()).collect();
    texts.extend(["", " 1", "1 ", "01", "+1", "-1", "1.0", "0x1", "one", "1_0", "1,000", "00", "007", "-0", "\u{661}", "1\0", "v1", "1-dev"].map(|s| s.to_string()));
    let types = g_ext().fixed;
    Scenario::new(name, format!("{} metadata versions (numbers and other texts) against {} extension values in u8, u16, u32, u64, u128 and compact form", texts.len(), vs.len()), move |ctx| {
        let text = &texts[ctx.choose(texts.len())];
        let types = frozen(&types);
        let mut m = Meta::plain(Reg::Fixed(types.clone()));
        m.version = text.clone();
        ctx.note(|| format!("metadata version {text:?}"));
        let st = &mut ctx.stats;
        for (id, w) in [(U8, 1usize), (U16, 2), (U32, 4), (U64, 8), (U128, 16), (C_U32, 0), (C_U128, 0)] {
            m.exts = vec![("CheckSpecVersion".into(), UNIT, id), ("CheckGenesis".into(), UNIT, H256)];
            for v in &vs {
                let mut d = match w {
                    0 if id == C_U32 && *v > u32::MAX as u128 => continue,
                    0 => enc_compact(*v),
                    w if w < 16 && *v >> (8 * w) != 0 => continue,
                    w => v.to_le_bytes()[..w].to_vec(),
                };
                d.extend([7; 32]);
                Case { e: Entry::Ext { start: 0, genesis: None }, types: types.clone(), data: &d, data2: &[], m: m.clone() }.check(st, &o, "version")?;
            }
        }
        Ok(())
    })
}

/// Hashes that differ in one place only.
pub fn hash_pairs(name: &str, o: Opts) -> Scenario {
    let types = g_ext().fixed;
    Scenario::new(name, "genesis hash expected, genesis hash in the extensions and block hash: equal, or one of them with any of the 256 bits turned, with any two bytes exchanged, reversed, or turned by some bytes; immortal and three mortal eras; genesis expected or not", move |ctx| {
        let types = frozen(&types);
        let mut m = Meta::plain(Reg::Fixed(types.clone()));
        m.exts = vec![("CheckSpecVersion".into(), UNIT, U32), ("CheckGenesis".into(), UNIT, H256), ("CheckMortality".into(), ERA, H256)];
        let base: [u8; 32] = match ctx.choose(3) {
            0 => core::array::from_fn(|i| (i as u8).wrapping_mul(37).wrapping_add(11)),
            1 => [0; 32],
            _ => [0xff; 32],
        };
        let who = ctx.choose(4);
        let kind = ctx.choose(3);
        let era: &[u8] = *ctx.pick(&[&[0u8][..], &[0x15, 0], &[0x01, 0], &[0xff, 0xff]]);
        let mut others: Vec<[u8; 32]> = Vec::new();
        match kind {
            0 => others.extend((0..256).map(|b| {
                let mut x = base;
                x[b / 8] ^= 1 << (b % 8);
                x
            })),
            1 => {
                for i in 0..32 {
                    for j in 0..i {
                        let mut x = base;
                        x.swap(i, j);
                        others.push(x);
                    }
                }
            }
            _ => {
                let mut x = base;
                x.reverse();
                others.push(x);
                others.push(base);
                for k in 1..32 {
                    let mut x = base;
                    x.rotate_left(k);
                    others.push(x);
                    // only so many bytes in common, from either end
                    let mut x = base.map(|b| !b);
                    x[..k].copy_from_slice(&base[..k]);
                    others.push(x);
                    let mut x = base.map(|b| !b);
                    x[k..].copy_from_slice(&base[k..]);
                    others.push(x);
                }
            }
        }
        ctx.note(|| format!("era {} which hash differs: {who}", hex::encode(era)));
        let st = &mut ctx.stats;
        for x in &others {
            let mut h = [base; 3];
            match who {
                3 => (h[1], h[2]) = (*x, *x),
                w => h[w] = *x,
            }
            let d = [era, &[1, 0, 0, 0], &h[1], &h[2]].concat();
            for genesis in [Some(h[0]), None] {
                Case { e: Entry::Ext { start: 0, genesis }, types: types.clone(), data: &d, data2: &[], m: m.clone() }.check(st, &o, "hashes")?;
            }
        }
        Ok(())
    })
}

/// Every character, alone as a char and in three places of a text (as text, and as bytes that are text).
pub fn all_chars(name: &str, level: usize, o: Opts) -> Scenario {
    let mut fixed = g_wide().fixed;
    fixed.insert(ROOT, ty(&["S"], &[], comp(vec![fld(None, None, STR)])));
    const STEP: u32 = 256;
    let last = [0x3000u32, 0x1_0000, 0x11_0000][level];
    let mut blocks: Vec<u32> = (0..last).step_by(STEP as usize).collect();
    blocks.extend([0xd800, 0xdf00, 0xe000, 0xfe00, 0xff00, 0x1_0000, 0x1_f600, 0x1_ff00, 0xe_0000, 0xf_ff00, 0x10_0000, 0x10_ff00, 0x11_0000]);
    blocks.sort_unstable();
    blocks.dedup();
    Scenario::new(name, format!("every code point of {} blocks of 256: as char, as the only, first, last and doubled character of a text, and so in a byte vector", blocks.len()), move |ctx| {
        let types = frozen(&fixed);
        let b = *ctx.pick(&blocks);
        ctx.note(|| format!("code points from {b:x}"));
        let st = &mut ctx.stats;
        let run = |st: &mut Stats, id: u32, d: &[u8]| Case { e: Entry::All { id }, types: types.clone(), data: d, data2: &[], m: Meta::plain(Reg::Fixed(types.clone())) }.check(st, &o, "character").map(|_| ());
        for c in b..b + STEP {
            run(st, CHAR, &c.to_le_bytes())?;
            if let Some(c) = char::from_u32(c) {
                let mut s = [0u8; 4];
                let s = c.encode_utf8(&mut s).as_bytes();
                for body in [s.to_vec(), [s, b"x"].concat(), [b"x", s].concat(), [s, s].concat()] {
                    let d = [&enc_compact(body.len() as u128)[..], &body].concat();
                    run(st, STR, &d)?;
                    run(st, VECU8, &d)?;
                }
            }
        }
        Ok(())
    })
}

/// Types that can not be decoded, in every context.
pub fn g_misplaced() -> Gen {
    let mut g = base();
    g.late = true;
    g.kids = vec![U8, STR, DANGLING, LSB];
    t_comp(&mut g, 1, true);
    t_comp(&mut g, 2, false);
    t_tup(&mut g, 1);
    t_tup(&mut g, 2);
    t_seq(&mut g);
    t_arr(&mut g, 2);
    t_compact(&mut g);
    t_option(&mut g);
    for (s, o) in [(U8, U8), (STR, LSB), (DANGLING, LSB), (U8, DANGLING), (U16, MSB)] {
        g.tpl(move |_, _| ty(&[], &[], bitseq(s, o)));
    }
    g
}
pub fn misplaced(name: &str, nodes: usize, o: Opts) -> Scenario {
    typed(name, g_misplaced(), bp(&[0x04, 0x01], 1, 1), nodes, o)
}

/// Values and refusals far from the start of the address space.
pub fn far(name: &str, level: usize, o: Opts) -> Scenario {
    let w = usize::BITS;
    let mut starts: Vec<usize> = vec![250, 255, 256, 65_530, 65_535, 65_536, 70_000, 100_000, (1 << 24) - 1, (1 << 24) + 3, 0x7fff_fff0, 0x7fff_ffff, 0x8000_0000];
    if w == 64 {
        for k in [32u32, 33, 48, 53, 62] {
            starts.extend([(1usize << k) - 2, (1usize << k) + 9]);
        }
    }
    starts.extend([usize::MAX / 2, usize::MAX / 2 + 1]);
    let mut g = g_structure(true);
    g.dangle = true;
    let g = Arc::new(g);
    let reads = [1, 2, 3][level];
    Scenario::new(name, format!("type graphs with one container decoded from {} start positions up to half the address space, with 0 to 40 bytes there; bytes {:?} in the first {reads} reads", starts.len(), &STRUCT_BYTES[..5]), move |ctx| {
        let start = *ctx.pick(&starts);
        let len = *ctx.pick(&[40usize, 0, 1, 2, 5]);
        let env = env_of(ctx, &g, &bp(&STRUCT_BYTES[..5], reads, 2), 0);
        env.st.borrow_mut().origin = start;
        let m = Meta::plain(Reg::Lazy(env.clone()));
        let mut o = o.clone();
        o.total = start + len;
        explore(ctx, &env, Entry::Type { id: ROOT, start }, &m, &o)
    })
}

/// Calls that fail beside extensions of every length on display.
pub fn cut_calls(name: &str, o: Opts) -> Scenario {
    let g = g_wide().fixed;
    Scenario::new(name, "signable transactions whose call is right, cut, too long, of an unknown variant or not a call, with 1..=3 extensions out of 6 kinds that take 1 to 9 cards, prefixed and piecewise", move |ctx| {
        let mut g = g.clone();
        g.insert(900, ty(&["E0"], &[], comp(vec![])));
        g.insert(901, ty(&["E1"], &[], comp(vec![fld(Some("a"), None, U8), fld(Some("b"), Some("Balance"), U8)])));
        g.insert(902, ty(&["E2"], &["docs"], vars(vec![var("Kept", 4, vec![fld(Some("x"), None, U8), fld(None, None, 901)])])));
        g.insert(903, ty(&[], &[], tup(&[901, 901, U8])));
        g.insert(904, ty(&[], &[], seq(U8)));
        let types = frozen(&g);
        const K: [(u32, usize); 6] = [(900, 0), (901, 2), (902, 4), (903, 5), (904, 2), (U16, 2)];
        let n = 1 + ctx.choose(3);
        let mut m = runtime_meta(&types);
        m.exts.clear();
        let mut ext = Vec::new();
        for i in 0..n {
            let (id, len) = K[ctx.choose(6)];
            m.exts.push((format!("Ext{i}"), id, UNIT));
            ext.extend(vec![4u8; len]);
        }
        m.exts.push(("CheckSpecVersion".into(), UNIT, U32));
        m.exts.push(("CheckGenesis".into(), UNIT, H256));
        ext.extend([0; 36]);
        let call: &[u8] = *ctx.pick(&[&[0u8, 1, 8, 5, 6][..], &[0, 1, 8, 5], &[0, 1, 8, 5, 6, 7], &[0, 99], &[99, 0], &[], &[0]]);
        m.call_ty = *ctx.pick(&[RT, U16]);
        let d = [&enc_compact(call.len() as u128)[..], call, &ext].concat();
        ctx.note(|| format!("{} with {:?}", hex::encode(&d), m.exts));
        let st = &mut ctx.stats;
        let tx = Case { e: Entry::Tx { genesis: None }, types: types.clone(), data: &d, data2: &[], m: m.clone() };
        let one = tx.check(st, &o, "transaction")?;
        marked(st, &tx, &o, one.as_ref().map(|x| &x.1))
    })
}

/// Every byte at every place of every number.
pub fn number_bytes(name: &str, level: usize, o: Opts) -> Scenario {
    let fixed = g_wide().fixed;
    const N: [(u32, usize); 20] = [(U8, 1), (I8, 1), (U16, 2), (I16, 2), (U32, 4), (I32, 4), (U64, 8), (I64, 8), (U128, 16), (I128, 16), (U256, 32), (I256, 32), (PERBILL, 4), (PERCENT, 1), (H256, 32), (ACC, 32), (W_BAL, 16), (W_NONCE, 4), (BYTES32, 32), (CHAR, 4)];
    let back: &'static [u8] = if level == 0 { &[0, 0xff] } else { &[0, 0xff, 0x80, 0x01, 0x7f] };
    Scenario::new(name, format!("{} types of fixed width: every value of every byte (and of the byte behind it: 0, 1, 0x80, 0xff{}) over {back:x?} elsewhere", N.len(), if o.cards { "; in cards not for values of 32 bytes, and 6 values for accounts" } else { "" }), move |ctx| {
        let types = frozen(&fixed);
        let (id, n) = *ctx.pick(&N);
        let b = *ctx.pick(back);
        let at = ctx.choose(n);
        ctx.note(|| format!("type {id}, byte {at} over {b:x}"));
        let st = &mut ctx.stats;
        let mut d = vec![b; n];
        // cards of accounts and hashes are dear: fewer values of a byte there
        let dear = o.cards && n == 32;
        for x in 0..=255u8 {
            if dear && id == ACC && ![0, 1, 0x7f, 0x80, 0xfe, 0xff].contains(&x) {
                continue;
            }
            d[at] = x;
            let run = |st: &mut Stats, d: &[u8]| Case { e: Entry::All { id }, types: types.clone(), data: d, data2: &[], m: Meta::plain(Reg::Fixed(types.clone())) }.check(st, &o, "number").map(|_| ());
            run(st, &d)?;
            if at + 1 < n && !dear {
                for y in [0u8, 1, 0x80, 0xff] {
                    let mut d = d.clone();
                    d[at + 1] = y;
                    run(st, &d)?;
                }
            }
        }
        Ok(())
    })
}

/// Every byte behind a value, and every last byte of it.
pub fn followed(name: &str, o: Opts) -> Scenario {
    let mut fixed = g_wide().fixed;
    fixed.insert(ROOT, ty(&[], &[], compact(U8)));
    fixed.insert(ROOT + 1, ty(&[], &[], tup(&[U8, W_COMPACT])));
    Scenario::new(name, format!("{} kinds of values x 5 values, and 9 short kinds of values with every last byte, each followed by each of 256 bytes and 3 more", ELS.len()), move |ctx| {
        let types = frozen(&fixed);
        let m = Meta::plain(Reg::Fixed(types.clone()));
        let run = |st: &mut Stats, id: u32, d: &[u8]| Case { e: Entry::Type { id, start: 0 }, types: types.clone(), data: d, data2: &[], m: m.clone() }.check(st, &o, "value and more").map(|_| ());
        if ctx.flag() {
            let el = &ELS[ctx.choose(ELS.len())];
            let d = (el.enc)(ctx.choose(5));
            ctx.note(|| format!("{} {}", el.name, hex::encode(&d)));
            for b in 0..=255u8 {
                run(&mut ctx.stats, el.id, &[&d[..], &[b]].concat())?;
                run(&mut ctx.stats, el.id, &[&d[..], &[b, 0, b, 0xff]].concat())?;
            }
            return Ok(());
        }
        const S: [(u32, &[u8]); 9] = [(U8, &[]), (VECU8, &[4]), (STR, &[4]), (STR, &[8, b'a']), (VECU8, &[8, 0]), (W_OPT, &[1]), (ROOT, &[]), (ROOT + 1, &[7]), (ERA, &[])];
        let (id, lead) = *ctx.pick(&S);
        let last = ctx.choose(256) as u8;
        ctx.note(|| format!("type {id} {}{last:02x}", hex::encode(lead)));
        for b in 0..=255u8 {
            run(&mut ctx.stats, id, &[lead, &[last, b]].concat())?;
            run(&mut ctx.stats, id, &[lead, &[last, b, 0, 0]].concat())?;
        }
        Ok(())
    })
}

/// Documentation, paths and names of every length and script.
pub fn long_docs(name: &str, level: usize, o: Opts) -> Scenario {
    let lens: Vec<usize> = match level {
        0 => (0..20).chain(29..36).chain(59..70).chain(125..131).chain(253..258).collect(),
        1 => (0..140).chain(250..260).chain(1020..1030).collect(),
        _ => (0..300).chain(500..520).chain(1015..1035).chain(4090..4100).chain(65_530..65_540).collect(),
    };
    const CH: [&str; 6] = ["a", "\u{e9}", "\u{20ac}", "\u{1f600}", " ", "\n"];
    let base = g_wide().fixed;
    Scenario::new(name, format!("documentation of types, fields and variants, and field, variant and path names of {} lengths filled with characters of 1, 2, 3, 4 bytes, blanks or line ends, shifted by 0..=3 ASCII letters, in 1 or 2 lines", lens.len()), move |ctx| {
        let n = lens[ctx.choose(lens.len())];
        let ch = *ctx.pick(&CH);
        let shift = ctx.choose(4);
        let site = ctx.choose(6);
        let text = format!("{}{}", &"xyz"[..shift], ch.repeat(n));
        let lines: Vec<String> = if ctx.flag() { vec![text.clone(), text.clone()] } else { vec![text.clone()] };
        let l: Vec<&str> = lines.iter().map(|s| s.as_str()).collect();
        let t: &str = &text;
        let none: &[&str] = &[];
        let mut g = base.clone();
        let d = |s: usize| if site == s { &l[..] } else { none };
        let nm = |s: usize, x: &'static str| if site == s { t } else { x };
        g.insert(ROOT, ty(&["m", nm(0, "Path")], d(1), comp(vec![fldd(Some(nm(2, "a")), Some("T"), ROOT + 1, d(3)), fld(Some("b"), None, STR)])));
        g.insert(ROOT + 1, ty(&["E"], &[], vars(vec![vard(nm(4, "V"), 4, vec![fld(Some("x"), None, U8)], d(5))])));
        let types = frozen(&g);
        ctx.note(|| format!("site {site}: {n} of {ch:?} after {shift}"));
        Case { e: Entry::All { id: ROOT }, types: types.clone(), data: &[4, 9, 8, b'o', b'k'], data2: &[], m: Meta::plain(Reg::Fixed(types.clone())) }.check(&mut ctx.stats, &o, "documented value").map(|_| ())
    })
}
