//! Families about names: special types, calls and events, meanings, docs, compacts, bits, sequences, cycles.
use super::drive::*;
use super::env::*;
use super::explore::*;
use super::fam::*;
use super::tyb::*;
use alloc::format;
use alloc::string::ToString;
use alloc::sync::Arc;
use alloc::vec;
use alloc::vec::Vec;

pub const RIGHT: [&[&str]; 20] = [
    &["sp_core", "crypto", "AccountId32"],
    &["AccountId20"],
    &["primitive_types", "H160"],
    &["primitive_types", "H256"],
    &["H512"],
    &["sp_runtime", "generic", "era", "Era"],
    &["sp_arithmetic", "per_things", "PerU16"],
    &["sp_arithmetic", "per_things", "Percent"],
    &["sp_arithmetic", "per_things", "Permill"],
    &["sp_arithmetic", "per_things", "Perbill"],
    &["Perquintill"],
    &["sp_core", "ed25519", "Public"],
    &["sp_core", "sr25519", "Public"],
    &["sp_core", "ecdsa", "Public"],
    &["sp_core", "ed25519", "Signature"],
    &["sp_core", "sr25519", "Signature"],
    &["sp_core", "ecdsa", "Signature"],
    &["sp_runtime", "generic", "unchecked_extrinsic", "UncheckedExtrinsic"],
    &["sp_runtime", "MultiSignature"],
    &["a", "b", "RuntimeCall"],
];
pub const NEAR: [&[&str]; 24] = [
    &["AccountId"],
    &["accountid32"],
    &["AccountId32", "Inner"],
    &["AccountId32 "],
    &["H256x"],
    &["H128"],
    &["Eras"],
    &["era"],
    &["PerU32"],
    &["percent"],
    &["Public"],
    &["Signature"],
    &["ed25519", "Public"],
    &["sp_core", "Public"],
    &["sp_core", "ed25519"],
    &["sp_core", "bls381", "Public"],
    &["sp_core", "ed25519", "public"],
    &["x", "sp_core", "ed25519", "Public"],
    &["sp_cores", "sr25519", "Signature"],
    &["sp_core", "ecdsa", "x", "Signature"],
    &["ecdsa", "sp_core", "Signature"],
    &["sp_core", "sr25519_", "Public"],
    &["Vec"],
    &["UncheckedExtrinsic"],
];
pub const ARR5: u32 = 40;
pub const COMP_ARR64: u32 = 41;
pub const COMP2_ARR65: u32 = 42;
pub const NAMED_SIG: u32 = 43;
pub const ARR64_U16: u32 = 44;
pub const ARR64_NEWTYPE: u32 = 45;
pub const NEWTYPE_U8: u32 = 46;
pub const COMPACT_ARR64: u32 = 47;
pub const TUP_ARR64: u32 = 48;
pub const LOOP: u32 = 49;
pub const PAIR_ARR64: u32 = 50;
pub const ACC_ARR64: u32 = 51;
pub const SEQ_U8_64: u32 = 52;
pub const COMPACT_COMP_ARR64: u32 = 53;

pub fn add_sig_types(g: &mut Gen) {
    g.add(ARR5, ty(&[], &[], arr(5, U8)));
    g.add(COMP_ARR64, ty(&["w", "Wrap"], &[], comp(vec![fld(Some("inner"), None, ARR64)])));
    g.add(COMP2_ARR65, ty(&["w", "Wrap2"], &[], comp(vec![fld(None, None, ARR65)])));
    g.add(NAMED_SIG, ty(&["sp_core", "sr25519", "Signature"], &[], comp(vec![fld(None, Some("[u8; 64]"), ARR64)])));
    g.add(ARR64_U16, ty(&[], &[], arr(64, U16)));
    g.add(NEWTYPE_U8, ty(&["w", "Byte"], &[], comp(vec![fld(None, None, U8)])));
    g.add(ARR64_NEWTYPE, ty(&[], &[], arr(64, NEWTYPE_U8)));
    g.add(COMPACT_ARR64, ty(&[], &[], compact(ARR64)));
    g.add(COMPACT_COMP_ARR64, ty(&["w", "Wrap3"], &[], comp(vec![fld(None, None, COMPACT_ARR64)])));
    g.add(TUP_ARR64, ty(&[], &[], tup(&[ARR64])));
    g.add(LOOP, ty(&["w", "Loop"], &[], comp(vec![fld(None, None, LOOP)])));
    g.add(PAIR_ARR64, ty(&["w", "Pair"], &[], comp(vec![fld(None, None, ARR64), fld(None, None, U8)])));
    g.add(ACC_ARR64, ty(&["x", "AccountId32"], &[], arr(64, U8)));
    g.add(SEQ_U8_64, ty(&[], &[], seq(U8)));
}

/// Special paths (right and similar) over different definitions, in every one-level container.
pub fn g_special(near: bool) -> Gen {
    let mut g = base();
    add_sig_types(&mut g);
    for part in 0..2 {
        let list: &'static [&'static [&'static str]] = if part == 0 { &RIGHT } else { &NEAR };
        if part == 1 && !near {
            continue;
        }
        g.tpl(move |c, _| {
            let p = *c.pick(list);
            match c.choose(7) {
                0 => ty(p, &[], comp(vec![fld(None, Some("[u8; 5]"), ARR5)])),
                1 => ty(p, &["docs"], arr(3, U8)),
                2 => ty(p, &[], TypeDef::Primitive(Pr::U16)),
                3 => ty(p, &[], vars(vec![var("A", 0, vec![]), var("B", 1, vec![fld(None, Some("ed25519::Signature"), U8)])])),
                4 => ty(p, &[], comp(vec![fld(Some("x"), None, U8), fld(Some("y"), None, U16)])),
                5 => ty(p, &[], tup(&[U8])),
                _ => ty(p, &[], compact(U32)),
            }
        });
    }
    t_comp(&mut g, 1, false);
    t_comp(&mut g, 2, true);
    t_tup(&mut g, 1);
    t_tup(&mut g, 2);
    t_seq(&mut g);
    t_arr(&mut g, 2);
    t_option(&mut g);
    t_compact(&mut g);
    g.kids = vec![U8];
    g.late = true;
    g.root_leaves = false;
    g
}
/// MultiSignature-like enums.
pub fn g_multisig() -> Gen {
    let mut g = base();
    add_sig_types(&mut g);
    g.tpl(|c, _| {
        let p: &[&str] = *c.pick(&[&["sp_runtime", "MultiSignature"][..], &["MultiSignature"][..], &["sp_runtime", "MultiSigner"][..]]);
        let n = *c.pick(&[Some("ed25519::Signature"), Some("sr25519::Signature"), Some("ecdsa::Signature"), Some("Signature"), Some("sp_core::ed25519::Signature"), None]);
        let t = *c.pick(&[
            ARR64, ARR65, COMP_ARR64, COMP2_ARR65, NAMED_SIG, ARR64_U16, ARR64_NEWTYPE, COMPACT_ARR64, COMPACT_COMP_ARR64, TUP_ARR64, LOOP, PAIR_ARR64, ACC_ARR64, SEQ_U8_64, BYTES32, U8, DANGLING,
        ]);
        let shape = c.choose(3);
        let f = fld((shape == 1).then_some("sig"), n, t);
        let f = if shape == 2 { vec![f, fld(None, None, U8)] } else { vec![f] };
        let idx = *c.pick(&[1u8, 0, 200]);
        let name = if idx == 1 && f.len() == 1 { *c.pick(&["Sig", "Ed25519", "Sr25519", "Ecdsa", "sr25519::Signature"]) } else { "Sig" };
        ty(p, &[], vars(vec![var("Other", 7, vec![fld(None, Some("ecdsa::Signature"), ARR65)]), var(name, idx, f), var("None", 3, vec![])]))
    });
    g.root_leaves = false;
    g
}

// ---- calls and events ----
pub const INNER_CALL: u32 = 200;
pub const INNER_EVENT: u32 = 201;
pub const INNER_COMP: u32 = 202;
pub const INNER_PLAIN: u32 = 203;
pub const INNER_WRAP: u32 = 204;
pub const INNER_RUNTIME: u32 = 205;
pub const INNER_NEAR: u32 = 206;

fn inner_variants() -> Vec<Vr> {
    vec![
        vard("remark", 9, vec![fldd(Some("value"), Some("BalanceOf<T>"), U16, &["the", "amount"]), fld(Some("n"), None, U8)], &["call docs", "two lines"]),
        vard("noop", 0, vec![], &[]),
        vard("one", 1, vec![fld(None, Some("T::Balance"), U16)], &["one docs"]),
        vard("shadowed", 2, vec![fld(Some("again"), None, ROOT)], &[]),
    ]
}
pub fn add_items(g: &mut Gen) {
    g.add(INNER_CALL, ty(&["pallet_x", "pallet", "Call"], &["pallet docs"], vars(inner_variants())));
    g.add(INNER_EVENT, ty(&["pallet_x", "pallet", "Event"], &["event docs"], vars(inner_variants())));
    g.add(INNER_RUNTIME, ty(&["rt", "RuntimeCall"], &[], vars(inner_variants())));
    g.add(INNER_COMP, ty(&["pallet_x", "pallet", "Call"], &[], comp(vec![fld(Some("x"), None, U16)])));
    g.add(INNER_PLAIN, ty(&["pallet_x", "Stuff"], &[], vars(inner_variants())));
    g.add(INNER_NEAR, ty(&["pallet_x", "Call", "X"], &[], vars(inner_variants())));
    g.add(INNER_WRAP, ty(&["w"], &[], comp(vec![fld(None, None, INNER_CALL)])));
}
pub fn g_items() -> Gen {
    let mut g = base();
    add_items(&mut g);
    g.tpl(|c, _| {
        let p: &[&str] = *c.pick(&[&["rt", "RuntimeCall"][..], &["Call"][..], &["rt", "RuntimeEvent"][..], &["Event"][..], &["RuntimeCalls"][..], &["Call", "x"][..], &[][..]]);
        let t = *c.pick(&[INNER_CALL, INNER_EVENT, INNER_COMP, INNER_PLAIN, INNER_WRAP, INNER_RUNTIME, INNER_NEAR, DANGLING, U8, ROOT]);
        let shape = c.choose(4);
        let f = fld((shape == 1).then_some("pallet"), Some("CallOf<T>"), t);
        let f = match shape {
            2 => vec![f, fld(None, None, U8)],
            3 => vec![],
            _ => vec![f],
        };
        let name = *c.pick(&["Balances", "Staking", "Other"]);
        ty(p, &["outer docs"], vars(vec![vard("First", 5, vec![fld(None, None, INNER_CALL)], &[]), vard(name, 0, f, &["variant docs"]), vard("System", 1, vec![fld(None, None, INNER_EVENT)], &[])]))
    });
    g.root_leaves = false;
    g
}
/// Calls inside calls inside containers.
pub fn g_batch() -> Gen {
    let mut g = base();
    add_items(&mut g);
    // utility-like pallet
    g.add(
        210,
        ty(
            &["pallet_utility", "Call"],
            &[],
            vars(vec![
                var("batch", 0, vec![fld(Some("calls"), Some("Vec<Call>"), 211)]),
                var("as_derivative", 1, vec![fld(Some("index"), None, U8), fld(Some("call"), None, ROOT)]),
                var("maybe", 2, vec![fld(Some("call"), None, 212)]),
            ]),
        ),
    );
    g.add(211, ty(&[], &[], seq(ROOT)));
    g.add(212, ty(&["Option"], &[], vars(vec![var("None", 0, vec![]), var("Some", 1, vec![fld(None, None, ROOT)])])));
    g.tpl(|_, _| ty(&["rt", "RuntimeCall"], &[], vars(vec![var("Utility", 0, vec![fld(None, None, 210)]), var("X", 4, vec![fld(None, None, INNER_CALL)])])));
    g.root_leaves = false;
    g
}

// ---- meanings ----
pub const NAMES: [Option<&str>; 10] = [
    None,
    Some("nonce"),
    Some("spec_version"),
    Some("spec_name"),
    Some("tx_version"),
    Some("transaction_version"),
    Some("tip"),
    Some("Nonce"),
    Some("value"),
    Some("nonces"),
];
pub const TYPE_NAMES: [Option<&str>; 12] = [
    None,
    Some("Balance"),
    Some("BalanceOf<T>"),
    Some("BalanceOf<T, I>"),
    Some("DepositBalance"),
    Some("ExtendedBalance"),
    Some("PalletBalanceOf<T>"),
    Some("T::Balance"),
    Some("BalanceOf"),
    Some("Option<Balance>"),
    Some("u128"),
    Some("balance"),
];
pub const EXT_IDS: [&str; 12] = [
    "Unknown",
    "CheckSpecVersion",
    "CheckTxVersion",
    "CheckGenesis",
    "CheckMortality",
    "CheckNonce",
    "ChargeAssetTxPayment",
    "ChargeTransactionPayment",
    "CheckEra",
    "checknonce",
    "CheckWeight",
    "ChargeTransactionPayments",
];
const PATHS: [&[&str]; 9] = [
    &[],
    &["CheckNonce"],
    &["frame_system", "CheckNonce"],
    &["ChargeAssetTxPayment"],
    &["p", "ChargeTransactionPayment"],
    &["CheckSpecVersion"],
    &["CheckGenesis"],
    &["CheckMortality"],
    &["ChargeTransactionPayment", "x"],
];
/// Names of every kind on a chain of containers.
pub fn g_hints(names: &'static [Option<&'static str>], type_names: &'static [Option<&'static str>], paths: usize) -> Gen {
    let mut g = base();
    g.kids = vec![U32, U128, H256, STR, U8, PERBILL, I32];
    g.tpl(move |c, k| {
        let (p, n, t) = (PATHS[c.choose(paths)], *c.pick(names), *c.pick(type_names));
        ty(p, &[], comp(vec![fld(n, t, k.pick(c))]))
    });
    g.tpl(move |c, k| {
        let n = *c.pick(names);
        ty(&[], &[], comp(vec![fld(n, None, k.pick(c)), fld(None, Some("Balance"), U8)]))
    });
    g.tpl(move |c, k| {
        let p = PATHS[c.choose(paths)];
        ty(p, &[], tup(&[k.pick(c)]))
    });
    g.tpl(move |c, k| ty(PATHS[c.choose(paths.min(4))], &[], tup(&[k.pick(c), U8])));
    g.tpl(move |c, k| ty(PATHS[c.choose(paths.min(2))], &[], seq(k.pick(c))));
    g.tpl(move |_, k_| {
        let _ = &k_;
        ty(&[], &[], tup(&[UNIT]))
    });
    g.tpl(|c, k| ty(&[], &[], arr(1, k.pick(c))));
    g.tpl(|c, k| ty(&[], &[], compact(k.pick(c))));
    g.tpl(move |c, k| ty(&["E"], &[], vars(vec![var("V", 0, vec![fld(*c.pick(names), None, k.pick(c))]), var("W", 4, vec![fld(None, None, k.pick(c)), fld(Some("nonce"), None, U8)])])));
    g
}

/// One explored extension type among the obligatory ones.
pub fn hinted_ext(name: &str, g: Gen, b: BytePolicy, nodes: usize, o: Opts) -> Scenario {
    let bound = format!("{} identifiers, {} shapes, {} leaves, {} containers", EXT_IDS.len(), g.templates.len(), g.kids.len(), nodes + 1);
    let g = Arc::new(g);
    Scenario::new(name, bound, move |ctx| {
        let id = *ctx.pick(&EXT_IDS);
        let side = ctx.flag();
        // the version read is of branching (zero) or of default bytes
        let version = if b.max_branch > 0 && ctx.flag() { 0 } else { u32::from_le_bytes([b.single[0]; 4]) };
        let env = env_of(ctx, &g, &b, nodes);
        let mut m = Meta::plain(Reg::Lazy(env.clone()));
        m.version = version.to_string();
        m.exts = vec![
            ("CheckSpecVersion".into(), UNIT, U32),
            (id.into(), if side { UNIT } else { ROOT }, if side { ROOT } else { UNIT }),
            ("CheckGenesis".into(), UNIT, H256),
        ];
        explore(ctx, &env, Entry::Ext { start: 0, genesis: None }, &m, &o)
    })
}

// ---- compact permission ----
pub fn g_compact() -> Gen {
    let mut g = base();
    add_sig_types(&mut g);
    add_items(&mut g);
    g.add(60, ty(&["sp_arithmetic", "per_things", "PerU16"], &[], comp(vec![fld(None, None, U16)])));
    g.add(61, ty(&["sp_arithmetic", "per_things", "Permill"], &[], comp(vec![fld(None, None, U32)])));
    g.add(62, ty(&["sp_arithmetic", "per_things", "Perquintill"], &[], comp(vec![fld(None, None, U64)])));
    g.add(63, ty(&[], &[], bitseq(U8, LSB)));
    g.add(64, ty(&["sp_runtime", "MultiSignature"], &[], vars(vec![var("Ed25519", 0, vec![fld(None, Some("ed25519::Signature"), ARR64)]), var("X", 1, vec![])])));
    g.add(65, ty(&["rt", "RuntimeCall"], &[], vars(vec![var("P", 0, vec![fld(None, None, INNER_CALL)])])));
    g.add(66, ty(&["x", "H160"], &[], arr(20, U8)));
    g.add(67, ty(&["H512"], &[], arr(64, U8)));
    g.add(68, ty(&["sp_core", "ecdsa", "Public"], &[], arr(33, U8)));
    g.add(69, ty(&["Void"], &[], vars(vec![])));
    g.add(70, ty(&["rt", "RuntimeEvent"], &[], vars(vec![var("P", 0, vec![fld(None, None, INNER_EVENT)])])));
    g.kids = vec![U8, U16, U32, U64, U128, PERCENT, 60, 61, PERBILL, 62, BOOL, CHAR, STR, I8, I16, I32, I64, I128, U256, I256, H256, ACC, ERA, 63, 64, 65, 66, 67, 68, 69, 70];
    t_compact(&mut g);
    t_comp(&mut g, 1, true);
    t_comp(&mut g, 2, false);
    t_comp(&mut g, 0, false);
    t_tup(&mut g, 1);
    t_tup(&mut g, 2);
    t_tup(&mut g, 0);
    t_seq(&mut g);
    t_arr(&mut g, 1);
    t_arr(&mut g, 0);
    t_option(&mut g);
    g.root_leaves = false;
    g
}

// ---- docs ----
pub fn g_docs() -> Gen {
    let mut g = base();
    const DOCS: [&[&str]; 5] = [&[], &["d1"], &["d1", "d2"], &[""], &["", ""]];
    const PATHS: [&[&str]; 3] = [&[], &["p", "Q"], &["R"]];
    g.add(80, ty(&["Leaf"], &["leaf docs"], TypeDef::Primitive(Pr::U8)));
    g.add(81, ty(&[], &["only docs"], TypeDef::Primitive(Pr::U16)));
    g.kids = vec![U8, 80, 81, H256];
    fn deco(c: &mut Ctx, mut t: T) -> T {
        t.docs = strs(c.pick(&DOCS));
        t.path = pathv(strs(c.pick(&PATHS)));
        t
    }
    g.tpl(|c, k| {
        let fd = *c.pick(&[&[][..], &["field"][..], &["f1", "", "f2"][..]]);
        let t = ty(&[], &[], comp(vec![fldd(Some("a"), None, k.pick(c), fd)]));
        deco(c, t)
    });
    g.tpl(|c, k| {
        let t = ty(&[], &[], comp(vec![fldd(Some("a"), None, k.pick(c), &["fa"]), fldd(None, Some("B"), k.pick(c), &[])]));
        deco(c, t)
    });
    g.tpl(|c, k| {
        let t = ty(&[], &[], tup(&[k.pick(c)]));
        deco(c, t)
    });
    g.tpl(|c, k| {
        let t = ty(&[], &[], seq(k.pick(c)));
        deco(c, t)
    });
    g.tpl(|c, k| {
        let t = ty(&[], &[], arr(2, k.pick(c)));
        deco(c, t)
    });
    g.tpl(|c, k| {
        let t = ty(&[], &[], compact(k.pick(c)));
        deco(c, t)
    });
    g.tpl(|c, k| {
        let t = ty(&[], &[], vars(vec![vard("V", 0, vec![fldd(None, None, k.pick(c), &["vf"])], &["v1", "v2"]), vard("W", 4, vec![], &[])]));
        deco(c, t)
    });
    g
}

// ---- bit sequences ----
pub const STORES: [(u32, usize); 4] = [(U8, 1), (U16, 2), (U32, 4), (U64, 8)];
/// Every length up to `max`, every store and order, single bits, full and mixed patterns, with and without enough data.
pub fn bits_scn(name: &str, max: usize, single: usize, o: Opts) -> Scenario {
    Scenario::new(name, format!("8 store/order pairs, every bit count 0..={max}, every single bit up to {single} bits and 5 patterns, nested in 3 containers, cut data"), move |ctx| {
        let (store, w) = *ctx.pick(&STORES);
        let msb = ctx.flag();
        let n = ctx.choose(max + 1);
        let stores = n.div_ceil(8 * w);
        let bytes = stores * w;
        let ones = if n <= single { bytes * 8 } else { 0 };
        let p = ctx.choose(6 + ones);
        let body: Vec<u8> = if p < 6 {
            pattern([1, 0, 2, 3, 5, 4][p], 3, bytes)
        } else {
            (0..bytes).map(|i| if i == (p - 6) / 8 { 1 << ((p - 6) % 8) } else { 0 }).collect()
        };
        let mut g = base();
        let order = if msb { MSB } else { LSB };
        g.add(ROOT + 5, ty(&["Bits"], &["bit docs"], bitseq(store, order)));
        let shape = if p < 6 { ctx.choose(3) } else { 0 };
        let root = match shape {
            0 => ty(&[], &[], tup(&[ROOT + 5])),
            1 => ty(&[], &[], comp(vec![fld(Some("a"), None, U8), fld(Some("b"), None, ROOT + 5), fld(Some("c"), None, U8)])),
            _ => ty(&[], &[], arr(2, ROOT + 5)),
        };
        g.add(ROOT, root);
        let mut data = super::refdec::enc_compact(n as u128);
        data.extend_from_slice(&body);
        let data = match shape {
            0 => data,
            1 => [&[7u8][..], &data, &[9u8]].concat(),
            _ => [data.clone(), data].concat(),
        };
        run_fixed(ctx, g, Entry::Type { id: ROOT, start: 0 }, data, &o, &[0, 1, w])
    })
}
/// Wrong store and order types.
pub fn bits_wrong(name: &str, o: Opts) -> Scenario {
    let mut g = base();
    g.add(90, ty(&["bitvec", "order", "lsb0"], &[], comp(vec![])));
    g.add(91, ty(&["Lsb0"], &[], tup(&[])));
    g.add(92, ty(&["Msb0", "x"], &[], comp(vec![])));
    g.add(93, ty(&[], &[], comp(vec![])));
    g.add(94, ty(&["Msb0"], &[], comp(vec![fld(None, None, U8)])));
    g.add(95, ty(&["Lsb0"], &[], vars(vec![])));
    g.add(96, ty(&["w"], &[], comp(vec![fld(None, None, U8)])));
    g.add(97, ty(&["LocalBits"], &[], comp(vec![])));
    g.tpl(|c, _| {
        let s = *c.pick(&[U8, U16, U32, U64, U128, I8, BOOL, STR, 96, VECU8, DANGLING, U256]);
        let o = *c.pick(&[LSB, MSB, 90, 91, 92, 93, 94, 95, 97, U8, DANGLING]);
        ty(&[], &[], bitseq(s, o))
    });
    t_comp(&mut g, 1, false);
    t_seq(&mut g);
    t_compact(&mut g);
    g.kids = vec![U8];
    g.root_leaves = false;
    typed(name, g, bp(&[0x08, 0x00, 0x04, 0x24, 0x44, 0xff, 0x03, 0x01], 3, 3), 1, o)
}

/// A fixed registry and fixed data, with shorter and longer variants of the data.
pub fn run_fixed(ctx: &mut Ctx, g: Gen, e: Entry, data: Vec<u8>, o: &Opts, cuts: &[usize]) -> Res {
    let types = alloc::rc::Rc::new(Types { map: g.fixed.into_iter().map(|(k, v)| (k, alloc::rc::Rc::new(v))).collect() });
    let m = Meta::plain(Reg::Fixed(types.clone()));
    let mut st = Stats::default();
    let r = (|| {
        for c in cuts {
            if *c > data.len() {
                continue;
            }
            let d = &data[..data.len() - c];
            let case = Case { e: e.clone(), types: types.clone(), data: d, data2: &[], m: m.clone() };
            if let Some((_, r)) = case.check(&mut st, o, "fixed input")? {
                if o.cards {
                    check_cards(&mut st, &r, false)?;
                }
            }
        }
        Ok(())
    })();
    ctx.note(|| format!("data {}", hex::encode(&data)));
    ctx.stats.add(&st);
    r
}

// ---- sequences ----
pub fn g_seq() -> Gen {
    let mut g = base();
    g.add(100, ty(&["w", "Nonce"], &["w docs"], comp(vec![fld(Some("nonce"), None, U32)])));
    g.add(101, ty(&["w", "New"], &[], comp(vec![fld(Some("n"), None, U16)])));
    g.add(102, ty(&[], &[], compact(U32)));
    g.add(103, ty(&["w", "Pair"], &[], comp(vec![fld(None, None, U8), fld(None, None, BOOL)])));
    g.add(104, ty(&[], &[], tup(&[U8])));
    g.add(105, ty(&["w", "Bal"], &[], comp(vec![fld(None, Some("Balance"), U128)])));
    g.add(106, ty(&["w", "Bytes"], &["bytes docs"], comp(vec![fld(None, Some("Vec<u8>"), VECU8)])));
    g.add(107, ty(&[], &[], arr(2, U8)));
    g.add(108, ty(&["w", "B"], &["byte"], comp(vec![fld(None, None, U8)])));
    g.add(109, ty(&[], &["seq docs"], seq(108)));
    g.add(110, ty(&["E"], &[], vars(vec![var("A", 0, vec![]), var("B", 1, vec![fld(None, None, VECU8)]), var("C", 4, vec![fld(None, None, U8)])])));
    g.add(111, ty(&[], &[], tup(&[VECU8])));
    g.add(112, ty(&[], &[], compact(101)));
    g.kids = vec![U8, U16, U32, U64, U128, VECU8, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, STR, BOOL, I8, UNIT, H256, PERBILL, U256];
    t_seq(&mut g);
    t_arr(&mut g, 0);
    t_arr(&mut g, 1);
    t_arr(&mut g, 3);
    t_comp(&mut g, 1, true);
    t_comp(&mut g, 1, false);
    g.root_leaves = false;
    g
}

// ---- cycles ----
pub fn g_cycles() -> Gen {
    let mut g = base();
    g.kids = vec![U8];
    g.back = true;
    t_comp(&mut g, 1, false);
    t_comp(&mut g, 2, true);
    t_tup(&mut g, 1);
    t_tup(&mut g, 2);
    t_seq(&mut g);
    t_arr(&mut g, 0);
    t_arr(&mut g, 1);
    t_arr(&mut g, 2);
    t_option(&mut g);
    t_compact(&mut g);
    g.root_leaves = false;
    g
}
/// Recursive data of every depth up to `max`, through enums, sequences, structs and calls.
pub fn deep(name: &str, max: usize, o: Opts) -> Scenario {
    Scenario::new(name, format!("6 recursive registries, every nesting depth 0..={max}, cut by 0, 1 and 2 bytes"), move |ctx| {
        let kind = ctx.choose(6);
        let d = ctx.choose(max + 1);
        let (g, data) = deep_case(kind, d);
        run_fixed(ctx, g, Entry::All { id: ROOT }, data, &o, &[0, 1, 2])
    })
}
/// A recursive registry and data of the given nesting depth.
pub fn deep_case(kind: usize, d: usize) -> (Gen, Vec<u8>) {
        let mut g = base();
        let mut data = Vec::new();
        match kind {
            0 => {
                // List = Nil | Cons(u8, Box<List>)
                g.add(ROOT, ty(&["List"], &[], vars(vec![var("Nil", 0, vec![]), var("Cons", 1, vec![fld(None, None, U8), fld(None, Some("Box<List>"), ROOT)])])));
                for i in 0..d {
                    data.extend([1, i as u8]);
                }
                data.push(0);
            }
            1 => {
                // Tree { children: Vec<Tree> }
                g.add(ROOT, ty(&["Tree"], &[], comp(vec![fld(Some("children"), None, 300)])));
                g.add(300, ty(&[], &[], seq(ROOT)));
                data.extend(core::iter::repeat_n(4u8, d));
                data.push(0);
            }
            2 => {
                // struct Node { v: u8, next: Option<Node> } inside a tuple
                g.add(ROOT, ty(&[], &[], tup(&[U8, 301])));
                g.add(301, ty(&["Option"], &[], vars(vec![var("None", 0, vec![]), var("Some", 1, vec![fld(None, None, ROOT)])])));
                for i in 0..d {
                    data.extend([i as u8, 1]);
                }
                data.extend([9, 0]);
            }
            3 => {
                // nested calls
                g.add(ROOT, ty(&["rt", "RuntimeCall"], &[], vars(vec![var("U", 0, vec![fld(None, None, 302)])])));
                g.add(302, ty(&["u", "Call"], &[], vars(vec![var("wrap", 0, vec![fld(Some("call"), None, ROOT)]), var("end", 1, vec![])])));
                for _ in 0..d {
                    data.extend([0, 0]);
                }
                data.extend([0, 1]);
            }
            4 => {
                // array of two, mutual through an enum
                g.add(ROOT, ty(&["A"], &[], comp(vec![fld(None, None, 303)])));
                g.add(303, ty(&[], &[], arr(1, 304)));
                g.add(304, ty(&["B"], &[], vars(vec![var("End", 0, vec![]), var("More", 1, vec![fld(None, None, ROOT)])])));
                data.extend(core::iter::repeat_n(1u8, d));
                data.push(0);
            }
            _ => {
                // the same type many times side by side
                let f: Vec<Fl> = (0..=d % 40).map(|_| fld(None, None, 305)).collect();
                g.add(ROOT, ty(&["Wide"], &[], comp(f)));
                g.add(305, ty(&["S"], &[], comp(vec![fld(None, None, 306)])));
                g.add(306, ty(&[], &[], tup(&[U8, U8])));
                for i in 0..=d % 40 {
                    data.extend([i as u8, 200]);
                }
            }
        }
        (g, data)
}
