//! Families about whole entry points: extension lists, transactions, storage, unchecked extrinsics.
use super::drive::*;
use super::env::*;
use super::explore::*;
use super::fam::*;
use super::refdec::*;
use super::tyb::*;
use alloc::collections::BTreeMap;
use alloc::format;
use alloc::rc::Rc;
use alloc::string::{String, ToString};
use alloc::sync::Arc;
use alloc::vec;
use alloc::vec::Vec;
use external_memory_tools::AddressableBuffer;
use frame_metadata::v14::{StorageEntryMetadata, StorageEntryModifier, StorageEntryType, StorageHasher};

/// Registry to which only fixed types belong.
pub fn frozen(fixed: &BTreeMap<u32, T>) -> Rc<Types> {
    Rc::new(Types { map: fixed.iter().map(|(k, v)| (*k, Rc::new(v.clone()))).collect() })
}

// ---- extension lists ----

const W_U32: u32 = 400;
const W_H256: u32 = 401;
const WW_U32: u32 = 402;
const W_ERA: u32 = 403;
const W_NAMED: u32 = 404;
const PAIR_H: u32 = 405;
const T_U32: u32 = 406;
pub const C_U32: u32 = 407;
pub const C_U128: u32 = 408;
const T_H256: u32 = 409;
const TWO: u32 = 410;
const WW_H256: u32 = 411;
const OPT_H: u32 = 412;
const ARR_H: u32 = 413;
const NONCE: u32 = 414;

pub fn g_ext() -> Gen {
    let mut g = base();
    let one = |n: Option<&'static str>, id: u32| ty(&["x", "Ext"], &[], comp(vec![fld(n, None, id)]));
    g.add(W_U32, one(None, U32));
    g.add(W_H256, one(Some("hash"), H256));
    g.add(WW_U32, one(None, W_U32));
    g.add(W_ERA, one(None, ERA));
    g.add(W_NAMED, one(Some("spec_version"), U32));
    g.add(PAIR_H, ty(&["x", "Pair"], &[], comp(vec![fld(None, None, H256), fld(None, None, U8)])));
    g.add(T_U32, ty(&[], &[], tup(&[U32])));
    g.add(C_U32, ty(&[], &[], compact(U32)));
    g.add(C_U128, ty(&[], &[], compact(U128)));
    g.add(T_H256, ty(&[], &[], tup(&[H256])));
    g.add(TWO, ty(&["x", "Two"], &[], comp(vec![fld(Some("spec_version"), None, U32), fld(Some("nonce"), None, U8)])));
    g.add(WW_H256, one(None, W_H256));
    g.add(OPT_H, ty(&["Option"], &[], vars(vec![var("None", 0, vec![]), var("Some", 1, vec![fld(None, None, H256)])])));
    g.add(ARR_H, ty(&[], &[], arr(1, H256)));
    g.add(NONCE, ty(&["frame_system", "CheckNonce"], &[], comp(vec![fld(None, Some("T::Nonce"), C_U32)])));
    g
}
/// (identifier, included type, additional type): the usual ones first.
pub const EXTS: [(&str, u32, u32); 30] = [
    ("CheckSpecVersion", UNIT, U32),
    ("CheckGenesis", UNIT, H256),
    ("CheckMortality", ERA, H256),
    ("CheckNonce", NONCE, UNIT),
    ("CheckSpecVersion", UNIT, W_U32),
    ("CheckGenesis", W_H256, UNIT),
    ("CheckMortality", W_ERA, W_H256),
    ("CheckSpecVersion", UNIT, WW_U32),
    ("CheckSpecVersion", U32, U32),
    ("CheckGenesis", H256, H256),
    ("Foo", UNIT, W_NAMED),
    ("CheckGenesis", UNIT, PAIR_H),
    ("CheckSpecVersion", UNIT, T_U32),
    ("CheckTxVersion", UNIT, U32),
    ("ChargeTransactionPayment", C_U128, UNIT),
    ("CheckEra", ERA, UNIT),
    ("CheckMortality", UNIT, H256),
    ("CheckSpecVersion", C_U32, UNIT),
    ("CheckSpecVersion", UNIT, U8),
    ("CheckGenesis", UNIT, T_H256),
    ("Foo", H256, UNIT),
    ("Foo", UNIT, TWO),
    ("CheckGenesis", UNIT, WW_H256),
    ("CheckGenesis", UNIT, OPT_H),
    ("CheckMortality", UNIT, ARR_H),
    ("CheckSpecVersion", UNIT, STR),
    ("CheckGenesis", UNIT, BYTES32),
    ("CheckSpecVersion", UNIT, U128),
    ("CheckMortality", ERA, ERA),
    ("CheckWeight", UNIT, UNIT),
];

/// All lists of `slots` extensions out of the first `kinds`, all values, all expectations.
pub fn ext_lists(name: &str, slots: usize, kinds: usize, o: Opts) -> Scenario {
    let g = Arc::new(g_ext());
    let mut o = o;
    o.fit = true;
    o.exact = true;
    o.total = 700;
    Scenario::new(
        name,
        format!("all ordered lists of 0..={slots} extensions out of {kinds} kinds (wrapped, doubled, misnamed included), numbers and hashes matching or not, immortal/mortal/invalid era, genesis not given/given, one byte more or less, 2 failing metadata answers"),
        move |ctx| {
            let n = slots - ctx.choose(slots + 1);
            let exts: Vec<(String, u32, u32)> = (0..n).map(|_| EXTS[ctx.choose(kinds)]).map(|(i, a, b)| (i.to_string(), a, b)).collect();
            let genesis = *ctx.pick(&[None, Some([0u8; 32])]);
            let broken = *ctx.pick(&[None, None, None, Some(MetaQ::SpecNameVersion), Some(MetaQ::SignedExtensions)][if n <= 1 { 2..5 } else { 2..3 }]);
            let start = if n <= 1 { ctx.choose(2) * 3 } else { 0 };
            let policy = BytePolicy { single: vec![0x00, 0x15, 0x01], max_branch: if kinds > 12 { 7 } else { 12 }, wide: 2, dev: false };
            let env = env_of(ctx, &g, &policy, 0);
            let mut m = Meta::plain(Reg::Lazy(env.clone()));
            m.version = "0".into();
            m.exts = exts;
            m.broken = broken;
            explore(ctx, &env, Entry::Ext { start, genesis }, &m, &o)
        },
    )
}

// ---- transactions ----

pub const RT: u32 = 500;
const PALLET: u32 = 501;
const CALLS: u32 = 502;

/// A small runtime: calls with bytes, numbers and nested calls.
pub fn g_runtime() -> Gen {
    let mut g = g_ext();
    g.add(
        RT,
        ty(&["rt", "RuntimeCall"], &["calls"], vars(vec![var("Balances", 0, vec![fld(None, None, PALLET)]), var("Raw", 1, vec![fld(None, None, U16)]), var("Bare", 2, vec![]), var("Staking", 3, vec![fld(Some("call"), None, PALLET)])])),
    );
    g.add(
        PALLET,
        ty(
            &["pallet", "Call"],
            &["pallet docs"],
            vars(vec![
                vard("none", 0, vec![], &["no fields"]),
                var("bytes", 1, vec![fld(Some("remark"), Some("Vec<u8>"), VECU8)]),
                var("pay", 2, vec![fld(Some("dest"), None, U8), fld(Some("value"), Some("T::Balance"), C_U128)]),
                var("batch", 3, vec![fld(Some("calls"), None, CALLS)]),
            ]),
        ),
    );
    g.add(CALLS, ty(&[], &[], seq(RT)));
    g
}
pub fn usual_exts() -> Vec<(String, u32, u32)> {
    [EXTS[0], EXTS[2], EXTS[1], EXTS[3]].into_iter().map(|(i, a, b)| (i.to_string(), a, b)).collect()
}
pub fn call_samples() -> Vec<Vec<u8>> {
    vec![
        vec![0, 0],
        vec![0, 1, 0],
        vec![3, 1, 8, 0xaa, 0xbb],
        vec![0, 2, 7, 0x04],
        vec![0, 2, 7, 0x13, 0, 0, 0, 0, 1, 0, 0, 0],
        vec![0, 3, 8, 0, 0, 0, 1, 4, 9],
        vec![0, 3, 0],
        {
            let mut v = vec![3, 1, 0x01, 0x02];
            v.extend([0x04; 128]);
            v
        },
        // not calls
        vec![1, 5, 0],
        vec![2],
        vec![9],
        vec![0, 9],
        vec![0, 1, 8, 1],
        vec![],
        vec![0, 1, 0x04, 0x10, 0],
    ]
}
/// Extensions for `usual_exts`: (bytes, note).
pub fn ext_samples() -> Vec<Vec<u8>> {
    // era, nonce, spec version, block hash, genesis
    let z = [0u8; 32];
    let f = [0xffu8; 32];
    let mk = |era: &[u8], nonce: &[u8], ver: u32, gen: &[u8; 32], block: &[u8; 32]| {
        let mut v = era.to_vec();
        v.extend_from_slice(nonce);
        v.extend_from_slice(&ver.to_le_bytes());
        v.extend_from_slice(block);
        v.extend_from_slice(gen);
        v
    };
    vec![
        mk(&[0], &[4], 0, &z, &z),
        mk(&[0x15, 0], &[4], 0, &z, &f),
        mk(&[0x15, 0], &[0x01, 0x04], 0, &z, &z),
        mk(&[0], &[4], 0, &z, &f),
        mk(&[0], &[4], 1, &z, &z),
        mk(&[0], &[4], 0, &f, &f),
        mk(&[0x15, 0x15], &[4], 0, &z, &z),
        mk(&[0], &[3], 0, &z, &z),
        vec![],
        vec![0],
    ]
}
pub fn runtime_meta(types: &Rc<Types>) -> Meta {
    let mut m = Meta::plain(Reg::Fixed(types.clone()));
    m.version = "0".into();
    m.call_ty = RT;
    m.exts = usual_exts();
    m.params = [ACC, RT, 510, 511];
    m
}

fn padded(n: usize, form: usize) -> Vec<u8> {
    // prefixes in every mode, whether or not canonical
    match form {
        0 => vec![(n << 2) as u8],
        1 => ((n << 2 | 1) as u16).to_le_bytes().to_vec(),
        2 => ((n << 2 | 2) as u32).to_le_bytes().to_vec(),
        3 => {
            let mut v = vec![3u8];
            v.extend((n as u32).to_le_bytes());
            v
        }
        _ => {
            let mut v = vec![7u8];
            v.extend((n as u32).to_le_bytes());
            v.push(0);
            v
        }
    }
}

/// Signable transactions out of call bytes, extension bytes and a length prefix.
pub fn transactions(name: &str, o: Opts) -> Scenario {
    let fixed = g_runtime().fixed;
    let (calls, exts) = (call_samples(), ext_samples());
    Scenario::new(
        name,
        format!("{} calls x {} extension blobs x 16 prefixes (right, +-1, +-2, 0, all, beyond, non-canonical, oversized) x trailing/missing byte x genesis x 3 metadata answers; prefixed, unprefixed and piecewise entry points", calls.len(), exts.len()),
        move |ctx| {
            let call = ctx.pick(&calls).clone();
            let ext = ctx.pick(&exts).clone();
            let (c, e) = (call.len() as i64, ext.len() as i64);
            let slim = o.slim();
            let p = if slim { [0, 2, 6, 15][ctx.choose(4)] } else { ctx.choose(16) };
            let prefix = match p {
                0 => enc_compact(c as u128),
                1..=9 => {
                    let n = [c - 1, c + 1, 0, c + e, c + e + 1, c + e - 1, c + 2, c - 2, c + e + 64][p - 1].max(0);
                    enc_compact(n as u128)
                }
                10..=13 => padded(call.len(), [1, 2, 3, 4][p - 10]),
                14 => vec![0xfe, 0xff, 0xff, 0xff],
                _ => vec![0x03, 0xff, 0xff, 0xff, 0xff],
            };
            let (a, b) = if slim { (1, 1) } else { (3, 3) };
            let tail = *ctx.pick(&[0i64, 1, -1][..a]);
            let genesis = *ctx.pick(&[Some([0u8; 32]), None, Some([0xffu8; 32])][..b]);
            let broken = *ctx.pick(&[None, Some(MetaQ::CallTy), Some(MetaQ::SpecNameVersion)][..a]);
            let types = frozen(&fixed);
            let mut m = runtime_meta(&types);
            m.broken = broken;
            let mut plain = call.clone();
            plain.extend_from_slice(&ext);
            match tail {
                1 => plain.push(0),
                -1 => {
                    plain.pop();
                }
                _ => {}
            }
            let mut data = prefix;
            data.extend_from_slice(&plain);
            ctx.note(|| format!("call {} extensions {} whole {}", hex::encode(&call), hex::encode(&ext), hex::encode(&data)));
            let st = &mut ctx.stats;
            let tx = Case { e: Entry::Tx { genesis }, types: types.clone(), data: &data, data2: &[], m: m.clone() };
            let one = tx.check(st, &o, "prefixed")?;
            marked(st, &tx, &o, one.as_ref().map(|x| &x.1))?;
            // without prefix
            let un = Case { e: Entry::TxPlain { genesis }, types: types.clone(), data: &plain, data2: &[], m: m.clone() };
            let two = un.check(st, &o, "unprefixed")?;
            if let (Some((_, a)), Some((_, b))) = (&one, &two) {
                // same call and extensions: equal delivery
                if p == 0 {
                    match (&a.o, &b.o) {
                        (Ok(Good::Tx(Ok(_), _)), Ok(_)) => {
                            if a.o != b.o {
                                viol!("prefixed and unprefixed transaction differ: {:?} and {:?}\n for {}", a.o, b.o, hex::encode(&data));
                            }
                        }
                        (Ok(Good::Tx(Ok(_), _)), Err(e)) => viol!("accepted with prefix, refused without: {e:?}\n for {}", hex::encode(&data)),
                        _ => {}
                    }
                }
            }
            // positions in a longer buffer
            let mut shifted = vec![0x5a, 0x04, 0x00];
            shifted.extend_from_slice(&plain);
            Case { e: Entry::Call { start: 3 }, types: types.clone(), data: &shifted, data2: &[], m: m.clone() }.check(st, &o, "call in the middle")?;
            Case { e: Entry::Ext { start: 3 + call.len(), genesis }, types, data: &shifted, data2: &[], m }.check(st, &o, "extensions in the middle")?;
            if o.cards {
                if let Some((_, r)) = &one {
                    check_cards(st, r, true)?;
                }
            }
            Ok(())
        },
    )
}

/// The piecewise entry points on one transaction.
pub fn marked(st: &mut Stats, c: &Case, o: &Opts, whole: Option<&Real>) -> Res {
    let Entry::Tx { genesis } = &c.e else { return Ok(()) };
    let w = Fixed { types: &c.types, data: c.data };
    let want = ref_mark(&w, c.data.len());
    let got = match guard(|| marked_real(c.data, &c.m, genesis)) {
        Ok(x) => x,
        Err(p) => viol!("piecewise: panic {p}\n in {}", c.describe()),
    };
    st.traces += 1;
    if o.paged || o.faults {
        marked_elsewhere(st, c, o, genesis, &got)?;
    }
    if !o.base {
        return Ok(());
    }
    match (got, want) {
        (None, Err(_)) => Ok(()),
        (Some(g), Ok((cs, es))) => {
            if (g.0, g.1) != (cs, es) {
                viol!("call start and extensions start {:?}, expected {:?}\n in {}", (g.0, g.1), (cs, es), c.describe());
            }
            if g.4 != c.data || g.5 != c.data[..es] {
                viol!("marked data delivers other bytes\n in {}", c.describe());
            }
            let call = match ref_call(&w, es, cs, &c.m) {
                Ok((p, pos)) if pos == es => Ok(Good::Call(p, pos)),
                Ok((_, pos)) => Err(Bad::UnusedCall(pos, es)),
                Err(e) => Err(e),
            };
            let ext = ref_ext(&w, c.data.len(), es, &c.m, genesis).map(|(x, p)| Good::Ext(x, p));
            if !same(&g.2, &call, o.proj, o.errs) {
                viol!("piecewise call {:?}, expected {:?}\n in {}", g.2, call, c.describe());
            }
            if !same(&g.3, &ext, o.proj, o.errs) {
                viol!("piecewise extensions {:?}, expected {:?}\n in {}", g.3, ext, c.describe());
            }
            // what the whole parse delivers is made of these parts
            if let Some(r) = whole {
                let ok = match (&r.o, &g.2, &g.3) {
                    (Ok(Good::Tx(Ok(p), x)), Ok(Good::Call(q, _)), Ok(Good::Ext(y, _))) => p == q && x == y,
                    (Ok(Good::Tx(Err(p), x)), Err(q), Ok(Good::Ext(y, _))) => p == q && x == y,
                    (Err(e), _, Err(f)) => e == f,
                    _ => false,
                };
                if !ok {
                    viol!("whole {:?}\n differs from parts {:?} {:?}\n in {}", r.o, g.2, g.3, c.describe());
                }
            }
            Ok(())
        }
        (g, w) => viol!("split {:?}, expected {:?}\n in {}", g.map(|g| (g.0, g.1)), w, c.describe()),
    }
}
type Parts = (usize, usize, O, O, Vec<u8>, Vec<u8>);
fn marked_real(data: &[u8], m: &Meta, genesis: &Option<[u8; 32]>) -> Option<Parts> {
    let mut mem = Mem::new();
    marked_on(&data, &mut mem, m, genesis, &mut [false; 3])
}
/// The pieces; `hit`: which of the three steps met a failing access.
fn marked_on<B: external_memory_tools::AddressableBuffer<Mem>>(data: &B, mem: &mut Mem, m: &Meta, genesis: &Option<[u8; 32]>, hit: &mut [bool; 3]) -> Option<Parts> {
    use substrate_parser as sp;
    let marked = sp::MarkedData::<B, Mem, Meta>::mark(data, mem);
    hit[0] = mem.failed > 0;
    let md = marked.ok()?;
    let before = mem.failed;
    let ext = sp::decode_extensions::<B, Mem, Meta>(&md, mem, m, genesis.map(primitive_types::H256));
    hit[1] = mem.failed > before;
    let ext = match ext {
        Ok(v) => Ok(Good::Ext(v.iter().map(super::val::ext).collect(), data.total_len())),
        Err(e) => Err(serr(&e)),
    };
    let before = mem.failed;
    let call = match sp::decode_as_call::<B, Mem, Meta>(&md, mem, m) {
        Ok(c) => Ok(Good::Call(super::val::call(&c), md.extensions_start())),
        Err(e) => Err(serr(&e)),
    };
    hit[2] = mem.failed > before;
    let bytes = |b: &B| match b.read_slice(&mut Mem::new(), 0, b.total_len()) {
        Ok(x) => x.as_ref().to_vec(),
        Err(_) => vec![],
    };
    let cut = bytes(&md.data_no_extensions());
    Some((md.call_start(), md.extensions_start(), call, ext, bytes(md.data()), cut))
}
/// The pieces from paged memory are the same; a failing access fails the step that met it, and only that.
fn marked_elsewhere(st: &mut Stats, c: &Case, o: &Opts, genesis: &Option<[u8; 32]>, first: &Option<Parts>) -> Res {
    if o.paged {
        for (page, skew) in [(1usize, 0usize), (3, 2), (32, 5), (1024, 0)] {
            let p = Paged::new(c.data, page, skew);
            st.traces += 1;
            match guard(|| marked_on(&p, &mut Mem::new(), &c.m, genesis, &mut [false; 3])) {
                Ok(x) if x == *first => {}
                Ok(x) => viol!("pieces from memory with page size {page}, skew {skew}: {x:?}\n instead of {first:?}\n in {}", c.describe()),
                Err(p) => viol!("pieces on paged memory: panic {p}\n in {}", c.describe()),
            }
        }
    }
    if o.faults {
        let p = Paged::new(c.data, 1 << 20, 0);
        let mut clean = Mem::new();
        if guard(|| marked_on(&p, &mut clean, &c.m, genesis, &mut [false; 3])).is_err() {
            viol!("pieces on paged memory: panic\n in {}", c.describe());
        }
        for k in 0..clean.n {
            let mut mem = Mem::failing(k, false);
            let mut hit = [false; 3];
            st.traces += 1;
            st.faults += 1;
            let got = match guard(|| marked_on(&p, &mut mem, &c.m, genesis, &mut hit)) {
                Ok(x) => x,
                Err(p) => viol!("pieces, access {k} failed: panic {p}\n in {}", c.describe()),
            };
            let bad = match (&got, first) {
                (None, _) => !hit[0] && first.is_some(),
                (Some(_), None) => true,
                (Some(g), Some(f)) => hit[0] || (g.0, g.1) != (f.0, f.1) || g.5 != f.5 || if hit[2] { g.2.is_ok() } else { g.2 != f.2 } || if hit[1] { g.3.is_ok() } else { g.3 != f.3 },
            };
            if bad {
                viol!("pieces, access {k} failed (in step {hit:?} of splitting, extensions, call), delivered {got:?}\n without the fault {first:?}\n in {}", c.describe());
            }
        }
    }
    Ok(())
}

/// Transactions whose every byte is chosen when first read.
pub fn lazy_transactions(name: &str, branch: usize, o: Opts) -> Scenario {
    let g = Arc::new(g_runtime());
    Scenario::new(name, format!("prefix, call and extension bytes chosen from 8 values at the first {branch} reads, 7 total lengths, 3 extension lists, prefixed and unprefixed"), move |ctx| {
        let total = *ctx.pick(&[43usize, 41, 42, 44, 45, 50, 2]);
        let with_prefix = ctx.flag();
        let kind = ctx.choose(3);
        let policy = BytePolicy { single: vec![0x04, 0x00, 0x08, 0x01, 0x0c, 0x10, 0x02, 0x03], max_branch: branch, wide: 1, dev: false };
        let env = env_of(ctx, &g, &policy, 0);
        let mut m = Meta::plain(Reg::Lazy(env.clone()));
        m.version = ["4", "4", "0"][kind].into();
        m.call_ty = RT;
        m.exts = match kind {
            0 => vec![("CheckSpecVersion".into(), UNIT, U8), ("CheckGenesis".into(), UNIT, H256), ("Foo".into(), VECU8, UNIT)],
            1 => vec![("Foo".into(), U8, UNIT), ("CheckSpecVersion".into(), U8, UNIT), ("CheckGenesis".into(), UNIT, H256)],
            _ => vec![("CheckSpecVersion".into(), UNIT, U32), ("CheckGenesis".into(), UNIT, H256)],
        };
        let e = if with_prefix { Entry::Tx { genesis: None } } else { Entry::TxPlain { genesis: None } };
        let mut o = o.clone();
        o.total = total;
        explore(ctx, &env, e, &m, &o)
    })
}

// ---- storage ----

const K_ENUM: u32 = 520;
const K_STRUCT: u32 = 521;
const K_TUP2: u32 = 522;
const K_OPAQUE: u32 = 523;
pub const HASHERS: [StorageHasher; 7] = [
    StorageHasher::Blake2_128Concat,
    StorageHasher::Twox64Concat,
    StorageHasher::Identity,
    StorageHasher::Blake2_128,
    StorageHasher::Blake2_256,
    StorageHasher::Twox128,
    StorageHasher::Twox256,
];
/// Key part types with encodings.
fn key_leaves() -> Vec<(u32, Vec<Vec<u8>>)> {
    vec![
        (U16, vec![vec![7, 1]]),
        (VECU8, vec![vec![8, 1, 2], vec![0]]),
        (UNIT, vec![vec![]]),
        (C_U32, vec![vec![0x15, 0x01]]),
        (K_ENUM, vec![vec![0], vec![4, 9]]),
        (K_STRUCT, vec![vec![1, 2, 3]]),
        (H256, vec![vec![0x3c; 32]]),
        (K_TUP2, vec![vec![5, 6, 0]]),
    ]
}
fn g_storage() -> BTreeMap<u32, T> {
    let mut g = g_ext();
    g.add(K_ENUM, ty(&["k", "E"], &["key enum"], vars(vec![var("A", 0, vec![]), var("B", 4, vec![fld(None, None, U8)])])));
    g.add(K_STRUCT, ty(&["k", "S"], &["key struct"], comp(vec![fld(Some("a"), None, U8), fld(Some("b"), Some("Balance"), U16)])));
    g.add(K_TUP2, ty(&[], &["pair"], tup(&[U16, BOOL])));
    g.add(K_OPAQUE, ty(&["k", "Opaque"], &[], comp(vec![fld(None, None, K_TUP2)])));
    g.fixed
}
pub fn hash_part(h: &StorageHasher, b: &[u8]) -> Vec<u8> {
    use sp_crypto_hashing::*;
    let cat = |a: Vec<u8>| [a, b.to_vec()].concat();
    match h {
        StorageHasher::Blake2_128 => blake2_128(b).to_vec(),
        StorageHasher::Blake2_256 => blake2_256(b).to_vec(),
        StorageHasher::Twox128 => twox_128(b).to_vec(),
        StorageHasher::Twox256 => twox_256(b).to_vec(),
        StorageHasher::Blake2_128Concat => cat(blake2_128(b).to_vec()),
        StorageHasher::Twox64Concat => cat(twox_64(b).to_vec()),
        StorageHasher::Identity => b.to_vec(),
    }
}
fn entry(ty: StorageEntryType<PortableForm>, docs: &[&str]) -> Rc<StorageEntryMetadata<PortableForm>> {
    Rc::new(StorageEntryMetadata { name: "Entry".into(), modifier: StorageEntryModifier::Default, ty, default: vec![], docs: strs(docs) })
}
fn prefix32(p: usize) -> Vec<u8> {
    match p {
        0 => (0..32u8).collect(),
        _ => vec![0xff; 32],
    }
}

/// Keys of every hasher combination: right, each single bit flipped, each length off, parts swapped.
pub fn storage_keys(name: &str, max_parts: usize, leaves: usize, bits: bool, o: Opts) -> Scenario {
    let fixed = g_storage();
    let all = key_leaves();
    Scenario::new(
        name,
        format!("all hasher lists of length 1..={max_parts} over 7 hashers, {leaves} key part types, right keys, {}every cut, one byte more, swapped parts, positions given explicitly", if bits { "every single bit flipped, " } else { "one bit in every byte flipped, " }),
        move |ctx| {
            let k = 1 + ctx.choose(max_parts);
            let mut hs = Vec::new();
            let mut ids = Vec::new();
            let mut parts: Vec<Vec<u8>> = Vec::new();
            for _ in 0..k {
                let h = ctx.pick(&HASHERS).clone();
                let (id, encs) = &all[ctx.choose(leaves)];
                let e = ctx.pick(encs);
                parts.push(hash_part(&h, e));
                hs.push(h);
                ids.push(*id);
            }
            let mut fixed = fixed.clone();
            let key = if k == 1 {
                ids[0]
            } else {
                fixed.insert(ROOT, ty(&["key", "Tuple"], &["key docs"], tup(&ids)));
                ROOT
            };
            let types = frozen(&fixed);
            let e = entry(StorageEntryType::Map { hashers: hs.clone(), key: sym(key), value: sym(U16) }, &["entry", "docs"]);
            let m = Meta::plain(Reg::Fixed(types.clone()));
            let mut good = prefix32(0);
            for p in &parts {
                good.extend_from_slice(p);
            }
            ctx.note(|| format!("hashers {hs:?} types {ids:?} key {}", hex::encode(&good)));
            let st = &mut ctx.stats;
            let value = [1u8, 2];
            let run = |st: &mut Stats, key: &[u8], what: &str, must: Option<bool>| -> Res {
                let c = Case { e: Entry::Storage { entry: e.clone() }, types: types.clone(), data: key, data2: &value, m: m.clone() };
                if let Some((w, r)) = c.check(st, &o, what)? {
                    if let Some(b) = must {
                        if w.is_ok() != b {
                            viol!("HARNESS: reference and construction disagree on {what}: {w:?} for {}", hex::encode(key));
                        }
                    }
                    if o.cards {
                        check_cards(st, &r, false)?;
                    }
                    // the trimmed key, read from position 0, and the key at its own position
                    let want = match &r.o {
                        Ok(Good::Store(k, _, _)) => Ok(k.clone()),
                        Ok(_) => Err(Bad::KeyMismatch),
                        Err(e) => Err(e.clone()),
                    };
                    if key.len() >= 32 {
                        for (d, at) in [(&key[32..], 0usize), (key, 32)] {
                            let got = match guard(|| real_key(&hs, self_key(&e), d, at, &m.reg)) {
                                Ok(g) => g,
                                Err(p) => viol!("process_key_mapped: panic {p}"),
                            };
                            st.traces += 1;
                            let same = match (&got, &want) {
                                (Ok(a), Ok(b)) => a == b,
                                (Err(a), Err(b)) => o.errs == Errs::Any || core::mem::discriminant(a) == core::mem::discriminant(b),
                                _ => false,
                            };
                            if !same {
                                viol!("process_key_mapped at {at}: {got:?}, whole entry: {want:?}\n for key {}", hex::encode(d));
                            }
                        }
                    }
                }
                Ok(())
            };
            run(st, &good, "right key", Some(true))?;
            if o.slim() {
                let mut d = good.clone();
                *d.last_mut().unwrap() ^= 1;
                run(st, &d, "flipped bit", None)?;
                let mut d = good.clone();
                d.get_mut(32).map(|b| *b ^= 0x80);
                run(st, &d, "flipped bit", None)?;
                run(st, &good[..good.len() - 1], "cut key", Some(false))?;
                d = good.clone();
                d.push(0);
                return run(st, &d, "longer key", Some(false));
            }
            for i in 32..good.len() {
                for b in 0..8 {
                    if !bits && b != i % 8 {
                        continue;
                    }
                    let mut d = good.clone();
                    d[i] ^= 1 << b;
                    run(st, &d, "flipped bit", None)?;
                }
            }
            for n in 0..good.len() {
                if n < 30 && n % 8 != 0 {
                    continue;
                }
                run(st, &good[..n], "cut key", Some(false))?;
            }
            for x in [0u8, 0x04, 0xff] {
                let mut d = good.clone();
                d.push(x);
                run(st, &d, "longer key", Some(false))?;
            }
            let mut d = good.clone();
            d.insert(32, 0);
            run(st, &d, "byte inserted", None)?;
            if k > 1 {
                let mut d = prefix32(1);
                for p in parts.iter().rev() {
                    d.extend_from_slice(p);
                }
                run(st, &d, "parts swapped", None)?;
                let mut d = prefix32(1);
                for p in &parts[..k - 1] {
                    d.extend_from_slice(p);
                }
                run(st, &d, "part missing", None)?;
                let mut d = good.clone();
                d.extend_from_slice(&parts[0]);
                run(st, &d, "part doubled", None)?;
            }
            Ok(())
        },
    )
}
fn self_key(e: &StorageEntryMetadata<PortableForm>) -> u32 {
    match &e.ty {
        StorageEntryType::Map { key, .. } => key.id,
        StorageEntryType::Plain(t) => t.id,
    }
}
pub fn real_key(h: &[StorageHasher], key: u32, data: &[u8], at: usize, reg: &Reg) -> Result<Key, Bad> {
    match substrate_parser::storage_data::process_key_mapped::<&[u8], Mem, Meta>(h, &sym(key), &data, &mut Mem::new(), at, reg) {
        Ok(k) => Ok(key_of(&k)),
        Err(e) => Err(sterr(&e)),
    }
}

/// Entry shapes (plain, hashers that do not fit the key type), values of every length.
pub fn storage_shapes(name: &str, o: Opts) -> Scenario {
    let fixed = g_storage();
    Scenario::new(name, "plain and mapped entries, 0..=3 hashers against tuples of 0..=3, non-tuples and unknown key types, value types with exact, cut and longer data, key lengths around the prefix", move |ctx| {
        let mut fixed = fixed.clone();
        let value = *ctx.pick(&[U16, VECU8, UNIT, K_STRUCT, K_ENUM, BOOL, DANGLING, STR]);
        let shape = ctx.choose(3);
        let docs: &[&str] = *ctx.pick(&[&["entry docs", "more"][..], &[][..], &[""][..]]);
        let (e, parts) = if shape == 0 {
            (entry(StorageEntryType::Plain(sym(value)), docs), vec![])
        } else {
            let k = ctx.choose(4);
            let n = ctx.choose(4);
            let h: Vec<StorageHasher> = (0..k).map(|i| if shape == 1 { HASHERS[i].clone() } else { HASHERS[6 - 2 * i].clone() }).collect();
            let kind = ctx.choose(6);
            let key = match kind {
                0 => {
                    fixed.insert(ROOT, ty(&[], &[], tup(&vec![U16; n])));
                    ROOT
                }
                1 => {
                    fixed.insert(ROOT, ty(&["S"], &["d"], comp((0..n).map(|_| fld(None, None, U16)).collect())));
                    ROOT
                }
                2 => {
                    fixed.insert(ROOT, ty(&[], &[], arr(n as u32, U16)));
                    ROOT
                }
                3 => K_OPAQUE,
                4 => U16,
                _ => DANGLING,
            };
            let parts: Vec<Vec<u8>> = h.iter().map(|h| hash_part(h, &if k == 1 && kind < 3 { [7u8, 1].repeat(n) } else { vec![7u8, 1] })).collect();
            (entry(StorageEntryType::Map { hashers: h, key: sym(key), value: sym(value) }, docs), parts)
        };
        let types = frozen(&fixed);
        let m = Meta::plain(Reg::Fixed(types.clone()));
        let mut good = prefix32(0);
        for p in &parts {
            good.extend_from_slice(p);
        }
        let mut keys = vec![good.clone()];
        for n in [0usize, 1, 31, 32] {
            keys.push(good[..n].to_vec());
        }
        keys.push([&good[..], &[0]].concat());
        let mut values: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1], vec![1, 2], vec![4, 7], vec![1, 2, 3], vec![4, 9, 9], vec![8, 1], vec![0, 0], vec![4, 0xff]];
        if o.errs == Errs::Any {
            values.push([&[0x01u8, 0x01][..], &[7u8; 65]].concat());
        }
        let st = &mut ctx.stats;
        for (i, k) in keys.iter().enumerate() {
            for v in &values[..if i == 0 { values.len() } else { 4 }] {
                let c = Case { e: Entry::Storage { entry: e.clone() }, types: types.clone(), data: k, data2: v, m: m.clone() };
                if let Some((_, r)) = c.check(st, &o, "entry")? {
                    if o.cards {
                        check_cards(st, &r, false)?;
                    }
                }
            }
        }
        Ok(())
    })
}
/// Keys whose bytes are chosen when first read (opaque and identity hashers only), any key type.
pub fn storage_lazy(name: &str, branch: usize, o: Opts) -> Scenario {
    let g = Arc::new({
        let mut g = g_structure(true);
        g.back = false;
        g
    });
    Scenario::new(name, format!("identity hashed keys of structural types, {branch} branching bytes, 4 key lengths"), move |ctx| {
        let total = 32 + *ctx.pick(&[1usize, 2, 3, 6]);
        let policy = BytePolicy { single: STRUCT_BYTES.to_vec(), max_branch: branch, wide: 2, dev: false };
        let env = env_of(ctx, &g, &policy, 0);
        let e = entry(StorageEntryType::Map { hashers: vec![StorageHasher::Identity], key: sym(ROOT), value: sym(UNIT) }, &[]);
        let m = Meta::plain(Reg::Lazy(env.clone()));
        let mut o = o.clone();
        o.total = total;
        explore(ctx, &env, Entry::Storage { entry: e }, &m, &o)
    })
}

// ---- unchecked extrinsics ----

const SIG: u32 = 510;
const EXTRA: u32 = 511;
const ADDR: u32 = 512;
pub fn g_unchecked() -> Gen {
    let mut g = g_runtime();
    super::fam2::add_sig_types(&mut g);
    g.add(SIG, ty(&["sp_runtime", "MultiSignature"], &[], vars(vec![var("Ed25519", 0, vec![fld(None, Some("ed25519::Signature"), ARR64)]), var("Sr25519", 1, vec![fld(None, Some("sr25519::Signature"), ARR64)]), var("Ecdsa", 2, vec![fld(None, Some("ecdsa::Signature"), ARR65)])])));
    g.add(EXTRA, ty(&[], &[], tup(&[ERA, NONCE, 513])));
    g.add(513, ty(&["pallet", "ChargeTransactionPayment"], &[], comp(vec![fld(None, Some("BalanceOf<T>"), C_U128)])));
    g.add(ADDR, ty(&["MultiAddress"], &[], vars(vec![var("Id", 0, vec![fld(None, Some("AccountId"), ACC)]), var("Index", 1, vec![fld(None, None, C_U32)])])));
    g
}

/// Extrinsics of all version bytes, lengths and contents.
pub fn unchecked(name: &str, o: Opts) -> Scenario {
    let fixed = g_unchecked().fixed;
    let calls = call_samples();
    Scenario::new(
        name,
        format!("256 version bytes x 7 metadata versions; {} calls x 6 heads x 14 length prefixes x trailing/missing byte, wrong call type, failing metadata answers", calls.len()),
        move |ctx| {
            let types = frozen(&fixed);
            let mut m = runtime_meta(&types);
            m.params = [ADDR, RT, SIG, EXTRA];
            let head = |k: usize| -> Vec<u8> {
                let mut v = Vec::new();
                match k {
                    0 => return v,
                    1 => {
                        v.push(0);
                        v.extend([0x11; 32]);
                        v.push(1);
                        v.extend([0x22; 64]);
                        v.extend([0, 4, 0]);
                    }
                    2 => {
                        v.extend([1, 8, 2]);
                        v.extend([0x33; 65]);
                        v.extend([0x15, 0, 1, 4, 8]);
                    }
                    3 => {
                        v.extend([1, 8, 3]);
                        v.extend([0x33; 65]);
                        v.extend([0, 0, 0]);
                    }
                    4 => v.extend([9, 0]),
                    _ => {
                        v.extend([1, 8, 0]);
                        v.extend([0; 64]);
                        v.extend([0x03, 0, 4]);
                    }
                }
                v
            };
            let mut body = Vec::new();
            let mut pfx = 0;
            if !o.slim() && ctx.flag() {
                // every version byte
                m.ext_version = *ctx.pick(&[4u8, 5, 0, 1, 0x7f, 0x84, 0x80]);
                body.push(ctx.choose(256) as u8);
                body.extend(head(ctx.choose(2)));
                body.extend(&calls[ctx.choose(2) * 4]);
            } else {
                body.push(*ctx.pick(&[0x04u8, 0x84, 0x05]));
                body.extend(head(ctx.choose(6)));
                body.extend(ctx.pick(&calls));
                match ctx.choose(if o.slim() { 1 } else { 4 }) {
                    1 => body.push(0),
                    2 => {
                        body.pop();
                    }
                    3 => body.extend([0u8; 70]),
                    _ => {}
                }
                pfx = ctx.choose(if o.slim() { 2 } else { 14 });
                m.broken = *ctx.pick(&[None, Some(MetaQ::Params), Some(MetaQ::Version)][..if o.slim() { 1 } else { 3 }]);
                m.params = *ctx.pick(&[[ADDR, RT, SIG, EXTRA], [ADDR, 501, SIG, EXTRA], [UNIT, RT, UNIT, UNIT], [SIG, RT, ADDR, EXTRA], [UNIT, U16, UNIT, UNIT]]);
            }
            let n = body.len() as i64;
            let prefix = match pfx {
                0 => enc_compact(n as u128),
                1..=5 => enc_compact([n - 1, n + 1, 0, n + 5, n - 2][pfx - 1].max(0) as u128),
                6..=9 => padded(body.len(), pfx - 5),
                10 => vec![],
                11 => vec![0x03, 0xff, 0xff, 0xff, 0xff],
                12 => vec![0xfe, 0xff, 0xff, 0xff],
                _ => vec![0x01],
            };
            let mut data = prefix;
            data.extend(body);
            ctx.note(|| format!("extrinsic {}", hex::encode(&data)));
            let c = Case { e: Entry::Unchecked, types, data: &data, data2: &[], m };
            if let Some((_, r)) = c.check(&mut ctx.stats, &o, "extrinsic")? {
                if o.cards {
                    check_cards(&mut ctx.stats, &r, false)?;
                }
            }
            Ok(())
        },
    )
}
/// Extrinsics whose bytes are chosen when first read, every total length up to a bound.
pub fn lazy_unchecked(name: &str, branch: usize, o: Opts) -> Scenario {
    let g = Arc::new(g_unchecked());
    Scenario::new(name, format!("total lengths 0..=14, bytes chosen at the first {branch} reads; address, signature and extra of one byte kinds"), move |ctx| {
        let total = ctx.choose(15);
        let fit = (total.max(1) as u8 - 1) << 2;
        let mut single = vec![fit, 0x04, 0x84, 0x00, 0x08, 0x01, 0x02, 0x03];
        single.dedup();
        let params = *ctx.pick(&[[U8, RT, BOOL, C_U32], [VECU8, RT, U16, ERA], [UNIT, RT, UNIT, UNIT]]);
        let policy = BytePolicy { single, max_branch: branch, wide: 2, dev: false };
        let env = env_of(ctx, &g, &policy, 0);
        let mut m = Meta::plain(Reg::Lazy(env.clone()));
        m.params = params;
        let mut o = o.clone();
        o.total = total;
        explore(ctx, &env, Entry::Unchecked, &m, &o)
    })
}

/// Keeps `AddressableBuffer` in scope for `data()` users.
#[allow(dead_code)]
fn _len<B: AddressableBuffer<Mem>>(b: &B) -> usize {
    b.total_len()
}
