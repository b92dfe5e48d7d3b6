//! Families of registries, inputs and entry points, per property.
use super::drive::*;
use super::env::*;
use super::explore::*;
use super::tyb::*;
use alloc::format;
use alloc::sync::Arc;
use alloc::vec;
use alloc::vec::Vec;

pub const U8: u32 = 1;
pub const BOOL: u32 = 2;
pub const U16: u32 = 3;
pub const U32: u32 = 4;
pub const U64: u32 = 5;
pub const U128: u32 = 6;
pub const CHAR: u32 = 7;
pub const STR: u32 = 8;
pub const I8: u32 = 9;
pub const I16: u32 = 10;
pub const I32: u32 = 11;
pub const I64: u32 = 12;
pub const I128: u32 = 13;
pub const U256: u32 = 14;
pub const I256: u32 = 15;
pub const LSB: u32 = 20;
pub const MSB: u32 = 21;
pub const UNIT: u32 = 22;
pub const H256: u32 = 30;
pub const ACC: u32 = 31;
pub const ERA: u32 = 32;
pub const PERBILL: u32 = 33;
pub const PERCENT: u32 = 34;
pub const BYTES32: u32 = 35;
pub const VECU8: u32 = 36;
pub const ARR64: u32 = 37;
pub const ARR65: u32 = 38;

pub fn prims() -> Vec<(u32, Pr)> {
    vec![
        (U8, Pr::U8),
        (BOOL, Pr::Bool),
        (U16, Pr::U16),
        (U32, Pr::U32),
        (U64, Pr::U64),
        (U128, Pr::U128),
        (CHAR, Pr::Char),
        (STR, Pr::Str),
        (I8, Pr::I8),
        (I16, Pr::I16),
        (I32, Pr::I32),
        (I64, Pr::I64),
        (I128, Pr::I128),
        (U256, Pr::U256),
        (I256, Pr::I256),
    ]
}
/// Types available to every family under fixed ids.
pub fn base() -> Gen {
    let mut g = Gen::new();
    for (id, p) in prims() {
        g.add(id, prim(p));
    }
    g.add(LSB, ty(&["bitvec", "order", "Lsb0"], &[], comp(vec![])));
    g.add(MSB, ty(&["bitvec", "order", "Msb0"], &[], comp(vec![])));
    g.add(UNIT, ty(&[], &[], tup(&[])));
    g.add(BYTES32, ty(&[], &[], arr(32, U8)));
    g.add(VECU8, ty(&[], &[], seq(U8)));
    g.add(ARR64, ty(&[], &[], arr(64, U8)));
    g.add(ARR65, ty(&[], &[], arr(65, U8)));
    g.add(H256, ty(&["primitive_types", "H256"], &[], comp(vec![fld(None, Some("[u8; 32]"), BYTES32)])));
    g.add(ACC, ty(&["sp_core", "crypto", "AccountId32"], &[], comp(vec![fld(None, Some("[u8; 32]"), BYTES32)])));
    g.add(ERA, ty(&["sp_runtime", "generic", "era", "Era"], &[], vars(vec![var("Immortal", 0, vec![])])));
    g.add(PERBILL, ty(&["sp_arithmetic", "per_things", "Perbill"], &[], comp(vec![fld(None, Some("u32"), U32)])));
    g.add(PERCENT, ty(&["sp_arithmetic", "per_things", "Percent"], &[], comp(vec![fld(None, Some("u8"), U8)])));
    g
}

pub fn bp(single: &[u8], max_branch: usize, wide: usize) -> BytePolicy {
    BytePolicy { single: single.to_vec(), max_branch, wide, dev: false }
}

/// Exploration of one type family from `decode_as_type_at_position`.
pub fn typed(name: &str, g: Gen, b: BytePolicy, nodes: usize, o: Opts) -> Scenario {
    let bound = format!("{} container shapes, {} leaf types, up to {} containers, {} bytes values {:?} in the first {} reads", g.templates.len(), g.kids.len(), nodes + 1, b.single.len(), b.single, b.max_branch);
    let g = Arc::new(g);
    Scenario::new(name, bound, move |ctx| {
        let env = env_of(ctx, &g, &b, nodes);
        let m = Meta::plain(Reg::Lazy(env.clone()));
        explore(ctx, &env, Entry::Type { id: ROOT, start: 0 }, &m, &o)
    })
}

// ---- container templates ----

pub fn t_comp(g: &mut Gen, n: usize, named: bool) {
    const NAMES: [&str; 4] = ["a", "b", "c", "d"];
    g.tpl(move |c, k| {
        let f = (0..n).map(|i| fld(named.then(|| NAMES[i]), Some(["TA", "TB", "TC", "TD"][i]), k.pick(c))).collect();
        ty(&["m", "S"], &[], comp(f))
    });
}
pub fn t_tup(g: &mut Gen, n: usize) {
    g.tpl(move |c, k| {
        let ids: Vec<u32> = (0..n).map(|_| k.pick(c)).collect();
        ty(&[], &[], tup(&ids))
    });
}
pub fn t_seq(g: &mut Gen) {
    g.tpl(|c, k| ty(&[], &[], seq(k.pick(c))));
}
pub fn t_arr(g: &mut Gen, n: u32) {
    g.tpl(move |c, k| ty(&[], &[], arr(n, k.pick(c))));
}
pub fn t_compact(g: &mut Gen) {
    g.tpl(|c, k| ty(&[], &[], compact(k.pick(c))));
}
pub fn t_empty_enum(g: &mut Gen) {
    g.tpl(|_, _| ty(&["m", "Void"], &[], vars(vec![])));
}
/// Variants out of index order, with gaps: 3 -> one field, 0 -> none, 1 -> two fields.
pub fn t_enum(g: &mut Gen) {
    g.tpl(|c, k| {
        ty(
            &["m", "E"],
            &[],
            vars(vec![
                var("Three", 3, vec![fld(None, Some("TX"), k.pick(c))]),
                var("Zero", 0, vec![]),
                var("One", 1, vec![fld(Some("x"), None, k.pick(c)), fld(Some("y"), Some("TY"), k.pick(c))]),
                var("Last", 255, vec![fld(Some("z"), None, k.pick(c))]),
            ]),
        )
    });
}
pub fn t_option(g: &mut Gen) {
    g.tpl(|c, k| ty(&["Option"], &[], vars(vec![var("None", 0, vec![]), var("Some", 1, vec![fld(None, None, k.pick(c))])])));
}
pub fn t_result(g: &mut Gen) {
    g.tpl(|c, k| ty(&["Result"], &[], vars(vec![var("Ok", 0, vec![fld(None, None, k.pick(c))]), var("Err", 1, vec![fld(None, None, k.pick(c))])])));
}
pub fn t_bits(g: &mut Gen) {
    for (s, o) in [(U8, LSB), (U16, MSB), (U32, LSB), (U64, MSB)] {
        g.tpl(move |_, _| ty(&[], &[], bitseq(s, o)));
    }
}

pub const STRUCT_BYTES: [u8; 7] = [0x04, 0x00, 0x01, 0x08, 0x03, 0xff, 0x02];

/// All container shapes over a few leaves.
pub fn g_structure(late: bool) -> Gen {
    let mut g = base();
    g.late = late;
    g.kids = vec![U8, BOOL, U32];
    t_comp(&mut g, 2, true);
    t_comp(&mut g, 1, false);
    t_comp(&mut g, 3, false);
    t_comp(&mut g, 0, true);
    t_tup(&mut g, 2);
    t_tup(&mut g, 1);
    t_tup(&mut g, 0);
    t_seq(&mut g);
    t_arr(&mut g, 2);
    t_arr(&mut g, 0);
    t_arr(&mut g, 1);
    t_enum(&mut g);
    t_option(&mut g);
    t_empty_enum(&mut g);
    t_compact(&mut g);
    t_bits(&mut g);
    g
}
/// Every primitive in every one-level container.
pub fn g_prims() -> Gen {
    let mut g = base();
    g.kids = prims().iter().map(|p| p.0).collect();
    g.kids.extend([H256, ACC, ERA, PERBILL, PERCENT, UNIT, LSB]);
    t_comp(&mut g, 1, true);
    t_comp(&mut g, 2, false);
    t_tup(&mut g, 1);
    t_tup(&mut g, 2);
    t_seq(&mut g);
    t_arr(&mut g, 2);
    t_compact(&mut g);
    t_option(&mut g);
    t_enum(&mut g);
    g
}

