//! Pairs of carriers: every extension that tells version, genesis hash, block hash or era, with every other one.
use super::drive::*;
use super::env::*;
use super::explore::*;
use super::fam::*;
use super::fam3::*;
use super::refdec::*;
use super::tyb::*;
use alloc::format;
use alloc::string::ToString;
use alloc::vec;
use alloc::vec::Vec;

/// Every ordered pair of carriers, completed or not to what a transaction needs.
pub fn ext_pairs(name: &str, thorough: bool, o: Opts) -> Scenario {
    let mut g = g_ext().fixed;
    let one = |n: Option<&'static str>, tn: Option<&'static str>, id: u32| ty(&["x", "Ext"], &[], comp(vec![fld(n, tn, id)]));
    let mut next = 6000;
    let mut add = |t: T| {
        next += 1;
        g.insert(next, t);
        next
    };
    let numbers: [(u32, usize); 5] = [(U8, 1), (U16, 2), (U32, 4), (U64, 8), (U128, 16)];
    // identifier, type, right and other contents
    let mut all: Vec<(&'static str, u32, [Vec<u8>; 2])> = Vec::new();
    for (id, w) in numbers {
        let num = |k: u8| {
            let mut v = vec![0u8; w];
            v[0] = k;
            v
        };
        let pressed = |k: u8| vec![k << 2];
        let c = add(ty(&[], &[], compact(id)));
        let wrapped = add(one(None, None, id));
        let named = add(one(Some("spec_version"), None, id));
        all.push(("CheckSpecVersion", id, [num(9), num(8)]));
        all.push(("CheckSpecVersion", wrapped, [num(9), num(8)]));
        all.push(("Other", named, [num(9), num(8)]));
        all.push(("CheckSpecVersion", c, [pressed(9), pressed(8)]));
        if thorough {
            let c_named = add(one(Some("spec_version"), None, c));
            let deep = add(one(None, None, wrapped));
            let tuple = add(ty(&[], &[], tup(&[id])));
            all.push(("Other", c_named, [pressed(9), pressed(8)]));
            all.push(("CheckSpecVersion", deep, [num(9), num(8)]));
            all.push(("CheckSpecVersion", tuple, [num(9), num(8)]));
            all.push(("CheckNonce", id, [num(9), num(8)]));
        }
    }
    for (ident, name) in [("CheckGenesis", "genesis_hash"), ("CheckMortality", "block_hash")] {
        let wrapped = add(one(None, None, H256));
        let named = add(one(Some(name), None, H256));
        let deep = add(one(None, None, wrapped));
        for id in [H256, wrapped, deep] {
            all.push((ident, id, [vec![5; 32], vec![6; 32]]));
        }
        all.push(("Other", named, [vec![5; 32], vec![6; 32]]));
    }
    let (era_w, era_deep) = {
        let w = add(one(None, None, ERA));
        (w, add(one(None, None, w)))
    };
    for id in [ERA, era_w, era_deep] {
        all.push(("CheckMortality", id, [vec![0], vec![0x15, 0]]));
    }
    all.push(("Other", ERA, [vec![0], vec![0x15, 0]]));
    Scenario::new(name, format!("all ordered pairs out of {} extensions that tell a version (5 widths, compact, wrapped, named), a genesis hash, a block hash or an era, each included or additional, right and other values, before, after or around none, one or both of a usual version and genesis hash", all.len()), move |ctx| {
        let a = ctx.choose(all.len());
        let b = ctx.choose(all.len());
        ctx.note(|| format!("{:?} and {:?}", all[a], all[b]));
        let types = frozen(&g);
        let st = &mut ctx.stats;
        for bits in 0..64usize {
            let (ai, bi, av, bv) = (bits & 1 > 0, bits & 2 > 0, bits >> 2 & 1, bits >> 3 & 1);
            let mut usual: Vec<(&str, u32, bool, &[u8])> = Vec::new();
            if bits & 16 > 0 {
                usual.push(("CheckSpecVersion", U32, false, &[9, 0, 0, 0]));
            }
            if bits & 32 > 0 {
                usual.push(("CheckGenesis", H256, false, &[5; 32]));
            }
            let x = (all[a].0, all[a].1, ai, &all[a].2[av][..]);
            let y = (all[b].0, all[b].1, bi, &all[b].2[bv][..]);
            for place in 0..if usual.is_empty() { 1 } else { 3 } {
                let mut list = usual.clone();
                match place {
                    0 => list.extend([x, y]),
                    1 => drop(list.splice(0..0, [x, y])),
                    _ => {
                        list.insert(0, x);
                        list.push(y);
                    }
                }
                let mut m = Meta::plain(Reg::Fixed(types.clone()));
                m.version = "9".into();
                m.exts = list.iter().map(|e| (e.0.to_string(), if e.2 { e.1 } else { UNIT }, if e.2 { UNIT } else { e.1 })).collect();
                let mut d: Vec<u8> = list.iter().filter(|e| e.2).flat_map(|e| e.3.to_vec()).collect();
                d.extend(list.iter().filter(|e| !e.2).flat_map(|e| e.3.to_vec()));
                let genesis = if bits & 1 > 0 { Some([5; 32]) } else { None };
                Case { e: Entry::Ext { start: 0, genesis }, types: types.clone(), data: &d, data2: &[], m }.check(st, &o, "pair")?;
            }
        }
        Ok(())
    })
}
