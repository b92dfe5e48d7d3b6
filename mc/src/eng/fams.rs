//! Which families decide which property, with which options and bounds.
use super::drive::*;
use super::explore::*;
use super::fam::*;
use super::fam2::*;
use super::fam3::*;
use super::fam4::*;
use super::fam5::*;
use super::fam6::*;
#[cfg(feature = "host")]
use super::fam7::*;
use super::fam8::*;
use super::fam10::*;
use super::fam11::*;
use super::fam12::*;
use super::fam13::*;
use super::fam9::*;
use super::refdec::*;
use alloc::format;
use alloc::vec;
use alloc::vec::Vec;

fn opts(proj: Proj, errs: Errs) -> Opts {
    Opts::new(proj, errs)
}
fn value() -> Opts {
    opts(VALUE, Errs::Any)
}
fn with(mut o: Opts, f: impl FnOnce(&mut Opts)) -> Opts {
    f(&mut o);
    o
}
#[cfg(feature = "host")]
const ALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
#[cfg(feature = "host")]
const FEW: &[usize] = &[0, 5];
#[cfg(feature = "host")]
const V15S: &[usize] = &[2];
#[cfg(feature = "host")]
const COMPLETE: &[usize] = &[1, 2, 3, 4, 5, 6, 8, 9];
const DECIMALS: [u8; 44] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 100, 254, 255];
const PRIM_BYTES: [u8; 9] = [0x08, 0x00, 0x01, 0xff, 0x04, 0x03, 0x02, 0x80, 0xc3];

/// Broad structural families; `size` 0 smallest to 4 largest.
pub fn structure(tag: &str, o: &Opts, size: usize) -> Vec<Scenario> {
    let mut v = Vec::new();
    let mut g = g_structure(true);
    g.back = true;
    g.dangle = true;
    if size == 0 {
        g.kids = vec![U8, U32];
    }
    let (n, reads) = [(3, 2), (7, 2), (7, 3), (7, 4), (7, 6)][size];
    v.push(typed(&format!("{tag}/shapes-2"), g, bp(&STRUCT_BYTES[..n], reads, 3), 1, o.clone()));
    if size >= 2 {
        let mut g = g_structure(true);
        g.kids = vec![U8, U32];
        g.back = true;
        let (a, reads): (&[u8], _) = [(&[0x04u8, 0x01][..], 1), (&[0x04, 0x01][..], 1), (&[0x04, 0x01][..], 1), (&[0x04, 0x00, 0x01][..], 2), (&STRUCT_BYTES[..5], 3)][size];
        v.push(typed(&format!("{tag}/shapes-3"), g, bp(a, reads, 2), 2, o.clone()));
    }
    v
}
pub fn primitives(tag: &str, o: &Opts, size: usize) -> Vec<Scenario> {
    let mut g = g_prims();
    g.dangle = true;
    let (n, reads, wide, nodes) = [(5, 2, 4, 0), (5, 1, 3, 1), (5, 2, 3, 1), (9, 3, 5, 1), (9, 4, 6, 1)][size];
    let mut v = vec![typed(&format!("{tag}/primitives"), g, bp(&PRIM_BYTES[..n], reads, wide), nodes, o.clone())];
    if nodes > 0 {
        v.push(typed(&format!("{tag}/primitives-1"), g_prims(), bp(&PRIM_BYTES, reads + 1, 6), 0, o.clone()));
    }
    v
}
pub fn special(tag: &str, o: &Opts, size: usize, near: bool) -> Vec<Scenario> {
    let (n, reads, wide) = [(3, 2, 2), (5, 3, 4), (6, 4, 5), (7, 5, 6), (7, 6, 6)][size];
    vec![
        typed(&format!("{tag}/paths"), g_special(near), bp(&[0x04, 0x00, 0x01, 0x08, 0x85, 0xff, 0x03][..n], reads, wide), 1, o.clone()),
        typed(&format!("{tag}/multisignature"), g_multisig(), bp(&[0x01, 0x00, 0xc8, 0x07, 0x03][..n.min(5)], reads.min(3), wide), 0, o.clone()),
    ]
}
pub fn items(tag: &str, o: &Opts, size: usize) -> Vec<Scenario> {
    let reads = [2, 3, 4, 5, 6][size];
    let batch = [4, 6, 9, 11, 13][size];
    vec![
        typed(&format!("{tag}/calls-events"), g_items(), bp(&[0x00, 0x05, 0x01, 0x02, 0x09, 0x03], reads, 2), 0, o.clone()),
        typed(&format!("{tag}/nested-calls"), g_batch(), bp(&[0x04, 0x00, 0x01, 0x08, 0x09, 0x02], batch, 2), 0, o.clone()),
    ]
}
pub fn hints(tag: &str, o: &Opts, size: usize) -> Vec<Scenario> {
    let few_names: &[Option<&str>] = &NAMES[..4];
    let few_types: &[Option<&str>] = &TYPE_NAMES[..2];
    let (a, b, c, d) = [(3, 0, 0, 0), (3, 1, 0, 0), (9, 1, 0, 0), (9, 1, 1, 1), (9, 2, 1, 1)][size];
    let mut v = vec![
        typed(&format!("{tag}/names-type"), g_hints(&NAMES, &TYPE_NAMES, a), bp(&[0x04, 0x00], 1, 1), b, o.clone()),
        hinted_ext(&format!("{tag}/names-extension"), g_hints(&NAMES, &TYPE_NAMES, a), bp(&[0x04, 0x00], 1, 1), c, with(o.clone(), |o| o.fit = true)),
        hinted_ext(&format!("{tag}/names-extension-2"), g_hints(few_names, few_types, 4), bp(&[0x04], 0, 1), 1.min(size) + d, with(o.clone(), |o| o.fit = true)),
    ];
    if size > 1 {
        v.push(typed(&format!("{tag}/names-type-3"), g_hints(few_names, few_types, 4), bp(&[0x04], 0, 1), 2, o.clone()));
    }
    v
}
pub fn compactness(tag: &str, o: &Opts, size: usize) -> Vec<Scenario> {
    let (n, reads, nodes) = [(2, 1, 1), (4, 1, 1), (6, 3, 1), (2, 1, 2), (4, 2, 2)][size];
    let bytes = &[0x04, 0xfd, 0x00, 0x03, 0x01, 0x02][..n];
    let mut v = vec![typed(&format!("{tag}/compact-nesting"), g_compact(), bp(bytes, reads, 2), nodes, o.clone())];
    if size > 0 {
        let mut g = g_compact();
        g.kids = vec![U8, U128, PERBILL, BOOL, 69, H256, 65];
        v.push(typed(&format!("{tag}/compact-nesting-few"), g, bp(&bytes[..2], 1, 1), [0, 2, 2, 3, 3][size], o.clone()));
    }
    v
}
pub fn docs(tag: &str, o: &Opts, size: usize) -> Vec<Scenario> {
    vec![typed(&format!("{tag}/docs"), g_docs(), bp(&[0x04, 0x00, 0x08], [0, 1, 1, 2, 2][size], 1), [0, 1, 1, 1, 2][size], o.clone())]
}
pub fn seqs(tag: &str, o: &Opts, size: usize) -> Vec<Scenario> {
    let (n, reads) = [(3, 2), (4, 3), (6, 3), (7, 5), (7, 6)][size];
    let mut v = vec![typed(&format!("{tag}/elements"), g_seq(), bp(&[0x04, 0x00, 0x08, 0x0c, 0x01, 0x10, 0xff][..n], reads, 3), 1, o.clone())];
    if size > 1 {
        v.push(typed(&format!("{tag}/elements-3"), g_seq(), bp(&[0x04, 0x00, 0x08], 3, 2), 2, o.clone()));
    }
    v
}
pub fn cycles(tag: &str, o: &Opts, size: usize) -> Vec<Scenario> {
    vec![
        typed(&format!("{tag}/graphs"), g_cycles(), bp(&[0x04, 0x00, 0x01, 0x08][..[2, 3, 3, 3, 4][size]], [2, 3, 3, 4, 5][size], 1), [1, 1, 2, 2, 3][size], o.clone()),
        deep(&format!("{tag}/deep"), [20, 40, 60, 200, 400][size], o.clone()),
    ]
}
pub fn bits(tag: &str, o: &Opts, size: usize) -> Vec<Scenario> {
    vec![
        bits_scn(&format!("{tag}/bits"), [24, 70, 200, 600, 2100][size], [8, 20, 80, 200, 520][size], o.clone()),
        bits_wrong(&format!("{tag}/bit-types"), o.clone()),
    ]
}
/// Everything that starts from a type.
pub fn all_types(tag: &str, o: &Opts, size: usize) -> Vec<Scenario> {
    let mut v = structure(tag, o, size);
    v.extend(primitives(tag, o, size));
    v.extend(special(tag, o, size, size > 2));
    v.extend(items(tag, o, size));
    v.extend(seqs(tag, o, size));
    v.extend(compactness(tag, o, size));
    v.extend(cycles(tag, o, size));
    v.extend(bits(tag, o, size));
    v
}

pub fn scenarios(prop: &str, thorough: bool) -> Vec<Scenario> {
    let t = thorough as usize;
    let z = |quick: usize, deep: usize| if thorough { deep } else { quick };
    let value_info = Proj { info: true, ..VALUE };
    let value_hint = Proj { hint: true, ..VALUE };
    match prop {
        "P01" => {
            let o = with(value(), |o| {
                o.exact = true;
                o.cuts = true;
                o.shift = true;
            });
            let mut v = all_types("P01", &o, z(1, 3));
            v.push(field_sets("P01/field-sets", z(2, 3), thorough, value()));
            v.push(inside("P01/inside-compacts", compacts, z(0, 6), value()));
            v.push(inside("P01/inside-bits", bit_lists, z(0, 4), value()));
            v.push(inside("P01/inside-values", finals, z(4, 30), value()));
            v.push(inside("P01/inside-eras", eras, z(4, 30), value()));
            v.push(bit_orders("P01/bit-orders", value()));
            v.push(long_texts("P01/long-texts", z(70, 300), z(8_193, 524_287), value()));
            v.push(very_long("P01/very-long", if thorough { &[5_000, 9_999, 70_001, 300_000] } else { &[9_999, 70_001] }, value()));
            let o = value();
            v.push(wide("P01/wide", z(1, 3), o.clone()));
            v.push(nested_lists("P01/nested-lists", z(1, 3), o.clone()));
            v.push(long("P01/long", z(17_000, 300_000), z(70_000, 2_100_000), o.clone()));
            v.push(texts("P01/texts", z(3, 5), o.clone()));
            v.push(many_variants("P01/many-variants", z(1, 2), o.clone()));
            v.push(border_texts("P01/border-texts", z(1, 2), o.clone()));
            v.push(rings("P01/rings", z(33, 300), o.clone()));
            v.push(big("P01/big", z(0, 2), o));
            v.push(all_chars("P01/characters", z(1, 2), value()));
            v.push(far("P01/far", z(0, 2), value()));
            v.push(number_bytes("P01/number-bytes", z(0, 1), value()));
            v.push(followed("P01/followed", value()));
            v.push(composed("P01/composed", 3, z(22, 30), z(6, 12), &[Place::Blob], value()));
            v.push(composed("P01/composed-2", 2, 30, 24, &[Place::Blob], value()));
            v.push(odd_texts("P01/odd-texts", value()));
            v.push(numbered("P01/numbered", z(1, 2), value()));
            v.push(positions("P01/positions", z(1, 2), value()));
            v.push(stacks("P01/stacks", z(40, 70), z(130, 260), value()));
            v.push(many_members("P01/many-members", z(70, 300), z(257, 4097), value()));
            #[cfg(feature = "host")]
            {
                v.push(real_types("P01/chains", if thorough { ALL } else { FEW }, 1, with(value(), |o| o.exact = true)));
            }
            v
        }
        "P04" => {
            let o = opts(VALUE, Errs::Kind);
            let mut v = vec![ext_lists("P04/lists", 3, 12, o.clone()), ext_lists("P04/lists-2", 2, 30, o.clone())];
            if thorough {
                v.push(ext_lists("P04/lists-4", 4, 10, o.clone()));
                v.push(ext_lists("P04/lists-3", 3, 30, o.clone()));
            }
            v.push(wide_lists("P04/wide-lists", z(1, 2), o.clone()));
            v.push(version_pairs("P04/version-pairs", z(1, 2), o.clone()));
            v.push(hash_pairs("P04/hash-pairs", o.clone()));
            v.push(era_products("P04/era-products", thorough, o.clone()));
            v.push(ext_pairs("P04/pairs", thorough, o.clone()));
            v.push(composed("P04/composed", 2, z(20, 30), z(4, 24), &[Place::Included, Place::Additional], o.clone()));
            v.push(odd_texts("P04/odd-texts", o.clone()));
            v.push(many_exts("P04/many-extensions", z(40, 70), z(130, 1025), o.clone()));
            #[cfg(feature = "host")]
            v.push(real_transactions("P04/chains", if thorough { ALL } else { V15S }, 1, o));
            v
        }
        "P05" => {
            let o = opts(FULL, Errs::Kind);
            #[allow(unused_mut)]
            let mut v = vec![transactions("P05/assembled", o.clone()), many_exts("P05/many-extensions", z(24, 70), z(65, 1025), o.clone()), left_counts("P05/left-counts", z(40, 300), z(65_537, 300_000), with(o.clone(), |o| o.tail = true)), large_calls("P05/large-calls", z(1, 2), o.clone()), call_lengths("P05/call-lengths", z(0, 2), o.clone()), composed("P05/composed", 2 + t, 30, z(6, 6), &[Place::Argument], o.clone()), lazy_transactions("P05/lazy", 7 + t, o.clone())];
            #[cfg(feature = "host")]
            v.push(real_transactions("P05/chains", if thorough { ALL } else { FEW }, 1, o));
            v
        }
        "P09" => {
            let o = opts(FULL, Errs::Kind);
            let mut v = vec![
                storage_keys("P09/keys-1", 1, 8, true, o.clone()),
                storage_keys("P09/keys-2", 2, 8, false, o.clone()),
                storage_shapes("P09/shapes", o.clone()),
                storage_lazy("P09/lazy", 3 + t, o.clone()),
            ];
            v.push(storage_keys("P09/keys-3", 3, if thorough { 5 } else { 2 }, thorough, o.clone()));
            v.push(wide_lists("P09/wide-lists", z(1, 2), o.clone()));
            v.push(key_places("P09/key-places", o.clone()));
            v.push(odd_texts("P09/odd-texts", o.clone()));
            v.push(key_sizes("P09/key-sizes", z(1, 2), o.clone()));
            v.push(plain_keys("P09/plain-keys", z(0, 2), o.clone()));
            v.push(many_parts("P09/many-parts", z(20, 40), z(65, 257), o.clone()));
            v.push(left_counts("P09/left-counts", z(40, 300), z(65_537, 300_000), with(o.clone(), |o| o.tail = true)));
            v.push(composed("P09/composed", 2, 30, z(4, 24), &[Place::Value, Place::Key], o.clone()));
            #[cfg(feature = "host")]
            v.push(real_storage("P09/chains", if thorough { ALL } else { FEW }, 1, o));
            v
        }
        "P10" => {
            let o = with(opts(FULL, Errs::Any), |o| o.tail = true);
            #[allow(unused_mut)]
            let mut v = vec![unchecked("P10/assembled", o.clone()), left_counts("P10/left-counts", z(40, 300), z(65_537, 300_000), o.clone()), unchecked_parts("P10/parts", z(1, 2), o.clone()), composed("P10/composed", 2, 30, z(8, 24), &[Place::Signer], o.clone()), lazy_unchecked("P10/lazy", 6 + t, o.clone()), large_unchecked("P10/large", z(0, 2), o.clone())];
            #[cfg(feature = "host")]
            v.push(real_unchecked("P10/chains", if thorough { COMPLETE } else { FEW }, 1, o));
            v
        }
        "P02" => {
            let o = with(value(), |o| o.exact = true);
            let mut v = structure("P02", &o, z(1, 3));
            v.extend(special("P02", &o, z(1, 3), false));
            v.extend(items("P02", &o, z(1, 3)));
            v.extend(seqs("P02", &o, z(1, 3)));
            v.extend(cycles("P02", &o, z(1, 3)));
            let o = opts(VALUE, Errs::Any);
            v.push(wide("P02/wide", z(1, 3), o.clone()));
            v.push(nested_lists("P02/nested-lists", z(1, 3), o.clone()));
            v.push(long("P02/long", z(17_000, 300_000), z(70_000, 2_100_000), o.clone()));
            v.push(leftover("P02/left-over", o.clone()));
            v.push(large_unchecked("P02/large-unchecked", z(0, 2), o.clone()));
            v.push(plain_keys("P02/plain-keys", z(0, 2), o.clone()));
            v.push(inside("P02/inside-values", finals, z(0, 4), o.clone()));
            v.push(wide_lists("P02/wide-lists", z(1, 2), o.clone()));
            v.push(ext_lists("P02/lists", 2 + t, 12, with(o.clone(), |o| o.exact = true)));
            v.push(transactions("P02/transactions", o.clone()));
            v.push(lazy_transactions("P02/transactions-lazy", 6 + t, o.clone()));
            v.push(storage_keys("P02/storage-1", 1, 8, true, o.clone()));
            v.push(storage_keys("P02/storage-2", 2, 3 + 5 * t, false, o.clone()));
            v.push(storage_shapes("P02/storage-shapes", o.clone()));
            v.push(storage_lazy("P02/storage-lazy", 3, o.clone()));
            let o = with(o, |o| o.tail = true);
            v.push(unchecked("P02/unchecked", o.clone()));
            v.push(lazy_unchecked("P02/unchecked-lazy", 5 + t, o));
            v.push(cut_calls("P02/cut-calls", value()));
            v.push(followed("P02/followed", value()));
            v.push(composed("P02/composed", 2, 30, z(8, 24), &[Place::Blob], value()));
            v.push(composed("P02/composed-places", 1 + t, z(30, 16), z(24, 8), &PLACES, value()));
            v.push(call_lengths("P02/call-lengths", z(0, 1), value()));
            v.push(many_exts("P02/many-extensions", z(12, 70), z(65, 260), value()));
            v.push(many_parts("P02/many-parts", z(12, 40), z(33, 129), value()));
            v.push(left_counts("P02/left-counts", z(40, 300), z(65_537, 300_000), with(value(), |o| o.tail = true)));
            v.push(key_places("P02/key-places", value()));
            v.push(key_sizes("P02/key-sizes", z(0, 1), value()));
            #[cfg(feature = "host")]
            {
                let o = with(value(), |o| o.exact = true);
                v.push(real_types("P02/chains", if thorough { ALL } else { FEW }, 1, o.clone()));
                v.push(real_transactions("P02/chains-transactions", FEW, z(0, 1) as u32, o.clone()));
                v.push(real_storage("P02/chains-storage", FEW, z(0, 1) as u32, o));
            }
            v
        }
        "P03" => {
            let o = with(value(), |o| {
                o.base = false;
                o.cards = true;
                o.memory = true;
            });
            let mut v = vec![wild_starts("P03/starts", with(o.clone(), |o| o.cards = false)), wild_graphs("P03/graphs", 1 + t, 2 + 2 * t, o.clone()), wild_meta("P03/metadata", o.clone())];
            v.push(bit_orders("P03/bit-orders", o.clone()));
            v.push(field_sets("P03/field-sets", 2, thorough, o.clone()));
            v.push(very_long("P03/very-long", if thorough { &[5_000, 9_999, 70_001, 300_000] } else { &[9_999, 70_001] }, with(o.clone(), |o| o.cards = false)));
            #[cfg(feature = "host")]
            v.push(probes("P03/probes"));
            v.extend(all_types("P03", &with(o.clone(), |o| (o.cuts, o.cards) = (true, false)), z(0, 2)));
            v.extend(structure("P03/cards", &o, z(0, 2)));
            v.push(ext_lists("P03/lists", 2, 12 + 18 * t, o.clone()));
            v.push(transactions("P03/transactions", o.clone()));
            v.push(lazy_transactions("P03/transactions-lazy", 5 + t, o.clone()));
            v.push(storage_shapes("P03/storage-shapes", o.clone()));
            v.push(storage_lazy("P03/storage-lazy", 3, o.clone()));
            v.push(lazy_unchecked("P03/unchecked-lazy", 5 + t, o.clone()));
            v.push(wide("P03/wide", z(0, 2), o.clone()));
            v.push(wide_lists("P03/wide-lists", z(0, 2), o.clone()));
            v.push(texts("P03/texts", z(3, 5), o.clone()));
            v.push(long("P03/long", z(5_000, 70_000), z(5_000, 600_000), o.clone()));
            v.push(compact_numbers("P03/compact", 0, o.clone()));
            v.push(compact_bytes("P03/compact-bytes", t, with(o, |o| o.cards = false)));
            v.push(far("P03/far", z(0, 2), with(value(), |o| o.base = false)));
            v.push(misplaced("P03/misplaced", 1 + t, with(value(), |o| o.base = false)));
            v.push(long_docs("P03/long-docs", z(0, 2), with(value(), |o| (o.base, o.cards) = (false, true))));
            v.push(key_places("P03/key-places", with(value(), |o| o.base = false)));
            v.push(odd_texts("P03/odd-texts", with(value(), |o| (o.base, o.cards) = (false, true))));
            v.push(numbered("P03/numbered", z(0, 1), with(value(), |o| o.base = false)));
            v.push(composed("P03/composed", 2, 30, z(4, 24), &[Place::Blob], with(value(), |o| (o.base, o.cards, o.memory) = (false, true, true))));
            v.push(call_lengths("P03/call-lengths", z(0, 2), with(value(), |o| o.base = false)));
            #[cfg(feature = "host")]
            {
                let o = with(value(), |o| {
                    o.base = false;
                    o.cards = true;
                    o.memory = true;
                });
                v.push(real_types("P03/chains", if thorough { ALL } else { FEW }, z(0, 1) as u32, with(o.clone(), |o| o.cuts = true)));
                v.push(real_transactions("P03/chains-transactions", V15S, z(0, 1) as u32, o.clone()));
            }
            v
        }
        "P11" => vec![balances("P11/numbers", thorough), balances_shown("P11/shown"), balance_values("P11/values", z(1, 2)), balance_units("P11/units")],
        "P12" => {
            let o = with(value(), |o| {
                o.base = false;
                o.cards = true;
            });
            let mut v = structure("P12", &o, z(1, 3));
            v.push(field_sets("P12/field-sets", 2, thorough, o.clone()));
            v.push(bit_orders("P12/bit-orders", o.clone()));
            v.push(many_items("P12/many-items", z(2, 3), with(o.clone(), |o| o.base = true)));
            v.push(long_texts("P12/long-texts", z(70, 300), z(65_537, 524_287), o.clone()));
            v.push(very_long("P12/very-long", if thorough { &[5_000, 9_999, 70_001] } else { &[17_001] }, o.clone()));
            v.extend(primitives("P12", &o, z(0, 2)));
            v.extend(special("P12", &o, z(1, 3), false));
            v.extend(items("P12", &o, z(1, 3)));
            v.extend(hints("P12", &o, z(1, 3)));
            v.extend(docs("P12", &o, z(1, 3)));
            v.push(composed("P12/composed", 2, 30, z(12, 24), &[Place::Blob], o.clone()));
            v.push(composed("P12/composed-3", 3, z(11, 30), z(3, 6), &[Place::Blob], o.clone()));
            v.push(composed("P12/composed-places", 1 + t, 30, z(12, 8), &[Place::Included, Place::Additional, Place::Argument], o.clone()));
            v.push(odd_texts("P12/odd-texts", o.clone()));
            v.push(numbered("P12/numbered", z(0, 1), o.clone()));
            v.extend(seqs("P12", &o, z(1, 3)));
            v.extend(bits("P12", &o, z(1, 3)));
            v.push(transactions("P12/transactions", o.clone()));
            v.push(lazy_transactions("P12/transactions-lazy", 5 + t, o.clone()));
            v.push(storage_keys("P12/storage", 2, 3, false, o.clone()));
            v.push(wide("P12/wide", z(0, 2), o.clone()));
            v.push(nested_lists("P12/nested-lists", z(0, 2), o.clone()));
            v.push(wide_lists("P12/wide-lists", z(1, 2), o.clone()));
            v.push(texts("P12/texts", z(2, 4), o.clone()));
            v.push(many_variants("P12/many-variants", z(0, 2), o.clone()));
            v.push(big("P12/big", z(1, 2), o.clone()));
            v.push(deep("P12/deep", z(100, 400), o.clone()));
            v.push(pallets("P12/pallets", o.clone()));
            v.push(equal_exts("P12/equal-extensions", o.clone()));
            v.push(networks("P12/networks", z(0, 1)));
            v.push(many_members("P12/many-members", z(40, 300), z(129, 1025), o.clone()));
            v.push(many_exts("P12/many-extensions", z(12, 70), z(65, 260), o.clone()));
            v.push(stacks("P12/stacks", z(9, 33), z(17, 65), o.clone()));
            v.push(border_texts("P12/border-texts", z(1, 2), o.clone()));
            v.push(lazy_unchecked("P12/unchecked-lazy", 5 + t, o));
            let shown = with(value(), |o| {
                o.base = false;
                o.cards = true;
            });
            v.push(all_chars("P12/characters", z(0, 2), shown.clone()));
            v.push(cut_calls("P12/cut-calls", shown.clone()));
            v.push(number_bytes("P12/number-bytes", z(0, 1), shown.clone()));
            v.push(long_docs("P12/long-docs", z(1, 2), shown));
            #[cfg(feature = "host")]
            {
                let o = with(value(), |o| {
                    o.base = false;
                    o.cards = true;
                });
                v.push(real_types("P12/chains", if thorough { ALL } else { FEW }, z(0, 1) as u32, o.clone()));
                v.push(real_transactions("P12/chains-transactions", FEW, z(0, 1) as u32, o));
            }
            v
        }
        "P13" => {
            let o = with(opts(FULL, Errs::Exact), |o| {
                o.base = false;
                o.paged = true;
                o.fill = true;
                o.cuts = true;
            });
            let mut v = all_types("P13", &o, z(0, 2));
            v.push(field_sets("P13/field-sets", 2, false, o.clone()));
            v.push(large_unchecked("P13/large-unchecked", 0, with(opts(FULL, Errs::Exact), |o| (o.base, o.paged) = (false, true))));
            v.push(inside("P13/inside-eras", eras, 0, with(opts(FULL, Errs::Exact), |o| (o.base, o.paged, o.fill) = (false, true, true))));
            v.push(inside("P13/inside-values", finals, 0, with(opts(FULL, Errs::Exact), |o| (o.base, o.paged, o.fill) = (false, true, true))));
            v.push(very_long("P13/very-long", if thorough { &[5_000, 9_999, 70_001] } else { &[17_001] }, with(o.clone(), |o| (o.cuts, o.fill) = (false, false))));
            v.push(ext_lists("P13/lists", 2, 12 + 18 * t, o.clone()));
            v.push(transactions("P13/transactions", o.clone()));
            v.push(lazy_transactions("P13/transactions-lazy", 5 + t, o.clone()));
            v.push(storage_keys("P13/storage", 2, 3, false, o.clone()));
            v.push(storage_lazy("P13/storage-lazy", 3, o.clone()));
            v.push(unchecked("P13/unchecked", o.clone()));
            v.push(lazy_unchecked("P13/unchecked-lazy", 5 + t, o.clone()));
            v.push(wide("P13/wide", z(0, 2), o.clone()));
            v.push(nested_lists("P13/nested-lists", z(0, 2), o.clone()));
            v.push(wide_lists("P13/wide-lists", z(0, 1), o.clone()));
            v.push(texts("P13/texts", z(3, 4), o.clone()));
            v.push(compact_numbers("P13/compact", 0, o));
            v.push(cut_calls("P13/cut-calls", with(opts(FULL, Errs::Exact), |o| (o.base, o.paged) = (false, true))));
            v.push(followed("P13/followed", with(opts(FULL, Errs::Exact), |o| (o.base, o.fill) = (false, true))));
            v.push(composed("P13/composed", 2, 30, z(3, 12), &[Place::Blob], with(opts(FULL, Errs::Exact), |o| (o.base, o.paged, o.fill) = (false, true, true))));
            v.push(composed("P13/composed-places", 1, 30, z(6, 24), &PLACES, with(opts(FULL, Errs::Exact), |o| (o.base, o.paged, o.fill) = (false, true, true))));
            v.push(positions("P13/positions", z(1, 2), with(opts(FULL, Errs::Exact), |o| (o.base, o.paged) = (false, true))));
            v.push(key_sizes("P13/key-sizes", z(0, 1), with(opts(FULL, Errs::Exact), |o| (o.base, o.paged) = (false, true))));
            v.push(same_buffer("P13/same-buffer", opts(FULL, Errs::Exact)));
            #[cfg(feature = "host")]
            {
                let o = with(opts(FULL, Errs::Exact), |o| {
                    o.base = false;
                    o.paged = true;
                });
                v.push(real_transactions("P13/chains", if thorough { ALL } else { FEW }, 0, o.clone()));
                v.push(real_types("P13/chains-types", FEW, 0, o));
            }
            v
        }
        "P14" => {
            let o = with(opts(FULL, Errs::Exact), |o| {
                o.base = false;
                o.faults = true;
            });
            let mut v = all_types("P14", &o, z(0, 2));
            v.push(ext_lists("P14/lists", 2, 12, o.clone()));
            v.push(transactions("P14/transactions", o.clone()));
            v.push(lazy_transactions("P14/transactions-lazy", 5, o.clone()));
            v.push(storage_keys("P14/storage", 2, 3, false, o.clone()));
            v.push(storage_shapes("P14/storage-shapes", o.clone()));
            v.push(unchecked("P14/unchecked", o.clone()));
            v.push(lazy_unchecked("P14/unchecked-lazy", 4, o.clone()));
            v.push(wide("P14/wide", z(0, 1), o.clone()));
            v.push(nested_lists("P14/nested-lists", z(0, 1), o.clone()));
            v.push(wide_lists("P14/wide-lists", 0, o));
            v.push(cut_calls("P14/cut-calls", with(opts(FULL, Errs::Exact), |o| (o.base, o.faults) = (false, true))));
            v.push(composed("P14/composed", 2, 30, z(3, 12), &[Place::Blob], with(opts(FULL, Errs::Exact), |o| (o.base, o.faults) = (false, true))));
            v.push(composed("P14/composed-places", 1, 30, z(6, 24), &PLACES, with(opts(FULL, Errs::Exact), |o| (o.base, o.faults) = (false, true))));
            if thorough {
                v.push(key_sizes("P14/key-sizes", 0, with(opts(FULL, Errs::Exact), |o| (o.base, o.faults) = (false, true))));
            }
            #[cfg(feature = "host")]
            {
                let o = with(opts(FULL, Errs::Exact), |o| {
                    o.base = false;
                    o.faults = true;
                });
                v.push(real_types("P14/chains", if thorough { ALL } else { FEW }, 0, o));
            }
            v
        }
        "P15" => vec![meta_in_place("P15/in-place", z(3, 4)), meta_version("P15/version", 2 + t, 16), meta_version("P15/version-3", 3 + t, 5), meta_version_pairs("P15/version-pairs", thorough), meta_layout("P15/layout"), meta_extrinsic("P15/extrinsic", 4 + t), meta_elements("P15/elements"), meta_wide("P15/wide"), meta_near("P15/near-names"), meta_texts("P15/texts", t), #[cfg(feature = "host")] real_facts("P15/chains")],
        "P16" => vec![compact_bytes("P16/bytes", t, opts(VALUE, Errs::Any)), compact_numbers("P16/numbers", 2 + 14 * t as u32, opts(VALUE, Errs::Any)), inside("P16/inside", compacts, z(2, 8), opts(VALUE, Errs::Any)), stacks("P16/stacks", z(24, 70), z(65, 260), opts(VALUE, Errs::Any)), large_unchecked("P16/large-unchecked", z(0, 1), opts(VALUE, Errs::Any)), large_calls("P16/large-calls", z(1, 2), opts(VALUE, Errs::Any))],
        "P18" => vec![era_pairs("P18/pairs", with(value(), |o| o.cards = true)), inside("P18/inside", eras, 30, with(value(), |o| o.cards = true)), era_products("P18/products", thorough, value())],
        "P21" => {
            let o = with(opts(FULL, Errs::Exact), |o| {
                o.base = false;
                o.nested = true;
            });
            let mut v = vec![nested_pool("P21/nested-pool"), meta_in_place("P21/in-place", z(3, 5))];
            #[cfg(feature = "host")]
            for n in 2..=z(3, 4) {
                v.push(histories(&format!("P21/histories-{n}"), n));
            }
            #[cfg(feature = "host")]
            {
                v.push(pumped("P21/pumped", if thorough { &[4, 17, 255, 256, 257, 1000, 4096, 66_000, 300_000] } else { &[300, 4200, 66_000] }, false));
                v.push(pumped("P21/alternating", &[40], true));
                v.push(shown_twice("P21/shown-twice", if thorough { &DECIMALS } else { &[0, 1, 6, 10, 12, 18, 30, 31, 36, 255] }));
                v.push(colliding("P21/colliding", opts(FULL, Errs::Exact)));
            }
            v.extend(structure("P21", &o, z(0, 2)));
            v.extend(special("P21", &o, z(0, 2), false));
            v.extend(items("P21", &o, z(0, 2)));
            v.extend(cycles("P21", &o, z(0, 2)));
            v.push(ext_lists("P21/lists", 2, 12, o.clone()));
            v.push(same_buffer("P21/same-buffer", opts(FULL, Errs::Exact)));
            v.push(transactions("P21/transactions", o));
            #[cfg(feature = "host")]
            {
                let o = with(opts(FULL, Errs::Exact), |o| {
                    o.base = false;
                    o.nested = true;
                });
                v.push(real_types("P21/chains", if thorough { ALL } else { FEW }, 0, o));
            }
            v
        }
        "P17-32" => {
            let mut v = bits("P17-32", &with(value(), |o| o.exact = true), z(2, 3));
            v.push(long("P17-32/long", z(100, 5_000), z(140_000, 2_100_000), value()));
            v
        }
        "P03-32" => {
            let o = with(value(), |o| o.base = false);
            vec![
                wild_starts("P03-32/starts", o.clone()),
                wild_graphs("P03-32/graphs", 1, z(2, 4), o.clone()),
                wild_meta("P03-32/metadata", o.clone()),
                transactions("P03-32/transactions", o.clone()),
                lazy_transactions("P03-32/transactions-lazy", z(4, 6), o.clone()),
                lazy_unchecked("P03-32/unchecked-lazy", z(4, 6), o.clone()),
                storage_shapes("P03-32/storage-shapes", o.clone()),
                compact_bytes("P03-32/compact", 0, o),
            ]
        }
        "P14-32" => {
            let o = with(opts(FULL, Errs::Exact), |o| {
                o.base = false;
                o.faults = true;
            });
            let mut v = structure("P14-32", &o, z(0, 1));
            v.extend(primitives("P14-32", &o, z(0, 1)));
            v.extend(special("P14-32", &o, z(0, 1), false));
            v.extend(bits("P14-32", &o, z(0, 1)));
            v.push(transactions("P14-32/transactions", o.clone()));
            v.push(lazy_unchecked("P14-32/unchecked-lazy", 4, o.clone()));
            v.push(storage_shapes("P14-32/storage-shapes", o));
            v
        }
        "P13-32" => {
            let o = with(opts(FULL, Errs::Exact), |o| {
                o.base = false;
                o.paged = true;
                o.fill = true;
            });
            let mut v = structure("P13-32", &o, z(0, 1));
            v.extend(primitives("P13-32", &o, z(0, 1)));
            v.extend(special("P13-32", &o, z(0, 1), false));
            v.extend(bits("P13-32", &o, z(0, 1)));
            v.push(transactions("P13-32/transactions", o.clone()));
            v.push(lazy_unchecked("P13-32/unchecked-lazy", 4, o));
            v
        }
        "P16-32" => vec![compact_numbers("P16-32/numbers", 2, opts(VALUE, Errs::Any)), compact_bytes("P16-32/bytes", 0, opts(VALUE, Errs::Any))],
        "P22" => {
            let o = with(opts(FULL, Errs::Exact), |o| {
                o.base = false;
                o.cards = true;
            });
            let mut v = all_types("P22", &with(o.clone(), |o| (o.cuts, o.cards) = (true, false)), z(0, 1));
            v.push(field_sets("P22/field-sets", 2, false, with(o.clone(), |o| o.cards = false)));
            v.push(bit_orders("P22/bit-orders", o.clone()));
            v.push(ext_pairs("P22/pairs", false, with(o.clone(), |o| o.cards = false)));
            v.push(long_texts("P22/long-texts", 66, z(16_385, 131_073), o.clone()));
            v.push(very_long("P22/very-long", if thorough { &[5_000, 9_999, 70_001] } else { &[17_001] }, with(o.clone(), |o| o.cards = false)));
            v.extend(structure("P22/cards", &o, z(0, 1)));
            v.extend(special("P22/cards", &o, z(0, 1), true));
            v.extend(hints("P22", &o, z(0, 1)));
            v.extend(docs("P22", &o, z(0, 1)));
            v.push(wide("P22/wide", z(0, 1), with(o.clone(), |o| o.cards = false)));
            v.push(nested_lists("P22/nested-lists", z(0, 1), o.clone()));
            v.push(long("P22/long", z(5_000, 70_000), z(140_000, 600_000), with(o.clone(), |o| o.cards = false)));
            v.push(texts("P22/texts", z(2, 3), o.clone()));
            v.push(wide_lists("P22/wide-lists", z(0, 1), o.clone()));
            v.push(bits_scn("P22/bits-long", 600, z(70, 600), o.clone()));
            v.push(ext_lists("P22/lists", 2, 12, o.clone()));
            v.push(transactions("P22/transactions", o.clone()));
            v.push(lazy_transactions("P22/transactions-lazy", z(4, 6), o.clone()));
            v.push(storage_keys("P22/storage", 2, 3, false, o.clone()));
            v.push(storage_shapes("P22/storage-shapes", o.clone()));
            v.push(unchecked("P22/unchecked", o.clone()));
            v.push(lazy_unchecked("P22/unchecked-lazy", z(4, 6), o.clone()));
            v.push(compact_numbers("P22/compact", z(0, 2) as u32, o.clone()));
            v.push(balances("P22/balances", false));
            v.push(balance_values("P22/balance-values", 0));
            v.push(era_pairs("P22/era", o.clone()));
            v.push(meta_version("P22/meta-version", z(1, 2), 16));
            v.push(meta_layout("P22/meta-layout"));
            v.push(all_chars("P22/characters", 0, o.clone()));
            v.push(number_bytes("P22/number-bytes", 0, o.clone()));
            v.push(long_docs("P22/long-docs", 0, o.clone()));
            v.push(followed("P22/followed", with(o.clone(), |o| o.cards = false)));
            v.push(meta_near("P22/meta-near"));
            v.push(meta_elements("P22/meta-elements"));
            v.push(meta_texts("P22/meta-texts", 0));
            v.push(many_items("P22/many-items", 2, o.clone()));
            v.push(large_unchecked("P22/large-unchecked", 0, with(o.clone(), |o| o.cards = false)));
            v.push(inside("P22/inside-values", finals, 0, with(o.clone(), |o| o.cards = false)));
            v.push(inside("P22/inside-bits", bit_lists, 0, with(o.clone(), |o| o.cards = false)));
            v.push(meta_wide("P22/meta-wide"));
            v.push(cut_calls("P22/cut-calls", o.clone()));
            v.push(composed("P22/composed", 2, z(20, 30), z(2, 12), &[Place::Blob], o.clone()));
            v.push(odd_texts("P22/odd-texts", o.clone()));
            v.push(numbered("P22/numbered", 0, o.clone()));
            v.push(networks("P22/networks", 0));
            v.push(stacks("P22/stacks", 9, 33, o.clone()));
            v.push(many_members("P22/many-members", 33, 65, o.clone()));
            v.push(positions("P22/positions", 0, with(o.clone(), |o| o.cards = false)));
            v.push(key_sizes("P22/key-sizes", 0, with(o.clone(), |o| o.cards = false)));
            v.push(misplaced("P22/misplaced", 1, with(o.clone(), |o| o.cards = false)));
            v.push(meta_extrinsic("P22/meta-extrinsic", z(3, 4)));
            v
        }
        "P06" => {
            let mut v = items("P06", &opts(value_info, Errs::Any), z(3, 4));
            v.push(wide("P06/wide", z(0, 2), opts(value_info, Errs::Any)));
            v.push(many_variants("P06/many-variants", z(1, 2), opts(value_info, Errs::Any)));
            v.push(near_items("P06/near-items", opts(value_info, Errs::Any)));
            v.push(many_items("P06/many-items", z(3, 4), opts(value_info, Errs::Any)));
            v.push(composed("P06/composed", 3, z(16, 30), z(2, 4), &[Place::Blob], opts(value_info, Errs::Any)));
            v.push(odd_texts("P06/odd-texts", opts(value_info, Errs::Any)));
            v.push(numbered("P06/numbered", z(0, 1), opts(value_info, Errs::Any)));
            v.push(many_members("P06/many-members", z(40, 300), z(257, 1025), opts(value_info, Errs::Any)));
            #[cfg(feature = "host")]
            {
                v.push(real_types("P06/chains", if thorough { ALL } else { FEW }, z(0, 1) as u32, opts(value_info, Errs::Any)));
                v.push(real_transactions("P06/chains-transactions", if thorough { ALL } else { FEW }, z(0, 1) as u32, opts(value_info, Errs::Any)));
            }
            v
        }
        "P07" => {
            let mut v = special("P07", &with(value(), |o| o.exact = true), z(2, 4), true);
            v.push(field_sets("P07/field-sets", 2, thorough, value()));
            v.push(near_paths("P07/near-paths", value()));
            v.push(composed("P07/composed", 2, 30, 24, &[Place::Blob], value()));
            v.push(numbered("P07/numbered", z(1, 2), value()));
            v.push(stacks("P07/stacks", z(24, 70), z(65, 260), value()));
            v.push(composed("P07/composed-places", 1 + t, 30, z(24, 12), &PLACES, value()));
            #[cfg(feature = "host")]
            {
                v.push(real_types("P07/chains", if thorough { ALL } else { FEW }, 1, with(value(), |o| o.exact = true)));
            }
            v
        }
        "P08" => {
            let mut v = hints("P08", &opts(value_hint, Errs::Any), z(2, 3));
            v.push(field_sets("P08/field-sets", z(2, 5), true, opts(value_hint, Errs::Any)));
            v.push(ext_pairs("P08/pairs", false, opts(value_hint, Errs::Any)));
            v.push(very_long("P08/very-long", if thorough { &[5_000, 9_999, 70_001] } else { &[17_001] }, opts(value_hint, Errs::Any)));
            v.push(wide("P08/wide", z(1, 2), opts(value_hint, Errs::Any)));
            v.push(wide_lists("P08/wide-lists", z(1, 2), opts(value_hint, Errs::Any)));
            v.push(near_names("P08/near-names", opts(value_hint, Errs::Any)));
            v.push(composed("P08/composed", 3, z(20, 30), z(4, 8), &[Place::Blob], opts(value_hint, Errs::Any)));
            v.push(composed("P08/composed-2", 2, 30, 24, &[Place::Blob], opts(value_hint, Errs::Any)));
            v.push(composed("P08/composed-places", 1 + t, 30, z(12, 12), &PLACES, opts(value_hint, Errs::Any)));
            v.push(composed("P08/composed-extensions", 2, z(16, 30), z(4, 12), &[Place::Included], opts(value_hint, Errs::Any)));
            v.push(odd_texts("P08/odd-texts", opts(value_hint, Errs::Any)));
            v.push(numbered("P08/numbered", z(0, 1), opts(value_hint, Errs::Any)));
            v.push(stacks("P08/stacks", z(40, 70), z(130, 260), opts(value_hint, Errs::Any)));
            #[cfg(feature = "host")]
            {
                v.push(real_types("P08/chains", if thorough { ALL } else { FEW }, z(0, 1) as u32, opts(value_hint, Errs::Any)));
                v.push(real_transactions("P08/chains-transactions", if thorough { ALL } else { FEW }, z(0, 1) as u32, opts(value_hint, Errs::Any)));
            }
            v
        }
        "P17" => {
            let mut v = bits("P17", &with(value(), |o| o.exact = true), z(3, 4));
            v.push(bit_orders("P17/bit-orders", value()));
            v.push(inside("P17/inside", bit_lists, z(6, 30), value()));
            v.push(very_long("P17/very-long", if thorough { &[5_000, 9_999, 70_001, 300_000] } else { &[9_999, 70_001] }, value()));
            v.push(long("P17/long", z(100, 70_000), z(600_000, 2_100_000), value()));
            v
        }
        "P19" => {
            let mut v = docs("P19", &opts(value_info, Errs::Any), z(3, 4));
            v.push(field_sets("P19/field-sets", z(2, 5), true, opts(value_info, Errs::Any)));
            v.push(wide("P19/wide", z(1, 2), opts(value_info, Errs::Any)));
            v.push(nested_lists("P19/nested-lists", z(1, 3), opts(value_info, Errs::Any)));
            v.push(many_variants("P19/many-variants", z(0, 2), opts(value_info, Errs::Any)));
            v.push(equal_infos("P19/equal-infos", z(0, 2), opts(value_info, Errs::Any)));
            v.push(composed("P19/composed", 3, z(16, 30), z(3, 6), &[Place::Blob], opts(value_info, Errs::Any)));
            v.push(composed("P19/composed-places", 1 + t, 30, z(24, 12), &PLACES, opts(value_info, Errs::Any)));
            v.push(odd_texts("P19/odd-texts", opts(value_info, Errs::Any)));
            v.push(numbered("P19/numbered", z(1, 2), opts(value_info, Errs::Any)));
            v.push(stacks("P19/stacks", z(40, 70), z(130, 260), opts(value_info, Errs::Any)));
            v.push(long_docs("P19/long-docs", z(0, 2), opts(value_info, Errs::Any)));
            v.push(many_items("P19/many-items", z(2, 3), opts(value_info, Errs::Any)));
            #[cfg(feature = "host")]
            {
                v.push(real_types("P19/chains", if thorough { ALL } else { FEW }, 1, opts(value_info, Errs::Any)));
            }
            v
        }
        "P20" => {
            let mut v = compactness("P20", &value(), z(2, 3));
            v.push(compact_fields("P20/fields", z(2, 4), value()));
            v.push(composed("P20/composed", 3, z(16, 30), z(4, 12), &[Place::Blob], value()));
            v.push(numbered("P20/numbered", z(0, 1), value()));
            v.push(stacks("P20/stacks", z(40, 70), z(130, 260), value()));
            v.push(misplaced("P20/misplaced", 2, opts(VALUE, Errs::Kind)));
            #[cfg(feature = "host")]
            {
                v.push(real_types("P20/chains", if thorough { ALL } else { FEW }, 1, value()));
            }
            v
        }
        "P23" => {
            let mut v = cycles("P23", &value(), z(3, 4));
            v.push(wide("P23/wide", z(1, 3), value()));
            v.push(rings("P23/rings", z(129, 300), value()));
            v.push(numbered("P23/numbered", z(0, 1), value()));
            v.push(stacks("P23/stacks", z(40, 70), z(130, 260), value()));
            v
        }
        "P24" => {
            let mut v = seqs("P24", &with(opts(FULL, Errs::Any), |o| o.cuts = true), z(2, 4));
            v.push(very_long("P24/very-long", if thorough { &[5_000, 9_999, 70_001, 300_000] } else { &[9_999, 70_001] }, opts(FULL, Errs::Any)));
            v.extend(primitives("P24", &opts(FULL, Errs::Any), z(1, 2)));
            v.push(wide("P24/wide", z(1, 3), opts(FULL, Errs::Any)));
            v.push(nested_lists("P24/nested-lists", z(2, 4), opts(FULL, Errs::Any)));
            v.push(composed("P24/composed", 3, z(16, 30), z(4, 12), &[Place::Blob], opts(FULL, Errs::Any)));
            v.push(numbered("P24/numbered", z(0, 1), opts(FULL, Errs::Any)));
            v.push(stacks("P24/stacks", z(24, 70), z(65, 260), opts(FULL, Errs::Any)));
            v.push(long("P24/long", z(70_000, 300_000), z(100, 1000), opts(FULL, Errs::Any)));
            #[cfg(feature = "host")]
            {
                v.push(real_types("P24/chains", if thorough { ALL } else { FEW }, 1, opts(FULL, Errs::Any)));
            }
            v
        }
        "P25" => {
            let o = with(opts(VALUE, Errs::Exact), |o| {
                o.cuts = true;
                o.shift = true;
                o.text = true;
            });
            let mut v = all_types("P25", &o, z(0, 2));
            v.push(field_sets("P25/field-sets", 2, thorough, o.clone()));
            v.push(bit_orders("P25/bit-orders", o.clone()));
            v.push(long_texts("P25/long-texts", z(66, 300), z(4_097, 65_537), with(o.clone(), |o| (o.cuts, o.shift) = (false, false))));
            v.push(very_long("P25/very-long", if thorough { &[5_000, 9_999, 70_001] } else { &[17_001] }, with(o.clone(), |o| (o.cuts, o.shift) = (false, false))));
            let o = with(opts(VALUE, Errs::Exact), |o| o.text = true);
            v.push(wide("P25/wide", z(1, 2), o.clone()));
            v.push(nested_lists("P25/nested-lists", z(1, 3), o.clone()));
            v.push(wide_lists("P25/wide-lists", z(0, 1), o.clone()));
            v.push(leftover("P25/left-over", o.clone()));
            v.push(texts("P25/texts", z(2, 4), o.clone()));
            v.push(border_texts("P25/border-texts", z(1, 2), o.clone()));
            v.push(rings("P25/rings", z(33, 129), o.clone()));
            v.push(ext_lists("P25/lists", 2 + t, 12, o.clone()));
            v.push(transactions("P25/transactions", o.clone()));
            v.push(lazy_transactions("P25/transactions-lazy", 5 + t, o.clone()));
            v.push(large_calls("P25/large-calls", z(1, 2), o.clone()));
            v.push(storage_keys("P25/storage", 2, 3, false, o.clone()));
            v.push(storage_shapes("P25/storage-shapes", o.clone()));
            v.push(storage_lazy("P25/storage-lazy", 3, o.clone()));
            v.push(unchecked("P25/unchecked", o.clone()));
            v.push(lazy_unchecked("P25/unchecked-lazy", 4 + t, o.clone()));
            v.push(misplaced("P25/misplaced", 2, o.clone()));
            v.push(far("P25/far", z(0, 2), o.clone()));
            v.push(cut_calls("P25/cut-calls", o.clone()));
            v.push(inside("P25/inside-values", finals, z(2, 12), o.clone()));
            v.push(inside("P25/inside-compacts", compacts, z(0, 4), o.clone()));
            v.push(inside("P25/inside-eras", eras, z(2, 12), o.clone()));
            v.push(inside("P25/inside-bits", bit_lists, z(0, 4), o.clone()));
            v.push(large_unchecked("P25/large-unchecked", z(0, 1), o.clone()));
            v.push(plain_keys("P25/plain-keys", z(0, 1), o.clone()));
            v.push(many_items("P25/many-items", 2, o.clone()));
            v.push(numbered("P25/numbered", z(0, 1), o.clone()));
            v.push(composed("P25/composed", 2, 30, 24, &[Place::Blob], o.clone()));
            v.push(composed("P25/composed-places", 1 + t, 30, z(12, 8), &PLACES, o.clone()));
            v.push(call_lengths("P25/call-lengths", z(0, 1), o.clone()));
            v.push(key_places("P25/key-places", o.clone()));
            v.push(positions("P25/positions", z(0, 1), o.clone()));
            v.push(many_exts("P25/many-extensions", z(12, 70), z(65, 260), o.clone()));
            v.push(many_parts("P25/many-parts", z(12, 24), z(17, 65), o.clone()));
            v.push(left_counts("P25/left-counts", z(40, 300), z(65_537, 300_000), with(o.clone(), |o| o.tail = true)));
            v.push(many_members("P25/many-members", z(40, 300), z(129, 1025), o.clone()));
            #[cfg(feature = "host")]
            {
                let o = with(opts(VALUE, Errs::Exact), |o| o.text = true);
                v.push(real_types("P25/chains", if thorough { ALL } else { FEW }, 1, o.clone()));
                v.push(real_transactions("P25/chains-transactions", V15S, z(0, 1) as u32, o.clone()));
                v.push(real_storage("P25/chains-storage", FEW, z(0, 1) as u32, o));
            }
            v
        }
        _ => Vec::new(),
    }
}

/// Also explored in the 32-bit build, and judged there.
pub fn bare_scenarios(prop: &str, thorough: bool) -> Option<Vec<Scenario>> {
    match prop {
        "P17" | "P03" | "P13" | "P14" | "P16" => Some(scenarios(&alloc::format!("{prop}-32"), thorough)),
        _ => None,
    }
}
