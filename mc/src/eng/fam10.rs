//! Metadata changed in place, and other long-lived objects used again.
use super::explore::*;
use super::drive::*;
use super::fam::*;
use super::fam2::run_fixed;
use super::fam4::*;
use super::tyb::*;
use alloc::boxed::Box;
use alloc::format;
use alloc::string::ToString;
use alloc::vec;
use alloc::vec::Vec;
use core::mem::swap;

const EDITS: [&str; 16] = [
    "spec version value",
    "spec name letter",
    "version fields swapped",
    "spec version type (u32, u16)",
    "constant renamed",
    "pallet renamed",
    "constants swapped",
    "pallets swapped",
    "first extension renamed",
    "extensions swapped",
    "extension types swapped",
    "extrinsic version",
    "declared extrinsic types rotated",
    "u32 made i32",
    "constant of another pallet",
    "second extension removed or put back",
];

/// Metadata edited where they lie: every question after each edit is answered from what is there now.
pub fn meta_in_place(name: &str, len: usize) -> Scenario {
    Scenario::new(name, format!("all sequences of {len} edits out of {} on one V14 and one V15 metadata object, in place (same allocations, same lengths); everything asked before and after each edit, twice", EDITS.len()), move |ctx| {
        let mut types = meta_types();
        let ver = types.len() as u32;
        types.push(ty(&["RuntimeVersion"], &[], comp(vec![fld(Some("spec_name"), None, MSTR), fld(Some("spec_version"), None, MU32)])));
        let xt = types.len() as u32;
        let mut declared = [1u32, 2, 3, 4];
        let params = |d: &[u32; 4]| -> Vec<_> { [("Address", d[0]), ("Call", d[1]), ("Signature", d[2]), ("Extra", d[3])].iter().map(|(n, i)| scale_info::TypeParameter::<PortableForm>::new_portable(n.to_string(), Some(sym(*i)))).collect() };
        let mut x = ty(&["sp_runtime", "generic", "unchecked_extrinsic", "UncheckedExtrinsic"], &[], comp(vec![fld(None, None, MVEC)]));
        x.type_params = params(&declared);
        types.push(x);
        let mut p = vec![
            Pal { name: "System", consts: vec![("Version", ver, vec![4, b'a', 10, 0, 0, 0]), ("Another", ver, vec![4, b'z', 99, 0, 0, 0])] },
            Pal { name: "Timing", consts: vec![("Version", ver, vec![4, b'q', 50, 0, 0, 0]), ("Minimum", MU8, vec![1])] },
        ];
        let mut e = Ex { ty: xt, version: 4, exts: vec![("CheckA", 1, 2), ("CheckB", 2, 1)], declared };
        let (mut a, mut b) = (Box::new(m14(&types, &p, &e)), Box::new(m15(&types, &p, &e)));
        let mut removed = Vec::new();
        let (mut gone_a, mut gone_b) = (Vec::new(), Vec::new());
        let mut names = vec![];
        let mut st = Stats::default();
        let r = (|| {
            for step in 0..=len {
                for _ in 0..2 {
                    check_version_of(&a, &b, &types, &p, &mut st)?;
                    facts("V14", &*a, &e, &types, &mut st)?;
                    facts("V15", &*b, &e, &types, &mut st)?;
                }
                if step == len {
                    break;
                }
                let k = ctx.choose(EDITS.len());
                names.push(EDITS[k]);
                st.transitions += 1;
                // the types of both, and the described ones, are edited alike
                let mut on_types = |id: u32, f: &dyn Fn(&mut T)| {
                    f(&mut types[id as usize]);
                    f(&mut a.types.types[id as usize].ty);
                    f(&mut b.types.types[id as usize].ty);
                };
                match k {
                    0 => {
                        for c in [&mut p[0].consts[0].2, &mut a.pallets[0].constants[0].value, &mut b.pallets[0].constants[0].value] {
                            let n = c.iter().position(|x| *x != 0 && *x != 4 && !x.is_ascii_lowercase()).unwrap_or(0);
                            c[n] = if c[n] < 60 { c[n] + 1 } else { 10 };
                        }
                    }
                    1 => {
                        for c in [&mut p[0].consts[0].2, &mut a.pallets[0].constants[0].value, &mut b.pallets[0].constants[0].value] {
                            if let Some(x) = c.iter_mut().find(|x| x.is_ascii_lowercase()) {
                                *x = if *x == b'y' { b'b' } else { *x + 1 };
                            }
                        }
                    }
                    2 => {
                        on_types(ver, &|t| if let scale_info::TypeDef::Composite(c) = &mut t.type_def { c.fields.swap(0, 1) });
                        for c in [&mut p[0].consts[0].2, &mut a.pallets[0].constants[0].value, &mut b.pallets[0].constants[0].value] {
                            if c.first() == Some(&4) && c.get(1).is_some_and(|x| x.is_ascii_lowercase()) {
                                c.rotate_left(2);
                            } else {
                                c.rotate_right(2);
                            }
                        }
                    }
                    3 => on_types(ver, &|t| {
                        if let scale_info::TypeDef::Composite(c) = &mut t.type_def {
                            for f in &mut c.fields {
                                if f.name.as_deref() == Some("spec_version") {
                                    f.ty = sym(if f.ty.id == MU32 { 4 } else { MU32 });
                                }
                            }
                        }
                    }),
                    4 => {
                        let to = if p[0].consts[0].0 == "Version" { "Versiom" } else { "Version" };
                        // one Version at most
                        if p[0].consts[1].0 != "Version" {
                            p[0].consts[0].0 = to;
                            for c in [&mut a.pallets[0].constants[0].name, &mut b.pallets[0].constants[0].name] {
                                c.clear();
                                c.push_str(to);
                            }
                        }
                    }
                    5 => {
                        let to = if p[0].name == "System" { "Systen" } else { "System" };
                        // one System at most
                        if p[1].name != "System" {
                            p[0].name = to;
                            for c in [&mut a.pallets[0].name, &mut b.pallets[0].name] {
                                c.clear();
                                c.push_str(to);
                            }
                        }
                    }
                    6 => {
                        p[0].consts.swap(0, 1);
                        a.pallets[0].constants.swap(0, 1);
                        b.pallets[0].constants.swap(0, 1);
                    }
                    7 => {
                        // only the names
                        let (x, y) = p.split_at_mut(1);
                        swap(&mut x[0].name, &mut y[0].name);
                        let (x, y) = a.pallets.split_at_mut(1);
                        swap(&mut x[0].name, &mut y[0].name);
                        let (x, y) = b.pallets.split_at_mut(1);
                        swap(&mut x[0].name, &mut y[0].name);
                    }
                    8 => {
                        let to = if e.exts[0].0 == "CheckC" { "CheckA" } else { "CheckC" };
                        e.exts[0].0 = to;
                        for c in [&mut a.extrinsic.signed_extensions[0].identifier, &mut b.extrinsic.signed_extensions[0].identifier] {
                            c.clear();
                            c.push_str(to);
                        }
                    }
                    9 => {
                        e.exts.reverse();
                        a.extrinsic.signed_extensions.reverse();
                        b.extrinsic.signed_extensions.reverse();
                    }
                    10 => {
                        let x = &mut e.exts[0];
                        swap(&mut x.1, &mut x.2);
                        let x = &mut a.extrinsic.signed_extensions[0];
                        swap(&mut x.ty, &mut x.additional_signed);
                        let x = &mut b.extrinsic.signed_extensions[0];
                        swap(&mut x.ty, &mut x.additional_signed);
                    }
                    11 => {
                        e.version ^= 1;
                        a.extrinsic.version ^= 1;
                        b.extrinsic.version ^= 1;
                    }
                    12 => {
                        declared.rotate_left(1);
                        e.declared = declared;
                        let new = params(&declared);
                        on_types(xt, &|t| {
                            for (x, y) in t.type_params.iter_mut().zip(&new) {
                                x.ty = y.ty;
                            }
                        });
                        let x = &mut b.extrinsic;
                        x.address_ty = sym(declared[0]);
                        x.call_ty = sym(declared[1]);
                        x.signature_ty = sym(declared[2]);
                        x.extra_ty = sym(declared[3]);
                    }
                    13 => on_types(MU32, &|t| t.type_def = scale_info::TypeDef::Primitive(if t.type_def == scale_info::TypeDef::Primitive(Pr::U32) { Pr::I32 } else { Pr::U32 })),
                    14 => {
                        for c in [&mut p[1].consts[0].2, &mut a.pallets[1].constants[0].value, &mut b.pallets[1].constants[0].value] {
                            c[2] ^= 1;
                        }
                    }
                    _ => match removed.pop() {
                        Some(x) => {
                            e.exts.push(x);
                            a.extrinsic.signed_extensions.extend(gone_a.pop());
                            b.extrinsic.signed_extensions.extend(gone_b.pop());
                        }
                        None => {
                            removed.extend(e.exts.pop());
                            gone_a.extend(a.extrinsic.signed_extensions.pop());
                            gone_b.extend(b.extrinsic.signed_extensions.pop());
                        }
                    },
                }
            }
            Ok(())
        })();
        ctx.note(|| format!("edits {names:?}"));
        ctx.stats.add(&st);
        r
    })
}

/// Every set of fields: named or not, with type name or not, documented or not.
pub fn field_sets(name: &str, n: usize, more: bool, o: Opts) -> Scenario {
    const NAMES: [Option<&str>; 3] = [None, Some("x"), Some("tip")];
    const TYPES: [Option<&str>; 4] = [None, Some("X"), Some("BalanceOf<T, I>"), Some("")];
    const DOCS: [&[&str]; 4] = [&[], &["f"], &["f", "g"], &[""]];
    let (names, types_, docs, ids) = if more { (3, 4, 4, 5) } else { (2, 2, 2, 3) };
    let g = base();
    Scenario::new(name, format!("structs and variants of 1..={n} fields (by name {:?}, type name {:?}, docs {:?} and {ids} types; more than three: equal ones but one), documented or not; value, one byte more, one less", &NAMES[..names], &TYPES[..types_], &DOCS[..docs]), move |ctx| {
        let variant = ctx.choose(3);
        let count = 1 + ctx.choose(n);
        let mut fields = Vec::new();
        let mut data = Vec::new();
        let one = |ctx: &mut Ctx, i: usize, again: Option<[usize; 4]>| {
            let k = again.unwrap_or_else(|| [ctx.choose(names), ctx.choose(types_), ctx.choose(docs), ctx.choose(ids)]);
            let (id, d): (u32, Vec<u8>) = match k[3] {
                0 => (U8, vec![i as u8 + 1]),
                1 => (901, vec![i as u8, 1]),
                2 => (U128, (0..16).map(|j| (j * 3 + i) as u8).collect()),
                3 => (UNIT, vec![]),
                _ => (902, vec![4, 40 + i as u8]),
            };
            // equal names only where there are no more
            let nm = NAMES[k[0]].map(|n| if i == 0 || k[0] == 2 { n.to_string() } else { format!("{n}{i}") });
            let mut f = fldd(None, TYPES[k[1]], id, DOCS[k[2]]);
            f.name = nm;
            (f, d, k)
        };
        if count <= 3 {
            for i in 0..count {
                let (f, d, _) = one(ctx, i, None);
                fields.push(f);
                data.extend(d);
            }
        } else {
            let (f, d, k) = one(ctx, 0, None);
            fields.push(f);
            data.extend(d);
            let at = 1 + ctx.choose(count - 1);
            let other = if at == 0 { None } else { Some([ctx.choose(names), ctx.choose(types_), ctx.choose(docs), 0]) };
            for i in 1..count {
                let (f, d, _) = one(ctx, i, Some(if i == at { other.unwrap() } else { k }));
                fields.push(f);
                data.extend(d);
            }
        }
        let mut g = Gen { fixed: g.fixed.clone(), ..base() };
        g.fixed.insert(901, ty(&["a", "Leaf"], &["leaf docs"], TypeDef::Primitive(Pr::U16)));
        g.fixed.insert(902, ty(&[], &[], seq(U8)));
        let docs: &[&str] = if ctx.flag() { &["own"] } else { &[] };
        let root = match variant {
            0 => ty(&["a", "S"], docs, comp(fields)),
            1 => ty(&[], &[], vars(vec![var("B", 0, vec![]), vard("A", 7, fields, docs)])),
            _ => ty(&["a", "E"], &["enum"], vars(vec![vard("A", 7, fields, docs)])),
        };
        if variant > 0 {
            data.insert(0, 7);
        }
        g.fixed.insert(ROOT, root);
        data.push(0);
        run_fixed(ctx, g, Entry::All { id: ROOT }, data, &o, &[0, 1, 2])
    })
}

/// Bit orders by every near name.
pub fn bit_orders(name: &str, o: Opts) -> Scenario {
    const LAST: [&str; 34] = [
        "Lsb0", "Msb0", "lsb0", "msb0", "LSB0", "MSB0", "Lsb", "Msb", "Lsb1", "Msb1", "Lsb00", "Msb00", "Lsb0 ", " Lsb0", "MyLsb0", "MyMsb0", "Lsb0Order", "Msb0Order", "Lsb0Msb0", "Msb0Lsb0", "Lsb_0", "", "L", "M", "0", "LocalBits", "Order", "lsb_0", "Isb0", "Nsb0", "Lsb0\u{0}", "Lsb0\n", "0bsL", "LsbO",
    ];
    const BEFORE: [&[&str]; 6] = [&["bitvec", "order"], &[], &["Lsb0"], &["Msb0"], &["bitvec", "order", "Msb0"], &["a", "b", "c"]];
    Scenario::new(name, format!("bit orders with last path segment {LAST:?} or no path, {} beginnings of the path, 7 definitions, 5 stores, 3 places; 2 values, one byte less", BEFORE.len()), move |ctx| {
        let mut g = base();
        let k = ctx.choose(LAST.len() + 1);
        let mut path: Vec<&str> = ctx.pick(&BEFORE).to_vec();
        if k < LAST.len() {
            path.push(LAST[k]);
        } else if path.len() != 3 {
            path.clear();
        }
        let def = match ctx.choose(7) {
            0 => comp(vec![]),
            1 => comp(vec![fld(None, None, U8)]),
            2 => vars(vec![]),
            3 => tup(&[]),
            4 => TypeDef::Primitive(Pr::U8),
            5 => comp(vec![fld(None, None, LSB)]),
            _ => comp(vec![fld(Some("Msb0"), Some("Msb0"), MSB), fld(None, None, UNIT)]),
        };
        g.add(901, ty(&path, &[], def));
        let store = *ctx.pick(&[U8, U16, U32, U64, U128]);
        g.add(900, ty(&["bitvec", "vec", "BitVec"], &[], bitseq(store, 901)));
        let place = ctx.choose(3);
        match place {
            0 => g.add(ROOT, ty(&["W"], &[], comp(vec![fld(Some("bits"), None, 900)]))),
            1 => g.add(ROOT, ty(&[], &[], seq(900))),
            _ => g.add(ROOT, ty(&[], &[], arr(1, 900))),
        };
        let mut data = if place == 1 { vec![4] } else { vec![] };
        data.extend(*ctx.pick(&[&[0x14u8, 0x13, 0x57, 0x9b, 0xdf, 1, 2, 3, 4][..], &[0x00, 0x13], &[0x40, 0xf0, 0x01, 0x80, 0xff, 0, 1, 2, 3]]));
        run_fixed(ctx, g, Entry::Type { id: ROOT, start: 0 }, data, &o, &[0, 1, 8])
    })
}

/// Long lists, arrays, texts and bit sequences of round lengths.
pub fn very_long(name: &str, lens: &'static [usize], o: Opts) -> Scenario {
    let g = super::fam5::g_wide().fixed;
    Scenario::new(name, format!("{} kinds of lists and arrays, texts, lists of bits of {lens:?} elements or bits; whole and one byte less", 16), move |ctx| {
        let n = *ctx.pick(lens);
        let kind = ctx.choose(18);
        let noise = |i: usize| (i as u32).wrapping_mul(2_654_435_761).wrapping_shr(11) as u8;
        let mut fixed = g.clone();
        let (id, w) = [(U8, 1), (U16, 2), (U32, 4), (U64, 8), (U128, 16), (I8, 1), (I16, 2), (I32, 4), (I64, 8), (BOOL, 1), (CHAR, 4), (H256, 32), (U8, 1), (U64, 8), (STR, 1), (U8, 1), (U64, 8), (UNIT, 0)][kind];
        let array = kind == 12 || kind == 13;
        let bits = kind == 15 || kind == 16;
        let t = match kind {
            12 | 13 => ty(&[], &[], arr(n as u32, id)),
            14 => prim(Pr::Str),
            15 => ty(&[], &[], bitseq(U8, LSB)),
            16 => ty(&[], &[], bitseq(U64, MSB)),
            _ => ty(&[], &[], seq(id)),
        };
        fixed.insert(ROOT, t);
        let mut data = if array { vec![] } else { super::refdec::enc_compact(n as u128) };
        let body = if bits { n.div_ceil(8 * w) * w } else { n * w };
        let from = data.len();
        data.extend((0..body).map(|i| match id {
            BOOL => noise(i) & 1,
            CHAR => [noise(i), noise(i + 1) & 3, 0, 0][i % 4],
            STR => b' ' + noise(i) % 90,
            _ => noise(i),
        }));
        let _ = from;
        let g = Gen { fixed, ..base() };
        run_fixed(ctx, g, Entry::All { id: ROOT }, data, &o, &[0, 1])
    })
}
