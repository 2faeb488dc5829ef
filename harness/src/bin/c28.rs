//! C28: positions, directions and bounded integers compare, order and hash as what they stand for.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sqrid::*;
use std::cmp::{Ordering, Reverse};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::Hash;
use vh::gen::*;
use vh::*;

/// What a value has to be able to do to be a key.
trait Key: Copy + Ord + Hash + Debug {}
impl<T: Copy + Ord + Hash + Debug> Key for T {}

/// Two values against what they stand for.
#[allow(clippy::nonminimal_bool)]
fn pair<K: Key, M: Key>(a: K, b: K, c: K, ma: M, mb: M, mc: M, obs: &mut Obs) -> R {
    let want = ma.cmp(&mb);
    obs.label(match want {
        Ordering::Less => "less",
        Ordering::Equal => "equal",
        Ordering::Greater => "greater",
    });
    let ctx = format!("{a:?} and {b:?}");
    ensure_eq!(a == b, want.is_eq(), "{ctx}: ==");
    ensure_eq!(a != b, want.is_ne(), "{ctx}: !=");
    ensure_eq!(a.cmp(&b), want, "{ctx}: cmp");
    ensure_eq!(a.partial_cmp(&b), Some(want), "{ctx}: partial_cmp");
    ensure_eq!(a < b, want.is_lt(), "{ctx}: <");
    ensure_eq!(a <= b, want.is_le(), "{ctx}: <=");
    ensure_eq!(a > b, want.is_gt(), "{ctx}: >");
    ensure_eq!(a >= b, want.is_ge(), "{ctx}: >=");
    ensure_eq!(Reverse(a).cmp(&Reverse(b)), want.reverse(), "{ctx}: reversed");
    ensure_eq!((a, 1u8).cmp(&(b, 0u8)), (ma, 1u8).cmp(&(mb, 0u8)), "{ctx}: as first of a tuple");
    ensure_eq!(Some(a).cmp(&Some(b)), want, "{ctx}: in options");
    ensure_eq!([a, b].cmp(&[b, a]), [ma, mb].cmp(&[mb, ma]), "{ctx}: in arrays");
    let is = |k: K, m: M, what: &str| -> R {
        for (v, mv) in [(a, ma), (b, mb), (c, mc)] {
            ensure_eq!(
                k == v,
                m == mv,
                "{a:?}, {b:?}, {c:?}: {what} is {k:?}, compared with {v:?}"
            );
        }
        Ok(())
    };
    is(a.max(b), ma.max(mb), "max")?;
    is(a.min(b), ma.min(mb), "min")?;
    let (lo, hi, mlo, mhi) = if mb <= mc { (b, c, mb, mc) } else { (c, b, mc, mb) };
    is(a.clamp(lo, hi), ma.clamp(mlo, mhi), "clamp")?;
    is(a.clone(), ma, "clone")?;
    if want.is_eq() {
        ensure_eq!(hash_of(&a), hash_of(&b), "{ctx}: hash");
        ensure_eq!(hash_of(&[a, c]), hash_of(&[b, c]), "{ctx}: hash in an array");
    }
    Ok(())
}

/// A list of values against the list of what they stand for, in every kind of collection.
fn collections<K: Key, M: Key>(l: &[(K, M)], removed: &[(K, M)], obs: &mut Obs) -> R {
    let back: Vec<M> = l.iter().map(|p| p.1).collect();
    let model = |k: &K| l.iter().chain(removed).find(|p| p.0 == *k).map(|p| p.1);
    let of = |v: Vec<K>| -> Vec<Option<M>> { v.iter().map(model).collect() };
    let some = |v: Vec<M>| -> Vec<Option<M>> { v.into_iter().map(Some).collect() };
    let mut want = back.clone();
    want.sort();
    let mut distinct = want.clone();
    distinct.dedup();
    obs.label_if(distinct.len() < want.len(), "repetitions");
    let keys: Vec<K> = l.iter().map(|p| p.0).collect();

    let mut v = keys.clone();
    v.sort();
    ensure_eq!(of(v.clone()), some(want.clone()), "sort of {keys:?}");
    v.dedup();
    ensure_eq!(of(v.clone()), some(distinct.clone()), "sort and dedup of {keys:?}");
    for (k, m) in l.iter().chain(removed) {
        ensure_eq!(
            v.binary_search(k),
            distinct.binary_search(m),
            "binary search for {k:?} in {v:?}"
        );
        ensure_eq!(keys.contains(k), back.contains(m), "{keys:?} contains {k:?}");
    }
    let mut v = keys.clone();
    v.sort_unstable_by_key(|k| Reverse(*k));
    v.reverse();
    ensure_eq!(of(v), some(want.clone()), "sort by reverse of {keys:?}");
    let mut h: BinaryHeap<K> = keys.iter().copied().collect();
    let mut v = vec![];
    while let Some(k) = h.pop() {
        v.push(k);
    }
    v.reverse();
    ensure_eq!(of(v), some(want.clone()), "heap of {keys:?}");
    ensure_eq!(
        keys.iter().max().map(model),
        back.iter().max().map(|m| Some(*m)),
        "maximum of {keys:?}"
    );
    ensure_eq!(
        keys.iter().min().map(model),
        back.iter().min().map(|m| Some(*m)),
        "minimum of {keys:?}"
    );

    // Sets and maps, with removals in between
    let (mut bs, mut hs) = (BTreeSet::new(), HashSet::new());
    let (mut bm, mut hm) = (BTreeMap::new(), HashMap::new());
    let mut reference: BTreeMap<M, usize> = BTreeMap::new();
    for (i, (k, m)) in l.iter().enumerate() {
        let old = reference.insert(*m, i);
        ensure_eq!(
            bs.insert(*k),
            old.is_none(),
            "BTreeSet::insert of {k:?} after {:?}",
            &keys[..i]
        );
        ensure_eq!(hs.insert(*k), old.is_none(), "HashSet::insert of {k:?} after {:?}", &keys[..i]);
        ensure_eq!(bm.insert(*k, i), old, "BTreeMap::insert of {k:?} after {:?}", &keys[..i]);
        ensure_eq!(hm.insert(*k, i), old, "HashMap::insert of {k:?} after {:?}", &keys[..i]);
        if let Some((r, mr)) = removed.get(i) {
            let old = reference.remove(mr);
            ensure_eq!(bs.remove(r), old.is_some(), "BTreeSet::remove of {r:?}");
            ensure_eq!(hs.remove(r), old.is_some(), "HashSet::remove of {r:?}");
            ensure_eq!(bm.remove(r), old, "BTreeMap::remove of {r:?}");
            ensure_eq!(hm.remove(r), old, "HashMap::remove of {r:?}");
        }
    }
    let left: Vec<(M, usize)> = reference.iter().map(|(m, i)| (*m, *i)).collect();
    ensure_eq!(
        of(bs.iter().copied().collect()),
        some(left.iter().map(|p| p.0).collect()),
        "BTreeSet of {keys:?}"
    );
    ensure_eq!(
        bm.values().copied().collect::<Vec<_>>(),
        left.iter().map(|p| p.1).collect::<Vec<_>>(),
        "BTreeMap of {keys:?}"
    );
    ensure_eq!(hs.len(), left.len(), "HashSet of {keys:?}");
    ensure_eq!(hm.len(), left.len(), "HashMap of {keys:?}");
    for (k, m) in l.iter().chain(removed) {
        let e = reference.get(m);
        ensure_eq!(bs.contains(k), e.is_some(), "BTreeSet::contains {k:?}");
        ensure_eq!(hs.contains(k), e.is_some(), "HashSet::contains {k:?}");
        ensure_eq!(bm.get(k), e, "BTreeMap::get {k:?}");
        ensure_eq!(hm.get(k), e, "HashMap::get {k:?}");
        let after: Vec<M> = reference.range(*m..).map(|p| *p.0).collect();
        ensure_eq!(of(bs.range(*k..).copied().collect()), some(after), "BTreeSet from {k:?} on");
    }
    Ok(())
}

/* Positions ******************************************************************/

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct P {
    dim: usize,
    at: Cxy,
    /// other positions: coordinates of `at` changed by little, exchanged, or taken anew
    how: Vec<(u8, i8, i8, Cxy)>,
}

fn points<const X: u16, const Y: u16>(c: &P) -> Vec<(Pos<X, Y>, (u16, u16))> {
    let (x, y) = raw(&pos_of::<X, Y>(c.at));
    let step = |v: u16, d: i8, m: u16| (v as i32 + d as i32).clamp(0, m as i32) as u16;
    let mut v = vec![(x, y)];
    for (how, dx, dy, o) in &c.how {
        v.push(match how % 6 {
            0 => (step(x, *dx, X), y),
            1 => (x, step(y, *dy, Y)),
            2 => (step(x, *dx, X), step(y, *dy, Y)),
            3 => (y.min(X), x.min(Y)),
            4 => (x, y),
            _ => raw(&pos_of::<X, Y>(*o)),
        });
    }
    v.into_iter().map(|(x, y)| (mkpos::<X, Y>(x, y), (x, y))).collect()
}

fn positions<const X: u16, const Y: u16>(c: &P, obs: &mut Obs) -> R {
    let v = points::<X, Y>(c);
    obs.nt(X > 0 || Y > 0);
    let g = |i: usize| v[i % v.len()];
    let ((a, ma), (b, mb), (d, md)) = (g(0), g(1), g(2));
    pair(a, b, d, ma, mb, md, obs)?;
    pair(b, d, a, mb, md, ma, obs)
}

fn position_lists<const X: u16, const Y: u16>(c: &P, obs: &mut Obs) -> R {
    let v = points::<X, Y>(c);
    obs.nt((X > 0 || Y > 0) && v.len() > 2);
    let n = v.len() - v.len() / 3;
    let gone: Vec<_> = v.iter().skip(n).chain(v.iter().step_by(3)).copied().collect();
    collections(&v[..n], &gone, obs)
}

fn pos_gen(len: std::ops::Range<usize>) -> BoxedStrategy<P> {
    let n = pos_dims!(__tab_xy; positions, FnP).len();
    (0..n, cxy(), prop::collection::vec((0u8..6, -2i8..3, -2i8..3, cxy()), len))
        .prop_map(|(dim, at, how)| P { dim, at, how })
        .boxed()
}

type FnP = fn(&P, &mut Obs) -> R;

fn positions_t(c: &P, obs: &mut Obs) -> R {
    let t = pos_dims!(__tab_xy; positions, FnP);
    (t[c.dim % t.len()].2)(c, obs)
}

fn position_lists_t(c: &P, obs: &mut Obs) -> R {
    let t = pos_dims!(__tab_xy; position_lists, FnP);
    (t[c.dim % t.len()].2)(c, obs)
}

/* Bounded integers ***********************************************************/

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct B {
    ty: usize,
    vals: Vec<V>,
}

/// A value between the bounds: from the lower one, the upper one, zero, or anywhere, or the value
/// before it in the list with one bit flipped, or near it.
#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
enum V {
    Low(u8),
    High(u8),
    Zero(i8),
    Any(u64, u64),
    Flip(u8),
    Near(i8),
}

/// An offset from the lower bound, at most `span`.
fn off(v: V, prev: u128, min: i128, span: u128) -> u128 {
    match v {
        // Only the bits below the highest of the span
        V::Flip(k) => {
            let bits = (128 - span.leading_zeros()).max(1);
            (prev ^ (1 << (k as u32 % bits))).min(span)
        }
        V::Near(n) if n < 0 => prev.saturating_sub(n.unsigned_abs() as u128),
        V::Near(n) => prev.saturating_add(n as u128).min(span),
        V::Low(n) => (n as u128).min(span),
        V::High(n) => span - (n as u128).min(span),
        V::Zero(n) => {
            let to_zero = min.checked_neg().map_or(1 << 127, |m| m.max(0) as u128).min(span);
            if n < 0 {
                to_zero.saturating_sub(n.unsigned_abs() as u128)
            } else {
                to_zero.saturating_add(n as u128).min(span)
            }
        }
        V::Any(a, b) => {
            let r = ((a as u128) << 64) | b as u128;
            if span == u128::MAX {
                r
            } else {
                r % (span + 1)
            }
        }
    }
}

type FnB = fn(&B, &mut Obs) -> R;

macro_rules! bounded {
    ($($ty:ident $int:ident $min:expr, $max:expr;)*) => {{
        const T: &[FnB] = &[$(|c, obs| {
            const MIN: $int = $min;
            const MAX: $int = $max;
            type K = $ty<MIN, MAX>;
            let span = (MAX as u128).wrapping_sub(MIN as u128);
            let mut o = 0;
            let v: Vec<(K, $int)> = c.vals.iter().map(|v| {
                o = off(*v, o, MIN as i128, span);
                let i = (MIN as u128).wrapping_add(o) as $int;
                ($ty(i), i)
            }).collect();
            obs.nt(MIN < MAX);
            obs.label(stringify!($ty));
            let g = |i: usize| v[i % v.len()];
            let ((a, ma), (b, mb), (d, md)) = (g(0), g(1), g(2));
            pair(a, b, d, ma, mb, md, obs)?;
            let n = v.len() - v.len() / 3;
            let gone: Vec<_> = v.iter().skip(n).chain(v.iter().step_by(3)).copied().collect();
            collections(&v[..n], &gone, obs)
        }),*];
        T
    }};
}

fn bounded_table() -> &'static [FnB] {
    bounded! {
        BoundedU8 u8 0, 9; BoundedU8 u8 0, 255; BoundedU8 u8 100, 200; BoundedU8 u8 7, 7;
        BoundedU16 u16 0, 300; BoundedU16 u16 0, 65535; BoundedU16 u16 255, 257;
        BoundedU32 u32 0, 70000; BoundedU32 u32 0, u32::MAX; BoundedU32 u32 65535, 65537;
        BoundedU64 u64 0, 5_000_000_000; BoundedU64 u64 0, u64::MAX;
        BoundedU128 u128 0, u128::MAX; BoundedU128 u128 u64::MAX as u128 - 1, u64::MAX as u128 + 2;
        BoundedI8 i8 -10, 10; BoundedI8 i8 -128, 127; BoundedI8 i8 -100, -50;
        BoundedI16 i16 -300, 300; BoundedI16 i16 -32768, 32767; BoundedI16 i16 -129, -127;
        BoundedI32 i32 -70000, 70000; BoundedI32 i32 i32::MIN, i32::MAX;
        BoundedI64 i64 -5_000_000_000, 5_000_000_000; BoundedI64 i64 i64::MIN, i64::MAX;
        BoundedI128 i128 i128::MIN, i128::MAX; BoundedI128 i128 -(1 << 64) - 1, 1 << 64;
        BoundedIsize isize -3, 3; BoundedIsize isize isize::MIN, isize::MAX;
    }
}

fn bounded_t(c: &B, obs: &mut Obs) -> R {
    let t = bounded_table();
    (t[c.ty % t.len()])(c, obs)
}

fn bounded_gen() -> BoxedStrategy<B> {
    let v = prop_oneof![
        3 => (0u8..4).prop_map(V::Low),
        3 => (0u8..4).prop_map(V::High),
        3 => (-3i8..4).prop_map(V::Zero),
        3 => (any::<u64>(), any::<u64>()).prop_map(|(a, b)| V::Any(a, b)),
        1 => (0u64..1 << 16).prop_map(|b| V::Any(0, b)),
        4 => (0u8..128).prop_map(V::Flip),
        2 => (-3i8..4).prop_map(V::Near),
    ];
    (0..bounded_table().len(), prop::collection::vec(v, 1..12))
        .prop_map(|(ty, vals)| B { ty, vals })
        .boxed()
}

/* Directions *****************************************************************/

fn dirs_t(c: &Vec<u8>, obs: &mut Obs) -> R {
    let v: Vec<(Dir, u8)> = c.iter().map(|i| (DIRS[*i as usize % 8].0, i % 8)).collect();
    obs.nt(v.len() > 1);
    let g = |i: usize| v[i % v.len()];
    let ((a, ma), (b, mb), (d, md)) = (g(0), g(1), g(2));
    pair(a, b, d, ma, mb, md, obs)?;
    let n = v.len() - v.len() / 3;
    let gone: Vec<_> = v.iter().skip(n).chain(v.iter().step_by(3)).copied().collect();
    collections(&v[..n], &gone, obs)
}

/// All triples
fn dir_triples(_: bool) -> Vec<Vec<u8>> {
    (0..512u16).map(|i| vec![(i / 64) as u8, (i / 8 % 8) as u8, (i % 8) as u8]).collect()
}

fn main() {
    main_check(
        "C28",
        &[
            &Facet {
                name: "positions",
                rule: "three positions of one extent, near each other, sharing a coordinate, with coordinates exchanged, equal, or anywhere; non-trivial: more than one position",
                quick: 400_000,
                thorough: 12_000_000,
                strategy: |_| pos_gen(2..3),
                test: positions_t,
            },
            &Facet {
                name: "position-lists",
                rule: "lists of up to 16 positions sorted, searched and kept in sets and maps; non-trivial: more than two positions of an extent of more than one",
                quick: 100_000,
                thorough: 3_000_000,
                strategy: |_| pos_gen(0..16),
                test: position_lists_t,
            },
            &Facet {
                name: "bounded",
                rule: "lists of up to 11 values of 28 bounded integer types; non-trivial: more than one value in bounds",
                quick: 100_000,
                thorough: 3_000_000,
                strategy: |_| bounded_gen(),
                test: bounded_t,
            },
            &Exhaustive {
                name: "direction-triples",
                rule: "all triples of directions; all non-trivial",
                cases: dir_triples,
                test: dirs_t,
            },
            &Facet {
                name: "direction-lists",
                rule: "lists of up to 15 directions; non-trivial: more than one",
                quick: 50_000,
                thorough: 1_000_000,
                strategy: |_| prop::collection::vec(0u8..8, 1..16).boxed(),
                test: dirs_t,
            },
        ],
        &[],
    )
}
