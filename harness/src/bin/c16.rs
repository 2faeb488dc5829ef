//! C16: bounded integers never leave their range.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sqrid::*;
use vh::gen::*;
use vh::*;

/// A value relative to the bounds or of any size.
#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
enum V {
    Any(W),
    Min(i16),
    Max(i16),
    In(u64, u64),
}

impl V {
    fn at(self, min: W, max: W) -> Option<W> {
        match self {
            V::Any(w) => Some(w),
            V::Min(d) => min.add(W::i(d as i128)),
            V::Max(d) => max.add(W::i(d as i128)),
            V::In(hi, lo) => {
                let r = (hi as u128) << 64 | lo as u128;
                let span = max.sub(min)?.mag;
                min.add(W::u(if span == u128::MAX { r } else { r % (span + 1) }))
            }
        }
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct C {
    ty: usize,
    a: V,
    b: V,
    ops: Vec<(u8, V)>,
}

struct Extra<B, I> {
    name: &'static str,
    bounds: (I, I),
    new: fn(I) -> Result<B, Error>,
    new_unwrap: fn(I) -> B,
    inner: fn(B) -> I,
    from: fn(B) -> I,
    default: fn() -> B,
}

macro_rules! conv {
    ($w:expr, $min:expr, $max:expr, $name:expr, $B:ty ; $($t:ty)*) => {$(
        if let Some(v) = <$t as AsW>::of($w) {
            let inside = $min <= $w && $w <= $max;
            match <$B as TryFrom<$t>>::try_from(v) {
                Ok(b) => {
                    ensure!(inside, "{}::try_from({v}{}) accepted", $name, stringify!($t));
                    ensure!(b.into_inner().w() == $w, "{}::try_from({v}{}) gave {b:?}", $name, stringify!($t));
                }
                Err(_) => ensure!(!inside, "{}::try_from({v}{}) refused", $name, stringify!($t)),
            }
        }
    )*};
}

macro_rules! conv_err {
    ($w:expr, $name:expr, $B:ty ; $($t:ty)*) => {$(
        if let Some(v) = <$t as AsW>::of($w) {
            if let Err(e) = <$B as TryFrom<$t>>::try_from(v) {
                ensure!(e == Error::OutOfBounds, "{}::try_from({v}{}) reported {e:?}", $name, stringify!($t));
            }
        }
    )*};
}

/// Laws of every `BoundedInt`, bounded or plain. `mk` builds a value known to be within bounds.
fn laws<B, I>(c: &C, obs: &mut Obs, name: &str, min: W, max: W, mk: &dyn Fn(W) -> B) -> R
where
    B: BoundedInt<Inner = I>,
    I: AsW + std::fmt::Display + std::fmt::Debug + Ord,
    <B as TryInto<usize>>::Error: std::fmt::Debug,
{
    ensure_eq!(B::MIN.into_inner().w(), min, "{name}::MIN");
    ensure_eq!(B::MAX.into_inner().w(), max, "{name}::MAX");
    let inside = |w: &W| min <= *w && *w <= max;
    for v in [c.a, c.b] {
        let Some(w) = v.at(min, max) else { continue };
        obs.nt(min < max);
        obs.label(if inside(&w) { "inside" } else { "outside" });
        obs.label_if(w == min || w == max, "at-bound");
        conv!(w, min, max, name, B; u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
    }
    // values within bounds
    let fit = |v: V| v.at(min, max).filter(|w| inside(w));
    if let Some(w) = fit(c.a) {
        let x = mk(w);
        let text = I::of(w).expect("fits");
        ensure_eq!(x.into_inner().w(), w, "{name} {text}.into_inner()");
        ensure_eq!(BoundedInt::as_ref(&x).w(), w, "{name} {text}.as_ref()");
        ensure_eq!(x.to_string(), text.to_string(), "{name} {text} printed");
        ensure_eq!(format!("{x:?}"), text.to_string(), "{name} {text} debug printed");
        let us: Result<usize, _> = x.try_into();
        match (us, usize::of(w)) {
            (Ok(u), Some(e)) => ensure_eq!(u, e, "{name} {text} as usize"),
            (Err(_), None) => {}
            (Ok(u), None) => return Err(format!("{name} {text} became usize {u}")),
            (Err(e), Some(_)) => return Err(format!("{name} {text} refused as usize: {e:?}")),
        }
        if let Some(v) = fit(c.b) {
            let y = mk(v);
            ensure_eq!(x.cmp(&y), w.cmp(&v), "{name} {x:?} cmp {y:?}");
            ensure_eq!(x.partial_cmp(&y), Some(w.cmp(&v)), "{name} {x:?} partial_cmp {y:?}");
            ensure_eq!(x == y, w == v, "{name} {x:?} == {y:?}");
            ensure_eq!(x < y, w < v, "{name} {x:?} < {y:?}");
            ensure_eq!(x <= y, w <= v, "{name} {x:?} <= {y:?}");
        }
        // a history of checked operations
        let (mut cur, mut x) = (w, x);
        for (op, v) in &c.ops {
            let one = W::u(1);
            let (what, got, want) = match op % 6 {
                0 | 4 => {
                    let Some(v) = fit(*v) else { continue };
                    (format!("checked_add({v:?})"), x.checked_add(mk(v)), cur.add(v))
                }
                1 | 5 => {
                    let Some(v) = fit(*v) else { continue };
                    (format!("checked_sub({v:?})"), x.checked_sub(mk(v)), cur.sub(v))
                }
                2 => ("inc()".to_string(), x.inc(), cur.add(one)),
                _ => ("dec()".to_string(), x.dec(), cur.sub(one)),
            };
            let want = want.filter(inside);
            obs.label(if want.is_some() { "op-fits" } else { "op-overflows" });
            ensure_eq!(got.map(|g| g.into_inner().w()), want, "{name} {x:?}.{what}");
            if let (Some(g), Some(v)) = (got, want) {
                x = g;
                cur = v;
            }
        }
    }
    Ok(())
}

fn bounded<B, I>(c: &C, obs: &mut Obs, e: &Extra<B, I>) -> R
where
    B: BoundedInt<Inner = I> + std::hash::Hash,
    I: AsW + std::fmt::Display + std::fmt::Debug + Ord + Default + From<bool>,
    <B as TryInto<usize>>::Error: std::fmt::Debug + PartialEq<Error>,
    B: TryFrom<u8, Error = Error> + TryFrom<u16, Error = Error> + TryFrom<u32, Error = Error>,
    B: TryFrom<u64, Error = Error> + TryFrom<u128, Error = Error> + TryFrom<usize, Error = Error>,
    B: TryFrom<i8, Error = Error> + TryFrom<i16, Error = Error> + TryFrom<i32, Error = Error>,
    B: TryFrom<i64, Error = Error> + TryFrom<i128, Error = Error> + TryFrom<isize, Error = Error>,
{
    let name = e.name;
    let (min, max) = (e.bounds.0.w(), e.bounds.1.w());
    let inside = |w: &W| min <= *w && *w <= max;
    let d = (e.default)();
    ensure!(inside(&d.into_inner().w()), "{name}::default() is {d:?}, out of its bounds");
    // "The value closest to zero"
    let closest = 0u8.w().max(min).min(max);
    ensure!(
        d.into_inner().w() == closest,
        "{name}::default() is {d:?}, not the value closest to zero"
    );
    for v in [c.a, c.b] {
        let Some(w) = v.at(min, max) else { continue };
        conv_err!(w, name, B; u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
        let Some(i) = I::of(w) else { continue };
        match (e.new)(i) {
            Ok(b) => {
                ensure!(inside(&w), "{name}::new({i}) accepted");
                ensure_eq!((e.inner)(b).w(), w, "{name}::new({i}).into_inner()");
                ensure_eq!((e.from)(b).w(), w, "integer from {name}::new({i})");
                ensure_eq!(hash_of(&b), hash_of(&(e.new_unwrap)(i)), "hash of {name} {i}");
            }
            Err(err) => {
                ensure!(!inside(&w), "{name}::new({i}) refused");
                ensure_eq!(err, Error::OutOfBounds, "{name}::new({i})");
            }
        }
        match no_panic(|| (e.new_unwrap)(i)) {
            Ok(b) => {
                ensure!(inside(&w), "{name}::new_unwrap({i}) accepted");
                ensure_eq!(b.into_inner().w(), w, "{name}::new_unwrap({i})");
            }
            Err(_) => ensure!(!inside(&w), "{name}::new_unwrap({i}) panicked"),
        }
        if inside(&w) && w.neg {
            let us: Result<usize, _> = (e.new_unwrap)(i).try_into();
            match us {
                Ok(u) => return Err(format!("{name} {i} became usize {u}")),
                Err(err) => {
                    ensure!(err == Error::OutOfBounds, "{name} {i} as usize reported {err:?}")
                }
            }
        }
    }
    for b in [false, true] {
        let w = W::u(b as u128);
        if inside(&w) {
            ensure_eq!(B::from(b).into_inner().w(), w, "{name}::from({b})");
        } else {
            obs.exclude(); // from-bool-out-of-range
        }
    }
    if inside(&W::u(1)) {
        ensure_eq!(B::one().into_inner().w(), W::u(1), "{name}::one()");
    }
    laws::<B, I>(c, obs, name, min, max, &|w| (e.new_unwrap)(I::of(w).expect("fits")))
}

type Fn_ = fn(&C, &mut Obs) -> R;

macro_rules! case {
    ($B:ident, $i:ident, $lo:expr, $hi:expr) => {{
        fn f(c: &C, obs: &mut Obs) -> R {
            type B = $B<{ $lo }, { $hi }>;
            bounded::<B, $i>(
                c,
                obs,
                &Extra {
                    name: concat!(
                        stringify!($B),
                        "<{",
                        stringify!($lo),
                        "}, {",
                        stringify!($hi),
                        "}>"
                    ),
                    bounds: ($lo, $hi),
                    new: B::new,
                    new_unwrap: B::new_unwrap,
                    inner: |b| B::into_inner(b),
                    from: |b| <$i>::from(b),
                    default: B::default,
                },
            )
        }
        f as Fn_
    }};
}

macro_rules! unsigned {
    ($v:ident ; $($B:ident $i:ident)*) => {$(
        $v.push(case!($B, $i, 0, 0));
        $v.push(case!($B, $i, 0, 1));
        $v.push(case!($B, $i, 0, 9));
        $v.push(case!($B, $i, 1, 1));
        $v.push(case!($B, $i, 1, 7));
        $v.push(case!($B, $i, 2, 6));
        $v.push(case!($B, $i, 42, 42));
        $v.push(case!($B, $i, 100, 200));
        $v.push(case!($B, $i, 0, 127));
        $v.push(case!($B, $i, 0, $i::MAX));
        $v.push(case!($B, $i, 1, $i::MAX));
        $v.push(case!($B, $i, 0, $i::MAX - 1));
        $v.push(case!($B, $i, $i::MAX, $i::MAX));
        $v.push(case!($B, $i, $i::MAX - 1, $i::MAX));
        $v.push(case!($B, $i, $i::MAX / 2, $i::MAX - 3));
        $v.push(case!($B, $i, $i::MAX / 2, $i::MAX / 2 + 1));
    )*};
}

macro_rules! signed {
    ($v:ident ; $($B:ident $i:ident)*) => {$(
        $v.push(case!($B, $i, 0, 0));
        $v.push(case!($B, $i, 0, 9));
        $v.push(case!($B, $i, -1, 1));
        $v.push(case!($B, $i, -1, 0));
        $v.push(case!($B, $i, -1, -1));
        $v.push(case!($B, $i, -5, 3));
        $v.push(case!($B, $i, -7, -2));
        $v.push(case!($B, $i, 3, 9));
        $v.push(case!($B, $i, -100, 100));
        $v.push(case!($B, $i, -128, 127));
        $v.push(case!($B, $i, $i::MIN, $i::MAX));
        $v.push(case!($B, $i, $i::MIN, $i::MIN));
        $v.push(case!($B, $i, $i::MAX, $i::MAX));
        $v.push(case!($B, $i, $i::MIN, $i::MIN + 1));
        $v.push(case!($B, $i, $i::MAX - 1, $i::MAX));
        $v.push(case!($B, $i, $i::MIN, 0));
        $v.push(case!($B, $i, $i::MIN, -1));
        $v.push(case!($B, $i, 0, $i::MAX));
        $v.push(case!($B, $i, 1, $i::MAX));
        $v.push(case!($B, $i, $i::MIN + 1, $i::MAX - 1));
    )*};
}

macro_rules! plain {
    ($v:ident ; $($i:ident)*) => {$({
        fn f(c: &C, obs: &mut Obs) -> R {
            laws::<$i, $i>(c, obs, stringify!($i), $i::MIN.w(), $i::MAX.w(), &|w| $i::of(w).expect("fits"))
        }
        $v.push(f as Fn_);
    })*};
}

fn table() -> Vec<Fn_> {
    let mut v: Vec<Fn_> = vec![];
    unsigned!(v; BoundedU8 u8 BoundedU16 u16 BoundedU32 u32 BoundedU64 u64 BoundedU128 u128);
    // bounds at the ends of narrower types
    v.push(case!(BoundedU16, u16, 0, 255));
    v.push(case!(BoundedU16, u16, 255, 256));
    v.push(case!(BoundedU32, u32, 0, 65535));
    v.push(case!(BoundedU32, u32, 65535, 65537));
    v.push(case!(BoundedU64, u64, 0, u32::MAX as u64));
    v.push(case!(BoundedU64, u64, u32::MAX as u64, 1 << 33));
    v.push(case!(BoundedU128, u128, 0, u64::MAX as u128));
    v.push(case!(BoundedU128, u128, u64::MAX as u128 + 1, 1 << 70));
    v.push(case!(BoundedI16, i16, -129, 128));
    v.push(case!(BoundedI32, i32, -32769, 32768));
    v.push(case!(BoundedI64, i64, i32::MIN as i64, i32::MAX as i64));
    v.push(case!(BoundedI128, i128, i64::MIN as i128, i64::MAX as i128));
    v.push(case!(BoundedI128, i128, 1 << 64, 1 << 65));
    signed!(v; BoundedI8 i8 BoundedI16 i16 BoundedI32 i32 BoundedI64 i64 BoundedI128 i128
        BoundedIsize isize);
    plain!(v; u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
    v
}

static TABLE: std::sync::OnceLock<Vec<Fn_>> = std::sync::OnceLock::new();

fn values(c: &C, obs: &mut Obs) -> R {
    let t = TABLE.get_or_init(table);
    (t[c.ty % t.len()])(c, obs)
}

fn v() -> impl Strategy<Value = V> + Clone {
    prop_oneof![
        2 => wide().prop_map(V::Any),
        3 => (-4i16..5).prop_map(V::Min),
        3 => (-4i16..5).prop_map(V::Max),
        1 => (-300i16..301).prop_map(V::Min),
        1 => (-300i16..301).prop_map(V::Max),
        3 => any::<(u64, u64)>().prop_map(|(a, b)| V::In(a, b)),
    ]
}

/// Every value of the byte-sized types, in and out of bounds, against every other.
fn bytes(c: &(usize, i16), obs: &mut Obs) -> R {
    let t = TABLE.get_or_init(table);
    for d in -260i16..=260 {
        for op in 0..4 {
            let case = C {
                ty: c.0,
                a: V::Any(W::i(c.1 as i128)),
                b: V::Any(W::i(d as i128)),
                ops: vec![(op, V::Any(W::i(d as i128)))],
            };
            (t[c.0])(&case, obs)?;
        }
    }
    Ok(())
}

fn main() {
    main_check(
        "C16",
        &[
            &Exhaustive {
                name: "bytes",
                rule: "every value from -260 to 260 against every other, for all bounds of the unsigned byte type; non-trivial when the range has more than one value",
                cases: |_| {
                    // the first 16 entries of the table are the unsigned bytes
                    (0..16usize).flat_map(|t| (-260i16..=260).map(move |a| (t, a))).collect()
                },
                test: bytes,
            },
            &Facet {
                name: "values",
                rule: "values of any size from all twelve integer types against 225 combinations of type and bounds, then a history of checked operations; non-trivial when the range has more than one value",
                quick: 3_000_000,
                thorough: 45_000_000,
                strategy: |_| {
                    (0usize..225, v(), v(), prop::collection::vec((0u8..6, v()), 0..8))
                        .prop_map(|(ty, a, b, ops)| C { ty, a, b, ops })
                        .boxed()
                },
                test: values,
            },
        ],
        &[Probe {
            key: "from-bool-out-of-range",
            what: "BoundedU8::<3,7>::from(true) (and one()) is a value outside its bounds",
            fails: || {
                let a = BoundedU8::<3, 7>::from(true).into_inner();
                let b = <BoundedI16<-9, -4> as BoundedInt>::one().into_inner();
                !(3..=7).contains(&a) || !(-9..=-4).contains(&b)
            },
        }],
    );
}
