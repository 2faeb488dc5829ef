//! C17: iterating a bounded integer type visits each value once.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sqrid::*;
use vh::gen::*;
use vh::iterlaw::{drive2, script, Opt, Script};
use vh::*;

/// A history of takes: (from the back?, how many)
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct C {
    ty: usize,
    /// Sub-range, when the iterator is built with `BoundedIntIterator::new`
    sub: Option<(u64, u64)>,
    takes: Vec<(bool, u32)>,
}

/// The iterator of a type, or of a part of its range, and its ends.
fn make<T>(sub: Option<(u64, u64)>, name: &str) -> Result<(BoundedIntIterator<T>, W, W), String>
where
    T: BoundedInt,
    T::Inner: AsW,
{
    let val = |t: T| t.into_inner().w();
    let (tmin, tmax) = (val(T::MIN), val(T::MAX));
    let (mut lo, mut hi) = (tmin, tmax);
    let it = match sub {
        None => T::iter(),
        Some((a, b)) => {
            // The ends of the sub-range are reached with checked_add, in bounds by construction
            let span = tmax.sub(tmin).expect("span").mag;
            let off = |r: u64| -> u128 {
                let k = r as u128 % 512;
                let k = if r & (1 << 40) != 0 { span.saturating_sub(k) } else { k };
                k.min(span)
            };
            let (a, b) = (off(a).min(off(b)), off(a).max(off(b)));
            lo = tmin.add(W::u(a)).expect("in range");
            hi = tmin.add(W::u(b)).expect("in range");
            let mk = |w: W| -> Result<T, String> {
                let r = match (w.to_u128(), w.to_i128()) {
                    (Some(u), _) => T::try_from(u).ok(),
                    (_, Some(i)) => T::try_from(i).ok(),
                    _ => None,
                };
                r.ok_or_else(|| format!("{name}: in-range value {w:?} refused"))
            };
            BoundedIntIterator::new(mk(lo)?, mk(hi)?)
        }
    };
    Ok((it, lo, hi))
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Sc {
    ty: usize,
    sub: Option<(u64, u64)>,
    script: Script,
}

/// Any way of consuming the iterator.
fn scripted<T>(c: &Sc, obs: &mut Obs, name: &str) -> R
where
    T: BoundedInt,
    T::Inner: AsW,
{
    let (_, lo, hi) = make::<T>(None, name)?;
    let span = hi.sub(lo).map_or(u128::MAX, |s| s.mag);
    // item numbers have to fit
    let sub = if span >> 60 != 0 { Some(c.sub.unwrap_or((3, 300))) } else { c.sub };
    let (it, lo, hi) = make::<T>(sub, name)?;
    let span = hi.sub(lo).expect("span").mag;
    if span >> 60 != 0 {
        return Ok(());
    }
    obs.nt(span > 0);
    obs.label_if(span < 600, "finished");
    let what = format!("{name} {lo:?}..={hi:?}");
    drive2(
        it,
        span as usize + 1,
        &|i| lo.add(W::u(i as u128)).expect("in range"),
        &|t: T| t.into_inner().w(),
        &c.script,
        Opt { hints: true, most: 600, ordered: true },
        &what,
    )
}

fn run<T>(c: &C, obs: &mut Obs, name: &str) -> R
where
    T: BoundedInt,
    T::Inner: AsW,
{
    let val = |t: T| t.into_inner().w();
    let (mut it, lo, hi) = make::<T>(c.sub, name)?;
    obs.label_if(c.sub.is_some(), "sub-range");
    let ctx = format!("{name} {:?}..={:?}", lo, hi);
    // None once exhausted
    let mut range = Some((lo, hi));
    obs.nt(lo != hi && c.takes.len() > 1);
    let (mut f, mut b) = (false, false);
    for (k, (back, n)) in c.takes.iter().enumerate() {
        for j in 0..*n {
            let got = if *back { it.next_back() } else { it.next() }.map(val);
            let want = match range {
                None => None,
                Some((lo, hi)) => {
                    range = if lo == hi {
                        None
                    } else if *back {
                        Some((lo, hi.sub(W::u(1)).expect("in range")))
                    } else {
                        Some((lo.add(W::u(1)).expect("in range"), hi))
                    };
                    Some(if *back { hi } else { lo })
                }
            };
            f |= !back;
            b |= back;
            ensure_eq!(got, want, "{ctx}, take {j} of burst {k} (back: {back})");
            if want.is_none() && j > 2 {
                break;
            }
        }
    }
    obs.label_if(f && b, "both-ends");
    obs.label_if(range.is_none(), "exhausted");
    // what is left comes out in order, when that is short
    if let Some((lo, hi)) = range {
        let left = hi.sub(lo).expect("span").mag;
        if left < 600 {
            let rest: Vec<W> = it.by_ref().take(700).map(val).collect();
            ensure_eq!(rest.len() as u128, left + 1, "{ctx}: number of values left");
            for (i, r) in rest.iter().enumerate() {
                ensure_eq!(Some(*r), lo.add(W::u(i as u128)), "{ctx}: value {i} of the rest");
            }
            obs.label("drained");
        } else {
            return Ok(());
        }
    }
    for _ in 0..3 {
        ensure!(it.next().is_none(), "{ctx}: next() yields again after exhaustion");
        ensure!(it.next_back().is_none(), "{ctx}: next_back() yields again after exhaustion");
    }
    Ok(())
}

type Fn_ = (fn(&C, &mut Obs) -> R, fn(&Sc, &mut Obs) -> R);

macro_rules! t {
    ($($B:ty),* $(,)?) => {{
        const T: &[Fn_] = &[$((
            |c, obs| run::<$B>(c, obs, stringify!($B)),
            |c, obs| scripted::<$B>(c, obs, stringify!($B)),
        )),*];
        T
    }};
}

fn table() -> &'static [Fn_] {
    t!(
        BoundedU8<0, 0>, BoundedU8<0, 1>, BoundedU8<0, 9>, BoundedU8<1, 1>, BoundedU8<3, 9>,
        BoundedU8<255, 255>, BoundedU8<254, 255>, BoundedU8<200, 255>, BoundedU8<0, 255>,
        BoundedU8<1, 255>, BoundedU8<0, 254>, BoundedU8<127, 129>,
        BoundedI8<0, 0>, BoundedI8<-1, -1>, BoundedI8<-3, 4>, BoundedI8<-9, -4>, BoundedI8<2, 7>,
        BoundedI8<-128, -128>, BoundedI8<127, 127>, BoundedI8<-128, -120>, BoundedI8<120, 127>,
        BoundedI8<-128, 127>, BoundedI8<-127, 126>, BoundedI8<0, 127>, BoundedI8<-128, 0>,
        BoundedU16<0, 0>, BoundedU16<0, 9>, BoundedU16<5, 300>, BoundedU16<65530, 65535>,
        BoundedU16<65535, 65535>, BoundedU16<0, 65535>, BoundedU16<250, 260>, BoundedU16<0, 256>,
        BoundedI16<-5, 5>, BoundedI16<-32768, -32760>, BoundedI16<32760, 32767>,
        BoundedI16<-32768, 32767>, BoundedI16<-129, 128>,
        BoundedU32<0, 3>, BoundedU32<7, 7>, BoundedU32<{ u32::MAX - 4 }, { u32::MAX }>,
        BoundedU32<0, { u32::MAX }>, BoundedU32<65534, 65538>,
        BoundedI32<-2, 2>, BoundedI32<{ i32::MIN }, { i32::MIN + 3 }>,
        BoundedI32<{ i32::MAX - 3 }, { i32::MAX }>, BoundedI32<{ i32::MIN }, { i32::MAX }>,
        BoundedI32<-32770, -32766>,
        BoundedU64<0, 2>, BoundedU64<{ u64::MAX - 2 }, { u64::MAX }>, BoundedU64<0, { u64::MAX }>,
        BoundedU64<4294967290, 4294967300>,
        BoundedI64<-6, -1>, BoundedI64<{ i64::MIN }, { i64::MIN + 3 }>,
        BoundedI64<{ i64::MAX - 3 }, { i64::MAX }>, BoundedI64<{ i64::MIN }, { i64::MAX }>,
        BoundedU128<5, 5>, BoundedU128<{ u128::MAX - 2 }, { u128::MAX }>,
        BoundedU128<0, { u128::MAX }>, BoundedU128<{ u64::MAX as u128 }, { u64::MAX as u128 + 5 }>,
        BoundedI128<-4, 6>, BoundedI128<{ i128::MIN }, { i128::MIN + 3 }>,
        BoundedI128<{ i128::MAX - 3 }, { i128::MAX }>, BoundedI128<{ i128::MIN }, { i128::MAX }>,
        BoundedIsize<-3, 3>, BoundedIsize<{ isize::MIN }, { isize::MIN + 2 }>,
        BoundedIsize<{ isize::MAX - 2 }, { isize::MAX }>, BoundedIsize<{ isize::MIN }, { isize::MAX }>,
        u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize,
    )
}

fn histories(c: &C, obs: &mut Obs) -> R {
    let t = table();
    (t[c.ty % t.len()].0)(c, obs)
}

fn scripts(c: &Sc, obs: &mut Obs) -> R {
    let t = table();
    (t[c.ty % t.len()].1)(c, obs)
}

fn takes(max: u32, n: usize) -> BoxedStrategy<Vec<(bool, u32)>> {
    prop::collection::vec(
        (any::<bool>(), prop_oneof![6 => 1u32..4, 2 => 1u32..40, 1 => 0..max]),
        0..n,
    )
    .boxed()
}

fn gen(max: u32, n: usize) -> BoxedStrategy<C> {
    (0usize..81, prop::option::weighted(0.4, any::<(u64, u64)>()), takes(max, n))
        .prop_map(|(ty, sub, takes)| C { ty, sub, takes })
        .boxed()
}

/// Every start and end pair of the byte-sized types, emptied in several ways.
fn byte_ranges(c: &(bool, i16, u8), obs: &mut Obs) -> R {
    fn each<T>(lo: i16, pattern: u8, max: i16) -> R
    where
        T: BoundedInt + TryFrom<i16>,
        T::Inner: AsW,
    {
        for hi in lo..=max {
            let mk = |v: i16| T::try_from(v).map_err(|_| format!("{v} refused"));
            let mut it = BoundedIntIterator::new(mk(lo)?, mk(hi)?);
            let (mut f, mut b) = (lo, hi);
            let mut k = 0u32;
            while f <= b {
                let back = match pattern {
                    0 => false,
                    1 => true,
                    2 => k % 2 == 1,
                    _ => k % 5 < 2,
                };
                k += 1;
                let got = if back { it.next_back() } else { it.next() }
                    .and_then(|t| t.into_inner().w().to_i128());
                let want = if back { b } else { f };
                ensure_eq!(got, Some(want as i128), "{lo}..={hi}, take {k}");
                if back {
                    b -= 1;
                } else {
                    f += 1;
                }
            }
            ensure!(it.next().is_none() && it.next_back().is_none(), "{lo}..={hi} not exhausted");
        }
        Ok(())
    }
    obs.nt(true);
    if c.0 {
        each::<i8>(c.1, c.2, 127)
    } else {
        each::<u8>(c.1, c.2, 255)
    }
}

fn main() {
    main_check(
        "C17",
        &[
            &Exhaustive {
                name: "byte-ranges",
                rule: "every start and end of u8 and i8, emptied from the front, the back and both ends alternately",
                cases: |_| {
                    let mut v = vec![];
                    for p in 0..4u8 {
                        v.extend((0i16..=255).map(|l| (false, l, p)));
                        v.extend((-128i16..=127).map(|l| (true, l, p)));
                    }
                    v
                },
                test: byte_ranges,
            },
            &Facet {
                name: "histories",
                rule: "bursts of takes from either end of the iterators of 81 bounded and plain types and of their sub-ranges, against an interval; non-trivial when the range has more than one value and there are two or more bursts",
                quick: 5_000_000,
                thorough: 75_000_000,
                strategy: |_| gen(300, 14),
                test: histories,
            },
            &Facet {
                name: "scripts",
                rule: "the same iterators consumed by up to seven of next, nth, skip, take, find and their counterparts at the back, then, when at most 600 values are left, to the end in one of sixteen ways; non-trivial: more than one value",
                quick: 2_000_000,
                thorough: 30_000_000,
                strategy: |_| {
                    (0usize..81, prop::option::weighted(0.5, any::<(u64, u64)>()), script(300, 8))
                        .prop_map(|(ty, sub, script)| Sc { ty, sub, script })
                        .boxed()
                },
                test: scripts,
            },
            &Facet {
                name: "long-histories",
                rule: "as histories, with bursts of up to 70000 takes",
                quick: 100_000,
                thorough: 1_500_000,
                strategy: |_| gen(70_000, 8),
                test: histories,
            },
        ],
        &[],
    );
}
