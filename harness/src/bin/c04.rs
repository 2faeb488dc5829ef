//! C04: directions form the 8-step rotation group.
use proptest::prelude::*;
use sqrid::Dir;
use vh::gen::*;
use vh::iterlaw::{drive, script, Opt, Script};
use vh::*;

fn d(i: u8) -> Dir {
    DIRS[i as usize % 8].0
}

fn pairs(c: &(u8, u8), obs: &mut Obs) -> R {
    let (i, j) = (c.0 as usize, c.1 as usize);
    obs.nt(i != 0 || j != 0);
    let (a, b) = (d(c.0), d(c.1));
    ensure_eq!(Dir::ALL8[i], a, "ALL8[{i}]");
    ensure_eq!(a as usize, i, "numeric value of {a:?}");
    let s = d(((i + j) % 8) as u8);
    ensure_eq!(a + b, s, "{a:?} + {b:?}");
    ensure_eq!(a.rotate(&b), s, "{a:?}.rotate({b:?})");
    let mut c2 = a;
    c2 += b;
    ensure_eq!(c2, s, "{a:?} += {b:?}");
    ensure_eq!(-a, d(((i + 4) % 8) as u8), "-{a:?}");
    ensure_eq!(a.flip(), d(((i + 4) % 8) as u8), "{a:?}.flip()");
    ensure_eq!(a.is_diagonal(), i % 2 == 1, "{a:?}.is_diagonal()");
    ensure_eq!(a == b, i == j, "{a:?} == {b:?}");
    ensure_eq!(a.cmp(&b), i.cmp(&j), "order of {a:?} and {b:?}");
    // offsets
    let (ax, ay) = <(i32, i32)>::from(a);
    ensure_eq!((ax, ay), (DIRS[i].1 as i32, DIRS[i].2 as i32), "offset of {a:?}");
    ensure_eq!(<(i32, i32)>::from(-a), (-ax, -ay), "offset of -{a:?}");
    // a quarter turn clockwise with y growing downwards: (x, y) -> (-y, x)
    ensure_eq!(<(i32, i32)>::from(a + Dir::E), (-ay, ax), "offset of {a:?} + E");
    ensure_eq!(<(i32, i32)>::from(a + Dir::S), (-ax, -ay), "offset of {a:?} + S");
    // stepping
    let want8 = (i < 7).then(|| d(c.0 + 1));
    ensure_eq!(a.next::<true>(), want8, "{a:?}.next::<true>()");
    let k = (i / 2 + 1) * 2;
    let want4 = (k < 8).then(|| d(k as u8));
    ensure_eq!(no_panic(|| a.next::<false>()), Ok(want4), "{a:?}.next::<false>()");
    Ok(())
}

fn seq(c: &(u8, Vec<u8>), obs: &mut Obs) -> R {
    obs.nt(c.1.len() > 1);
    let mut acc = d(c.0);
    let mut k = c.0 as usize;
    for &s in &c.1 {
        match s / 8 {
            0 => {
                acc += d(s);
                k += s as usize % 8;
            }
            1 => {
                acc = acc + d(s);
                k += s as usize % 8;
            }
            2 => {
                acc = -acc;
                k += 4;
            }
            3 => {
                // subtracting is adding the remaining part of the turn
                acc = acc + -(d(s) + Dir::S);
                k += s as usize % 8;
            }
            _ => {
                let (x, y) = <(i64, i64)>::from(acc);
                let Ok(back) = Dir::try_from((x, y)) else {
                    return Err(format!("offset of {acc:?} is not a direction"));
                };
                acc = back;
            }
        }
        ensure_eq!(acc, d((k % 8) as u8), "after {s} of {c:?}");
    }
    Ok(())
}

/// All ways of consuming the two iterators: how many are taken one by one, how many by nth, and
/// how the rest is taken.
fn iters(c: &(bool, u8, u8, u8), obs: &mut Obs) -> R {
    obs.nt(true);
    let all: Vec<Dir> =
        if c.0 { DIRS.iter().map(|t| t.0).collect() } else { vec![Dir::N, Dir::E, Dir::S, Dir::W] };
    if c.0 {
        walk(Dir::iter::<true>(), &all, c)
    } else {
        ensure_eq!(Dir::ALL4.to_vec(), all, "ALL4");
        walk(Dir::iter::<false>(), &all, c)
    }
}

fn walk(mut it: impl Iterator<Item = Dir> + Copy, all: &[Dir], c: &(bool, u8, u8, u8)) -> R {
    let mut k = 0usize;
    for _ in 0..c.1 {
        ensure_eq!(it.next(), all.get(k).copied(), "item {k}");
        k += 1;
    }
    if c.2 > 0 {
        let n = c.2 as usize - 1;
        ensure_eq!(it.nth(n), all.get(k + n).copied(), "nth({n}) from {k}");
        k += n + 1;
    }
    let rest = &all[k.min(all.len())..];
    let copy = it;
    match c.3 {
        0 => ensure_eq!(it.take(20).collect::<Vec<_>>(), rest.to_vec(), "rest"),
        1 => ensure_eq!(it.take(20).count(), rest.len(), "count"),
        2 => ensure_eq!(it.take(20).last(), rest.last().copied(), "last"),
        3 => {
            ensure_eq!(it.by_ref().take(20).count(), rest.len(), "count");
            for _ in 0..3 {
                ensure_eq!(it.next(), None, "after the end");
            }
        }
        _ => {
            let mut v = vec![];
            it.take(20).for_each(|d| v.push(d));
            ensure_eq!(v, rest.to_vec(), "for_each");
        }
    }
    ensure_eq!(copy.take(20).collect::<Vec<_>>(), rest.to_vec(), "copy of the iterator");
    Ok(())
}

/// Any way of consuming the two iterators.
fn scripts(c: &(bool, Script), obs: &mut Obs) -> R {
    obs.nt(!c.1.takes.is_empty());
    // the size hint is not claimed after something was taken
    let opt = Opt { hints: false, most: 20, ordered: true };
    if c.0 {
        drive(Dir::iter::<true>(), 8, &|i| DIRS[i].0, &|d| d, &c.1, opt, "all directions")
    } else {
        drive(Dir::iter::<false>(), 4, &|i| DIRS[2 * i].0, &|d| d, &c.1, opt, "four directions")
    }
}

fn main() {
    main_check(
        "C04",
        &[
            &Exhaustive {
                name: "pairs",
                rule: "every pair of directions; non-trivial: not (N, N)",
                cases: |_| (0..8).flat_map(|i| (0..8).map(move |j| (i, j))).collect(),
                test: pairs,
            },
            &Exhaustive {
                name: "iterators",
                rule: "both iterators, every number of items taken singly, every skip, every way to take the rest; all non-trivial",
                cases: |_| {
                    let mut v = vec![];
                    for diag in [false, true] {
                        for a in 0..11 {
                            for b in 0..11 {
                                for m in 0..5 {
                                    v.push((diag, a, b, m));
                                }
                            }
                        }
                    }
                    v
                },
                test: iters,
            },
            &Facet {
                name: "scripts",
                rule: "both iterators consumed by up to five of next, nth, skip, take, find and then to the end in one of twelve ways; non-trivial: something is taken before",
                quick: 500_000,
                thorough: 7_500_000,
                strategy: |_| (any::<bool>(), script(10, 6)).boxed(),
                test: scripts,
            },
            &Facet {
                name: "sequences",
                rule: "sequences of additions, additions in place, negations, subtractions and conversions; non-trivial: at least two steps",
                quick: 4_000_000,
                thorough: 60_000_000,
                strategy: |_| (0u8..8, prop::collection::vec(0u8..40, 0..40)).boxed(),
                test: seq,
            },
        ],
        &[],
    )
}
