//! C11: bulk construction of grids is faithful or refused.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sqrid::{Error, Grid, Gridbool, Pos};
use vh::gen::*;
use vh::iterlaw::{Announce, Resuming};
use vh::*;

/// A length or count relative to a limit: (how, raw).
#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
struct Len(u8, u16);

impl Len {
    fn at(self, limit: usize) -> usize {
        match self.0 {
            0 => limit,
            1 => self.1 as usize % (limit + 1),
            2 => limit + 1 + self.1 as usize % 3,
            3 => limit.saturating_sub(1 + self.1 as usize % 3),
            _ => 0,
        }
    }
}

fn len() -> impl Strategy<Value = Len> + Clone {
    prop_oneof![
        3 => Just(Len(0, 0)),
        4 => any::<u16>().prop_map(|r| Len(1, r)),
        1 => (0u16..3).prop_map(|r| Len(2, r)),
        2 => (0u16..3).prop_map(|r| Len(3, r)),
        1 => Just(Len(4, 0)),
    ]
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct C {
    dim: usize,
    n: Len,
    rows: Len,
    /// lengths of the rows; repeated when shorter than the number of rows
    lens: Vec<Len>,
    salt: u32,
    kind: u8,
}

fn val(salt: u32, i: usize) -> u32 {
    (i as u32 + 1).wrapping_mul(0x9E37_79B1) ^ salt
}

fn bval(salt: u32, i: usize) -> bool {
    val(salt, i).count_ones() % 2 == 1
}

fn check<const X: u16, const Y: u16, const S: usize>(c: &C, obs: &mut Obs) -> R {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    type G<T, const X: u16, const Y: u16, const S: usize> = Grid<T, Pos<X, Y>, S>;
    obs.nt(S > 1);
    let ctx = format!("{w}x{h}");

    // from an iterator
    let n = c.n.at(S);
    let items: Vec<u32> = (0..n).map(|i| val(c.salt, i)).collect();
    obs.label(match n.cmp(&S) {
        std::cmp::Ordering::Less => "iter-short",
        std::cmp::Ordering::Equal => "iter-exact",
        std::cmp::Ordering::Greater => "iter-long",
    });
    let style = c.kind / 16;
    let resuming = n > 0 && n < S && c.kind % 8 > 5;
    obs.label_if(resuming, "resumes-after-the-end");
    let got = match c.kind % 8 {
        6 if resuming => {
            no_panic(|| Box::new(Resuming::new(&items, S - n).collect::<G<u32, X, Y, S>>()))
        }
        7 if resuming => no_panic(|| {
            Box::new(Resuming::new(&items, S - n).copied().collect::<G<u32, X, Y, S>>())
        }),
        // iterators that tell little about their length
        4 => no_panic(|| {
            Box::new(Announce::new(items.iter(), n, style).collect::<G<u32, X, Y, S>>())
        }),
        5 => no_panic(|| {
            Box::new(Announce::new(items.iter().copied(), n, style).collect::<G<u32, X, Y, S>>())
        }),
        0 => no_panic(|| Box::new(items.iter().collect::<G<u32, X, Y, S>>())),
        1 => no_panic(|| Box::new(items.iter().copied().collect::<G<u32, X, Y, S>>())),
        // an iterator that tells nothing about its length
        2 => no_panic(|| {
            Box::new(items.iter().copied().filter(|_| true).collect::<G<u32, X, Y, S>>())
        }),
        _ => no_panic(|| Box::new(items.iter().filter(|_| true).collect::<G<u32, X, Y, S>>())),
    };
    match got {
        Ok(g) => {
            ensure!(n == S, "{n} items accepted for the {S} cells of {ctx}");
            ensure_eq!(g.as_array().as_slice(), items.as_slice(), "collected grid {ctx}");
        }
        Err(e) => ensure!(n != S, "{n} items refused for {ctx}: {e}"),
    }

    // from nested vectors
    let rows = c.rows.at(h);
    let lens: Vec<usize> = (0..rows)
        .map(|y| {
            if c.lens.is_empty() {
                w
            } else {
                let l = c.lens[y % c.lens.len()];
                // only a few rows may be longer than the grid is wide
                let l = if y >= c.lens.len() && l.0 == 2 { Len(1, l.1) } else { l };
                l.at(w)
            }
        })
        .collect();
    let too_wide = lens.iter().any(|l| *l > w);
    let fits = rows <= h && !too_wide;
    obs.label(if fits { "vecvec-fits" } else { "vecvec-too-big" });
    obs.label_if(rows > h, "too-many-rows");
    obs.label_if(too_wide, "row-too-long");
    obs.label_if(fits && lens.iter().any(|l| *l < w), "ragged");
    let vv: Vec<Vec<u32>> = lens
        .iter()
        .enumerate()
        .map(|(y, l)| (0..*l).map(|x| val(c.salt, y * (w + 4) + x)).collect())
        .collect();
    let r = no_panic(|| Grid::<u32, Pos<X, Y>, S>::try_from(vv.clone()).map(Box::new))?;
    match r {
        Ok(g) => {
            ensure!(fits, "nested vectors with rows of {lens:?} accepted by {ctx}");
            for i in 0..S {
                let (x, y) = (i % w, i / w);
                let want = vv.get(y).and_then(|l| l.get(x)).copied().unwrap_or(0);
                ensure_eq!(g.as_array()[i], want, "cell ({x},{y}) of {ctx} from nested vectors");
            }
        }
        Err(e) => {
            ensure!(!fits, "nested vectors with rows of {lens:?} refused by {ctx}");
            ensure_eq!(e, Error::OutOfBounds, "error of nested vectors");
        }
    }

    // extending from nested vectors
    let mut g: Box<Grid<u32, Pos<X, Y>, S>> = Box::default();
    g.iter_mut().enumerate().for_each(|(i, v)| *v = !val(c.salt, i));
    let before = g.clone();
    // an item fits when both its row and column exist; empty rows beyond the end hold no item
    let item_out = vv.iter().enumerate().any(|(y, l)| l.len() > w || (y >= h && !l.is_empty()));
    let r = no_panic(|| g.extend_from_vecvec(vv.clone()))?;
    match r {
        Ok(()) => {
            ensure!(!item_out, "extending {ctx} accepted rows of {lens:?}");
            for i in 0..S {
                let (x, y) = (i % w, i / w);
                let want =
                    vv.get(y).and_then(|l| l.get(x)).copied().unwrap_or(before.as_array()[i]);
                ensure_eq!(g.as_array()[i], want, "cell ({x},{y}) of {ctx} after extending");
            }
        }
        Err(e) => {
            ensure!(item_out, "extending {ctx} refused rows of {lens:?}");
            ensure_eq!(e, Error::OutOfBounds, "error of extending");
            // cells not given must not change, and given ones hold the old or the new value
            for i in 0..S {
                let (x, y) = (i % w, i / w);
                let new = vv.get(y).and_then(|l| l.get(x)).copied();
                let v = g.as_array()[i];
                ensure!(
                    v == before.as_array()[i] || Some(v) == new,
                    "cell ({x},{y}) of {ctx} has a foreign value after a refused extension"
                );
            }
        }
    }

    // repeat, default, negation
    let g = Box::new(Grid::<u32, Pos<X, Y>, S>::repeat(c.salt));
    ensure!(g.iter().all(|v| *v == c.salt) && g.iter().count() == S, "repeat on {ctx}");
    let g: Box<Grid<u32, Pos<X, Y>, S>> = Box::default();
    ensure!(g.iter().all(|v| *v == 0), "default on {ctx}");
    let g: Box<Grid<i64, Pos<X, Y>, S>> = Box::new((0..S).map(|i| val(c.salt, i) as i64).collect());
    let neg = Box::new(-*g);
    for i in 0..S {
        ensure_eq!(neg.as_array()[i], -(val(c.salt, i) as i64), "cell {i} of negated {ctx}");
    }
    Ok(())
}

/// Non-Copy values: every item is moved to its cell, none lost or duplicated.
fn moved<const X: u16, const Y: u16, const S: usize>(c: &C, obs: &mut Obs) -> R {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    obs.nt(S > 1);
    let rows = c.rows.at(h).min(h);
    let vv: Vec<Vec<Option<std::rc::Rc<usize>>>> = (0..rows)
        .map(|y| {
            let l = c.lens.get(y).map_or(w, |l| l.at(w).min(w));
            (0..l).map(|x| Some(std::rc::Rc::new(y * w + x))).collect()
        })
        .collect();
    let copies: Vec<_> = vv.iter().flatten().flatten().cloned().collect();
    let g = Grid::<Option<std::rc::Rc<usize>>, Pos<X, Y>, S>::try_from(vv)
        .map_err(|e| format!("refused: {e}"))?;
    for r in &copies {
        ensure_eq!(std::rc::Rc::strong_count(r), 2, "holders of item {r}");
        ensure_eq!(g.as_array()[**r].as_deref(), Some(&**r), "cell of item {r}");
    }
    ensure_eq!(g.iter().flatten().count(), copies.len(), "number of items");
    let back: Vec<_> = g.into_iter().flatten().collect();
    ensure_eq!(back.len(), copies.len(), "number of items taken out");
    drop(back);
    for r in &copies {
        ensure_eq!(std::rc::Rc::strong_count(r), 1, "holders of item {r} after the drop");
    }
    Ok(())
}

fn bools<const X: u16, const Y: u16, const WORDS: usize>(c: &C, obs: &mut Obs) -> R {
    let s = (X as usize + 1) * (Y as usize + 1);
    let n = c.n.at(s);
    obs.nt(s > 1);
    let items: Vec<bool> = (0..n).map(|i| bval(c.salt, i)).collect();
    obs.label(if n == s { "exact" } else { "wrong-length" });
    let resuming = n > 0 && n < s && c.kind % 4 == 3;
    obs.label_if(resuming, "resumes-after-the-end");
    let got = match c.kind % 4 {
        0 => no_panic(|| items.iter().copied().collect::<Gridbool<Pos<X, Y>, WORDS>>()),
        1 => no_panic(|| Announce::new(items.iter().copied(), n, c.kind / 16).collect()),
        3 if resuming => no_panic(|| Resuming::new(&items, s - n).copied().collect()),
        _ => no_panic(|| items.iter().copied().filter(|_| true).collect()),
    };
    match got {
        Ok(g) => {
            ensure!(n == s, "{n} booleans accepted for {s} cells");
            for i in 0..s {
                ensure_eq!(g.get(&unrank::<X, Y>(i)), items[i], "cell {i} of {s}");
            }
        }
        Err(e) => ensure!(n != s, "{n} booleans refused for {s} cells: {e}"),
    }
    for v in [false, true] {
        let g = Gridbool::<Pos<X, Y>, WORDS>::repeat(v);
        for i in 0..s {
            ensure_eq!(g.get(&unrank::<X, Y>(i)), v, "cell {i} of {s} repeating {v}");
        }
    }
    let g = Gridbool::<Pos<X, Y>, WORDS>::default();
    for i in 0..s {
        ensure_eq!(g.get(&unrank::<X, Y>(i)), false, "cell {i} of a default of {s}");
    }
    Ok(())
}

type Fn_ = fn(&C, &mut Obs) -> R;

fn small_t(c: &C, obs: &mut Obs) -> R {
    let t = grid_dims!(__tab_size; check, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}
fn large_t(c: &C, obs: &mut Obs) -> R {
    let t = grid_dims_big!(__tab_size; check, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}
fn moved_t(c: &C, obs: &mut Obs) -> R {
    let t = grid_dims!(__tab_size; moved, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}
fn bools_t(c: &C, obs: &mut Obs) -> R {
    let t = grid_dims!(__tab_words; bools, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}

fn gen(n: usize) -> BoxedStrategy<C> {
    (
        0..n,
        len(),
        len(),
        prop::collection::vec(len(), 0..10),
        prop_oneof![1 => Just(0u32), 3 => any::<u32>()],
        any::<u8>(),
    )
        .prop_map(|(dim, n, rows, lens, salt, kind)| C { dim, n, rows, lens, salt, kind })
        .boxed()
}

fn main() {
    main_check(
        "C11",
        &[
            &Facet {
                name: "small",
                rule: "extents of up to 514 cells; iterators of exactly, fewer or more items; nested vectors with rows and row lengths at, below and above the limits, or ragged; non-trivial: more than one cell",
                quick: 2_000_000,
                thorough: 30_000_000,
                strategy: |_| gen(grid_dims!(__tab_size; check, Fn_).len()),
                test: small_t,
            },
            &Facet {
                name: "large",
                rule: "the same on extents of up to 131072 cells; non-trivial: more than one cell",
                quick: 10_000,
                thorough: 150_000,
                strategy: |_| gen(grid_dims_big!(__tab_size; check, Fn_).len()),
                test: large_t,
            },
            &Facet {
                name: "moved",
                rule: "reference-counted values moved in from nested vectors and out again; non-trivial: more than one cell",
                quick: 1_000_000,
                thorough: 15_000_000,
                strategy: |_| gen(grid_dims!(__tab_size; moved, Fn_).len()),
                test: moved_t,
            },
            &Facet {
                name: "booleans",
                rule: "boolean grids of up to 514 cells from iterators of exactly, fewer or more booleans, repeat and default; non-trivial: more than one cell",
                quick: 3_000_000,
                thorough: 45_000_000,
                strategy: |_| gen(grid_dims!(__tab_words; bools, Fn_).len()),
                test: bools_t,
            },
        ],
        &[],
    )
}
