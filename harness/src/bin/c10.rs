//! C10: a grid is a total map from positions to values.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sqrid::{BoundedU16, Grid, Pos};
use std::cell::Cell;
use std::fmt::Debug;
use vh::gen::*;
use vh::iterlaw::{drive, drive2, script, Announce, Opt, Script};
use vh::*;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Op {
    /// write one cell through one of the single-cell interfaces
    Set(u8, Cxy, u16),
    /// write part of a row: row, start, values
    Line(Co, Co, Vec<u16>),
    /// rewrite every k-th item of the mutable iterator
    IterMut(u8, u16, u16),
    /// extend from pairs, in one of the forms; later pairs win
    Extend(u8, Vec<(Cxy, u16)>),
    /// write through the raw array: start, values
    Array(u8, u32, Vec<u16>),
    /// swap two cells through mem::replace on a mutable reference
    Swap(Cxy, Cxy),
    /// keep a copy aside, or compare with / restore the copy kept aside
    Save,
    Compare,
    Restore,
    /// rebuild through an owning interface
    Rebuild(u8),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct C {
    dim: usize,
    ty: u8,
    init: u16,
    ops: Vec<Op>,
    probe: Vec<Cxy>,
    script: Script,
}

/* cell types */

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

/// Owns memory and counts live instances, so that leaks and double drops show.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Owned(Box<u16>);
impl Owned {
    fn new(v: u16) -> Owned {
        LIVE.with(|l| l.set(l.get() + 1));
        Owned(Box::new(v))
    }
}
impl Clone for Owned {
    fn clone(&self) -> Owned {
        Owned::new(*self.0)
    }
}
impl Default for Owned {
    fn default() -> Owned {
        Owned::new(0)
    }
}
impl Drop for Owned {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}

trait Val: Clone + Default + Debug + Ord + std::hash::Hash + 'static {
    fn mk(v: u16) -> Self;
    fn extend<const X: u16, const Y: u16, const S: usize>(
        g: &mut Grid<Self, Pos<X, Y>, S>,
        kind: u8,
        v: Vec<(Pos<X, Y>, Self)>,
    ) {
        let _ = kind;
        g.extend(v);
    }
    /// Owning conversions that only exist for Copy types.
    fn rebuild<const X: u16, const Y: u16, const S: usize>(
        g: Grid<Self, Pos<X, Y>, S>,
        _kind: u8,
    ) -> Grid<Self, Pos<X, Y>, S> {
        g
    }
}

macro_rules! copy_val {
    () => {
        fn extend<const X: u16, const Y: u16, const S: usize>(
            g: &mut Grid<Self, Pos<X, Y>, S>,
            kind: u8,
            v: Vec<(Pos<X, Y>, Self)>,
        ) {
            let n = v.len();
            match kind % 6 {
                0 => g.extend(v),
                1 => g.extend(v.iter().map(|(p, t)| (*p, t))),
                2 => g.extend(v.iter()),
                3 => g.extend(Announce::new(v.into_iter(), n, kind / 6)),
                4 => g.extend(Announce::new(v.iter().map(|(p, t)| (*p, t)), n, kind / 6)),
                _ => g.extend(Announce::new(v.iter(), n, kind / 6)),
            }
        }
        fn rebuild<const X: u16, const Y: u16, const S: usize>(
            g: Grid<Self, Pos<X, Y>, S>,
            kind: u8,
        ) -> Grid<Self, Pos<X, Y>, S> {
            match kind % 3 {
                0 => g.iter().collect(),
                1 => (&g).into_iter().collect(),
                _ => g,
            }
        }
    };
}

impl Val for u32 {
    fn mk(v: u16) -> u32 {
        v as u32 * 0x1_0001
    }
    copy_val!();
}
impl Val for u8 {
    fn mk(v: u16) -> u8 {
        v as u8
    }
    copy_val!();
}
impl Val for (u8, u64, bool) {
    fn mk(v: u16) -> Self {
        (v as u8, v as u64 * 0x1_0000_0001, v & 1 == 1)
    }
    copy_val!();
}
impl Val for Option<sqrid::Dir> {
    fn mk(v: u16) -> Self {
        (v % 9 != 8).then(|| DIRS[v as usize % 9].0)
    }
    copy_val!();
}
impl Val for Owned {
    fn mk(v: u16) -> Self {
        Owned::new(v)
    }
}
impl Val for String {
    fn mk(v: u16) -> Self {
        "x".repeat(v as usize % 40) + &v.to_string()
    }
}

/* comparison of every reading interface with the model */

fn full<T: Val, const X: u16, const Y: u16, const S: usize>(
    g: &Grid<T, Pos<X, Y>, S>,
    m: &[T],
    after: &str,
) -> R {
    let w = X as usize + 1;
    ensure_eq!(g.as_array().as_slice(), m, "array after {after}");
    let arr: &[T; S] = g.as_ref();
    ensure!(std::ptr::eq(arr, g.as_array()), "as_ref is another array after {after}");
    for i in 0..S {
        cell(g, m, i, after)?;
    }
    for y in 0..=Y {
        let line = g.line(BoundedU16(y));
        let s = y as usize * w;
        ensure_eq!(line, &m[s..s + w], "row {y} after {after}");
        ensure!(
            std::ptr::eq(line.as_ptr(), &g.as_array()[s]),
            "row {y} is not at its place in the array after {after}"
        );
    }
    let mut n = 0;
    for (k, v) in g.iter().enumerate() {
        ensure!(k < S && *v == m[k], "iter: item {k} is {v:?} after {after}");
        n += 1;
    }
    ensure_eq!(n, S, "iter: items after {after}");
    n = 0;
    for v in g {
        ensure!(n < S && *v == m[n], "for loop: item {n} is {v:?} after {after}");
        n += 1;
    }
    ensure_eq!(n, S, "for loop: items after {after}");
    n = 0;
    for (p, v) in g.iter_pos() {
        ensure!(n < S, "iter_pos: too many items after {after}");
        ensure_eq!(rank(&p), n, "iter_pos: position of item {n} after {after}");
        ensure_eq!(*v, m[n], "iter_pos: value of item {n} after {after}");
        n += 1;
    }
    ensure_eq!(n, S, "iter_pos: items after {after}");
    Ok(())
}

fn cell<T: Val, const X: u16, const Y: u16, const S: usize>(
    g: &Grid<T, Pos<X, Y>, S>,
    m: &[T],
    i: usize,
    after: &str,
) -> R {
    let p = unrank::<X, Y>(i);
    let want: *const T = &g.as_array()[i];
    // addresses first: reading through a wild reference would be undefined
    let refs: [&T; 4] = [&g[p], &g[&p], g.get(&p), std::ops::Index::index(g, p)];
    for (k, r) in refs.iter().enumerate() {
        ensure!(
            std::ptr::eq(*r, want),
            "interface {k} addresses cell {} instead of {i} on {}x{} after {after}",
            (*r as *const T as isize).wrapping_sub(g.as_array().as_ptr() as isize)
                / std::mem::size_of::<T>().max(1) as isize,
            X as u32 + 1,
            Y as u32 + 1
        );
        ensure_eq!(**r, m[i], "cell {i} through interface {k} after {after}");
    }
    Ok(())
}

fn model_eq<T: Val, const X: u16, const Y: u16, const S: usize>(
    a: &Grid<T, Pos<X, Y>, S>,
    b: &Grid<T, Pos<X, Y>, S>,
    ma: &[T],
    mb: &[T],
) -> R {
    ensure_eq!(a == b, ma == mb, "equality of grids");
    ensure_eq!(a != b, ma != mb, "inequality of grids");
    if ma == mb {
        ensure_eq!(hash_of(a), hash_of(b), "hash of equal grids");
    }
    ensure_eq!(a.cmp(b), ma.cmp(mb), "order of grids");
    ensure_eq!(a.partial_cmp(b), ma.partial_cmp(mb), "partial order of grids");
    Ok(())
}

fn run<T: Val, const X: u16, const Y: u16, const S: usize>(c: &C, obs: &mut Obs, big: bool) -> R {
    let w = X as usize + 1;
    let at = |p: &Cxy| rank(&pos_of::<X, Y>(*p));
    let mut g: Box<Grid<T, Pos<X, Y>, S>> = Box::default();
    let mut m: Vec<T> = vec![T::default(); S];
    if c.init != 0 {
        g.iter_mut().enumerate().for_each(|(i, v)| *v = T::mk(c.init.wrapping_add(i as u16)));
        m.iter_mut().enumerate().for_each(|(i, v)| *v = T::mk(c.init.wrapping_add(i as u16)));
    }
    let mut saved = (g.clone(), m.clone());
    obs.nt(S > 1 && c.ops.iter().filter(|o| !matches!(o, Op::Save | Op::Compare)).count() > 1);
    for op in &c.ops {
        let after = if big { String::new() } else { format!("{op:?} on {}x{}", w, Y as usize + 1) };
        let mut touched: Vec<usize> = vec![];
        match op {
            Op::Set(kind, p, v) => {
                let i = at(p);
                let q = pos_of::<X, Y>(*p);
                let v = T::mk(*v);
                m[i] = v.clone();
                let base = g.as_array().as_ptr() as usize;
                let want = base + i * std::mem::size_of::<T>();
                let r: &mut T = match kind % 4 {
                    0 => &mut g[q],
                    1 => &mut g[&q],
                    2 => g.get_mut(&q),
                    _ => g.as_array_mut().get_mut(i).ok_or("array too short")?,
                };
                ensure!(
                    r as *mut T as usize == want,
                    "mutable interface {kind} does not address cell {i} ({after})"
                );
                *r = v;
                touched.push(i);
            }
            Op::Line(y, x, vs) => {
                obs.label("line");
                let (y, x) = (y.at(Y), x.at(X) as usize);
                let line = g.line_mut(BoundedU16(y));
                ensure_eq!(line.len(), w, "length of row {y} ({after})");
                for (k, v) in vs.iter().enumerate() {
                    if x + k < w {
                        line[x + k] = T::mk(*v);
                        m[y as usize * w + x + k] = T::mk(*v);
                        touched.push(y as usize * w + x + k);
                    }
                }
            }
            Op::IterMut(kind, step, v) => {
                obs.label("iter-mut");
                let step = 1 + *step as usize % (S + 1);
                let set = |(k, r): (usize, &mut T)| {
                    if k % step == 0 {
                        *r = T::mk(v.wrapping_add(k as u16));
                    }
                };
                if kind % 2 == 0 {
                    g.iter_mut().enumerate().for_each(set);
                } else {
                    (&mut *g).into_iter().enumerate().for_each(set);
                }
                m.iter_mut().enumerate().for_each(set);
                touched.push(0);
            }
            Op::Extend(kind, ps) => {
                obs.label("extend");
                let v: Vec<_> = ps.iter().map(|(p, v)| (pos_of::<X, Y>(*p), T::mk(*v))).collect();
                for (p, v) in ps {
                    m[at(p)] = T::mk(*v);
                    touched.push(at(p));
                }
                T::extend(&mut g, *kind, v);
            }
            Op::Array(kind, i, vs) => {
                let arr: &mut [T; S] = if kind % 2 == 0 { g.as_array_mut() } else { (*g).as_mut() };
                for (k, v) in vs.iter().enumerate() {
                    let i = (*i as usize + k) % S;
                    arr[i] = T::mk(*v);
                    m[i] = T::mk(*v);
                    touched.push(i);
                }
            }
            Op::Swap(a, b) => {
                obs.label("swap");
                let (pa, pb) = (pos_of::<X, Y>(*a), pos_of::<X, Y>(*b));
                let va = std::mem::take(&mut g[pa]);
                let vb = std::mem::replace(&mut g[&pb], va);
                g[pa] = vb;
                // as a map: take a, replace b with it, write what b held into a
                let (ia, ib) = (at(a), at(b));
                let va = std::mem::take(&mut m[ia]);
                let vb = std::mem::replace(&mut m[ib], va);
                m[ia] = vb;
                touched.extend([ia, ib]);
            }
            Op::Save => saved = (g.clone(), m.clone()),
            Op::Compare => {
                obs.label("compare");
                model_eq(&g, &saved.0, &m, &saved.1)?;
                model_eq(&saved.0, &g, &saved.1, &m)?;
            }
            Op::Restore => {
                std::mem::swap(&mut g, &mut saved.0);
                std::mem::swap(&mut m, &mut saved.1);
            }
            Op::Rebuild(kind) => {
                obs.label("rebuild");
                match kind % 3 {
                    0 => {
                        let items: Vec<T> = (*g).into_iter().collect();
                        ensure_eq!(items, m, "consuming iteration ({after})");
                        g = Box::new(items.into_iter().collect());
                    }
                    1 => {
                        let arr: [T; S] = g.into_inner();
                        ensure_eq!(arr.as_slice(), m.as_slice(), "into_inner ({after})");
                        g = Box::new(arr.into_iter().collect());
                    }
                    _ => g = Box::new(T::rebuild(*g, *kind / 3)),
                }
            }
        }
        if !big {
            full(&g, &m, &after)?;
        } else {
            for &i in touched.iter().take(8) {
                cell(&g, &m, i, &after)?;
            }
            for p in &c.probe {
                cell(&g, &m, at(p), &after)?;
            }
        }
        if !big {
            ensure_eq!(
                saved.0.as_array().as_slice(),
                saved.1.as_slice(),
                "a copy changed with {after}"
            );
        }
    }
    full(&g, &m, "all operations")?;
    let sc = &c.script;
    let opt = Opt { hints: true, most: usize::MAX, ordered: true };
    match sc.step % 4 {
        0 => drive2(g.iter(), S, &|i| &m[i], &|v| v, sc, opt, "iter")?,
        1 => drive2((&*g).into_iter(), S, &|i| &m[i], &|v| v, sc, opt, "iteration")?,
        2 => {
            let at = |i: usize| (raw(&unrank::<X, Y>(i)), &m[i]);
            drive(g.iter_pos(), S, &at, &|(p, v)| (raw(&p), v), sc, opt, "iter_pos")?
        }
        _ => {
            let mut copy = g.clone();
            if sc.finish % 2 == 0 {
                drive2(copy.iter_mut(), S, &|i| &m[i], &|v| &*v, sc, opt, "iter_mut")?
            } else {
                drive2((*copy).into_iter(), S, &|i| m[i].clone(), &|v| v, sc, opt, "into_iter")?
            }
        }
    }
    ensure_eq!(saved.0.as_array().as_slice(), saved.1.as_slice(), "copy at the end");
    model_eq(&g, &saved.0, &m, &saved.1)?;
    Ok(())
}

fn small<const X: u16, const Y: u16, const S: usize>(c: &C, obs: &mut Obs) -> R {
    match c.ty % 6 {
        0 => run::<u32, X, Y, S>(c, obs, false),
        1 => run::<u8, X, Y, S>(c, obs, false),
        2 => run::<(u8, u64, bool), X, Y, S>(c, obs, false),
        3 => run::<Option<sqrid::Dir>, X, Y, S>(c, obs, false),
        4 => run::<String, X, Y, S>(c, obs, false),
        _ => {
            obs.label("owned");
            let before = LIVE.with(|l| l.get());
            let r = run::<Owned, X, Y, S>(c, obs, false);
            let after = LIVE.with(|l| l.get());
            r?;
            ensure_eq!(after - before, 0, "live values left after dropping every grid");
            Ok(())
        }
    }
}

fn large<const X: u16, const Y: u16, const S: usize>(c: &C, obs: &mut Obs) -> R {
    run::<u32, X, Y, S>(c, obs, true)
}

type Fn_ = fn(&C, &mut Obs) -> R;

macro_rules! tiny {
    ($cb:ident; $($args:tt)*) => {
        vh::$cb! { $($args)* ;
            (0, 0) (1, 0) (0, 1) (1, 1) (2, 2) (0, 6) (6, 0) (3, 1) (1, 3) (4, 2) (2, 4) (7, 3)
            (3, 7) (5, 5) (31, 0) (0, 32) (8, 7) (16, 1)
        }
    };
}

fn small_t(c: &C, obs: &mut Obs) -> R {
    let t = tiny!(__tab_size; small, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}
fn large_t(c: &C, obs: &mut Obs) -> R {
    let t = grid_dims_big!(__tab_size; large, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}

fn gen(n: usize, big: bool, most: usize) -> BoxedStrategy<C> {
    let vals = || prop::collection::vec(any::<u16>(), 0..8);
    let list = if most > 20 { 700 } else { 20 };
    let op = prop_oneof![
        8 => (0u8..4, cxy(), any::<u16>()).prop_map(|(k, p, v)| Op::Set(k, p, v)),
        2 => (co(), co(), vals()).prop_map(|(y, x, v)| Op::Line(y, x, v)),
        1 => (any::<u8>(), any::<u16>(), any::<u16>()).prop_map(|(k, s, v)| Op::IterMut(k, s, v)),
        3 => (0u8..36, prop::collection::vec((cxy(), any::<u16>()), 0..8))
            .prop_map(|(k, v)| Op::Extend(k, v)),
        1 => (0u8..36, prop::collection::vec((cxy(), any::<u16>()), 0..list))
            .prop_map(|(k, v)| Op::Extend(k, v)),
        2 => (any::<u8>(), any::<u32>(), vals()).prop_map(|(k, i, v)| Op::Array(k, i, v)),
        2 => (cxy(), cxy()).prop_map(|(a, b)| Op::Swap(a, b)),
        1 => Just(Op::Save),
        1 => Just(Op::Compare),
        1 => Just(Op::Restore),
        1 => (0u8..9).prop_map(Op::Rebuild),
    ];
    (
        0..n,
        0u8..6,
        prop_oneof![1 => Just(0u16), 1 => any::<u16>()],
        prop::collection::vec(op, 0..most),
        prop::collection::vec(cxy(), 0..if big { 6 } else { 1 }),
        script(if big { 5000 } else { 80 }, 6),
    )
        .prop_map(|(dim, ty, init, ops, probe, script)| C { dim, ty, init, ops, probe, script })
        .boxed()
}

fn main() {
    main_check(
        "C10",
        &[
            &Facet {
                name: "histories",
                rule: "histories of up to 19 writes, copies, comparisons and rebuilds on 18 extents of up to 72 cells and six cell types (one counting live values), every reading interface compared with a vector after every step, addresses included; non-trivial: more than one cell and at least two writes",
                quick: 500_000,
                thorough: 7_500_000,
                strategy: |_| gen(tiny!(__tab_size; small, Fn_).len(), false, 20),
                test: small_t,
            },
            &Facet {
                name: "long",
                rule: "as histories, with up to 399 operations, of which some write up to 699 cells at once; non-trivial as above",
                quick: 5_000,
                thorough: 75_000,
                strategy: |_| gen(tiny!(__tab_size; small, Fn_).len(), false, 400),
                test: small_t,
            },
            &Facet {
                name: "large",
                rule: "histories on extents of up to 131072 cells, touched and probed cells compared after every step and everything at the end; non-trivial as above",
                quick: 30_000,
                thorough: 450_000,
                strategy: |_| gen(grid_dims_big!(__tab_size; large, Fn_).len(), true, 12),
                test: large_t,
            },
        ],
        &[],
    )
}
