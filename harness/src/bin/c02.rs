//! C02: linear index and successor order of positions agree.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sqrid::{Error, Pos, PosT};
use vh::gen::*;
use vh::*;

fn one<const X: u16, const Y: u16>(x: u16, y: u16) -> R {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    let p = mkpos::<X, Y>(x, y);
    let i = y as usize * w + x as usize;
    ensure_eq!(usize::from(p), i, "index of ({x},{y}) on {w}x{h}");
    ensure_eq!(usize::from(&p), i, "index of &({x},{y}) on {w}x{h}");
    ensure_eq!(p.to_usize(), i, "to_usize of ({x},{y}) on {w}x{h}");
    ensure_eq!(Pos::<X, Y>::try_from(i).map(|p| raw(&p)), Ok((x, y)), "position {i} of {w}x{h}");
    ensure_eq!(
        Pos::<X, Y>::tryfrom_usize(i).map(|p| raw(&p)),
        Ok((x, y)),
        "tryfrom_usize {i} of {w}x{h}"
    );
    // successors
    let row = |k: usize| ((k % w) as u16, (k / w) as u16);
    let col = |k: usize| ((k / h) as u16, (k % h) as u16);
    let j = x as usize * h + y as usize;
    let last = w * h - 1;
    let got = p.next().map(|q| raw(&q));
    ensure_eq!(got, (i < last).then(|| row(i + 1)), "next of ({x},{y}) on {w}x{h}");
    let got = p.prev().map(|q| raw(&q));
    ensure_eq!(got, (i > 0).then(|| row(i - 1)), "prev of ({x},{y}) on {w}x{h}");
    let got = p.next_y().map(|q| raw(&q));
    ensure_eq!(got, (j < last).then(|| col(j + 1)), "next_y of ({x},{y}) on {w}x{h}");
    let got = p.prev_y().map(|q| raw(&q));
    ensure_eq!(got, (j > 0).then(|| col(j - 1)), "prev_y of ({x},{y}) on {w}x{h}");
    if let Some(q) = p.next() {
        ensure_eq!(q.prev(), Some(p), "prev of next");
    }
    if let Some(q) = p.next_y() {
        ensure_eq!(q.prev_y(), Some(p), "prev_y of next_y");
    }
    Ok(())
}

fn bad_index<const X: u16, const Y: u16>(i: usize) -> R {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    if i >= w * h {
        ensure_eq!(Pos::<X, Y>::try_from(i), Err(Error::OutOfBounds), "position {i} of {w}x{h}");
        ensure_eq!(
            Pos::<X, Y>::tryfrom_usize(i),
            Err(Error::OutOfBounds),
            "tryfrom_usize {i} of {w}x{h}"
        );
    } else {
        ensure_eq!(
            Pos::<X, Y>::try_from(i).map(|p| raw(&p)),
            Ok(((i % w) as u16, (i / w) as u16)),
            "position {i} of {w}x{h}"
        );
    }
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct C {
    dim: usize,
    p: Cxy,
    /// multiplier and offset of an index: k * size + d
    k: u32,
    d: i32,
    r: u64,
}

fn sampled<const X: u16, const Y: u16>(c: &C, obs: &mut Obs) -> R {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    let (x, y) = raw(&pos_of::<X, Y>(c.p));
    obs.nt(w * h > 1);
    obs.label_if(x == X && y != Y, "end-of-row");
    obs.label_if(x == X && y == Y, "last");
    obs.label_if(w != h, "not-square");
    one::<X, Y>(x, y)?;
    bad_index::<X, Y>((w * h).wrapping_mul(c.k as usize).wrapping_add(c.d as usize))?;
    bad_index::<X, Y>((w * 65536).wrapping_mul(c.k as usize).wrapping_add(c.d as usize))?;
    bad_index::<X, Y>(c.r as usize)?;
    Ok(())
}

type Fn_ = fn(&C, &mut Obs) -> R;

fn sampled_t(c: &C, obs: &mut Obs) -> R {
    let t = pos_dims!(__tab_xy; sampled, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}

fn cases(_: bool) -> BoxedStrategy<C> {
    let n = pos_dims!(__tab_xy; sampled, Fn_).len();
    (
        0..n,
        cxy(),
        prop_oneof![4 => 0u32..4, 1 => any::<u32>()],
        prop_oneof![4 => -3..=3i32, 2 => any::<i32>()],
        prop_oneof![
            3 => 0u64..200_000,
            2 => 0u64..(1 << 33),
            1 => any::<u64>(),
            2 => (0u32..64, -2i64..3).prop_map(|(k, d)| (1u64 << k).wrapping_add(d as u64)),
        ],
    )
        .prop_map(|(dim, p, k, d, r)| C { dim, p, k, d, r })
        .boxed()
}

/// The constants and functions reporting the extents.
fn extents<const X: u16, const Y: u16>(_: &C, _: &mut Obs) -> R {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    ensure_eq!(Pos::<X, Y>::width(), w, "width");
    ensure_eq!(Pos::<X, Y>::height(), h, "height");
    ensure_eq!(Pos::<X, Y>::dimensions(), w * h, "dimensions");
    ensure_eq!(<Pos<X, Y> as PosT>::WIDTH, w, "WIDTH");
    ensure_eq!(<Pos<X, Y> as PosT>::HEIGHT, h, "HEIGHT");
    Ok(())
}

fn consts<const X: u16, const Y: u16>(_: &C, _: &mut Obs) -> R {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    ensure_eq!(Pos::<X, Y>::WIDTH as usize, w, "Pos::WIDTH");
    ensure_eq!(Pos::<X, Y>::HEIGHT as usize, h, "Pos::HEIGHT");
    ensure_eq!(Pos::<X, Y>::SIZE, w * h, "Pos::SIZE on {w}x{h}");
    Ok(())
}

fn extents_t(i: &usize, obs: &mut Obs) -> R {
    let c = C { dim: 0, p: (Co(0, 0), Co(0, 0)), k: 0, d: 0, r: 0 };
    obs.nt(true);
    let a = pos_dims!(__tab_xy; extents, Fn_);
    let b = pos_dims_c!(__tab_xy; consts, Fn_);
    if *i < a.len() {
        (a[*i].2)(&c, obs)
    } else {
        (b[*i - a.len()].2)(&c, obs)
    }
}

/// Every position and a band of indices beyond the end.
fn whole<const X: u16, const Y: u16>(_: &C, obs: &mut Obs) -> R {
    obs.nt(true);
    for y in 0..=Y {
        for x in 0..=X {
            one::<X, Y>(x, y)?;
        }
    }
    let n = (X as usize + 1) * (Y as usize + 1);
    for i in n..n + 2 * (X as usize + 2) {
        bad_index::<X, Y>(i)?;
    }
    Ok(())
}

fn whole_t(i: &usize, obs: &mut Obs) -> R {
    let c = C { dim: 0, p: (Co(0, 0), Co(0, 0)), k: 0, d: 0, r: 0 };
    let a = grid_dims!(__tab_xy; whole, Fn_);
    let b = grid_dims_big!(__tab_xy; whole, Fn_);
    if *i < a.len() {
        (a[*i].2)(&c, obs)
    } else {
        (b[*i - a.len()].2)(&c, obs)
    }
}

fn main() {
    main_check(
        "C02",
        &[
            &Exhaustive {
                name: "extents",
                rule: "width, height, size and dimensions of every extent of the table; all non-trivial",
                cases: |_| {
                    (0..pos_dims!(__tab_xy; extents, Fn_).len()
                        + pos_dims_c!(__tab_xy; consts, Fn_).len())
                        .collect()
                },
                test: extents_t,
            },
            &Exhaustive {
                name: "whole",
                rule: "every position of every extent of up to 131072 cells, and the first indices beyond; all non-trivial",
                cases: |_| {
                    (0..grid_dims!(__tab_xy; whole, Fn_).len()
                        + grid_dims_big!(__tab_xy; whole, Fn_).len())
                        .collect()
                },
                test: whole_t,
            },
            &Facet {
                name: "sampled",
                rule: "extent from the table (up to 65536x65536), a position biased to the borders, indices around multiples of the size and of width*65536 and powers of two; non-trivial: more than one cell",
                quick: 6_000_000,
                thorough: 90_000_000,
                strategy: cases,
                test: sampled_t,
            },
        ],
        &[],
    )
}
