//! C07: rectangle, row and column iteration is exact.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sqrid::{BoundedU16, Pos, PosT, PosTIterRange};
use vh::gen::*;
use vh::iterlaw::{drive, script, Opt, Script};
use vh::*;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct C {
    dim: usize,
    a: Cxy,
    b: Cxy,
    skip: u16,
}

const CAP: usize = 140_000;

/// Compare an iterator with the expected sequence, checking the size hint at every step.
fn same<P: Copy>(
    mut it: impl Iterator<Item = P>,
    n: usize,
    at: impl Fn(usize) -> (u16, u16),
    skip: usize,
    key: impl Fn(&P) -> (u16, u16),
    what: &str,
) -> R {
    let mut i = 0;
    let mut steps = 0;
    loop {
        let left = n.saturating_sub(i);
        let (lo, hi) = it.size_hint();
        ensure!(
            lo <= left && hi.is_none_or(|h| h >= left),
            "{what}: size hint ({lo}, {hi:?}) with {left} left of {n}"
        );
        let got = if steps == 0 && skip > 0 {
            i += skip;
            it.nth(skip)
        } else {
            it.next()
        };
        let got = got.map(|p| key(&p));
        let want = (i < n).then(|| at(i));
        ensure_eq!(got, want, "{what}: item {i} of {n}");
        i += 1;
        steps += 1;
        if i >= n + 3 || steps > CAP {
            return Ok(());
        }
    }
}

fn range<const X: u16, const Y: u16>(c: &C, obs: &mut Obs) -> R {
    let (ax, ay) = raw(&pos_of::<X, Y>(c.a));
    let (bx, by) = raw(&pos_of::<X, Y>(c.b));
    let (x0, x1) = (ax.min(bx), ax.max(bx));
    let (y0, y1) = (ay.min(by), ay.max(by));
    let w = (x1 - x0) as usize + 1;
    let h = (y1 - y0) as usize + 1;
    obs.nt(w * h > 1);
    obs.label_if(x1 == X && y1 == Y, "at-last");
    obs.label_if(y1 == Y && x1 < X, "last-row-only");
    obs.label_if(x1 == X && y1 < Y, "last-column-only");
    obs.label_if(x0 == 0, "first-column");
    obs.label_if(w * h <= CAP, "exhausted");
    let (tl, br) = (mkpos::<X, Y>(x0, y0), mkpos::<X, Y>(x1, y1));
    let what = format!("range ({x0},{y0})..({x1},{y1}) with maximum ({X},{Y})");
    let at = |i: usize| (x0 + (i % w) as u16, y0 + (i / w) as u16);
    let skip = if c.skip % 3 == 0 { (c.skip as usize / 3) % (w * h + 2) } else { 0 };
    let skip = if skip > CAP { 0 } else { skip };
    same(Pos::<X, Y>::iter_range(tl, br), w * h, at, skip, raw, &what)?;
    if c.skip % 7 == 0 {
        same(PosTIterRange::new(tl, br), w * h, at, 0, raw, &what)?;
        if w * h <= CAP {
            ensure_eq!(
                Pos::<X, Y>::iter_range(tl, br).take(w * h + 2).count(),
                w * h,
                "{what}: count"
            );
        }
    }
    Ok(())
}

fn lines<const X: u16, const Y: u16>(c: &C, obs: &mut Obs) -> R {
    let (x, y) = raw(&pos_of::<X, Y>(c.a));
    let (w, h) = (X as usize + 1, Y as usize + 1);
    obs.nt(w * h > 1);
    let skip = |n: usize| {
        if c.skip % 3 == 0 {
            (c.skip as usize / 3) % (n + 2)
        } else {
            0
        }
    };
    same(
        Pos::<X, Y>::iter_in_x(BoundedU16(x)),
        h,
        |i| (x, i as u16),
        skip(h),
        raw,
        &format!("column {x} with maximum ({X},{Y})"),
    )?;
    same(
        Pos::<X, Y>::iter_in_y(BoundedU16(y)),
        w,
        |i| (i as u16, y),
        skip(w),
        raw,
        &format!("row {y} with maximum ({X},{Y})"),
    )?;
    same(
        Pos::<X, Y>::iter_x(),
        w,
        |i| (i as u16, 0),
        skip(w),
        |b| (b.0, 0),
        &format!("columns with maximum ({X},{Y})"),
    )?;
    same(
        Pos::<X, Y>::iter_y(),
        h,
        |i| (i as u16, 0),
        skip(h),
        |b| (b.0, 0),
        &format!("rows with maximum ({X},{Y})"),
    )
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Sc {
    dim: usize,
    which: u8,
    a: Cxy,
    b: Cxy,
    script: Script,
}

/// Any way of consuming the iterators.
fn scripted<const X: u16, const Y: u16>(c: &Sc, obs: &mut Obs) -> R {
    let (ax, ay) = raw(&pos_of::<X, Y>(c.a));
    let (bx, by) = raw(&pos_of::<X, Y>(c.b));
    let (x0, x1) = (ax.min(bx), ax.max(bx));
    let (y0, y1) = (ay.min(by), ay.max(by));
    let (w, h) = (X as usize + 1, Y as usize + 1);
    let opt = Opt { hints: true, most: CAP, ordered: true };
    let s = &c.script;
    let key = |p: Pos<X, Y>| raw(&p);
    let max = format!("with maximum ({X},{Y})");
    obs.nt(w * h > 1);
    match c.which % 6 {
        0 => {
            obs.label("row");
            let at = |i: usize| (i as u16, ay);
            let it = Pos::<X, Y>::iter_in_y(BoundedU16(ay));
            drive(it, w, &at, &key, s, opt, &format!("row {ay} {max}"))
        }
        1 => {
            obs.label("column");
            let at = |i: usize| (ax, i as u16);
            let it = Pos::<X, Y>::iter_in_x(BoundedU16(ax));
            drive(it, h, &at, &key, s, opt, &format!("column {ax} {max}"))
        }
        2 => {
            let at = |i: usize| i as u16;
            if s.step % 2 == 0 {
                drive(Pos::<X, Y>::iter_x(), w, &at, &|b| b.0, s, opt, &format!("columns {max}"))
            } else {
                drive(Pos::<X, Y>::iter_y(), h, &at, &|b| b.0, s, opt, &format!("rows {max}"))
            }
        }
        _ => {
            obs.label("rectangle");
            let (rw, rh) = ((x1 - x0) as usize + 1, (y1 - y0) as usize + 1);
            let at = |i: usize| (x0 + (i % rw) as u16, y0 + (i / rw) as u16);
            let it = Pos::<X, Y>::iter_range(mkpos(x0, y0), mkpos(x1, y1));
            let what = format!("range ({x0},{y0})..({x1},{y1}) {max}");
            drive(it, rw * rh, &at, &key, s, opt, &what)
        }
    }
}

type FnSc = fn(&Sc, &mut Obs) -> R;

fn sc_small(c: &Sc, obs: &mut Obs) -> R {
    let t = grid_dims!(__tab_xy; scripted, FnSc);
    (t[c.dim % t.len()].2)(c, obs)
}
fn sc_large(c: &Sc, obs: &mut Obs) -> R {
    let t = pos_dims!(__tab_xy; scripted, FnSc);
    (t[c.dim % t.len()].2)(c, obs)
}
fn gen_sc(n: usize, most: u32) -> BoxedStrategy<Sc> {
    (0..n, 0u8..6, cxy(), cxy(), script(most, 7))
        .prop_map(|(dim, which, a, b, script)| Sc { dim, which, a, b, script })
        .boxed()
}

type Fn_ = fn(&C, &mut Obs) -> R;

fn range_small(c: &C, obs: &mut Obs) -> R {
    let t = grid_dims!(__tab_xy; range, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}
fn range_large(c: &C, obs: &mut Obs) -> R {
    let t = pos_dims!(__tab_xy; range, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}
fn lines_small(c: &C, obs: &mut Obs) -> R {
    let t = grid_dims!(__tab_xy; lines, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}
fn lines_large(c: &C, obs: &mut Obs) -> R {
    let t = pos_dims!(__tab_xy; lines, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}

fn gen(n: usize) -> BoxedStrategy<C> {
    (0..n, cxy(), cxy(), any::<u16>()).prop_map(|(dim, a, b, skip)| C { dim, a, b, skip }).boxed()
}

/// Every rectangle of a small grid.
fn all_ranges<const X: u16, const Y: u16>(_: &C, obs: &mut Obs) -> R {
    obs.nt(true);
    for x0 in 0..=X {
        for x1 in x0..=X {
            for y0 in 0..=Y {
                for y1 in y0..=Y {
                    let c =
                        C { dim: 0, a: (Co(0, x0), Co(0, y0)), b: (Co(0, x1), Co(0, y1)), skip: 7 };
                    range::<X, Y>(&c, obs)?;
                }
            }
        }
    }
    Ok(())
}

fn all_ranges_t(i: &usize, obs: &mut Obs) -> R {
    let c = C { dim: 0, a: (Co(0, 0), Co(0, 0)), b: (Co(0, 0), Co(0, 0)), skip: 0 };
    let t = grid_dims!(__tab_xy; all_ranges, Fn_);
    (t[*i].2)(&c, obs)
}

fn main() {
    main_check(
        "C07",
        &[
            &Exhaustive {
                name: "all-rectangles",
                rule: "every rectangle of every extent of at most 120 cells of the table; all non-trivial",
                cases: |_| {
                    let t = grid_dims!(__tab_xy; all_ranges, Fn_);
                    (0..t.len())
                        .filter(|i| (t[*i].0 as usize + 1) * (t[*i].1 as usize + 1) <= 120)
                        .collect()
                },
                test: all_ranges_t,
            },
            &Facet {
                name: "rectangles",
                rule: "extents of up to 514 cells, two corners in either order biased to the borders, sometimes skipping ahead; non-trivial: more than one position in the rectangle",
                quick: 6_000_000,
                thorough: 90_000_000,
                strategy: |_| gen(grid_dims!(__tab_xy; range, Fn_).len()),
                test: range_small,
            },
            &Facet {
                name: "rectangles-large",
                rule: "every extent up to 65536x65536; at most 140000 positions taken; non-trivial as above",
                quick: 100_000,
                thorough: 1_500_000,
                strategy: |_| gen(pos_dims!(__tab_xy; range, Fn_).len()),
                test: range_large,
            },
            &Facet {
                name: "lines",
                rule: "a row, a column and both coordinate iterators of extents of up to 514 cells; non-trivial: more than one cell",
                quick: 2_000_000,
                thorough: 30_000_000,
                strategy: |_| gen(grid_dims!(__tab_xy; lines, Fn_).len()),
                test: lines_small,
            },
            &Facet {
                name: "lines-large",
                rule: "as lines, for every extent up to 65536x65536; non-trivial: more than one cell",
                quick: 100_000,
                thorough: 1_500_000,
                strategy: |_| gen(pos_dims!(__tab_xy; lines, Fn_).len()),
                test: lines_large,
            },
            &Facet {
                name: "scripts",
                rule: "rows, columns, coordinates and rectangles of extents of up to 514 cells consumed by up to six of next, nth, skip, take and find, then to the end in one of twelve ways; non-trivial: more than one cell",
                quick: 1_500_000,
                thorough: 22_000_000,
                strategy: |_| gen_sc(grid_dims!(__tab_xy; scripted, FnSc).len(), 520),
                test: sc_small,
            },
            &Facet {
                name: "scripts-large",
                rule: "as scripts, every extent up to 65536x65536, to the end when at most 140000 positions are left; non-trivial as above",
                quick: 30_000,
                thorough: 450_000,
                strategy: |_| gen_sc(pos_dims!(__tab_xy; scripted, FnSc).len(), 70_000),
                test: sc_large,
            },
        ],
        &[],
    )
}
