//! C08: distance, containment, border and bounding-box queries are exact.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sqrid::{direction_to, Dir, Error, Pos, PosT};
use vh::gen::*;
use vh::iterlaw::Announce;
use vh::*;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct C {
    dim: usize,
    p: Cxy,
    a: Cxy,
    b: Cxy,
    /// how the second and third positions relate to the first
    rel: u8,
    list: Vec<Cxy>,
}

fn near(v: u16, d: i32, max: u16) -> u16 {
    (v as i32 + d).clamp(0, max as i32) as u16
}

fn check<const X: u16, const Y: u16>(c: &C, obs: &mut Obs) -> R {
    let (px, py) = raw(&pos_of::<X, Y>(c.p));
    let (mut ax, mut ay) = raw(&pos_of::<X, Y>(c.a));
    let (mut bx, mut by) = raw(&pos_of::<X, Y>(c.b));
    // share a coordinate, or be close, with some probability
    match c.rel % 8 {
        1 => ax = px,
        2 => ay = py,
        3 => (ax, ay) = (px, py),
        4 => {
            (ax, ay) = (near(px, c.a.0 .1 as i32 % 3 - 1, X), near(py, c.a.1 .1 as i32 % 3 - 1, Y))
        }
        _ => {}
    }
    match c.rel / 8 % 4 {
        1 => bx = px,
        2 => by = py,
        3 => {
            (bx, by) = (near(px, c.b.0 .1 as i32 % 3 - 1, X), near(py, c.b.1 .1 as i32 % 3 - 1, Y))
        }
        _ => {}
    }
    let (p, a, b) = (mkpos::<X, Y>(px, py), mkpos::<X, Y>(ax, ay), mkpos::<X, Y>(bx, by));
    obs.nt((px, py) != (ax, ay));
    let ctx = format!("({px},{py}) ({ax},{ay}) ({bx},{by}) with maximum ({X},{Y})");
    // distance
    let d = (px as i64 - ax as i64).unsigned_abs() as usize
        + (py as i64 - ay as i64).unsigned_abs() as usize;
    ensure_eq!(p.manhattan(&a), d, "manhattan: {ctx}");
    ensure_eq!(a.manhattan(&p), d, "manhattan, swapped: {ctx}");
    // containment
    let inside = px >= ax.min(bx) && px <= ax.max(bx) && py >= ay.min(by) && py <= ay.max(by);
    obs.label(if inside { "inside" } else { "outside" });
    ensure_eq!(p.inside(&a, &b), inside, "inside: {ctx}");
    ensure_eq!(p.inside(&b, &a), inside, "inside, swapped: {ctx}");
    let (m1, m2) = (mkpos::<X, Y>(ax, by), mkpos::<X, Y>(bx, ay));
    ensure_eq!(p.inside(&m1, &m2), inside, "inside, other diagonal: {ctx}");
    ensure_eq!(p.inside(&m2, &m1), inside, "inside, other diagonal swapped: {ctx}");
    // border
    let bxx = px == 0 || px == X;
    let byy = py == 0 || py == Y;
    obs.label_if(bxx && byy, "corner");
    obs.label_if(bxx != byy, "side-not-corner");
    ensure_eq!(p.is_side(), bxx || byy, "is_side: {ctx}");
    ensure_eq!(p.is_corner(), bxx && byy, "is_corner: {ctx}");
    // direction
    let sx = (ax as i64 - px as i64).signum() as i8;
    let sy = (ay as i64 - py as i64).signum() as i8;
    let want = DIRS.iter().find(|t| t.1 == sx && t.2 == sy).map(|t| t.0);
    ensure_eq!(direction_to::<_, true>(&p, &a), want, "direction_to with diagonals: {ctx}");
    let got = direction_to::<_, false>(&p, &a);
    match got {
        None => ensure!(d == 0, "direction_to without diagonals is none: {ctx}"),
        Some(dir) => {
            ensure!(
                d != 0,
                "direction_to without diagonals is {dir:?} between equal positions: {ctx}"
            );
            ensure!(
                [Dir::N, Dir::E, Dir::S, Dir::W].contains(&dir),
                "direction_to without diagonals is {dir:?}: {ctx}"
            );
            let k = didx(dir);
            let (nx, ny) = (px as i64 + DIRS[k].1 as i64, py as i64 + DIRS[k].2 as i64);
            let nd = (nx - ax as i64).abs() + (ny - ay as i64).abs();
            ensure!(nd < d as i64, "direction_to without diagonals moves away ({dir:?}): {ctx}");
        }
    }
    // bounding box
    let ps: Vec<(u16, u16)> = c.list.iter().map(|q| raw(&pos_of::<X, Y>(*q))).collect();
    let style = c.rel / 32;
    let got = Pos::<X, Y>::tlbr_of(Announce::new(
        ps.iter().map(|q| mkpos::<X, Y>(q.0, q.1)),
        ps.len(),
        style,
    ));
    if style > 0 {
        obs.label(Announce::<std::iter::Empty<()>>::label(style));
    }
    let want = if ps.is_empty() {
        Err(Error::Empty)
    } else {
        let x0 = ps.iter().map(|q| q.0).min().unwrap();
        let x1 = ps.iter().map(|q| q.0).max().unwrap();
        let y0 = ps.iter().map(|q| q.1).min().unwrap();
        let y1 = ps.iter().map(|q| q.1).max().unwrap();
        Ok(((x0, y0), (x1, y1)))
    };
    obs.label(match ps.len() {
        0 => "box-of-0",
        1 => "box-of-1",
        _ => "box-of-many",
    });
    ensure_eq!(got.map(|(a, b)| (raw(&a), raw(&b))), want, "bounding box of {ps:?}");
    Ok(())
}

type Fn_ = fn(&C, &mut Obs) -> R;

fn t(c: &C, obs: &mut Obs) -> R {
    let t = pos_dims!(__tab_xy; check, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}

fn gen(_: bool) -> BoxedStrategy<C> {
    let n = pos_dims!(__tab_xy; check, Fn_).len();
    (
        0..n,
        cxy(),
        cxy(),
        cxy(),
        0u8..192,
        prop_oneof![
            9 => prop::collection::vec(cxy(), 0..6),
            1 => prop::collection::vec(cxy(), 0..70)
        ],
    )
        .prop_map(|(dim, p, a, b, rel, list)| C { dim, p, a, b, rel, list })
        .boxed()
}

/// All pairs of positions of the small extents (and third positions on a coarse grid).
fn all<const X: u16, const Y: u16>(_: &C, obs: &mut Obs) -> R {
    obs.nt(true);
    let mut o = Obs::default();
    for px in 0..=X {
        for py in 0..=Y {
            for ax in 0..=X {
                for ay in 0..=Y {
                    for (bx, by) in [(0, 0), (X, 0), (X / 2, Y / 2), (px, ay), (ax, Y)] {
                        let c = C {
                            dim: 0,
                            p: (Co(0, px), Co(0, py)),
                            a: (Co(0, ax), Co(0, ay)),
                            b: (Co(0, bx), Co(0, by)),
                            rel: 0,
                            list: vec![(Co(0, px), Co(0, ay)), (Co(0, ax), Co(0, py))],
                        };
                        check::<X, Y>(&c, &mut o)?;
                    }
                }
            }
        }
    }
    Ok(())
}

fn all_t(i: &usize, obs: &mut Obs) -> R {
    let c = C {
        dim: 0,
        p: (Co(0, 0), Co(0, 0)),
        a: (Co(0, 0), Co(0, 0)),
        b: (Co(0, 0), Co(0, 0)),
        rel: 0,
        list: vec![],
    };
    let t = grid_dims!(__tab_xy; all, Fn_);
    (t[*i].2)(&c, obs)
}

/// A long list: `fill` positions inside a rectangle, then a few anywhere, put at some places.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct L {
    dim: usize,
    fill: u16,
    salt: u64,
    corners: (Cxy, Cxy),
    some: Vec<(u16, Cxy)>,
    style: u8,
}

fn long<const X: u16, const Y: u16>(c: &L, obs: &mut Obs) -> R {
    let (a, b) = (raw(&pos_of::<X, Y>(c.corners.0)), raw(&pos_of::<X, Y>(c.corners.1)));
    let within = |lo: u16, hi: u16, r: u64| lo.min(hi) + (r % (lo.abs_diff(hi) as u64 + 1)) as u16;
    let mut r = c.salt | 1;
    let mut ps: Vec<(u16, u16)> = (0..c.fill)
        .map(|_| {
            r ^= r << 13;
            r ^= r >> 7;
            r ^= r << 17;
            (within(a.0, b.0, r >> 8), within(a.1, b.1, r >> 33))
        })
        .collect();
    for (at, q) in &c.some {
        ps.insert(*at as usize % (ps.len() + 1), raw(&pos_of::<X, Y>(*q)));
    }
    obs.nt(ps.len() > 100);
    let got = Pos::<X, Y>::tlbr_of(Announce::new(
        ps.iter().map(|q| mkpos::<X, Y>(q.0, q.1)),
        ps.len(),
        c.style,
    ));
    let want = ps.iter().fold(None, |acc: Option<[u16; 4]>, q| {
        let [x0, y0, x1, y1] = acc.unwrap_or([q.0, q.1, q.0, q.1]);
        Some([x0.min(q.0), y0.min(q.1), x1.max(q.0), y1.max(q.1)])
    });
    let want = want.ok_or(Error::Empty).map(|[x0, y0, x1, y1]| ((x0, y0), (x1, y1)));
    let got = got.map(|(a, b)| (raw(&a), raw(&b)));
    ensure_eq!(got, want, "bounding box of {} positions with maximum ({X},{Y})", ps.len());
    Ok(())
}

type FnL = fn(&L, &mut Obs) -> R;

fn long_t(c: &L, obs: &mut Obs) -> R {
    let t = pos_dims!(__tab_xy; long, FnL);
    (t[c.dim % t.len()].2)(c, obs)
}

fn gen_long(_: bool) -> BoxedStrategy<L> {
    (
        0..pos_dims!(__tab_xy; long, FnL).len(),
        0u16..5000,
        any::<u64>(),
        (cxy(), cxy()),
        prop::collection::vec((any::<u16>(), cxy()), 0..4),
        0u8..6,
    )
        .prop_map(|(dim, fill, salt, corners, some, style)| L {
            dim,
            fill,
            salt,
            corners,
            some,
            style,
        })
        .boxed()
}

fn main() {
    main_check(
        "C08",
        &[
            &Exhaustive {
                name: "all-pairs",
                rule: "every pair of positions of every extent of at most 60 cells of the table; all non-trivial",
                cases: |_| {
                    let t = grid_dims!(__tab_xy; all, Fn_);
                    (0..t.len())
                        .filter(|i| (t[*i].0 as usize + 1) * (t[*i].1 as usize + 1) <= 60)
                        .collect()
                },
                test: all_t,
            },
            &Facet {
                name: "sampled",
                rule: "extent from the table (up to 65536x65536), three positions, equal, aligned, adjacent or independent and biased to the borders, and a list of up to five positions; non-trivial: the first two positions differ",
                quick: 5_000_000,
                thorough: 75_000_000,
                strategy: gen,
                test: t,
            },
            &Facet {
                name: "lists",
                rule: "bounding boxes of lists of up to 5002 positions, most of them inside a rectangle and up to three anywhere, announced in six ways; non-trivial: more than 100 positions",
                quick: 40_000,
                thorough: 600_000,
                strategy: gen_long,
                test: long_t,
            },
        ],
        &[],
    )
}
