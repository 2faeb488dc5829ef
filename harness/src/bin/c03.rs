//! C03: moving a position by a direction is exact and reversible.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sqrid::{pos_dir_add, pos_dir_add_ok, Pos};
use sqrid::{BoundedI128, BoundedI16, BoundedI8, BoundedInt, BoundedU16, BoundedU8, Dir, Error};
use std::fmt::Debug;
use std::ops::Add;
use vh::gen::*;
use vh::*;

/* positions */

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct C {
    dim: usize,
    p: Cxy,
    /// a walk
    ds: Vec<u8>,
}

fn model<const X: u16, const Y: u16>(x: u16, y: u16, d: usize) -> Option<(u16, u16)> {
    let nx = x as i32 + DIRS[d].1 as i32;
    let ny = y as i32 + DIRS[d].2 as i32;
    (nx >= 0 && ny >= 0 && nx <= X as i32 && ny <= Y as i32).then_some((nx as u16, ny as u16))
}

fn step<const X: u16, const Y: u16>(x: u16, y: u16, d: usize) -> R {
    let p = mkpos::<X, Y>(x, y);
    let dir = DIRS[d].0;
    let want = model::<X, Y>(x, y, d).ok_or(Error::OutOfBounds);
    let show = |r: Result<Pos<X, Y>, Error>| r.map(|q| raw(&q));
    ensure_eq!(show(p + dir), want, "({x},{y}) + {dir:?} with maximum ({X},{Y})");
    ensure_eq!(show(&p + dir), want, "&({x},{y}) + {dir:?} with maximum ({X},{Y})");
    ensure_eq!(show(pos_dir_add(p, dir)), want, "pos_dir_add(({x},{y}), {dir:?})");
    ensure_eq!(
        pos_dir_add_ok(p, dir).map(|q| raw(&q)),
        want.clone().ok(),
        "pos_dir_add_ok(({x},{y}), {dir:?})"
    );
    ensure_eq!((p.0 + dir).map(|q| (q.0 .0, q.1 .0)), want, "inner tuple + {dir:?}");
    if let Ok(q) = p + dir {
        ensure_eq!(show(q + -dir), Ok((x, y)), "({x},{y}) + {dir:?} and back");
    }
    Ok(())
}

fn walk<const X: u16, const Y: u16>(c: &C, obs: &mut Obs) -> R {
    let (mut x, mut y) = raw(&pos_of::<X, Y>(c.p));
    obs.nt(X > 0 || Y > 0);
    obs.label_if(x == 0 || y == 0 || x == X || y == Y, "border");
    obs.label_if((x == 0 || x == X) && (y == 0 || y == Y), "corner");
    for d in 0..8 {
        step::<X, Y>(x, y, d)?;
    }
    for &d in &c.ds {
        let d = d as usize % 8;
        step::<X, Y>(x, y, d)?;
        if let Some((nx, ny)) = model::<X, Y>(x, y, d) {
            x = nx;
            y = ny;
        } else {
            obs.label("walked-into-border");
        }
    }
    Ok(())
}

type Fn_ = fn(&C, &mut Obs) -> R;

fn walk_t(c: &C, obs: &mut Obs) -> R {
    let t = pos_dims!(__tab_xy; walk, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}

fn walks(_: bool) -> BoxedStrategy<C> {
    let n = pos_dims!(__tab_xy; walk, Fn_).len();
    (0..n, cxy(), prop::collection::vec(dir(), 0..12))
        .prop_map(|(dim, p, ds)| C { dim, p, ds })
        .boxed()
}

fn whole<const X: u16, const Y: u16>(_: &C, obs: &mut Obs) -> R {
    obs.nt(true);
    for y in 0..=Y {
        for x in 0..=X {
            for d in 0..8 {
                step::<X, Y>(x, y, d)?;
            }
        }
    }
    Ok(())
}

fn whole_t(i: &usize, obs: &mut Obs) -> R {
    let c = C { dim: 0, p: (Co(0, 0), Co(0, 0)), ds: vec![] };
    let t = grid_dims!(__tab_xy; whole, Fn_);
    (t[*i].2)(&c, obs)
}

/* tuples */

/// A bounded integer with its exact value and range.
trait Bi: BoundedInt {
    fn w(self) -> W;
    fn of(w: W) -> Option<Self>;
    fn lo() -> W;
    fn hi() -> W;
}
macro_rules! bi_int { ($($t:ty)*) => {$(
    impl Bi for $t {
        fn w(self) -> W { AsW::w(self) }
        fn of(w: W) -> Option<Self> { <$t as AsW>::of(w) }
        fn lo() -> W { AsW::w(<$t>::MIN) }
        fn hi() -> W { AsW::w(<$t>::MAX) }
    }
)*}; }
bi_int!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
macro_rules! bi_bounded { ($($b:ident $t:ty;)*) => {$(
    impl<const MIN: $t, const MAX: $t> Bi for $b<MIN, MAX> {
        fn w(self) -> W { AsW::w(self.0) }
        fn of(w: W) -> Option<Self> {
            let v = <$t as AsW>::of(w)?;
            (v >= MIN && v <= MAX).then_some($b(v))
        }
        fn lo() -> W { AsW::w(MIN) }
        fn hi() -> W { AsW::w(MAX) }
    }
)*}; }
bi_bounded!(BoundedU8 u8; BoundedU16 u16; BoundedI8 i8; BoundedI16 i16; BoundedI128 i128;);

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct T {
    ty: usize,
    /// offsets from the low end, or from the high end
    xo: (bool, W),
    yo: (bool, W),
    d: u8,
}

/// A value of the range: an offset from one end, wrapped into small ranges.
fn fit<A: Bi>(o: (bool, W)) -> W {
    let (lo, hi) = (A::lo(), A::hi());
    let span = hi.sub(lo).expect("span").mag;
    let off = if span == u128::MAX { o.1.mag } else { o.1.mag % (span + 1) };
    if o.0 {
        hi.sub(W::u(off)).expect("fits")
    } else {
        lo.add(W::u(off)).expect("fits")
    }
}

fn tuple<A: Bi + Debug, B: Bi + Debug>(c: &T, obs: &mut Obs) -> R
where
    (A, B): Add<Dir, Output = Result<(A, B), Error>> + Copy,
    for<'a> &'a (A, B): Add<Dir, Output = Result<(A, B), Error>>,
{
    let (wx, wy) = (fit::<A>(c.xo), fit::<B>(c.yo));
    let (x, y) = (A::of(wx).expect("x"), B::of(wy).expect("y"));
    let d = c.d as usize % 8;
    let dir = DIRS[d].0;
    let nx = wx.add(AsW::w(DIRS[d].1)).filter(|v| *v >= A::lo() && *v <= A::hi());
    let ny = wy.add(AsW::w(DIRS[d].2)).filter(|v| *v >= B::lo() && *v <= B::hi());
    obs.nt(A::lo() != A::hi() || B::lo() != B::hi());
    obs.label(if nx.is_some() && ny.is_some() { "inside" } else { "outside" });
    let want = match (nx, ny) {
        (Some(x), Some(y)) => Ok((x, y)),
        _ => Err(Error::OutOfBounds),
    };
    let t = (x, y);
    let show = |r: Result<(A, B), Error>| r.map(|t| (t.0.w(), t.1.w()));
    ensure_eq!(show(t + dir), want, "{t:?} + {dir:?}");
    ensure_eq!(show(&t + dir), want, "&{t:?} + {dir:?}");
    if let Ok(q) = t + dir {
        ensure_eq!(show(q + -dir), Ok((wx, wy)), "{t:?} + {dir:?} and back");
    }
    Ok(())
}

macro_rules! tuple_table { ($($a:ty, $b:ty;)*) => {{
    const T: &[fn(&T, &mut Obs) -> R] = &[$(tuple::<$a, $b>),*];
    T
}}; }

fn tuples_table() -> &'static [fn(&T, &mut Obs) -> R] {
    tuple_table!(
        u8, u8; u16, u16; u32, u32; u64, u64; u128, u128; usize, usize;
        i8, i8; i16, i16; i32, i32; i64, i64; i128, i128; isize, isize;
        u8, u128; i8, u8; i128, u16; usize, i32; u64, i8;
        BoundedU8<0, 255>, BoundedU8<5, 10>; BoundedU8<1, 1>, u8; BoundedU8<250, 255>, i8;
        BoundedI8<-5, -2>, BoundedI8<-128, 127>; BoundedI8<-128, -127>, BoundedU16<65534, 65535>;
        BoundedU16<0, 0>, BoundedU16<3, 1000>; BoundedI16<-1, 1>, BoundedI16<0, 1>;
        BoundedI128<{ i128::MIN }, { i128::MAX }>, BoundedI128<-7, 7>;
        BoundedU16<2, 3>, BoundedI16<-32768, -32767>;
    )
}

fn tuple_t(c: &T, obs: &mut Obs) -> R {
    let t = tuples_table();
    (t[c.ty % t.len()])(c, obs)
}

fn tuples(_: bool) -> BoxedStrategy<T> {
    let off = || {
        prop_oneof![
            5 => (any::<bool>(), 0u128..4),
            2 => (any::<bool>(), 0u128..70000),
            1 => (any::<bool>(), any::<u128>()),
        ]
        .prop_map(|(e, v)| (e, W::u(v)))
    };
    (0..tuples_table().len(), off(), off(), dir())
        .prop_map(|(ty, xo, yo, d)| T { ty, xo, yo, d })
        .boxed()
}

fn main() {
    main_check(
        "C03",
        &[
            &Exhaustive {
                name: "whole",
                rule: "every position of the small extents of the table with every direction; all non-trivial",
                cases: |_| (0..grid_dims!(__tab_xy; whole, Fn_).len()).collect(),
                test: whole_t,
            },
            &Facet {
                name: "walks",
                rule: "extent from the table (up to 65536x65536), start biased to the borders, all eight moves from it, then a walk of up to 11 moves; non-trivial: more than one cell",
                quick: 7_000_000,
                thorough: 105_000_000,
                strategy: walks,
                test: walk_t,
            },
            &Facet {
                name: "tuples",
                rule: "coordinate pairs of 26 combinations of integer and bounded integer types, biased to both ends of each range, with every direction; non-trivial: more than one value in the range",
                quick: 6_000_000,
                thorough: 90_000_000,
                strategy: tuples,
                test: tuple_t,
            },
        ],
        &[],
    )
}
