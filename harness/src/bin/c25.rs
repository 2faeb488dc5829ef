//! C25: integer pairs and user-defined positions are full position types.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sqrid::*;
use std::ops::Add;
use vh::gen::{didx, wide, AsW, DIRS, W};
use vh::maze::*;
use vh::*;

/* The types ******************************************************************/

/// A position type, with its own way of being built and read, independent of the library.
///
/// Coordinates are handled as offsets from the smallest ones.
trait PP: PosT + Add<Dir, Output = Result<Self, Error>> + Ord + std::hash::Hash + 'static {
    /// Greatest offsets
    const MX: u128;
    const MY: u128;
    /// Smallest coordinates
    const X0: i128;
    const Y0: i128;
    fn mk(x: u128, y: u128) -> Self;
    fn off(&self) -> (u128, u128);
    /// Conversions from and to another position type
    fn from_pos(p: Pos<65535, 65535>) -> Result<Self, Error>;
    fn to_pos(self) -> Result<Pos<65535, 65535>, Error>;
    fn cells() -> Option<u128> {
        (Self::MX.checked_add(1)?).checked_mul(Self::MY.checked_add(1)?)
    }
    /// Whether the distance between two coordinates at offsets a and b is claimed: always for pairs
    const OWN: bool = false;
    fn measurable(a: u128, b: u128, min: i128, max: u128) -> bool {
        // the difference has to be a value of the coordinate's type
        let d = a.abs_diff(b) as i128;
        !Self::OWN || min == 0 || d >= min && d <= min + max as i128
    }
}

macro_rules! conversions {
    () => {
        fn from_pos(p: Pos<65535, 65535>) -> Result<Self, Error> {
            <Self as PosT>::tryfrom_pos(p)
        }
        fn to_pos(self) -> Result<Pos<65535, 65535>, Error> {
            <Pos<65535, 65535> as PosT>::tryfrom_pos(self)
        }
    };
}

macro_rules! pair {
    ($($t:ty, $u:ty);*) => {$(
        impl PP for ($t, $t) {
            const MX: u128 = <$u>::MAX as u128;
            const MY: u128 = <$u>::MAX as u128;
            const X0: i128 = <$t>::MIN as i128;
            const Y0: i128 = <$t>::MIN as i128;
            fn mk(x: u128, y: u128) -> Self {
                assert!(x <= Self::MX && y <= Self::MY, "harness built an invalid position");
                (<$t>::MIN.wrapping_add(x as $t), <$t>::MIN.wrapping_add(y as $t))
            }
            fn off(&self) -> (u128, u128) {
                (self.0.wrapping_sub(<$t>::MIN) as $u as u128, self.1.wrapping_sub(<$t>::MIN) as $u as u128)
            }
            conversions!();
        }
    )*};
}
pair!(u8, u8; u16, u16; u32, u32; u64, u64; u128, u128; i8, u8; i16, u16; i32, u32);

macro_rules! add_dir {
    ($p:ident) => {
        impl Add<Dir> for $p {
            type Output = Result<$p, Error>;
            fn add(self, d: Dir) -> Self::Output {
                Ok(<$p as PosT>::new_(((self.x(), self.y()) + d)?))
            }
        }
    };
}

/// A user's type that defines only `tuple`.
macro_rules! user_tuple {
    ($p:ident, $x:ty, $y:ty, $mx:expr, $my:expr, $cx:expr, $cy:expr) => {
        #[derive(Debug, Default, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        struct $p($x, $y);
        impl PosT for $p {
            type Xtype = $x;
            type Ytype = $y;
            const WIDTH: usize = $mx + 1;
            const HEIGHT: usize = $my + 1;
            fn new_(xy: ($x, $y)) -> Self {
                $p(xy.0, xy.1)
            }
            fn tuple(&self) -> ($x, $y) {
                (self.0, self.1)
            }
        }
        user_common!($p, $mx, $my, $cx, $cy);
    };
}

/// A user's type that defines only `x` and `y`.
macro_rules! user_xy {
    ($p:ident, $x:ty, $y:ty, $mx:expr, $my:expr, $cx:expr, $cy:expr) => {
        #[derive(Debug, Default, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        struct $p {
            row: $y,
            col: $x,
        }
        impl PosT for $p {
            type Xtype = $x;
            type Ytype = $y;
            const WIDTH: usize = $mx + 1;
            const HEIGHT: usize = $my + 1;
            fn new_(xy: ($x, $y)) -> Self {
                $p { col: xy.0, row: xy.1 }
            }
            fn x(&self) -> $x {
                self.col
            }
            fn y(&self) -> $y {
                self.row
            }
        }
        user_common!($p, $mx, $my, $cx, $cy);
    };
}

/// A user's type whose coordinates do not start at zero.
macro_rules! user_shifted {
    ($p:ident, $bx:ident, $tx:ty, $x0:expr, $x1:expr, $by:ident, $ty:ty, $y0:expr, $y1:expr) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        struct $p($bx<$x0, $x1>, $by<$y0, $y1>);
        impl Default for $p {
            fn default() -> $p {
                $p($bx($x1), $by($y1))
            }
        }
        impl PosT for $p {
            type Xtype = $bx<$x0, $x1>;
            type Ytype = $by<$y0, $y1>;
            const WIDTH: usize = ($x1 as i64 - $x0 as i64) as usize + 1;
            const HEIGHT: usize = ($y1 as i64 - $y0 as i64) as usize + 1;
            fn new_(xy: (Self::Xtype, Self::Ytype)) -> Self {
                $p(xy.0, xy.1)
            }
            fn tuple(&self) -> (Self::Xtype, Self::Ytype) {
                (self.0, self.1)
            }
        }
        add_dir!($p);
        impl PP for $p {
            const MX: u128 = ($x1 as i64 - $x0 as i64) as u128;
            const MY: u128 = ($y1 as i64 - $y0 as i64) as u128;
            const X0: i128 = $x0 as i128;
            const Y0: i128 = $y0 as i128;
            const OWN: bool = true;
            fn mk(x: u128, y: u128) -> Self {
                assert!(x <= Self::MX && y <= Self::MY, "harness built an invalid position");
                $p($bx((Self::X0 + x as i128) as $tx), $by((Self::Y0 + y as i128) as $ty))
            }
            fn off(&self) -> (u128, u128) {
                ((self.0 .0 as i128 - Self::X0) as u128, (self.1 .0 as i128 - Self::Y0) as u128)
            }
            conversions!();
        }
    };
}

macro_rules! user_common {
    ($p:ident, $mx:expr, $my:expr, $cx:expr, $cy:expr) => {
        add_dir!($p);
        impl PP for $p {
            const MX: u128 = $mx;
            const MY: u128 = $my;
            const X0: i128 = 0;
            const Y0: i128 = 0;
            fn mk(x: u128, y: u128) -> Self {
                assert!(x <= Self::MX && y <= Self::MY, "harness built an invalid position");
                <$p as PosT>::new_(($cx(x as _), $cy(y as _)))
            }
            fn off(&self) -> (u128, u128) {
                (self.x().rd(), self.y().rd())
            }
            conversions!();
        }
    };
}

fn id<T>(t: T) -> T {
    t
}

/// Reading a coordinate without the library.
trait Rd {
    fn rd(self) -> u128;
}
macro_rules! rd {
    ($($b:ident, $t:ty);*) => {$(
        impl<const A: $t, const B: $t> Rd for $b<A, B> {
            fn rd(self) -> u128 {
                self.0 as u128
            }
        }
    )*};
}
rd!(BoundedU8, u8; BoundedU16, u16; BoundedU32, u32; BoundedU64, u64; BoundedU128, u128;
    BoundedI8, i8; BoundedI16, i16; BoundedI64, i64; BoundedI128, i128; BoundedIsize, isize);
impl Rd for u8 {
    fn rd(self) -> u128 {
        self as u128
    }
}
impl Rd for u16 {
    fn rd(self) -> u128 {
        self as u128
    }
}

user_tuple!(Ua, BoundedU8<0, 6>, BoundedU16<0, 12>, 6, 12, BoundedU8, BoundedU16);
user_xy!(Ub, u8, BoundedU16<0, 299>, 255, 299, id, BoundedU16);
user_xy!(Uc, BoundedU32<0, 4>, BoundedU64<0, 4>, 4, 4, BoundedU32, BoundedU64);
user_tuple!(Ud, BoundedI16<0, 9>, BoundedI8<0, 20>, 9, 20, BoundedI16, BoundedI8);
user_tuple!(Ue, u16, BoundedU8<0, 0>, 65535, 0, id, BoundedU8);
user_xy!(Uf, BoundedU8<0, 0>, u16, 0, 65535, BoundedU8, id);
user_xy!(Ug, BoundedIsize<0, 31>, BoundedI64<0, 7>, 31, 7, BoundedIsize, BoundedI64);
user_tuple!(Uh, BoundedU8<0, 0>, BoundedU8<0, 0>, 0, 0, BoundedU8, BoundedU8);
user_tuple!(Ui, BoundedI128<0, 32>, BoundedU128<0, 1>, 32, 1, BoundedI128, BoundedU128);
user_xy!(Uj, BoundedU8<0, 254>, u8, 254, 255, BoundedU8, id);
user_shifted!(Va, BoundedI16, i16, -5, 5, BoundedI8, i8, -3, 4);
user_shifted!(Vb, BoundedI64, i64, -300, 120, BoundedI32, i32, -2, 0);
user_shifted!(Vc, BoundedU8, u8, 3, 9, BoundedU16, u16, 1, 30);
user_shifted!(Vd, BoundedU8, u8, 1, 8, BoundedU8, u8, 1, 8);
user_shifted!(Ve, BoundedI16, i16, -100, -90, BoundedU8, u8, 254, 255);
user_shifted!(Vf, BoundedI8, i8, -128, 127, BoundedI8, i8, -128, 126);
user_shifted!(Vg, BoundedU16, u16, 40000, 40007, BoundedU32, u32, 7, 7);

/* Generators *****************************************************************/

/// An offset still to be fitted: kind, raw value.
#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
struct Of(u8, u64);

impl Of {
    fn at(self, max: u128) -> u128 {
        let m = |v: u128| if max == u128::MAX { v } else { v % (max + 1) };
        let raw = self.1 as u128;
        match self.0 {
            0 => m(raw % 9),
            1 => max - m(raw % 9),
            // around the middle: sign changes
            2 => m(max / 2 + raw % 4),
            3 => m(mix(self.1) as u128 | (mix(!self.1) as u128) << 64),
            _ => m(raw),
        }
    }
}

fn of() -> impl Strategy<Value = Of> + Clone {
    (
        prop_oneof![3 => Just(0u8), 3 => Just(1u8), 1 => Just(2u8), 2 => Just(3u8), 2 => Just(4u8)],
        prop_oneof![3 => 0u64..12, 2 => any::<u16>().prop_map(u64::from), 1 => any::<u64>()],
    )
        .prop_map(|(k, v)| Of(k, v))
}

fn pt<P: PP>(c: (Of, Of)) -> P {
    P::mk(c.0.at(P::MX), c.1.at(P::MY))
}

/* Queries ********************************************************************/

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Q {
    ty: usize,
    ps: Vec<(Of, Of)>,
    ws: (W, W),
    i: Of,
}

fn queries() -> BoxedStrategy<Q> {
    (0..TYPES, prop::collection::vec((of(), of()), 3..7), (wide(), wide()), of())
        .prop_map(|(ty, ps, ws, i)| Q { ty, ps, ws, i })
        .boxed()
}

fn try_new<P: PP, A: AsW + BoundedInt, B: AsW + BoundedInt>(w: (W, W)) -> R
where
    P::Xtype: TryFrom<A>,
    P::Ytype: TryFrom<B>,
{
    let (Some(a), Some(b)) = (A::of(w.0), B::of(w.1)) else {
        return Ok(());
    };
    let off = |v: W, min: i128, max: u128| {
        let o = v.sub(W::i(min))?.to_u128()?;
        (o <= max).then_some(o)
    };
    let want = match (off(w.0, P::X0, P::MX), off(w.1, P::Y0, P::MY)) {
        (Some(x), Some(y)) => Ok((x, y)),
        _ => Err(Error::OutOfBounds),
    };
    let got = P::new(a, b).map(|p| p.off());
    ensure_eq!(got, want, "new({a:?}, {b:?})");
    Ok(())
}

fn query<P: PP>(c: &Q, obs: &mut Obs) -> R {
    let name = std::any::type_name::<P>();
    obs.label(name);
    query_in::<P>(c, obs).map_err(|e| format!("{name}: {e}"))
}

fn query_in<P: PP>(c: &Q, obs: &mut Obs) -> R {
    let ps: Vec<P> = c.ps.iter().map(|p| pt(*p)).collect();
    let a = ps[0];
    let b = ps[1];
    let ((ax, ay), (bx, by)) = (a.off(), b.off());
    obs.nt(a != b);
    let at = |p: Option<P>| p.map(|p| p.off());

    // Extents
    ensure_eq!(P::first().off(), (0, 0), "first");
    ensure_eq!(P::last().off(), (P::MX, P::MY), "last");
    let index = P::X0 == 0 && P::Y0 == 0 && P::MX < u64::MAX as u128 && P::MY < u64::MAX as u128;
    if P::MX < usize::MAX as u128 && P::MY < usize::MAX as u128 {
        ensure_eq!(P::WIDTH as u128, P::MX + 1, "WIDTH");
        ensure_eq!(P::HEIGHT as u128, P::MY + 1, "HEIGHT");
    }
    if index {
        ensure_eq!(P::width() as u128, P::MX + 1, "width");
        ensure_eq!(P::height() as u128, P::MY + 1, "height");
        let total = P::cells().unwrap();
        if total <= usize::MAX as u128 {
            ensure_eq!(P::dimensions() as u128, total, "dimensions");
        }
        // Index
        let i = ay * (P::MX + 1) + ax;
        ensure_eq!(a.to_usize() as u128, i, "to_usize of {a:?}");
        ensure_eq!(
            P::tryfrom_usize(i as usize).map(|p| p.off()),
            Ok((ax, ay)),
            "tryfrom_usize({i})"
        );
        let j = c.i.at(usize::MAX as u128);
        let want = if j < total {
            Ok((j % (P::MX + 1), j / (P::MX + 1)))
        } else {
            Err(Error::OutOfBounds)
        };
        ensure_eq!(P::tryfrom_usize(j as usize).map(|p| p.off()), want, "tryfrom_usize({j})");
        if let Ok(j) = usize::try_from(total) {
            for j in [j, j + 1, j.saturating_add(P::MX as usize)] {
                ensure_eq!(P::tryfrom_usize(j), Err(Error::OutOfBounds), "tryfrom_usize({j})");
            }
        }
    }

    // Components
    ensure_eq!(P::new_(a.tuple()), a, "tuple of {a:?}");
    ensure_eq!(P::new_(a.into_tuple()), a, "into_tuple of {a:?}");
    ensure_eq!(P::new_((a.x(), a.y())), a, "x and y of {a:?}");
    ensure_eq!(P::new(a.x(), a.y()), Ok(a), "new from x and y of {a:?}");

    // Building from integers and from another position type
    try_new::<P, u16, u16>(c.ws)?;
    try_new::<P, i32, u64>(c.ws)?;
    try_new::<P, usize, i8>(c.ws)?;
    try_new::<P, i128, i128>(c.ws)?;
    try_new::<P, u128, i64>(c.ws)?;
    let near = |o: u128, min: i128, d: u64| {
        // values at, just inside and just outside both ends
        let v = W::i(min).add(W::u(o))?;
        v.add(W::i(d as i128 % 3 - 1))
    };
    if let (Some(x), Some(y)) =
        (near(if c.i.0 % 2 == 0 { 0 } else { P::MX }, P::X0, c.i.1), near(ay, P::Y0, 1))
    {
        try_new::<P, i128, i128>((x, y))?;
        try_new::<P, i64, u128>((x, y))?;
    }
    if let (Some(x), Some(y)) =
        (near(ax, P::X0, 1), near(if c.i.0 % 2 == 0 { 0 } else { P::MY }, P::Y0, c.i.1))
    {
        try_new::<P, i128, i128>((x, y))?;
        try_new::<P, u128, i64>((x, y))?;
    }
    let (px, py) = (c.ps[2].0.at(65535), c.ps[2].1.at(65535));
    let value = |v: u128, min: i128| (v as i128).wrapping_add(min); // only used below 2^127
    let inside = |v: u128, min: i128, max: u128| {
        let o = (v as i128).checked_sub(min).unwrap();
        (o >= 0 && o as u128 <= max).then_some(o as u128)
    };
    let want = match (inside(px, P::X0, P::MX), inside(py, P::Y0, P::MY)) {
        (Some(x), Some(y)) => Ok((x, y)),
        _ => Err(Error::OutOfBounds),
    };
    let foreign: Pos<65535, 65535> = vh::gen::mkpos(px as u16, py as u16);
    ensure_eq!(P::from_pos(foreign).map(|p| p.off()), want, "tryfrom_pos({foreign:?})");
    let fits = |v: u128, min: i128| {
        if v > i128::MAX as u128 {
            return None;
        }
        u16::try_from(value(v, min)).ok()
    };
    let want = match (fits(ax, P::X0), fits(ay, P::Y0)) {
        (Some(x), Some(y)) => Ok((x, y)),
        _ => Err(Error::OutOfBounds),
    };
    ensure_eq!(a.to_pos().map(|p| vh::gen::raw(&p)), want, "{a:?} as a Pos");

    // Steps
    let next = if ax < P::MX {
        Some((ax + 1, ay))
    } else if ay < P::MY {
        Some((0, ay + 1))
    } else {
        None
    };
    ensure_eq!(at(PosT::next(&a)), next, "next of {a:?}");
    let prev = if ax > 0 {
        Some((ax - 1, ay))
    } else if ay > 0 {
        Some((P::MX, ay - 1))
    } else {
        None
    };
    ensure_eq!(at(PosT::prev(&a)), prev, "prev of {a:?}");
    let next_y = if ay < P::MY {
        Some((ax, ay + 1))
    } else if ax < P::MX {
        Some((ax + 1, 0))
    } else {
        None
    };
    ensure_eq!(at(PosT::next_y(&a)), next_y, "next_y of {a:?}");
    let prev_y = if ay > 0 {
        Some((ax, ay - 1))
    } else if ax > 0 {
        Some((ax - 1, P::MY))
    } else {
        None
    };
    ensure_eq!(at(PosT::prev_y(&a)), prev_y, "prev_y of {a:?}");

    // Moves
    for (d, dx, dy) in DIRS {
        let add = |v: u128, d: i8, max: u128| match d {
            0 => Some(v),
            1 => (v < max).then(|| v + 1),
            _ => v.checked_sub(1),
        };
        let want = match (add(ax, dx, P::MX), add(ay, dy, P::MY)) {
            (Some(x), Some(y)) => Ok((x, y)),
            _ => Err(Error::OutOfBounds),
        };
        let got = a + d;
        ensure_eq!(got.as_ref().map(|p| p.off()).map_err(|e| e.clone()), want, "{a:?} + {d:?}");
        if let Ok(p) = got {
            ensure_eq!(p + -d, Ok(a), "{a:?} + {d:?} and back");
        }
    }

    // Border, containment, distance
    let (xb, yb) = (ax == 0 || ax == P::MX, ay == 0 || ay == P::MY);
    ensure_eq!(a.is_corner(), xb && yb, "is_corner of {a:?}");
    ensure_eq!(a.is_side(), xb || yb, "is_side of {a:?}");
    let (dx, dy) = (ax.abs_diff(bx), ay.abs_diff(by));
    let measurable = P::measurable(ax, bx, P::X0, P::MX) && P::measurable(ay, by, P::Y0, P::MY);
    obs.label_if(!measurable, "distance-of-no-value");
    if !measurable {
        // not claimed
    } else if let Some(sum) = dx.checked_add(dy).filter(|v| *v <= usize::MAX as u128) {
        ensure_eq!(a.manhattan(&b) as u128, sum, "manhattan of {a:?} and {b:?}");
        ensure_eq!(b.manhattan(&a) as u128, sum, "manhattan of {b:?} and {a:?}");
        obs.label("distance");
    }
    let k = ps[2];
    let (kx, ky) = k.off();
    let want = (ax.min(bx)..=ax.max(bx)).contains(&kx) && (ay.min(by)..=ay.max(by)).contains(&ky);
    ensure_eq!(k.inside(&a, &b), want, "{k:?} inside {a:?} and {b:?}");
    ensure_eq!(k.inside(&b, &a), want, "{k:?} inside {b:?} and {a:?}");
    obs.label_if(want, "inside");
    let want = (
        (ps.iter().map(|p| p.off().0).min().unwrap(), ps.iter().map(|p| p.off().1).min().unwrap()),
        (ps.iter().map(|p| p.off().0).max().unwrap(), ps.iter().map(|p| p.off().1).max().unwrap()),
    );
    let got = P::tlbr_of(ps.iter().copied()).map(|(tl, br)| (tl.off(), br.off()));
    ensure_eq!(got, Ok(want), "tlbr_of {ps:?}");
    ensure_eq!(P::tlbr_of(std::iter::empty()), Err(Error::Empty), "tlbr_of nothing");
    // Direction from one to the other
    let sgn = |a: u128, b: u128| (b > a) as i8 - (b < a) as i8;
    let (sx, sy) = (sgn(ax, bx), sgn(ay, by));
    let exact = DIRS.iter().find(|t| (t.1, t.2) == (sx, sy)).map(|t| t.0);
    ensure_eq!(direction_to::<P, true>(&a, &b), exact, "direction_to from {a:?} to {b:?}");
    let four = direction_to::<P, false>(&a, &b);
    match four {
        None => ensure!(a == b, "direction_to without diagonals from {a:?} to {b:?} is none"),
        Some(d) => {
            let (_, ddx, ddy) = DIRS[didx(d)];
            ensure!(
                ddx == 0 && ddy != 0 && ddy == sy || ddy == 0 && ddx != 0 && ddx == sx,
                "direction_to without diagonals from {a:?} to {b:?} is {d:?}"
            );
        }
    }

    // Mirror images
    let zero = |min: i128, max: u128| min <= 0 && (min == 0 || -(min + 1) < max as i128);
    if zero(P::X0, P::MX) {
        ensure_eq!(a.flip_h().off(), (P::MX - ax, ay), "flip_h of {a:?}");
    }
    if zero(P::Y0, P::MY) {
        ensure_eq!(a.flip_v().off(), (ax, P::MY - ay), "flip_v of {a:?}");
    }
    Ok(())
}

/// Rotations of square positions.
macro_rules! rotations {
    ($($p:ty),*) => {
        fn rotation(c: &Q, obs: &mut Obs) -> R {
            const T: &[fn(&Q, &mut Obs) -> R] = &[$(|c, obs| {
                let a: $p = pt(c.ps[0]);
                let (x, y) = a.off();
                obs.nt(x != y);
                obs.label(std::any::type_name::<$p>());
                ensure_eq!(a.rotate_cw().off(), (<$p>::MY - y, x), "rotate_cw of {a:?}");
                ensure_eq!(a.rotate_cc().off(), (y, <$p>::MX - x), "rotate_cc of {a:?}");
                Ok(())
            }),*];
            T[c.ty % T.len()](c, obs)
        }
    };
}
rotations!((u8, u8), (u16, u16), (u32, u32), (u64, u64), (u128, u128), Uc, Uh);

/* Iteration ******************************************************************/

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct I {
    ty: usize,
    vertical: bool,
    /// (from the back, how many)
    ops: Vec<(bool, u16)>,
    drain: bool,
    tl: (Of, Of),
    size: (Of, Of),
}

fn iters() -> BoxedStrategy<I> {
    (
        0..TYPES,
        any::<bool>(),
        prop::collection::vec(
            (any::<bool>(), prop_oneof![6 => 0u16..5, 3 => 0u16..600, 1 => 0u16..3000]),
            0..8,
        ),
        prop::bool::weighted(0.2),
        (of(), of()),
        (of(), of()),
    )
        .prop_map(|(ty, vertical, ops, drain, tl, size)| I { ty, vertical, ops, drain, tl, size })
        .boxed()
}

/// Number of items left, bracketed by a size hint; `None` is more than a u128 holds.
fn hint(h: (usize, Option<usize>), left: Option<u128>, what: &str) -> R {
    if let Some(l) = left {
        ensure!(h.0 as u128 <= l, "{what}: size hint {h:?} with {l} items left");
    }
    if let Some(u) = h.1 {
        ensure!(
            left.is_some_and(|l| u as u128 >= l),
            "{what}: size hint {h:?} with {left:?} items left"
        );
    }
    Ok(())
}

fn iter_t<P: PP>(c: &I, obs: &mut Obs) -> R {
    let name = std::any::type_name::<P>();
    obs.label(name);
    obs.nt(P::MX > 0 || P::MY > 0);
    if c.vertical {
        deque::<P, false>(c, P::iter_vertical(), obs)
    } else {
        deque::<P, true>(c, P::iter(), obs)
    }
    .map_err(|e| format!("{name}: {e}"))?;
    range_t::<P>(c, obs).map_err(|e| format!("{name}: {e}"))
}

fn deque<P: PP, const H: bool>(c: &I, mut it: PosTIter<H, P>, obs: &mut Obs) -> R {
    let rank = |p: (u128, u128)| {
        let (minor, major, line) = if H { (p.0, p.1, P::MX) } else { (p.1, p.0, P::MY) };
        major.checked_mul(line.checked_add(1)?)?.checked_add(minor)
    };
    let fwd = |p: (u128, u128)| {
        if H {
            if p.0 < P::MX {
                (p.0 + 1, p.1)
            } else {
                (0, p.1 + 1)
            }
        } else if p.1 < P::MY {
            (p.0, p.1 + 1)
        } else {
            (p.0 + 1, 0)
        }
    };
    let bwd = |p: (u128, u128)| {
        if H {
            if p.0 > 0 {
                (p.0 - 1, p.1)
            } else {
                (P::MX, p.1 - 1)
            }
        } else if p.1 > 0 {
            (p.0, p.1 - 1)
        } else {
            (p.0 - 1, P::MY)
        }
    };
    // What is left, both ends included
    let mut left = Some(((0, 0), (P::MX, P::MY)));
    let mut ops = c.ops.clone();
    if c.drain && P::cells().is_some_and(|n| n < 80_000) {
        ops.extend([(false, 30_000), (true, 30_000), (false, 30_000)]);
        obs.label("exhausted");
    }
    let mut n = 0;
    for (back, count) in ops {
        for _ in 0..count {
            let want = match left {
                None => None,
                Some((f, b)) => {
                    let item = if back { b } else { f };
                    left = if f == b {
                        None
                    } else if back {
                        Some((f, bwd(b)))
                    } else {
                        Some((fwd(f), b))
                    };
                    Some(item)
                }
            };
            let got = if back { it.next_back() } else { it.next() };
            ensure_eq!(got.map(|p| p.off()), want, "item {n} (back {back}, horizontal {H})");
            n += 1;
        }
        let l = match left {
            None => Some(0),
            Some((f, b)) => match (rank(f), rank(b)) {
                (Some(f), Some(b)) => (b - f).checked_add(1),
                _ => None,
            },
        };
        hint(it.size_hint(), l, "whole-grid iteration")?;
    }
    Ok(())
}

fn range_t<P: PP>(c: &I, obs: &mut Obs) -> R {
    let tl: P = pt(c.tl);
    let (x, y) = tl.off();
    let (w, h) = (c.size.0.at(P::MX - x), c.size.1.at(P::MY - y));
    let br = P::mk(x + w, y + h);
    obs.label_if(y + h == P::MY, "touches-last-row");
    let area = w.checked_add(1).and_then(|w| w.checked_mul(h.checked_add(1)?));
    const LIMIT: u128 = 600;
    let mut it = P::iter_range(tl, br);
    let mut n = 0;
    let (mut cx, mut cy) = (x, y);
    loop {
        hint(it.size_hint(), area.map(|a| a - n), "rectangle iteration")?;
        if n == LIMIT {
            break;
        }
        let want = (area != Some(n)).then_some((cx, cy));
        ensure_eq!(it.next().map(|p| p.off()), want, "item {n} of the rectangle {tl:?} to {br:?}");
        if want.is_none() {
            break;
        }
        n += 1;
        if cx < x + w {
            cx += 1;
        } else {
            cx = x;
            cy = cy.saturating_add(1);
        }
    }
    // A row and a column, and the coordinates
    let small = |m: u128| {
        if m < 70_000 && (c.drain || m < 600) {
            m + 2
        } else {
            40
        }
    };
    let (mut col, mut ys) = (P::iter_in_x(tl.x()), P::iter_y());
    for n in 0..small(P::MY) {
        let left = if n > P::MY { Some(0) } else { (P::MY - n).checked_add(1) };
        hint(col.size_hint(), left, "column iteration")?;
        let want = (n <= P::MY).then_some((x, n));
        ensure_eq!(col.next().map(|p| p.off()), want, "item {n} of the column of {tl:?}");
        ensure_eq!(ys.next(), want.map(|(x, y)| P::mk(x, y).y()), "item {n} of iter_y");
    }
    let (mut row, mut xs) = (P::iter_in_y(tl.y()), P::iter_x());
    for n in 0..small(P::MX) {
        let left = if n > P::MX { Some(0) } else { (P::MX - n).checked_add(1) };
        hint(row.size_hint(), left, "row iteration")?;
        let want = (n <= P::MX).then_some((n, y));
        ensure_eq!(row.next().map(|p| p.off()), want, "item {n} of the row of {tl:?}");
        ensure_eq!(xs.next(), want.map(|(x, y)| P::mk(x, y).x()), "item {n} of iter_x");
    }
    Ok(())
}

macro_rules! type_table {
    ($f:ident, $fty:ty; $($p:ty),*) => {{
        const T: &[$fty] = &[$($f::<$p>),*];
        T
    }};
}
macro_rules! all_types {
    ($f:ident, $fty:ty) => {
        type_table!($f, $fty; (u8, u8), (u16, u16), (u32, u32), (u64, u64), (u128, u128), (i8, i8),
            (i16, i16), (i32, i32), Ua, Ub, Uc, Ud, Ue, Uf, Ug, Uh, Ui, Uj, Va, Vb, Vc, Vd, Ve, Vf, Vg)
    };
}
const TYPES: usize = 25;

fn query_any(c: &Q, obs: &mut Obs) -> R {
    let t = all_types!(query, fn(&Q, &mut Obs) -> R);
    assert_eq!(t.len(), TYPES);
    t[c.ty](c, obs)
}

fn iter_any(c: &I, obs: &mut Obs) -> R {
    all_types!(iter_t, fn(&I, &mut Obs) -> R)[c.ty](c, obs)
}

/* Grids **********************************************************************/

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct G {
    ty: usize,
    salt: u64,
    writes: Vec<((Of, Of), u32, u8)>,
    flips: Vec<bool>,
    rows: Vec<u16>,
}

fn grids() -> BoxedStrategy<G> {
    (
        0..GRIDS,
        prop_oneof![1 => Just(0u64), 2 => any::<u64>()],
        prop::collection::vec(((of(), of()), 1u32..1000, 0u8..12), 0..20),
        prop::collection::vec(any::<bool>(), 0..3),
        prop::collection::vec(prop_oneof![3 => 0u16..12, 1 => any::<u16>()], 0..5),
    )
        .prop_map(|(ty, salt, writes, flips, rows)| G { ty, salt, writes, flips, rows })
        .boxed()
}

fn same(what: &str, got: impl Iterator<Item = u32>, want: &[u32]) -> R {
    let mut n = 0;
    for (i, v) in got.enumerate() {
        ensure!(i < want.len(), "{what}: more than {} cells", want.len());
        ensure!(want[i] == v, "{what}: cell {i} is {v}, expected {}", want[i]);
        n = i + 1;
    }
    ensure_eq!(n, want.len(), "{what}: number of cells");
    Ok(())
}

fn grid_t<P: PP, const SIZE: usize, const WORDS: usize>(c: &G, obs: &mut Obs) -> R {
    let name = std::any::type_name::<P>();
    obs.label(name);
    grid_in::<P, SIZE, WORDS>(c, obs).map_err(|e| format!("{name}: {e}"))
}

fn grid_in<P: PP, const SIZE: usize, const WORDS: usize>(c: &G, obs: &mut Obs) -> R {
    let w = P::MX as usize + 1;
    let h = P::MY as usize + 1;
    ensure_eq!(w * h, SIZE, "harness: size");
    obs.nt(SIZE > 1 && (!c.writes.is_empty() || c.salt != 0));
    let fill = |i: usize| {
        if c.salt == 0 {
            0
        } else {
            mix(c.salt ^ i as u64) as u32 >> 3
        }
    };
    let mut model: Vec<u32> = (0..SIZE).map(fill).collect();
    let mut bools: Vec<bool> = model.iter().map(|v| v % 2 == 1).collect();
    let pos = |i: usize| P::mk((i % w) as u128, (i / w) as u128);
    let idx = |p: &P| p.off().1 as usize * w + p.off().0 as usize;

    let mut g: Grid<u32, P, SIZE> = model.iter().copied().collect();
    let mut b: Gridbool<P, WORDS> = bools.iter().copied().collect();
    let from_pos: Gridbool<P, WORDS> = (0..SIZE).filter(|i| bools[*i]).map(pos).collect();
    ensure!(b == from_pos, "gridbool collected from positions differs from one from booleans");
    for (p, v, how) in &c.writes {
        let p: P = pt(*p);
        let (v, on) = (*v, v % 2 == 1);
        match how % 6 {
            0 => g[p] = v,
            1 => g[&p] = v,
            2 => *g.get_mut(&p) = v,
            3 => g.line_mut(p.y())[p.off().0 as usize] = v,
            4 => g.extend([(p, v)]),
            _ => g.as_array_mut()[p.to_usize()] = v,
        }
        match how % 3 {
            0 => b.set(&p, on),
            1 => {
                if on {
                    b.set_t(&p)
                } else {
                    b.set_f(&p)
                }
            }
            _ => {
                if on {
                    b.set_iter_t([p].into_iter())
                } else {
                    b.set_iter_f([p].into_iter())
                }
            }
        }
        model[idx(&p)] = v;
        bools[idx(&p)] = on;
        ensure_eq!(g[p], v, "grid read back at {p:?}");
        ensure_eq!(b[p], on, "gridbool read back at {p:?}");
    }
    for hflip in &c.flips {
        if *hflip {
            g.flip_h();
            b.flip_h();
        } else {
            g.flip_v();
            b.flip_v();
        }
        let src = |i: usize| {
            let (x, y) = (i % w, i / w);
            if *hflip {
                y * w + (w - 1 - x)
            } else {
                (h - 1 - y) * w + x
            }
        };
        model = (0..SIZE).map(|i| model[src(i)]).collect();
        bools = (0..SIZE).map(|i| bools[src(i)]).collect();
    }
    same("grid iteration", g.iter().copied(), &model)?;
    same("grid by position", (0..SIZE).map(|i| *g.get(&pos(i))), &model)?;
    same("grid rows", (0..h).flat_map(|y| g.line(pos(y * w).y()).to_vec()), &model)?;
    for (i, (p, v)) in g.iter_pos().enumerate() {
        ensure!(p == pos(i) && *v == model[i], "iter_pos item {i} is {p:?} {v}");
    }
    let want: Vec<u32> = bools.iter().map(|v| *v as u32).collect();
    same("gridbool iteration", b.iter().map(u32::from), &want)?;
    same("gridbool by position", (0..SIZE).map(|i| u32::from(b.get(&pos(i)))), &want)?;
    ensure!(
        b.iter_t().eq((0..SIZE).filter(|i| bools[*i]).map(pos)),
        "true positions of the gridbool"
    );
    ensure!(
        b.iter_f().eq((0..SIZE).filter(|i| !bools[*i]).map(pos)),
        "false positions of the gridbool"
    );
    // Fill
    for v in [false, true] {
        let all = Gridbool::<P, WORDS>::repeat(v);
        ensure!(all.iter().filter(|b| *b == v).count() == SIZE, "gridbool filled with {v}");
        let one = std::iter::repeat_n(v, SIZE).collect::<Gridbool<P, WORDS>>();
        ensure!(all == one, "gridbool filled with {v} differs from one set bit by bit");
    }
    // Nested vectors
    let lens: Vec<usize> = c.rows.iter().map(|l| *l as usize % (w + 2)).collect();
    let vv: Vec<Vec<u32>> = lens
        .iter()
        .enumerate()
        .map(|(y, l)| (0..*l).map(|x| (y * 1000 + x + 1) as u32).collect())
        .collect();
    let fits = lens.len() <= h && lens.iter().all(|l| *l <= w);
    let cell = |i: usize| {
        let (x, y) = (i % w, i / w);
        lens.get(y).filter(|l| x < **l).map(|_| (y * 1000 + x + 1) as u32)
    };
    match (Grid::<u32, P, SIZE>::try_from(vv.clone()), fits) {
        (Ok(n), true) => {
            let want: Vec<u32> = (0..SIZE).map(|i| cell(i).unwrap_or(0)).collect();
            same("grid from nested vectors", n.iter().copied(), &want)?;
        }
        (Err(Error::OutOfBounds), false) => {}
        (r, _) => {
            return Err(format!(
                "nested vectors of lengths {lens:?}: ok {}, fits {fits}",
                r.is_ok()
            ))
        }
    }
    let mut e = g;
    let fits = lens.iter().enumerate().all(|(y, l)| *l <= w && (y < h || *l == 0));
    match (e.extend_from_vecvec(vv), fits) {
        (Ok(()), true) => {
            let want: Vec<u32> = (0..SIZE).map(|i| cell(i).unwrap_or(model[i])).collect();
            same("grid extended from nested vectors", e.iter().copied(), &want)?;
        }
        (Err(Error::OutOfBounds), false) => {}
        (r, _) => return Err(format!("extending with lengths {lens:?}: {r:?}, fits {fits}")),
    }
    // Text
    if SIZE < 1000 {
        let text = format!("{g:12}");
        let digits = (w - 1).to_string().len();
        ensure_eq!(text.lines().count(), h + 2 * digits, "lines of the text");
        let body: Vec<u32> = text
            .lines()
            .skip(digits)
            .take(h)
            .flat_map(|l| {
                l.split_whitespace().skip(1).map(|v| v.parse().unwrap()).collect::<Vec<_>>()
            })
            .collect();
        same("text", body.into_iter(), &model)?;
    }
    Ok(())
}

macro_rules! grid_table {
    ($f:ident, $fty:ty; $($p:ty, $w:literal, $h:literal);*) => {{
        const T: &[$fty] = &[$($f::<$p, { $w * $h }, { ($w * $h + 31) / 32 }>),*];
        T
    }};
}
macro_rules! grid_types {
    ($f:ident, $fty:ty) => {
        grid_table!($f, $fty; Ua, 7, 13; Uc, 5, 5; Ud, 10, 21; Ug, 32, 8; Uh, 1, 1; Ui, 33, 2; Ub, 256, 300;
            Ue, 65536, 1; Uf, 1, 65536; Uj, 255, 256; (u8, u8), 256, 256)
    };
}
const GRIDS: usize = 11;

fn grid_any(c: &G, obs: &mut Obs) -> R {
    let t = grid_types!(grid_t, fn(&G, &mut Obs) -> R);
    assert_eq!(t.len(), GRIDS);
    t[c.ty](c, obs)
}

/// Grids over positions that do not start at zero: whatever the index of a position is, access stays
/// within the grid, and two positions do not share a cell.
fn access<P: PP, const SIZE: usize, const WORDS: usize>(c: &Q, obs: &mut Obs) -> R {
    obs.label(std::any::type_name::<P>());
    let mut g: Grid<u32, P, SIZE> = Grid::repeat(7);
    let mut gb: Gridbool<P, WORDS> = Default::default();
    let ps: Vec<P> = c.ps.iter().map(|p| pt(*p)).collect();
    let base = g.as_array().as_ptr() as usize;
    let mut cells: Vec<(P, usize)> = vec![];
    for p in &ps {
        let at = [
            no_panic(|| g.get(p) as *const u32 as usize),
            no_panic(|| &g[p] as *const u32 as usize),
            no_panic(|| &g[*p] as *const u32 as usize),
            no_panic(|| g.get_mut(p) as *mut u32 as usize),
            no_panic(|| &mut g[p] as *mut u32 as usize),
            no_panic(|| &mut g[*p] as *mut u32 as usize),
        ];
        obs.label(if at[0].is_ok() { "cell" } else { "refused" });
        for (k, a) in at.iter().enumerate() {
            let Ok(a) = a else { continue };
            ensure!(
                (base..base + 4 * SIZE).contains(a) && (a - base).is_multiple_of(4),
                "{} {p:?} through interface {k}: a cell outside of the grid",
                std::any::type_name::<P>()
            );
            cells.push((*p, *a));
        }
        let set = no_panic(|| gb.set_t(p)).is_ok();
        if set {
            ensure_eq!(no_panic(|| gb.get(p)), Ok(true), "{p:?} just set");
        }
    }
    obs.nt(cells.len() > 6);
    for (p, a) in &cells {
        for (q, b) in &cells {
            ensure!((p == q) == (a == b), "{p:?} at {a:x}, {q:?} at {b:x}");
        }
    }
    Ok(())
}

fn access_any(c: &Q, obs: &mut Obs) -> R {
    const T: &[fn(&Q, &mut Obs) -> R] = &[
        access::<Va, 88, 3>,
        access::<Vb, 1263, 40>,
        access::<Vc, 210, 7>,
        access::<Vd, 64, 2>,
        access::<Ve, 22, 1>,
        access::<Vf, 65280, 2040>,
        access::<Vg, 8, 1>,
    ];
    T[c.ty % T.len()](c, obs)
}

/* Searches *******************************************************************/

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct S {
    ty: usize,
    d: bool,
    maze: Maze,
    /// Position of the window where moves are allowed, when the type has more cells than that
    at: (Of, Of),
    orig: (Of, Of),
    dest: (Of, Of),
}

fn searches(types: usize) -> BoxedStrategy<S> {
    (0..types, any::<bool>(), maze(40), (of(), of()), (of(), of()), (of(), of()))
        .prop_map(|(ty, d, maze, at, orig, dest)| S { ty, d, maze, at, orig, dest })
        .boxed()
}

/// The moves of a maze over a part of the positions of a type.
struct Win<'a, P: PP> {
    world: World<'a>,
    x: u128,
    y: u128,
    p: std::marker::PhantomData<P>,
}

impl<P: PP> Win<'_, P> {
    fn pos(&self, i: usize) -> P {
        P::mk(self.x + (i % self.world.w) as u128, self.y + (i / self.world.w) as u128)
    }
    fn idx(&self, p: &P) -> usize {
        let (x, y) = p.off();
        assert!(x >= self.x && y >= self.y, "the search left the allowed moves at {p:?}");
        let (x, y) = ((x - self.x) as usize, (y - self.y) as usize);
        assert!(x < self.world.w && y < self.world.h, "the search left the allowed moves at {p:?}");
        y * self.world.w + x
    }
    fn go(&self, p: P, d: Dir) -> Option<P> {
        self.world.tick();
        self.world.step(self.idx(&p), didx(d)).map(|i| self.pos(i))
    }
}

type Search<'a, P> =
    (&'static str, Box<dyn Fn() -> Result<Vec<Dir>, Error> + 'a>, std::marker::PhantomData<P>);

fn judge_all<P: PP>(win: &Win<P>, o: usize, t: usize, list: Vec<Search<P>>) -> R {
    let best = win.world.distances(o)[t];
    let want = best.map_or(Want::Unreachable, |b| Want::Total(b as u128));
    for (what, f, _) in list {
        win.world.reset();
        judge(&win.world, what, o, t, &f(), &want, &|_, _| 1)?;
    }
    Ok(())
}

fn layers<P: PP>(what: &str, win: &Win<P>, o: usize, it: impl Iterator<Item = Vec<(P, Dir)>>) -> R {
    let dist = win.world.distances(o);
    let mut seen = vec![false; win.world.n()];
    seen[o] = true;
    let mut total = 1;
    for (n, layer) in it.enumerate() {
        ensure!(!layer.is_empty(), "{what}: layer {n} is empty");
        for (p, d) in layer {
            let i = win.idx(&p);
            ensure!(!seen[i], "{what}: {p:?} comes twice");
            seen[i] = true;
            total += 1;
            ensure_eq!(dist[i], Some(n as u32 + 1), "{what}: distance of {p:?}");
            // The position it points back to is one layer closer and leads here.
            let k = (didx(d) + 4) % 8;
            let from = win
                .world
                .dirs()
                .filter(|j| *j == k)
                .find_map(|_| (p + d).ok())
                .map(|q| win.idx(&q));
            ensure!(
                from.is_some_and(|f| dist[f] == Some(n as u32) && win.world.step(f, k) == Some(i)),
                "{what}: {p:?} does not point back with {d:?}"
            );
        }
    }
    ensure_eq!(total, dist.iter().filter(|d| d.is_some()).count(), "{what}: positions reached");
    Ok(())
}

fn classes<P: PP>(c: &S, win: &Win<P>, o: usize, t: usize, obs: &mut Obs) {
    obs.label(std::any::type_name::<P>());
    obs.label(c.maze.label());
    obs.nt(o != t);
    obs.label(match win.world.distances(o)[t] {
        None => "unreachable",
        Some(_) => "reachable",
    });
}

/// Every search over a whole type.
fn full<P: PP, const SIZE: usize, const WORDS: usize>(c: &S, obs: &mut Obs) -> R {
    if c.d {
        full_d::<P, SIZE, WORDS, true>(c, obs)
    } else {
        full_d::<P, SIZE, WORDS, false>(c, obs)
    }
    .map_err(|e| format!("{}: {e}", std::any::type_name::<P>()))
}

fn full_d<P: PP, const SIZE: usize, const WORDS: usize, const D: bool>(c: &S, obs: &mut Obs) -> R {
    let win = Win::<P> {
        world: World::new(&c.maze, P::MX as u16, P::MY as u16, D),
        x: 0,
        y: 0,
        p: std::marker::PhantomData,
    };
    let (orig, dest): (P, P) = (pt(c.orig), pt(c.dest));
    let (o, t) = (win.idx(&orig), win.idx(&dest));
    classes(c, &win, o, t, obs);
    let go = |p: P, d: Dir| win.go(p, d);
    let go: &dyn Fn(P, Dir) -> Option<P> = &go;
    let go1 = |p: P, d: Dir| win.go(p, d).map(|n| (n, 1));
    let go1: &dyn Fn(P, Dir) -> Option<(P, usize)> = &go1;
    let found = |p: P| p == dest;
    let found: &dyn Fn(P) -> bool = &found;
    type Q<const D: bool, const WORDS: usize, const SIZE: usize> = Sqrid<0, 0, D, WORDS, SIZE>;
    let goal = |r: Result<(P, Vec<Dir>), Error>| {
        r.map(|(p, v)| {
            assert!(p == dest, "bfs found {p:?} instead of {dest:?}");
            v
        })
    };
    let ph = std::marker::PhantomData;
    judge_all(
        &win,
        o,
        t,
        vec![
            (
                "bfs_path_hash",
                Box::new(|| goal(Q::<D, WORDS, SIZE>::bfs_path_hash(go, &orig, found))),
                ph,
            ),
            (
                "bfs_path_grid",
                Box::new(|| goal(Q::<D, WORDS, SIZE>::bfs_path_grid(go, &orig, found))),
                ph,
            ),
            (
                "bfs_path_btree",
                Box::new(|| goal(Q::<D, WORDS, SIZE>::bfs_path_btree(go, &orig, found))),
                ph,
            ),
            (
                "astar_path_hash",
                Box::new(|| Q::<D, WORDS, SIZE>::astar_path_hash(go, &orig, &dest)),
                ph,
            ),
            (
                "astar_path_grid",
                Box::new(|| Q::<D, WORDS, SIZE>::astar_path_grid(go, &orig, &dest)),
                ph,
            ),
            (
                "astar_path_btree",
                Box::new(|| Q::<D, WORDS, SIZE>::astar_path_btree(go, &orig, &dest)),
                ph,
            ),
            (
                "ucs_path_hash",
                Box::new(|| Q::<D, WORDS, SIZE>::ucs_path_hash(go1, &orig, &dest)),
                ph,
            ),
            (
                "ucs_path_grid",
                Box::new(|| Q::<D, WORDS, SIZE>::ucs_path_grid(go1, &orig, &dest)),
                ph,
            ),
            (
                "ucs_path_btree",
                Box::new(|| Q::<D, WORDS, SIZE>::ucs_path_btree(go1, &orig, &dest)),
                ph,
            ),
        ],
    )?;
    win.world.reset();
    layers("bf_iter_grid", &win, o, Q::<D, WORDS, SIZE>::bf_iter_grid(go, &orig))?;
    win.world.reset();
    layers("bf_iter_hash", &win, o, Q::<D, WORDS, SIZE>::bf_iter_hash(go, &orig))?;
    win.world.reset();
    layers("bf_iter_btree", &win, o, Q::<D, WORDS, SIZE>::bf_iter_btree(go, &orig))?;
    Ok(())
}

/// Maps that lead nowhere, between any two positions, however far apart.
fn broken_maps<P: PP>(c: &S) -> R {
    type M<P> = (std::collections::HashMap<P, Option<Dir>>, Option<Dir>);
    let (orig, dest): (P, P) = (pt(c.orig), pt(c.dest));
    let dir = DIRS[c.maze.density as usize % 8].0;
    let follow = |map: M<P>| sqrid::camefrom_into_path::<M<P>, P, 1, 1>(map, &orig, &dest);
    let got = follow(M::default());
    ensure!(
        matches!(got, Err(Error::DestinationUnreachable)),
        "empty map from {orig:?} to {dest:?}: {got:?}"
    );
    let mut map = M::default();
    map.0.insert(dest, Some(dir));
    let got = follow(map);
    let right = match &got {
        Ok(path) if orig == dest => path.is_empty(),
        Ok(path) => (dest + dir).ok() == Some(orig) && *path == [-dir],
        Err(e) => {
            orig != dest && (dest + dir).ok() != Some(orig) && matches!(e, Error::InvalidMovement)
        }
    };
    ensure!(right, "map with {dir:?} at {dest:?} only, from {orig:?}: {got:?}");
    Ok(())
}

/// Searches over a part of a type with too many cells for a grid.
fn windowed<P: PP>(c: &S, obs: &mut Obs) -> R {
    const SIDES: &[(u16, u16)] = &[(5, 5), (20, 3), (3, 20), (0, 9)];
    if c.d { windowed_d::<P, true>(c, SIDES, obs) } else { windowed_d::<P, false>(c, SIDES, obs) }
        .map_err(|e| format!("{}: {e}", std::any::type_name::<P>()))
}

/// The same, on as much of a type as pairs of bytes have.
fn windowed_big<P: PP>(c: &S, obs: &mut Obs) -> R {
    const SIDES: &[(u16, u16)] = &[(255, 255), (2, 255), (255, 9), (129, 130), (120, 120)];
    if c.d { windowed_d::<P, true>(c, SIDES, obs) } else { windowed_d::<P, false>(c, SIDES, obs) }
        .map_err(|e| format!("{}: {e}", std::any::type_name::<P>()))
}

fn windowed_d<P: PP, const D: bool>(c: &S, sides: &[(u16, u16)], obs: &mut Obs) -> R {
    let (mx, my) = sides[c.at.0 .1 as usize % sides.len()];
    let win = Win::<P> {
        world: World::new(&c.maze, mx, my, D),
        x: c.at.0.at(P::MX - mx as u128),
        y: c.at.1.at(P::MY - my as u128),
        p: std::marker::PhantomData,
    };
    obs.label_if(win.x + mx as u128 == P::MX, "last-column");
    obs.label_if(win.x == 0, "first-column");
    let n = win.world.n();
    let pick = |p: (Of, Of)| {
        (p.1.at(my as u128) as usize * (mx as usize + 1) + p.0.at(mx as u128) as usize) % n
    };
    let (o, t) = (pick(c.orig), pick(c.dest));
    let (orig, dest): (P, P) = (win.pos(o), win.pos(t));
    classes(c, &win, o, t, obs);
    let go = |p: P, d: Dir| win.go(p, d);
    let go: &dyn Fn(P, Dir) -> Option<P> = &go;
    let go1 = |p: P, d: Dir| win.go(p, d).map(|n| (n, 1));
    let go1: &dyn Fn(P, Dir) -> Option<(P, usize)> = &go1;
    let found = |p: P| p == dest;
    let found: &dyn Fn(P) -> bool = &found;
    type Q<const D: bool> = Sqrid<0, 0, D, 1, 1>;
    broken_maps::<P>(c)?;
    win.world.reset();
    layers("bf_iter_hash", &win, o, Q::<D>::bf_iter_hash(go, &orig))?;
    win.world.reset();
    layers("bf_iter_btree", &win, o, Q::<D>::bf_iter_btree(go, &orig))?;
    let goal = |r: Result<(P, Vec<Dir>), Error>| {
        r.map(|(p, v)| {
            assert!(p == dest, "bfs found {p:?} instead of {dest:?}");
            v
        })
    };
    let ph = std::marker::PhantomData;
    judge_all(
        &win,
        o,
        t,
        vec![
            ("bfs_path_hash", Box::new(|| goal(Q::<D>::bfs_path_hash(go, &orig, found))), ph),
            ("bfs_path_btree", Box::new(|| goal(Q::<D>::bfs_path_btree(go, &orig, found))), ph),
            ("ucs_path_hash", Box::new(|| Q::<D>::ucs_path_hash(go1, &orig, &dest)), ph),
            ("ucs_path_btree", Box::new(|| Q::<D>::ucs_path_btree(go1, &orig, &dest)), ph),
        ],
    )?;
    judge_all(
        &win,
        o,
        t,
        vec![
            ("astar_path_hash", Box::new(|| Q::<D>::astar_path_hash(go, &orig, &dest)), ph),
            ("astar_path_btree", Box::new(|| Q::<D>::astar_path_btree(go, &orig, &dest)), ph),
        ],
    )
}

type FnS = fn(&S, &mut Obs) -> R;

fn full_small(c: &S, obs: &mut Obs) -> R {
    const T: &[FnS] = &[
        full::<Ua, 91, 3>,
        full::<Uc, 25, 1>,
        full::<Ud, 210, 7>,
        full::<Ug, 256, 8>,
        full::<Uh, 1, 1>,
        full::<Ui, 66, 3>,
    ];
    T[c.ty % T.len()](c, obs)
}

fn full_large(c: &S, obs: &mut Obs) -> R {
    const T: &[FnS] = &[
        full::<(u8, u8), 65536, 2048>,
        full::<Ub, 76800, 2400>,
        full::<Uj, 65280, 2040>,
        full::<Ue, 65536, 2048>,
        full::<Uf, 65536, 2049>,
    ];
    T[c.ty % T.len()](c, obs)
}

fn window_any(c: &S, obs: &mut Obs) -> R {
    const T: &[FnS] = &[
        windowed::<(u8, u8)>,
        windowed::<(u16, u16)>,
        windowed::<(u32, u32)>,
        windowed::<(u64, u64)>,
        windowed::<(u128, u128)>,
        windowed::<(i8, i8)>,
        windowed::<(i16, i16)>,
        windowed::<(i32, i32)>,
    ];
    T[c.ty % T.len()](c, obs)
}

fn window_big(c: &S, obs: &mut Obs) -> R {
    const T: &[FnS] = &[
        windowed_big::<(u8, u8)>,
        windowed_big::<(u16, u16)>,
        windowed_big::<(u32, u32)>,
        windowed_big::<(u64, u64)>,
        windowed_big::<(u128, u128)>,
        windowed_big::<(i8, i8)>,
        windowed_big::<(i16, i16)>,
        windowed_big::<(i32, i32)>,
    ];
    T[c.ty % T.len()](c, obs)
}

fn main() {
    main_check(
        "C25",
        &[
            &Facet {
                name: "queries",
                rule: "25 types (pairs of u8 u16 u32 u64 u128 i8 i16 i32, ten user types defining only tuple() or only x() and y(), seven user types with coordinates that do not start at zero), positions dense near both ends and zero, every query against exact arithmetic; non-trivial: two different positions",
                quick: 2_000_000,
                thorough: 30_000_000,
                strategy: |_| queries(),
                test: query_any,
            },
            &Facet {
                name: "rotations",
                rule: "square types; non-trivial: off the diagonal",
                quick: 2_000_000,
                thorough: 30_000_000,
                strategy: |_| queries(),
                test: rotation,
            },
            &Facet {
                name: "iteration",
                rule: "the 25 types, whole-grid iteration as a double-ended queue, rectangles, rows, columns, coordinates, with size hints; non-trivial: more than one position",
                quick: 200_000,
                thorough: 3_000_000,
                strategy: |_| iters(),
                test: iter_any,
            },
            &Facet {
                name: "grids",
                rule: "Grid and Gridbool over (u8,u8) and nine user types of up to 76800 cells against a vector model: writes, flips, fills, nested vectors, text; non-trivial: several cells, not all zero",
                quick: 10_000,
                thorough: 150_000,
                strategy: |_| grids(),
                test: grid_any,
            },
            &Facet {
                name: "access",
                rule: "grids over user types with coordinates that do not start at zero: every access is refused or within the grid; non-trivial: not all of them refused",
                quick: 20_000,
                thorough: 400_000,
                strategy: |_| queries(),
                test: access_any,
            },
            &Facet {
                name: "searches",
                rule: "every search and backend over six user types of up to 256 cells; non-trivial: origin is not the destination",
                quick: 100_000,
                thorough: 1_500_000,
                strategy: |_| searches(6),
                test: full_small,
            },
            &Facet {
                name: "searches-large",
                rule: "every search and backend over (u8,u8) and user types of up to 76800 cells; non-trivial as above",
                quick: 100,
                thorough: 2_000,
                strategy: |_| searches(5),
                test: full_large,
            },
            &Facet {
                name: "searches-window",
                rule: "searches without grids over a window anywhere in a pair of any integers; non-trivial as above",
                quick: 300_000,
                thorough: 4_500_000,
                strategy: |_| searches(8),
                test: window_any,
            },
            &Facet {
                name: "searches-window-large",
                rule: "as searches-window, on windows of up to 256x256; non-trivial as above",
                quick: 240,
                thorough: 4_800,
                strategy: |_| searches(8),
                test: window_big,
            },
        ],
        &[],
    )
}
