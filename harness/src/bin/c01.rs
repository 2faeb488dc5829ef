//! C01: positions are built exactly from in-range coordinates.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sqrid::{BoundedU16, Error, Pos, PosT};
use vh::gen::*;
use vh::*;

/* u16 and i32 pairs */

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct CPair {
    dim: usize,
    x: i32,
    y: i32,
}

/// How a raw coordinate relates to the extent: resolved in the test, where the extent is known.
fn check_ok<const X: u16, const Y: u16>(p: Pos<X, Y>, x: i64, y: i64, what: &str) -> R {
    let (rx, ry) = raw(&p);
    ensure!(
        rx as i64 == x && ry as i64 == y,
        "{what}: ({x},{y}) became ({rx},{ry}) on {}x{}",
        X as u32 + 1,
        Y as u32 + 1
    );
    Ok(())
}

fn verdict<const X: u16, const Y: u16>(
    r: Result<Pos<X, Y>, Error>,
    x: i64,
    y: i64,
    what: &str,
) -> R {
    let inside = x >= 0 && y >= 0 && x <= X as i64 && y <= Y as i64;
    match r {
        Ok(p) => {
            ensure!(
                inside,
                "{what}: ({x},{y}) accepted as {:?} on a grid of {}x{}",
                raw(&p),
                X as u32 + 1,
                Y as u32 + 1
            );
            check_ok(p, x, y, what)
        }
        Err(e) => {
            ensure!(
                !inside,
                "{what}: ({x},{y}) refused on a grid of {}x{}",
                X as u32 + 1,
                Y as u32 + 1
            );
            ensure_eq!(e, Error::OutOfBounds, "{what}: ({x},{y}) error");
            Ok(())
        }
    }
}

fn pair<const X: u16, const Y: u16>(c: &CPair, obs: &mut Obs) -> R {
    let (x, y) = (c.x as i64, c.y as i64);
    let inside = x >= 0 && y >= 0 && x <= X as i64 && y <= Y as i64;
    obs.nt(x != 0 || y != 0);
    obs.label(if inside { "inside" } else { "outside" });
    obs.label_if(x < 0 || y < 0, "negative");
    obs.label_if(x > 65535 || y > 65535, "over-u16");
    obs.label_if(x == X as i64 || y == Y as i64, "at-max");
    obs.label_if(x == X as i64 + 1 || y == Y as i64 + 1, "just-over");
    verdict(Pos::<X, Y>::try_from((c.x, c.y)), x, y, "try_from (i32, i32)")?;
    verdict(Pos::<X, Y>::try_from(&(c.x, c.y)), x, y, "try_from &(i32, i32)")?;
    verdict(<Pos<X, Y> as PosT>::new(c.x, c.y), x, y, "PosT::new i32")?;
    if let (Ok(ux), Ok(uy)) = (u16::try_from(c.x), u16::try_from(c.y)) {
        obs.label("u16");
        verdict(Pos::<X, Y>::new(ux, uy), x, y, "new")?;
        verdict(Pos::<X, Y>::try_from((ux, uy)), x, y, "try_from (u16, u16)")?;
        verdict(Pos::<X, Y>::try_from(&(ux, uy)), x, y, "try_from &(u16, u16)")?;
        verdict(<Pos<X, Y> as PosT>::new(ux, uy), x, y, "PosT::new u16")?;
        match no_panic(|| Pos::<X, Y>::new_unwrap(ux, uy)) {
            Ok(p) => {
                ensure!(inside, "new_unwrap({x},{y}) did not panic on {X},{Y}");
                check_ok(p, x, y, "new_unwrap")?;
            }
            Err(_) => ensure!(!inside, "new_unwrap({x},{y}) panicked on {X},{Y}"),
        }
        if inside {
            read_back(ux, uy, mkpos::<X, Y>(ux, uy))?;
        }
    }
    Ok(())
}

fn read_back<const X: u16, const Y: u16>(x: u16, y: u16, p: Pos<X, Y>) -> R {
    ensure_eq!((p.x(), p.y()), (x, y), "x(), y()");
    ensure_eq!(p.tuple(), (x, y), "tuple()");
    ensure_eq!(p.inner_tuple(), (x, y), "inner_tuple()");
    let (bx, by) = PosT::tuple(&p);
    ensure_eq!((bx.into_inner(), by.into_inner()), (x, y), "PosT::tuple");
    let (bx, by) = PosT::into_tuple(p);
    ensure_eq!((bx.into_inner(), by.into_inner()), (x, y), "PosT::into_tuple");
    ensure_eq!(PosT::x(&p).into_inner(), x, "PosT::x");
    ensure_eq!(PosT::y(&p).into_inner(), y, "PosT::y");
    ensure_eq!(<(u16, u16)>::from(p), (x, y), "(u16, u16)::from");
    ensure_eq!(<(u16, u16)>::from(&p), (x, y), "(u16, u16)::from &");
    ensure_eq!(<(i32, i32)>::from(p), (x as i32, y as i32), "(i32, i32)::from");
    ensure_eq!(<(i32, i32)>::from(&p), (x as i32, y as i32), "(i32, i32)::from &");
    ensure_eq!(format!("{p}"), format!("({x},{y})"), "Display");
    let b = (
        BoundedU16::<0, X>::new(x).map_err(|_| "BoundedU16::new refused a valid x")?,
        BoundedU16::<0, Y>::new(y).map_err(|_| "BoundedU16::new refused a valid y")?,
    );
    check_ok(Pos::<X, Y>::from(b), x as i64, y as i64, "from bounded tuple")?;
    check_ok(Pos::<X, Y>::from(&b), x as i64, y as i64, "from &bounded tuple")?;
    check_ok(<Pos<X, Y> as PosT>::new_(b), x as i64, y as i64, "new_")?;
    ensure!(p == Pos::from(b), "equal positions differ");
    // another position type to this one and back
    let big = mkpos::<65535, 65535>(x, y);
    check_ok(
        Pos::<X, Y>::tryfrom_pos(big).map_err(|e| format!("tryfrom_pos: {e}"))?,
        x as i64,
        y as i64,
        "tryfrom_pos",
    )?;
    Ok(())
}

type PairFn = fn(&CPair, &mut Obs) -> R;

fn pair_t(c: &CPair, obs: &mut Obs) -> R {
    let t = pos_dims!(__tab_xy; pair, PairFn);
    let (_, _, f) = t[c.dim % t.len()];
    f(c, obs)
}

/// Raw coordinates related to the extents by the generator.
fn pairs(_: bool) -> BoxedStrategy<CPair> {
    let t = pos_dims!(__tab_xy; pair, PairFn);
    let exts: Vec<(u16, u16)> = t.iter().map(|t| (t.0, t.1)).collect();
    (0..exts.len())
        .prop_flat_map(move |dim| {
            let (x, y) = exts[dim];
            (Just(dim), raw_coord(x), raw_coord(y))
        })
        .prop_map(|(dim, x, y)| CPair { dim, x, y })
        .boxed()
}

fn raw_coord(max: u16) -> impl Strategy<Value = i32> {
    let m = max as i32;
    prop_oneof![
        4 => 0..=m,
        3 => (-3..=3i32).prop_map(move |d| m + d),
        2 => -3..=3i32,
        2 => 0..=65535i32,
        // what truncating to 16 bits would map inside
        3 => (prop::sample::select(vec![-2i32, -1, 1, 2, 3, 32767, -32768]), 0..=m)
            .prop_map(|(k, v)| k.wrapping_mul(65536).wrapping_add(v)),
        1 => prop::sample::select(vec![i32::MIN, i32::MAX, i32::MIN + 1, -65536, 65536, -32768]),
        1 => any::<i32>(),
    ]
}

/* any integer types */

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct CAny {
    dim: usize,
    tx: u8,
    ty: u8,
    x: W,
    y: W,
}

macro_rules! with_int {
    ($tag:expr, $w:expr, $v:ident => $body:expr) => {
        match $tag % 12 {
            0 => with_int!(@ u8, $w, $v => $body),
            1 => with_int!(@ u16, $w, $v => $body),
            2 => with_int!(@ u32, $w, $v => $body),
            3 => with_int!(@ u64, $w, $v => $body),
            4 => with_int!(@ u128, $w, $v => $body),
            5 => with_int!(@ usize, $w, $v => $body),
            6 => with_int!(@ i8, $w, $v => $body),
            7 => with_int!(@ i16, $w, $v => $body),
            8 => with_int!(@ i32, $w, $v => $body),
            9 => with_int!(@ i64, $w, $v => $body),
            10 => with_int!(@ i128, $w, $v => $body),
            _ => with_int!(@ isize, $w, $v => $body),
        }
    };
    (@ $t:ty, $w:expr, $v:ident => $body:expr) => {
        match <$t as AsW>::of($w) {
            Some($v) => $body,
            None => Ok(()),
        }
    };
}

fn wverdict<const X: u16, const Y: u16>(r: Result<Pos<X, Y>, Error>, x: W, y: W, what: &str) -> R {
    let inside = x >= W::u(0) && y >= W::u(0) && x <= W::u(X as u128) && y <= W::u(Y as u128);
    match r {
        Ok(p) => {
            let (rx, ry) = raw(&p);
            ensure!(
                inside && rx.w() == x && ry.w() == y,
                "{what}: ({x:?},{y:?}) gave ({rx},{ry}) on a grid of maximum ({X},{Y})"
            );
        }
        Err(e) => {
            ensure!(!inside, "{what}: ({x:?},{y:?}) refused on a grid of maximum ({X},{Y})");
            ensure_eq!(e, Error::OutOfBounds, "{what}: error");
        }
    }
    Ok(())
}

fn anyint<const X: u16, const Y: u16>(c: &CAny, obs: &mut Obs) -> R {
    obs.nt(c.x.mag != 0 || c.y.mag != 0);
    let (wx, wy) = (c.x, c.y);
    let inside = wx >= W::u(0) && wy >= W::u(0) && wx <= W::u(X as u128) && wy <= W::u(Y as u128);
    obs.label(if inside { "inside" } else { "outside" });
    with_int!(c.tx, wx, x => with_int!(c.ty, wy, y => {
        obs.label("representable");
        wverdict(<Pos<X, Y> as PosT>::new(x, y), wx, wy, "PosT::new")
    }))?;
    // from other position types
    macro_rules! from_tuple { ($($t:ty)*) => {$(
        if let (Some(x), Some(y)) = (<$t as AsW>::of(wx), <$t as AsW>::of(wy)) {
            wverdict(Pos::<X, Y>::tryfrom_pos((x, y)), wx, wy, "tryfrom_pos of a tuple")?;
        }
    )*}; }
    from_tuple!(u8 u16 u32 u64 u128 i8 i16 i32);
    // to tuple types
    if inside {
        let p = mkpos::<X, Y>(u16::of(wx).unwrap(), u16::of(wy).unwrap());
        macro_rules! to_tuple { ($($t:ty)*) => {$(
            let want = match (<$t as AsW>::of(wx), <$t as AsW>::of(wy)) {
                (Some(x), Some(y)) => Ok((x, y)),
                _ => Err(Error::OutOfBounds),
            };
            ensure_eq!(<($t, $t)>::tryfrom_pos(p), want, "tuple from a position");
        )*}; }
        to_tuple!(u8 u16 u32 u64 u128 i8 i16 i32);
        let want = if wx <= W::u(99) && wy <= W::u(200) {
            Ok((u16::of(wx).unwrap(), u16::of(wy).unwrap()))
        } else {
            Err(Error::OutOfBounds)
        };
        ensure_eq!(
            Pos::<99, 200>::tryfrom_pos(p).map(|p| raw(&p)),
            want,
            "tryfrom_pos to a 100x201 grid"
        );
    }
    Ok(())
}

type AnyFn = fn(&CAny, &mut Obs) -> R;

fn any_t(c: &CAny, obs: &mut Obs) -> R {
    let t = pos_dims!(__tab_xy; anyint, AnyFn);
    let (_, _, f) = t[c.dim % t.len()];
    f(c, obs)
}

fn anys(_: bool) -> BoxedStrategy<CAny> {
    let t = pos_dims!(__tab_xy; anyint, AnyFn);
    let exts: Vec<(u16, u16)> = t.iter().map(|t| (t.0, t.1)).collect();
    (0..exts.len())
        .prop_flat_map(move |dim| {
            let (x, y) = exts[dim];
            (Just(dim), 0u8..12, 0u8..12, wcoord(x), wcoord(y))
        })
        .prop_map(|(dim, tx, ty, x, y)| CAny { dim, tx, ty, x, y })
        .boxed()
}

fn wcoord(max: u16) -> impl Strategy<Value = W> {
    let m = max as u128;
    prop_oneof![
        4 => (0..=m).prop_map(W::u),
        3 => (0..=3u128).prop_map(move |d| W::u(m + d)),
        3 => (prop::sample::select(vec![8u32, 16, 32, 64]), 1u128..5, 0..=m, any::<bool>())
            .prop_map(|(k, a, v, n)| if n { W::u(v).sub(W::u(a << k)).unwrap() } else { W::u((a << k) + v) }),
        2 => wide(),
    ]
}

/* named positions */

fn named<const X: u16, const Y: u16>(_: &usize, obs: &mut Obs) -> R {
    obs.nt(true);
    type P<const X: u16, const Y: u16> = Pos<X, Y>;
    ensure_eq!((P::<X, Y>::XMAX, P::<X, Y>::YMAX), (X, Y), "XMAX, YMAX");
    for (name, p, x, y) in [
        ("FIRST", P::<X, Y>::FIRST, 0, 0),
        ("LAST", P::<X, Y>::LAST, X, Y),
        ("CENTER", P::<X, Y>::CENTER, X / 2, Y / 2),
        ("TOP_LEFT", P::<X, Y>::TOP_LEFT, 0, 0),
        ("TOP_RIGHT", P::<X, Y>::TOP_RIGHT, X, 0),
        ("BOTTOM_LEFT", P::<X, Y>::BOTTOM_LEFT, 0, Y),
        ("BOTTOM_RIGHT", P::<X, Y>::BOTTOM_RIGHT, X, Y),
        ("first()", P::<X, Y>::first(), 0, 0),
        ("last()", P::<X, Y>::last(), X, Y),
        ("default()", P::<X, Y>::default(), 0, 0),
        ("new_static of the maximum", P::<X, Y>::new_static::<X, Y>(), X, Y),
        ("new_static of (0, YMAX)", P::<X, Y>::new_static::<0, Y>(), 0, Y),
        ("new_static of (XMAX, 0)", P::<X, Y>::new_static::<X, 0>(), X, 0),
    ] {
        ensure_eq!(raw(&p), (x, y), "{name} on a grid of maximum ({X},{Y})");
    }
    Ok(())
}

type NamedFn = fn(&usize, &mut Obs) -> R;

fn named_t(c: &usize, obs: &mut Obs) -> R {
    let t = pos_dims!(__tab_xy; named, NamedFn);
    (t[*c].2)(c, obs)
}

fn main() {
    main_check(
        "C01",
        &[
            &Exhaustive {
                name: "named",
                rule: "the named positions of every extent of the table; all non-trivial",
                cases: |_| (0..pos_dims!(__tab_xy; named, NamedFn).len()).collect(),
                test: named_t,
            },
            &Facet {
                name: "pairs",
                rule: "extent from the table, pair of i32 (and, when representable, u16) coordinates near and around the extent or congruent to it modulo 65536; non-trivial: not (0,0)",
                quick: 5_000_000,
                thorough: 75_000_000,
                strategy: pairs,
                test: pair_t,
            },
            &Facet {
                name: "any-int",
                rule: "extent from the table, coordinates of any pair of the 12 integer types, conversions between position types; non-trivial: not (0,0)",
                quick: 5_000_000,
                thorough: 75_000_000,
                strategy: anys,
                test: any_t,
            },
        ],
        &[],
    )
}
