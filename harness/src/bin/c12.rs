//! C12: grid flips and rotations move every cell to its image.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sqrid::{Grid, Pos};
use vh::*;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct C {
    dim: usize,
    /// 0: distinct numbers; 1: two values; 2: strings
    ty: u8,
    ops: Vec<u8>,
}

/// Where the value at (x, y) goes.
fn image(op: u8, x: usize, y: usize, w: usize, h: usize) -> (usize, usize) {
    match op % 4 {
        0 => (w - 1 - x, y),
        1 => (x, h - 1 - y),
        2 => (h - 1 - y, x),
        _ => (y, w - 1 - x),
    }
}

const OPS: [&str; 4] = ["flip_h", "flip_v", "rotate_cw", "rotate_cc"];

trait Val: Clone + PartialEq + std::fmt::Debug + Default {
    fn mk(i: usize) -> Self;
}
impl Val for u32 {
    fn mk(i: usize) -> u32 {
        i as u32 + 1
    }
}
impl Val for bool {
    fn mk(i: usize) -> bool {
        (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 63 == 1
    }
}
impl Val for String {
    fn mk(i: usize) -> String {
        i.to_string()
    }
}

fn apply<T: Val>(c: &C, w: usize, h: usize, ops: &[u8], mut op: impl FnMut(u8) -> Vec<T>) -> R {
    let mut m: Vec<T> = (0..w * h).map(T::mk).collect();
    let _ = c;
    for (k, &o) in ops.iter().enumerate() {
        let mut n = m.clone();
        for y in 0..h {
            for x in 0..w {
                let (nx, ny) = image(o, x, y, w, h);
                n[ny * w + nx] = m[y * w + x].clone();
            }
        }
        m = n;
        let got = op(o);
        if got != m {
            let i = (0..w * h).find(|i| got.get(*i) != m.get(*i)).unwrap_or(w * h);
            return Err(format!(
                "cell ({},{}) of {w}x{h} is {:?} instead of {:?} after operation {k} ({}) of {:?}",
                i % w,
                i / w,
                got.get(i),
                m.get(i),
                OPS[o as usize % 4],
                ops.iter().map(|o| OPS[*o as usize % 4]).collect::<Vec<_>>()
            ));
        }
    }
    Ok(())
}

fn rect<T: Val, const X: u16, const Y: u16, const S: usize>(c: &C, obs: &mut Obs) -> R {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    obs.nt(S > 1 && !c.ops.is_empty());
    let mut g: Box<Grid<T, Pos<X, Y>, S>> = Box::new((0..S).map(T::mk).collect());
    let ops: Vec<u8> = c.ops.iter().map(|o| o % 2).collect();
    apply::<T>(c, w, h, &ops, |o| {
        if o == 0 {
            g.flip_h()
        } else {
            g.flip_v()
        }
        g.as_array().to_vec()
    })
}

fn square<T: Val, const N: u16, const S: usize>(c: &C, obs: &mut Obs) -> R {
    let w = N as usize + 1;
    obs.nt(S > 1 && !c.ops.is_empty());
    obs.label(if w % 2 == 0 { "even" } else { "odd" });
    let mut g: Box<Grid<T, Pos<N, N>, S>> = Box::new((0..S).map(T::mk).collect());
    apply::<T>(c, w, w, &c.ops, |o| {
        match o % 4 {
            0 => g.flip_h(),
            1 => g.flip_v(),
            2 => g.rotate_cw(),
            _ => g.rotate_cc(),
        }
        g.as_array().to_vec()
    })
}

fn rect_any<const X: u16, const Y: u16, const S: usize>(c: &C, obs: &mut Obs) -> R {
    match c.ty % 3 {
        0 => rect::<u32, X, Y, S>(c, obs),
        1 => rect::<bool, X, Y, S>(c, obs),
        _ => rect::<String, X, Y, S>(c, obs),
    }
}
fn square_any<const N: u16, const S: usize>(c: &C, obs: &mut Obs) -> R {
    match c.ty % 3 {
        0 => square::<u32, N, S>(c, obs),
        1 => square::<bool, N, S>(c, obs),
        _ => square::<String, N, S>(c, obs),
    }
}
fn rect_big<const X: u16, const Y: u16, const S: usize>(c: &C, obs: &mut Obs) -> R {
    rect::<u32, X, Y, S>(c, obs)
}
fn square_big<const N: u16, const S: usize>(c: &C, obs: &mut Obs) -> R {
    square::<u32, N, S>(c, obs)
}

type Fn_ = fn(&C, &mut Obs) -> R;

fn rect_t(c: &C, obs: &mut Obs) -> R {
    let t = grid_dims!(__tab_size; rect_any, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}
fn square_t(c: &C, obs: &mut Obs) -> R {
    let t = square_dims!(__tab_sq; square_any, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}
fn large_t(c: &C, obs: &mut Obs) -> R {
    let a = grid_dims_big!(__tab_size; rect_big, Fn_);
    let b = square_dims_big!(__tab_sq; square_big, Fn_);
    let d = c.dim % (a.len() + b.len());
    if d < a.len() {
        (a[d].2)(c, obs)
    } else {
        (b[d - a.len()].2)(c, obs)
    }
}

fn gen(n: usize, max: usize) -> BoxedStrategy<C> {
    (0..n, 0u8..3, prop::collection::vec(0u8..4, 0..max))
        .prop_map(|(dim, ty, ops)| C { dim, ty, ops })
        .boxed()
}

fn main() {
    main_check(
        "C12",
        &[
            &Exhaustive {
                name: "single",
                rule: "every operation alone and every pair of operations on every extent of the tables of up to 4225 cells; all non-trivial but the one-cell grid",
                cases: |_| {
                    let (a, b) = (
                        grid_dims!(__tab_size; rect_any, Fn_).len(),
                        square_dims!(__tab_sq; square_any, Fn_).len(),
                    );
                    let mut v = vec![];
                    for dim in 0..a + b {
                        for o in 0..4u8 {
                            v.push(C { dim, ty: 0, ops: vec![o] });
                            for p in 0..4u8 {
                                v.push(C { dim, ty: 0, ops: vec![o, p] });
                            }
                        }
                    }
                    v
                },
                test: |c, obs| {
                    let a = grid_dims!(__tab_size; rect_any, Fn_).len();
                    if c.dim < a {
                        rect_t(c, obs)
                    } else {
                        square_t(&C { dim: c.dim - a, ..c.clone() }, obs)
                    }
                },
            },
            &Exhaustive {
                name: "single-large",
                rule: "every operation alone and twice on every extent of the tables of up to 131072 cells; all non-trivial",
                cases: |_| {
                    let n = grid_dims_big!(__tab_size; rect_big, Fn_).len()
                        + square_dims_big!(__tab_sq; square_big, Fn_).len();
                    (0..n)
                        .flat_map(|dim| (0..4u8).map(move |o| C { dim, ty: 0, ops: vec![o, o] }))
                        .collect()
                },
                test: large_t,
            },
            &Facet {
                name: "rectangles",
                rule: "extents of up to 514 cells, three cell types, compositions of up to nine flips, all cells compared after each; non-trivial: more than one cell and at least one operation",
                quick: 1_000_000,
                thorough: 15_000_000,
                strategy: |_| gen(grid_dims!(__tab_size; rect_any, Fn_).len(), 10),
                test: rect_t,
            },
            &Facet {
                name: "squares",
                rule: "squares of up to 65x65, three cell types, compositions of up to nine flips and rotations, all cells compared after each; non-trivial as above",
                quick: 200_000,
                thorough: 3_000_000,
                strategy: |_| gen(square_dims!(__tab_sq; square_any, Fn_).len(), 10),
                test: square_t,
            },
            &Facet {
                name: "large",
                rule: "extents of up to 131072 cells, up to four operations; non-trivial as above",
                quick: 30_000,
                thorough: 450_000,
                strategy: |_| gen(2000, 5),
                test: large_t,
            },
        ],
        &[],
    )
}
