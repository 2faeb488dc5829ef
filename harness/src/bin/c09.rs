//! C09: position flips and rotations are the grid's symmetries.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sqrid::PosT;
use vh::gen::*;
use vh::*;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct C {
    dim: usize,
    p: Cxy,
    ops: Vec<u8>,
}

fn flips<const X: u16, const Y: u16>(c: &C, obs: &mut Obs) -> R {
    let p = pos_of::<X, Y>(c.p);
    let (mut x, mut y) = raw(&p);
    obs.nt(X > 0 || Y > 0);
    let mut q = p;
    ensure_eq!(raw(&p.flip_h()), (X - x, y), "flip_h of ({x},{y}) with maximum ({X},{Y})");
    ensure_eq!(raw(&p.flip_v()), (x, Y - y), "flip_v of ({x},{y}) with maximum ({X},{Y})");
    for op in &c.ops {
        if op % 2 == 0 {
            q = q.flip_h();
            x = X - x;
        } else {
            q = q.flip_v();
            y = Y - y;
        }
        ensure_eq!(raw(&q), (x, y), "after {:?} with maximum ({X},{Y})", c.ops);
    }
    Ok(())
}

fn rotations<const X: u16, const Y: u16>(c: &C, obs: &mut Obs) -> R {
    let n = X;
    let p = pos_of::<X, Y>(c.p);
    let (mut x, mut y) = raw(&p);
    obs.nt(n > 0);
    let mut q = p;
    let ctx = format!("({x},{y}) on a square of maximum {n}");
    ensure_eq!(raw(&p.rotate_cw()), (n - y, x), "rotate_cw of {ctx}");
    ensure_eq!(raw(&p.rotate_cc()), (y, n - x), "rotate_cc of {ctx}");
    ensure_eq!(p.rotate_cw().rotate_cc(), p, "cc after cw of {ctx}");
    ensure_eq!(p.rotate_cc().rotate_cw(), p, "cw after cc of {ctx}");
    ensure_eq!(p.rotate_cw().rotate_cw(), p.flip_h().flip_v(), "half turn of {ctx}");
    ensure_eq!(p.rotate_cw().rotate_cw().rotate_cw().rotate_cw(), p, "full turn of {ctx}");
    for op in &c.ops {
        match op % 4 {
            0 => {
                q = q.flip_h();
                x = n - x;
            }
            1 => {
                q = q.flip_v();
                y = n - y;
            }
            2 => {
                q = q.rotate_cw();
                (x, y) = (n - y, x);
            }
            _ => {
                q = q.rotate_cc();
                (x, y) = (y, n - x);
            }
        }
        ensure_eq!(raw(&q), (x, y), "after {:?} of {ctx}", c.ops);
    }
    Ok(())
}

type Fn_ = fn(&C, &mut Obs) -> R;

fn flips_t(c: &C, obs: &mut Obs) -> R {
    let t = pos_dims!(__tab_xy; flips, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}

macro_rules! all_squares {
    ($cb:ident; $($args:tt)*) => {
        vh::$cb! { $($args)* ;
            (0, 0) (1, 1) (2, 2) (3, 3) (4, 4) (5, 5) (6, 6) (7, 7) (8, 8) (15, 15) (31, 31)
            (32, 32) (100, 100) (254, 254) (255, 255) (256, 256) (999, 999) (32766, 32766)
            (32767, 32767) (32768, 32768) (65534, 65534) (65535, 65535)
        }
    };
}

fn rotations_t(c: &C, obs: &mut Obs) -> R {
    let t = all_squares!(__tab_xy; rotations, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}

fn gen(n: usize) -> BoxedStrategy<C> {
    (0..n, cxy(), prop::collection::vec(0u8..4, 0..10))
        .prop_map(|(dim, p, ops)| C { dim, p, ops })
        .boxed()
}

/// Every position of the smaller extents, and that each operation is a bijection.
fn whole<const X: u16, const Y: u16>(_: &C, obs: &mut Obs) -> R {
    obs.nt(true);
    let n = (X as usize + 1) * (Y as usize + 1);
    let mut seen = vec![0u8; n];
    for i in 0..n {
        let p = unrank::<X, Y>(i);
        let (x, y) = raw(&p);
        let c = C { dim: 0, p: (Co(0, x), Co(0, y)), ops: vec![0, 1, 2, 3] };
        flips::<X, Y>(&c, &mut Obs::default())?;
        seen[rank(&p.flip_h())] |= 1;
        seen[rank(&p.flip_v())] |= 2;
        if X == Y {
            rotations::<X, Y>(&c, &mut Obs::default())?;
            seen[rank(&p.rotate_cw())] |= 4;
            seen[rank(&p.rotate_cc())] |= 8;
        } else {
            seen[i] |= 12;
        }
    }
    for (i, s) in seen.iter().enumerate() {
        ensure!(*s == 15, "position {i} is not an image (mask {s}) with maximum ({X},{Y})");
    }
    Ok(())
}

fn whole_t(i: &usize, obs: &mut Obs) -> R {
    let c = C { dim: 0, p: (Co(0, 0), Co(0, 0)), ops: vec![] };
    let a = grid_dims!(__tab_xy; whole, Fn_);
    let b = square_dims!(__tab_xy; whole, Fn_);
    if *i < a.len() {
        (a[*i].2)(&c, obs)
    } else {
        (b[*i - a.len()].2)(&c, obs)
    }
}

fn main() {
    main_check(
        "C09",
        &[
            &Exhaustive {
                name: "whole",
                rule: "every position of the small extents and squares of the table, images collected to show bijectivity; all non-trivial",
                cases: |_| {
                    (0..grid_dims!(__tab_xy; whole, Fn_).len()
                        + square_dims!(__tab_xy; whole, Fn_).len())
                        .collect()
                },
                test: whole_t,
            },
            &Facet {
                name: "flips",
                rule: "extent from the table (up to 65536x65536), position biased to the borders, compositions of up to nine flips; non-trivial: more than one cell",
                quick: 8_000_000,
                thorough: 120_000_000,
                strategy: |_| gen(pos_dims!(__tab_xy; flips, Fn_).len()),
                test: flips_t,
            },
            &Facet {
                name: "rotations",
                rule: "squares from 1 to 65536 wide, position biased to the borders, compositions of up to nine flips and rotations; non-trivial: more than one cell",
                quick: 7_000_000,
                thorough: 105_000_000,
                strategy: |_| gen(all_squares!(__tab_xy; rotations, Fn_).len()),
                test: rotations_t,
            },
        ],
        &[],
    )
}
