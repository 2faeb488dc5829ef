//! C14: boolean grid flips and rotations move every cell to its image.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sqrid::{Gridbool, Pos};
use vh::gen::*;
use vh::*;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct C {
    dim: usize,
    extra: bool,
    /// 0: the given positions; 1: all but the given positions; otherwise a random content
    fill: u8,
    ps: Vec<Cxy>,
    salt: u64,
    ops: Vec<u8>,
}

const OPS: [&str; 4] = ["flip_h", "flip_v", "rotate_cw", "rotate_cc"];

fn image(op: u8, x: usize, y: usize, w: usize, h: usize) -> (usize, usize) {
    match op % 4 {
        0 => (w - 1 - x, y),
        1 => (x, h - 1 - y),
        2 => (h - 1 - y, x),
        _ => (y, w - 1 - x),
    }
}

fn content<const X: u16, const Y: u16>(c: &C) -> Vec<bool> {
    let s = (X as usize + 1) * (Y as usize + 1);
    let mut m: Vec<bool> = match c.fill % 4 {
        0 => vec![false; s],
        1 => vec![true; s],
        _ => (0..s)
            .map(|i| {
                let mut z = c.salt.wrapping_add((i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15));
                z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
                (z ^ (z >> 31)) & 1 == 1
            })
            .collect(),
    };
    for p in &c.ps {
        let i = rank(&pos_of::<X, Y>(*p));
        m[i] = !m[i];
    }
    m
}

fn go<const X: u16, const Y: u16, const WORDS: usize>(
    c: &C,
    ops: &[u8],
    obs: &mut Obs,
    op: fn(&mut Gridbool<Pos<X, Y>, WORDS>, u8),
) -> R {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    let mut m = content::<X, Y>(c);
    obs.nt(m.contains(&true) && m.contains(&false) && !ops.is_empty());
    obs.label_if(w * h > 32, "several-words");
    obs.label(if w % 2 == 0 { "even" } else { "odd" });
    let mut g: Gridbool<Pos<X, Y>, WORDS> =
        (0..w * h).filter(|i| m[*i]).map(unrank::<X, Y>).collect();
    for (k, &o) in ops.iter().enumerate() {
        let mut n = m.clone();
        for y in 0..h {
            for x in 0..w {
                let (nx, ny) = image(o, x, y, w, h);
                n[ny * w + nx] = m[y * w + x];
            }
        }
        m = n;
        op(&mut g, o);
        for i in 0..w * h {
            ensure!(
                g.get(&unrank::<X, Y>(i)) == m[i],
                "cell ({},{}) of {w}x{h} should be {} after operation {k} ({}) of {:?}",
                i % w,
                i / w,
                m[i],
                OPS[o as usize % 4],
                ops.iter().map(|o| OPS[*o as usize % 4]).collect::<Vec<_>>()
            );
        }
    }
    let want: Gridbool<Pos<X, Y>, WORDS> =
        (0..w * h).filter(|i| m[*i]).map(unrank::<X, Y>).collect();
    ensure!(g == want, "the result on {w}x{h} is not equal to the same contents built directly");
    Ok(())
}

fn rect<const X: u16, const Y: u16, const WORDS: usize>(c: &C, obs: &mut Obs) -> R {
    let ops: Vec<u8> = c.ops.iter().map(|o| o % 2).collect();
    go::<X, Y, WORDS>(c, &ops, obs, |g, o| if o == 0 { g.flip_h() } else { g.flip_v() })
}

fn square<const N: u16, const WORDS: usize>(c: &C, obs: &mut Obs) -> R {
    go::<N, N, WORDS>(c, &c.ops, obs, |g, o| match o % 4 {
        0 => g.flip_h(),
        1 => g.flip_v(),
        2 => g.rotate_cw(),
        _ => g.rotate_cc(),
    })
}

type Fn_ = fn(&C, &mut Obs) -> R;

fn rect_t(c: &C, obs: &mut Obs) -> R {
    let t = if c.extra {
        grid_dims!(__tab_words1; rect, Fn_)
    } else {
        grid_dims!(__tab_words; rect, Fn_)
    };
    (t[c.dim % t.len()].2)(c, obs)
}
fn square_t(c: &C, obs: &mut Obs) -> R {
    let t = if c.extra {
        square_dims!(__tab_sqwords1; square, Fn_)
    } else {
        square_dims!(__tab_sqwords; square, Fn_)
    };
    (t[c.dim % t.len()].2)(c, obs)
}
fn large_t(c: &C, obs: &mut Obs) -> R {
    let a = grid_dims_big!(__tab_words; rect, Fn_);
    let b = square_dims_big!(__tab_sqwords; square, Fn_);
    let d = c.dim % (a.len() + b.len());
    if d < a.len() {
        (a[d].2)(c, obs)
    } else {
        (b[d - a.len()].2)(c, obs)
    }
}

fn gen(n: usize, max: usize) -> BoxedStrategy<C> {
    (
        0..n,
        any::<bool>(),
        0u8..4,
        prop::collection::vec(cxy(), 0..6),
        any::<u64>(),
        prop::collection::vec(0u8..4, 0..max),
    )
        .prop_map(|(dim, extra, fill, ps, salt, ops)| C { dim, extra, fill, ps, salt, ops })
        .boxed()
}

/// One true cell anywhere, under each operation.
fn single(c: &(usize, u8), obs: &mut Obs) -> R {
    let t = square_dims!(__tab_sqwords; square, Fn_);
    let n = t[c.0].0;
    let mut o = Obs::default();
    obs.nt(n > 0);
    for y in 0..=n {
        for x in 0..=n {
            let case = C {
                dim: c.0,
                extra: false,
                fill: 0,
                ps: vec![(Co(0, x), Co(0, y))],
                salt: 0,
                ops: vec![c.1],
            };
            (t[c.0].2)(&case, &mut o)?;
        }
    }
    Ok(())
}

fn main() {
    main_check(
        "C14",
        &[
            &Exhaustive {
                name: "single-cell",
                rule: "every single true cell of every square of up to 17x17 of the table under every operation; non-trivial: more than one cell",
                cases: |_| {
                    let t = square_dims!(__tab_sqwords; square, Fn_);
                    (0..t.len())
                        .filter(|i| t[*i].0 < 17)
                        .flat_map(|d| (0..4u8).map(move |o| (d, o)))
                        .collect()
                },
                test: single,
            },
            &Facet {
                name: "rectangles",
                rule: "extents of up to 514 cells, sparse, dense and random contents, least number of words or one more, compositions of up to nine flips, all cells compared after each; non-trivial: contents not constant and at least one operation",
                quick: 3_000_000,
                thorough: 45_000_000,
                strategy: |_| gen(grid_dims!(__tab_words; rect, Fn_).len(), 10),
                test: rect_t,
            },
            &Facet {
                name: "squares",
                rule: "squares of up to 65x65, as above with rotations; non-trivial as above",
                quick: 1_000_000,
                thorough: 15_000_000,
                strategy: |_| gen(square_dims!(__tab_sqwords; square, Fn_).len(), 10),
                test: square_t,
            },
            &Facet {
                name: "large",
                rule: "extents of up to 131072 cells, up to four operations; non-trivial as above",
                quick: 8_000,
                thorough: 120_000,
                strategy: |_| gen(2000, 5),
                test: large_t,
            },
        ],
        &[],
    )
}
