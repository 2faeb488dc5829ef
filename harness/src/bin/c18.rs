//! C18: breadth-first traversal yields exact distance layers.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sqrid::bf::BfIterator;
use sqrid::{Dir, Gridbool, Pos, Sqrid};
use vh::gen::*;
use vh::iterlaw::{drive, script, Opt, Script};
use vh::maze::*;
use vh::*;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Go {
    /// Unit moves within the grid
    Unit(Maze),
    /// Unit moves around the edges, some blocked
    Torus(u64, u8),
    /// Any cell from any cell, explicitly: (cell, direction, target)
    Edges(Vec<(Cxy, u8, Cxy)>),
    /// Any cell from any cell, drawn from a seed; one in (k+1) of the moves exists
    Jumps(u64, u8),
    /// Unit moves, and staying in place in some directions
    Stay(Maze, u8),
    /// Every direction leads to the same few cells
    Sinks(Vec<Cxy>),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct C {
    dim: usize,
    d: bool,
    go: Go,
    orig: Cxy,
    /// how many layers into a traversal it is copied
    fork: u8,
    /// a way of consuming the iteration
    script: Script,
}

fn run<const X: u16, const Y: u16, const D: bool, const WORDS: usize, const SIZE: usize>(
    c: &C,
    obs: &mut Obs,
) -> R {
    let none = Maze { style: 0, density: 0, cells: vec![], salt: 0 };
    let maze = match &c.go {
        Go::Unit(m) | Go::Stay(m, _) => m,
        _ => &none,
    };
    let world = World::new(maze, X, Y, D);
    let (w, h, n) = (world.w, world.h, world.n());
    let edges: Vec<(usize, usize, usize)> = match &c.go {
        Go::Edges(es) => es
            .iter()
            .map(|(a, d, b)| {
                (rank(&pos_of::<X, Y>(*a)), *d as usize % 8, rank(&pos_of::<X, Y>(*b)))
            })
            .collect(),
        _ => vec![],
    };
    let sinks: Vec<usize> = match &c.go {
        Go::Sinks(ps) => ps.iter().map(|p| rank(&pos_of::<X, Y>(*p))).collect(),
        _ => vec![],
    };
    let step = |i: usize, k: usize| -> Option<usize> {
        match &c.go {
            Go::Unit(_) => world.step(i, k),
            Go::Torus(s, density) => {
                let (x, y) = (i % w, i / w);
                let nx = (x as i64 + DIRS[k].1 as i64).rem_euclid(w as i64) as usize;
                let ny = (y as i64 + DIRS[k].2 as i64).rem_euclid(h as i64) as usize;
                let blocked = mix(s ^ mix(i as u64 * 8 + k as u64)) % 16 < *density as u64 % 12;
                (!blocked).then_some(ny * w + nx)
            }
            Go::Edges(_) => edges.iter().find(|e| e.0 == i && e.1 == k).map(|e| e.2),
            Go::Jumps(s, k1) => {
                let r = mix(s ^ mix(i as u64 * 8 + k as u64));
                (r >> 40).is_multiple_of(*k1 as u64 + 1).then_some((r % n as u64) as usize)
            }
            Go::Stay(_, mask) => {
                if mask & (1 << k) != 0 {
                    Some(i)
                } else {
                    world.step(i, k)
                }
            }
            Go::Sinks(_) => sinks.get(k % sinks.len().max(1)).copied(),
        }
    };
    let orig: Pos<X, Y> = pos_of(c.orig);
    let o = rank(&orig);

    // Reference distances
    let mut dist: Vec<Option<u32>> = vec![None; n];
    dist[o] = Some(0);
    let mut layers = vec![vec![o]];
    // directions by which the positions of one layer get to those of the next
    let mut by = vec![0u8; n];
    loop {
        let mut next = vec![];
        for &i in layers.last().expect("layer") {
            for k in world.dirs() {
                if let Some(j) = step(i, k) {
                    if dist[j].is_none() {
                        dist[j] = Some(layers.len() as u32);
                        next.push(j);
                    }
                    if dist[j] == Some(layers.len() as u32) {
                        by[j] |= 1 << k;
                    }
                }
            }
        }
        if next.is_empty() {
            break;
        }
        layers.push(next);
    }
    obs.nt(layers.len() > 2);
    obs.label(match &c.go {
        Go::Unit(_) => "unit",
        Go::Torus(..) => "torus",
        Go::Edges(_) => "edges",
        Go::Jumps(..) => "jumps",
        Go::Stay(..) => "stay",
        Go::Sinks(_) => "sinks",
    });
    obs.label_if(layers.len() == 1, "nowhere-to-go");
    obs.label_if(layers.len() > 20, "many-layers");
    obs.label_if(layers.iter().any(|l| l.len() > 0xffff), "layer-over-65535");
    obs.label_if(world.dirs().any(|k| step(o, k) == Some(o)), "origin-leads-to-itself");

    let go = |p: Pos<X, Y>, d: Dir| {
        world.tick();
        step(rank(&p), didx(d)).map(unrank)
    };
    let go: &dyn Fn(Pos<X, Y>, Dir) -> Option<Pos<X, Y>> = &go;
    let check = |what: &str, it: &mut dyn Iterator<Item = Vec<(Pos<X, Y>, Dir)>>| -> R {
        let ctx = || format!("{what} on {w}x{h} (diagonals {D}) from {}", world.at(o));
        let mut found = vec![false; n];
        for (l, want) in layers.iter().enumerate().skip(1) {
            let Some(layer) = it.next() else {
                return Err(format!("{}: ends before layer {l} of {}", ctx(), want.len()));
            };
            for (p, d) in &layer {
                let (i, k) = (rank(p), didx(*d));
                ensure!(i != o, "{}: layer {l} has the origin", ctx());
                ensure!(
                    dist[i] == Some(l as u32),
                    "{}: layer {l} has {}, at distance {:?}",
                    ctx(),
                    world.at(i),
                    dist[i]
                );
                ensure!(!found[i], "{}: layer {l} has {} twice", ctx(), world.at(i));
                found[i] = true;
                // some position of the previous layer gets here with the opposite direction
                let op = (k + 4) % 8;
                ensure!(
                    D || k % 2 == 0,
                    "{}: {} comes with diagonal {d:?}, and they are off",
                    ctx(),
                    world.at(i)
                );
                ensure!(
                    by[i] & (1 << op) != 0,
                    "{}: {} comes with {d:?}, and nothing at distance {} gets there by {:?}",
                    ctx(),
                    world.at(i),
                    l - 1,
                    DIRS[op].0
                );
            }
            ensure!(
                layer.len() == want.len(),
                "{}: layer {l} has {} positions, expected {}",
                ctx(),
                layer.len(),
                want.len()
            );
        }
        for _ in 0..3 {
            if let Some(l) = it.next() {
                return Err(format!("{}: yields {l:?} after the last layer", ctx()));
            }
        }
        world.reset();
        Ok(())
    };
    let forked = |what: &str,
                  mut it: BfIterator<
        &dyn Fn(Pos<X, Y>, Dir) -> Option<Pos<X, Y>>,
        Gridbool<Pos<X, Y>, WORDS>,
        Pos<X, Y>,
        D,
        WORDS,
        SIZE,
    >|
     -> R {
        let l = c.fork as usize % (layers.len() + 1);
        let mut first = vec![];
        for _ in 0..l {
            first.extend(it.next());
        }
        let mut copy = it.clone();
        let most = layers.len() + 3;
        // whichever is followed first
        let (a, b): (Vec<_>, Vec<_>) = if c.fork % 2 == 0 {
            let a = it.by_ref().take(most).collect();
            (a, copy.by_ref().take(most).collect())
        } else {
            let b = copy.by_ref().take(most).collect();
            (it.by_ref().take(most).collect(), b)
        };
        world.reset();
        let what = format!("{what}, copied after {l} layers: the original,");
        check(&what, &mut first.clone().into_iter().chain(a))?;
        let what = what.replace("original", "copy");
        check(&what, &mut first.into_iter().chain(b))
    };
    type P<const X: u16, const Y: u16> = Pos<X, Y>;
    type S<const X: u16, const Y: u16, const D: bool, const WORDS: usize, const SIZE: usize> =
        Sqrid<X, Y, D, WORDS, SIZE>;
    check("bf::bf_iter", &mut sqrid::bf::bf_iter::<_, VecSet, P<X, Y>, D, WORDS, SIZE>(go, &orig))?;
    check("bf_iter", &mut S::<X, Y, D, WORDS, SIZE>::bf_iter(go, &orig))?;
    check("bf_iter_grid", &mut S::<X, Y, D, WORDS, SIZE>::bf_iter_grid(go, &orig))?;
    check("bf_iter_hash", &mut S::<X, Y, D, WORDS, SIZE>::bf_iter_hash(go, &orig))?;
    check("bf_iter_btree", &mut S::<X, Y, D, WORDS, SIZE>::bf_iter_btree(go, &orig))?;
    let sorted: Vec<Vec<usize>> = layers[1..]
        .iter()
        .map(|l| {
            let mut l = l.clone();
            l.sort();
            l
        })
        .collect();
    let key = |layer: Vec<(P<X, Y>, Dir)>| {
        let mut l: Vec<usize> = layer.iter().map(|(p, _)| rank(p)).collect();
        l.sort();
        l
    };
    let opt = Opt { hints: true, most: usize::MAX, ordered: false };
    drive(
        S::<X, Y, D, WORDS, SIZE>::bf_iter(go, &orig),
        sorted.len(),
        &|i| sorted[i].clone(),
        &key,
        &c.script,
        opt,
        &format!("bf_iter on {w}x{h} (diagonals {D}) from {}:", world.at(o)),
    )?;
    world.reset();
    forked("bf_iter", S::<X, Y, D, WORDS, SIZE>::bf_iter(go, &orig))?;
    check(
        "BfIterator::new",
        &mut BfIterator::<_, Gridbool<P<X, Y>, WORDS>, P<X, Y>, D, WORDS, SIZE>::new(go, &orig),
    )
}

fn one<const X: u16, const Y: u16, const WORDS: usize, const SIZE: usize>(
    c: &C,
    obs: &mut Obs,
) -> R {
    if c.d {
        run::<X, Y, true, WORDS, SIZE>(c, obs)
    } else {
        run::<X, Y, false, WORDS, SIZE>(c, obs)
    }
}

type Fn_ = fn(&C, &mut Obs) -> R;

fn small(c: &C, obs: &mut Obs) -> R {
    let t = search_dims!(__tab_search; one, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}

fn large(c: &C, obs: &mut Obs) -> R {
    let t = search_dims_big!(__tab_search; one, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}

fn gen(n: usize, cells: usize, large: bool) -> BoxedStrategy<C> {
    let go = if large {
        prop_oneof![
            4 => maze(cells).prop_map(Go::Unit),
            1 => (any::<u64>(), 0u8..10).prop_map(|(s, d)| Go::Torus(s, d)),
            2 => (maze(cells), any::<u8>()).prop_map(|(m, k)| Go::Stay(m, k)),
            2 => (any::<u64>(), 0u8..5).prop_map(|(s, k)| Go::Jumps(s, k)),
        ]
        .boxed()
    } else {
        prop_oneof![
            4 => maze(cells).prop_map(Go::Unit),
            2 => (any::<u64>(), 0u8..12).prop_map(|(s, d)| Go::Torus(s, d)),
            4 => prop::collection::vec((cxy(), 0u8..8, cxy()), 0..40).prop_map(Go::Edges),
            3 => (any::<u64>(), 0u8..8).prop_map(|(s, k)| Go::Jumps(s, k)),
            2 => (maze(cells), prop_oneof![(0u32..8).prop_map(|b| 1u8 << b), any::<u8>()])
                .prop_map(|(m, k)| Go::Stay(m, k)),
            1 => prop::collection::vec(cxy(), 0..5).prop_map(Go::Sinks),
        ]
        .boxed()
    };
    (0..n, any::<bool>(), go, cxy(), any::<u8>(), script(12, 4))
        .prop_map(|(dim, d, go, orig, fork, script)| C { dim, d, go, orig, fork, script })
        .boxed()
}

fn main() {
    main_check(
        "C18",
        &[
            &Facet {
                name: "small",
                rule: "movement functions of six kinds (mazes, torus, explicit edges anywhere to anywhere, random jumps, staying in place, sinks) on grids of up to 183 cells, all set types, against reference layers; non-trivial when there are two layers or more beyond the origin",
                quick: 500_000,
                thorough: 8_000_000,
                strategy: |_| gen(64, 80, false),
                test: small,
            },
            &Facet {
                name: "large",
                rule: "as small, on grids of up to 131072 cells",
                quick: 1_200,
                thorough: 18_000,
                strategy: |_| gen(64, 4, true),
                test: large,
            },
        ],
        &[],
    );
}
