//! C27: the maps and traversals of the searches lead every position back the best way.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sqrid::astar::AstarIterator;
use sqrid::ucs::UcsIterator;
use sqrid::{Dir, Error, Grid, Gridbool, MapPos, Pos, SetPos};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use vh::gen::*;
use vh::iterlaw::{drive, script, Opt, Script};
use vh::maze::*;
use vh::*;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct C {
    dim: usize,
    d: bool,
    maze: Maze,
    /// Cost style: 0 all one, 1 zero to three, 2 by direction, 3 large
    costs: u8,
    salt: u64,
    orig: Cxy,
    dest: Cxy,
    /// How many steps into a traversal it is copied
    fork: u16,
    backend: u8,
    /// a way of consuming the traversals
    script: Script,
}

fn cost_of(c: &C, i: usize, k: usize) -> usize {
    let e = mix(c.salt ^ (i as u64) << 3 ^ k as u64);
    match c.costs % 4 {
        0 => 1,
        1 => (e % 4) as usize,
        2 => 1 + (mix(c.salt ^ k as u64) % 9) as usize,
        _ => 1usize << (20 + e % 20),
    }
}

type GoFn<'a, const X: u16, const Y: u16> = &'a dyn Fn(Pos<X, Y>, Dir) -> Option<Pos<X, Y>>;
type UcsFn<'a, const X: u16, const Y: u16> =
    &'a dyn Fn(Pos<X, Y>, Dir) -> Option<(Pos<X, Y>, usize)>;

/// The way back recorded for a position: one allowed move from a position that is exactly that
/// move closer to the origin. By induction, following them leads to the origin the best way.
#[allow(clippy::too_many_arguments)]
fn back(
    world: &World,
    what: &str,
    o: usize,
    i: usize,
    dir: Dir,
    all: &[Option<u128>],
    strict: &dyn Fn(usize, usize) -> bool,
    cost: &dyn Fn(usize, usize) -> usize,
) -> Result<usize, String> {
    let ctx = || {
        format!(
            "{what} on {}x{} (diagonals {}) from {}: position {}",
            world.w,
            world.h,
            world.d,
            world.at(o),
            world.at(i)
        )
    };
    let k = didx(dir);
    let (x, y) = ((i % world.w) as i64 + DIRS[k].1 as i64, (i / world.w) as i64 + DIRS[k].2 as i64);
    ensure!(
        x >= 0 && y >= 0 && x < world.w as i64 && y < world.h as i64,
        "{}: direction {dir:?} leads out of the grid",
        ctx()
    );
    ensure!(world.d || k % 2 == 0, "{}: diagonal {dir:?}, and diagonals are off", ctx());
    let j = y as usize * world.w + x as usize;
    ensure!(
        world.step(j, (k + 4) % 8) == Some(i),
        "{}: {dir:?} is not the reverse of an allowed move",
        ctx()
    );
    let here = all[i].ok_or_else(|| format!("{}: is not reachable", ctx()))?;
    let there = all[j].ok_or_else(|| format!("{}: came from an unreachable position", ctx()))?;
    let c = cost(j, (k + 4) % 8) as u128;
    ensure!(
        there + c == here,
        "{}: at {here} from the origin, came from {} at {there} by a move of {c}",
        ctx(),
        world.at(j)
    );
    ensure!(strict(i, j), "{}: came from {}, which was not reached before it", ctx(), world.at(j));
    Ok(j)
}

/// A map returned by a search.
#[allow(clippy::too_many_arguments)]
fn map_ok(
    world: &World,
    what: &str,
    o: usize,
    t: usize,
    get: &dyn Fn(usize) -> Option<Dir>,
    all: &[Option<u128>],
    complete: bool,
    cost: &dyn Fn(usize, usize) -> usize,
) -> R {
    let n = world.n();
    ensure!(get(t).is_some(), "{what}: the destination {} is not in the map", world.at(t));
    let limit = all[t].ok_or_else(|| format!("{what}: {} is not reachable", world.at(t)))?;
    // 0: unknown, 1: leads to the origin, 2: being followed
    let mut state = vec![0u8; n];
    state[o] = 1;
    for i in 0..n {
        if i == o {
            continue;
        }
        match get(i) {
            None => {
                ensure!(
                    !complete || all[i].is_none_or(|v| v >= limit),
                    "{what} on {}x{} (diagonals {}) from {} to {}: nearer position {} is not in the map",
                    world.w,
                    world.h,
                    world.d,
                    world.at(o),
                    world.at(t),
                    world.at(i)
                );
                continue;
            }
            Some(_) => {
                let mut trail = vec![];
                let mut j = i;
                while state[j] == 0 {
                    state[j] = 2;
                    trail.push(j);
                    let Some(d) = get(j) else {
                        return Err(format!(
                            "{what} from {}: from {} the map leads to {}, which is not in it",
                            world.at(o),
                            world.at(i),
                            world.at(j)
                        ));
                    };
                    j = back(world, what, o, j, d, all, &|_, _| true, cost)?;
                }
                ensure!(
                    state[j] == 1,
                    "{what} from {}: from {} the map leads in circles",
                    world.at(o),
                    world.at(i)
                );
                trail.iter().for_each(|j| state[*j] = 1);
            }
        }
    }
    Ok(())
}

/// A traversal: (position, direction) in the order yielded.
fn traversal_ok<const X: u16, const Y: u16>(
    world: &World,
    what: &str,
    o: usize,
    all: &[Option<u128>],
    cost: &dyn Fn(usize, usize) -> usize,
    c: &C,
    it: impl Iterator<Item = (Pos<X, Y>, Dir)> + Clone,
) -> R {
    let n = world.n();
    let walk = |what: &str, it: &mut dyn Iterator<Item = (Pos<X, Y>, Dir)>| -> R {
        let mut seen = vec![false; n];
        for (count, (p, dir)) in it.enumerate() {
            let i = rank(&p);
            if count == 0 {
                ensure!(i == o, "{what}: starts at {}, not {}", world.at(i), world.at(o));
            } else if i != o {
                back(world, what, o, i, dir, all, &|_, j| seen[j], cost)?;
            }
            seen[i] = true;
            ensure!(count <= 64 * (n + 1), "{what} from {}: does not end", world.at(o));
        }
        for (i, s) in seen.iter().enumerate() {
            ensure!(
                *s || all[i].is_none(),
                "{what} on {}x{} (diagonals {}) from {}: never reaches {}",
                world.w,
                world.h,
                world.d,
                world.at(o),
                world.at(i)
            );
        }
        world.reset();
        Ok(())
    };
    world.reset();
    // A copy made midway, followed before the original, goes on as the original does
    let fork = c.fork as usize;
    let start = it.clone();
    let mut it = it;
    let first: Vec<(Pos<X, Y>, Dir)> = it.by_ref().take(fork).collect();
    let copy = it.clone();
    walk(
        &format!("{what}, copied after {fork} steps: the copy,"),
        &mut first.iter().copied().chain(copy),
    )?;
    walk(what, &mut first.iter().copied().chain(it))?;
    // However it is consumed: by the distances of what comes one by one
    let one_by_one = start.clone().map(|(p, _)| all[rank(&p)]).collect::<Vec<_>>();
    world.reset();
    drive(
        start,
        one_by_one.len(),
        &|i| one_by_one[i],
        &|(p, _)| all[rank(&p)],
        &c.script,
        Opt { hints: true, most: usize::MAX, ordered: false },
        what,
    )?;
    world.reset();
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn backends<
    const X: u16,
    const Y: u16,
    const D: bool,
    const WORDS: usize,
    const SIZE: usize,
    MD: MapPos<Option<Dir>, Pos<X, Y>, WORDS, SIZE> + Default,
    MU: MapPos<usize, Pos<X, Y>, WORDS, SIZE> + Default + Clone,
    SP: SetPos<Pos<X, Y>, WORDS, SIZE> + Default,
>(
    c: &C,
    world: &World,
    name: &str,
    o: usize,
    t: usize,
    dist: &[Option<u128>],
    costs: &[Option<u128>],
) -> R {
    let (orig, dest) = (unrank::<X, Y>(o), unrank::<X, Y>(t));
    let cost = |i: usize, k: usize| cost_of(c, i, k);
    let go = |p: Pos<X, Y>, d: Dir| world.go(p, d);
    let go: GoFn<X, Y> = &go;
    let ucs_go = |p: Pos<X, Y>, d: Dir| world.go(p, d).map(|n| (n, cost(rank(&p), didx(d))));
    let ucs_go: UcsFn<X, Y> = &ucs_go;
    let unreachable = |what: &str, e: Error| -> R {
        ensure!(
            e == Error::DestinationUnreachable && dist[t].is_none(),
            "{what}: {e:?} from {} to {}",
            world.at(o),
            world.at(t)
        );
        Ok(())
    };

    let what = format!("bf::search_mapmov ({name})");
    world.reset();
    match sqrid::bf::search_mapmov::<_, _, MD, SP, Pos<X, Y>, D, WORDS, SIZE>(go, &orig, |p| {
        p == dest
    }) {
        Ok((p, map)) => {
            ensure!(p == dest, "{what}: {p} instead of {dest}");
            let get = |i: usize| *map.get(&unrank::<X, Y>(i));
            map_ok(world, &what, o, t, &get, dist, true, &|_, _| 1)?;
        }
        Err(e) => unreachable(&what, e)?,
    }

    let what = format!("astar::search_mapmov ({name})");
    world.reset();
    match sqrid::astar::search_mapmov::<_, MD, MU, Pos<X, Y>, D, WORDS, SIZE>(go, &orig, &dest) {
        Ok(map) => {
            let get = |i: usize| *map.get(&unrank::<X, Y>(i));
            map_ok(world, &what, o, t, &get, dist, false, &|_, _| 1)?;
        }
        Err(e) => unreachable(&what, e)?,
    }

    let what = format!("ucs::search_mapmov ({name})");
    world.reset();
    match sqrid::ucs::search_mapmov::<_, MD, MU, Pos<X, Y>, D, WORDS, SIZE>(ucs_go, &orig, &dest) {
        Ok(map) => {
            let get = |i: usize| *map.get(&unrank::<X, Y>(i));
            map_ok(world, &what, o, t, &get, costs, true, &cost)?;
        }
        Err(e) => unreachable(&what, e)?,
    }

    world.reset();
    traversal_ok(
        world,
        &format!("AstarIterator ({name}) to {}", world.at(t)),
        o,
        dist,
        &|_, _| 1,
        c,
        AstarIterator::<_, MU, Pos<X, Y>, D, WORDS, SIZE>::new(go, &orig, &dest),
    )?;
    world.reset();
    traversal_ok(
        world,
        &format!("UcsIterator ({name})"),
        o,
        costs,
        &cost,
        c,
        UcsIterator::<_, MU, Pos<X, Y>, D, WORDS, SIZE>::new(ucs_go, &orig),
    )
}

fn run<const X: u16, const Y: u16, const D: bool, const WORDS: usize, const SIZE: usize>(
    c: &C,
    obs: &mut Obs,
) -> R {
    let world = World::new(&c.maze, X, Y, D);
    let (o, t) = (rank(&pos_of::<X, Y>(c.orig)), rank(&pos_of::<X, Y>(c.dest)));
    let dist: Vec<Option<u128>> =
        world.distances(o).into_iter().map(|v| v.map(|v| v as u128)).collect();
    let costs = world.costs(o, &|i, k| cost_of(c, i, k));
    obs.nt(o != t && dist.iter().flatten().count() > 2);
    obs.label(c.maze.label());
    obs.label(if dist[t].is_none() { "unreachable" } else { "reachable" });
    obs.label(["unit-cost", "zero-or-more", "by-direction", "large-cost"][c.costs as usize % 4]);
    obs.label_if((c.fork as usize) < dist.iter().flatten().count(), "copied-midway");
    type HM<T, const X: u16, const Y: u16> = (HashMap<Pos<X, Y>, T>, T);
    type BM<T, const X: u16, const Y: u16> = (BTreeMap<Pos<X, Y>, T>, T);
    // The harness's own map and set notice what does not end: always first on small grids
    if c.backend % 4 == 0 || SIZE < 1000 {
        backends::<X, Y, D, WORDS, SIZE, VecMap<Option<Dir>>, VecMap<usize>, VecSet>(
            c,
            &world,
            "map of the harness",
            o,
            t,
            &dist,
            &costs,
        )?;
    }
    match c.backend % 4 {
        0 | 1 => backends::<
            X,
            Y,
            D,
            WORDS,
            SIZE,
            Grid<Option<Dir>, Pos<X, Y>, SIZE>,
            Grid<usize, Pos<X, Y>, SIZE>,
            Gridbool<Pos<X, Y>, WORDS>,
        >(c, &world, "grid", o, t, &dist, &costs),
        2 => backends::<
            X,
            Y,
            D,
            WORDS,
            SIZE,
            HM<Option<Dir>, X, Y>,
            HM<usize, X, Y>,
            HashSet<Pos<X, Y>>,
        >(c, &world, "hash map", o, t, &dist, &costs),
        _ => backends::<
            X,
            Y,
            D,
            WORDS,
            SIZE,
            BM<Option<Dir>, X, Y>,
            BM<usize, X, Y>,
            BTreeSet<Pos<X, Y>>,
        >(c, &world, "B-tree map", o, t, &dist, &costs),
    }
}

fn one<const X: u16, const Y: u16, const WORDS: usize, const SIZE: usize>(
    c: &C,
    obs: &mut Obs,
) -> R {
    if c.d {
        run::<X, Y, true, WORDS, SIZE>(c, obs)
    } else {
        run::<X, Y, false, WORDS, SIZE>(c, obs)
    }
}

type Fn_ = fn(&C, &mut Obs) -> R;

fn small(c: &C, obs: &mut Obs) -> R {
    let t = search_dims!(__tab_search; one, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}

fn large(c: &C, obs: &mut Obs) -> R {
    let t = search_dims_big!(__tab_search; one, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}

fn gen(n: usize, cells: usize, fork: u16) -> BoxedStrategy<C> {
    (
        (0..n, any::<bool>(), maze(cells)),
        (0u8..4, any::<u64>(), cxy(), cxy()),
        (0..fork, 0u8..4, script(40, 4)),
    )
        .prop_map(|((dim, d, maze), (costs, salt, orig, dest), (fork, backend, script))| C {
            dim,
            d,
            maze,
            costs,
            salt,
            orig,
            dest,
            fork,
            backend,
            script,
        })
        .boxed()
}

fn main() {
    main_check(
        "C27",
        &[
            &Facet {
                name: "small",
                rule: "mazes of eight styles with costs of four styles on grids of up to 183 cells; the maps of the three searches and the A* and uniform-cost traversals, over one of the library's backends and the harness's own, checked position by position against reference distances and costs; a copy made midway compared; non-trivial: origin and destination differ and at least three positions are reachable",
                quick: 300_000,
                thorough: 5_000_000,
                strategy: |_| gen(64, 60, 60),
                test: small,
            },
            &Facet {
                name: "large",
                rule: "as small, on grids of up to 131072 cells",
                quick: 200,
                thorough: 4_000,
                strategy: |_| gen(64, 4, 5000),
                test: large,
            },
        ],
        &[],
    );
}
