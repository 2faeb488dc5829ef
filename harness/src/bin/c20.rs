//! C20: A* returns a shortest path.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sqrid::{Dir, Error, Grid, MapPos, Pos, Sqrid};
use vh::gen::*;
use vh::maze::*;
use vh::race::*;
use vh::*;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct C {
    dim: usize,
    d: bool,
    maze: Maze,
    orig: Cxy,
    dest: Cxy,
}

fn run<const X: u16, const Y: u16, const D: bool, const WORDS: usize, const SIZE: usize>(
    c: &C,
    obs: &mut Obs,
) -> R {
    let world = World::new(&c.maze, X, Y, D);
    let orig: Pos<X, Y> = pos_of(c.orig);
    let dest: Pos<X, Y> = pos_of(c.dest);
    let (o, t) = (rank(&orig), rank(&dest));
    let best = world.distances(o)[t];
    let (dx, dy) = ((o % world.w).abs_diff(t % world.w), (o / world.w).abs_diff(t / world.w));
    let direct = if D { dx.max(dy) } else { dx + dy };
    obs.nt(o != t);
    obs.label(c.maze.label());
    obs.label(match best {
        None => "unreachable",
        Some(0) => "same",
        Some(b) if b as usize > world.w * world.w => "longer-than-width-squared",
        Some(b) if b as usize > direct => "detour",
        _ => "direct",
    });

    let go = |p: Pos<X, Y>, d: Dir| world.go(p, d);
    let go: &dyn Fn(Pos<X, Y>, Dir) -> Option<Pos<X, Y>> = &go;
    let want = best.map_or(Want::Unreachable, |b| Want::Total(b as u128));
    let check = |what: &str, got: Result<Vec<Dir>, Error>| -> R {
        world.reset();
        judge(&world, what, o, t, &got, &want, &|_, _| 1)
    };

    // The harness's own maps first: they notice what does not end.
    check(
        "astar::search_path",
        sqrid::astar::search_path::<_, VecMap<Option<Dir>>, VecMap<usize>, Pos<X, Y>, D, WORDS, SIZE>(
            go, &orig, &dest,
        ),
    )?;
    type S<const X: u16, const Y: u16, const D: bool, const WORDS: usize, const SIZE: usize> =
        Sqrid<X, Y, D, WORDS, SIZE>;
    check("astar_path", S::<X, Y, D, WORDS, SIZE>::astar_path(go, &orig, &dest))?;
    check("astar_path_grid", S::<X, Y, D, WORDS, SIZE>::astar_path_grid(go, &orig, &dest))?;
    check("astar_path_hash", S::<X, Y, D, WORDS, SIZE>::astar_path_hash(go, &orig, &dest))?;
    check("astar_path_btree", S::<X, Y, D, WORDS, SIZE>::astar_path_btree(go, &orig, &dest))?;
    check(
        "astar::search_path_grid",
        sqrid::astar::search_path_grid::<_, Pos<X, Y>, D, WORDS, SIZE>(go, &orig, &dest),
    )?;

    let map = sqrid::astar::search_mapmov::<
        _,
        Grid<Option<Dir>, Pos<X, Y>, SIZE>,
        Grid<usize, Pos<X, Y>, SIZE>,
        Pos<X, Y>,
        D,
        WORDS,
        SIZE,
    >(go, &orig, &dest);
    let as_path = match map {
        Err(e) => Err(e),
        Ok(map) => {
            let get = |i: usize| {
                *MapPos::<Option<Dir>, Pos<X, Y>, WORDS, SIZE>::get(&map, &unrank::<X, Y>(i))
            };
            ensure!(get(t).is_some(), "search_mapmov: {} is not in the map", world.at(t));
            Ok(follow(world.w, world.h, o, t, &get).map_err(|e| {
                format!("search_mapmov from {} to {}: {e}", world.at(o), world.at(t))
            })?)
        }
    };
    check("astar::search_mapmov", as_path)
}

fn one<const X: u16, const Y: u16, const WORDS: usize, const SIZE: usize>(
    c: &C,
    obs: &mut Obs,
) -> R {
    if c.d {
        run::<X, Y, true, WORDS, SIZE>(c, obs)
    } else {
        run::<X, Y, false, WORDS, SIZE>(c, obs)
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Ra {
    dim: usize,
    d: bool,
    race: Race,
}

/// Entry points that keep nothing per cell
fn huge<const X: u16, const Y: u16, const D: bool, const WORDS: usize, const SIZE: usize>(
    c: &Ra,
    obs: &mut Obs,
) -> R {
    type S<const X: u16, const Y: u16, const D: bool, const WORDS: usize, const SIZE: usize> =
        Sqrid<X, Y, D, WORDS, SIZE>;
    judge_race(
        &c.race,
        (X, Y, D),
        obs,
        None,
        &[
            ("astar_path_btree", &|t| {
                S::<X, Y, D, WORDS, SIZE>::astar_path_btree(
                    |p: Pos<X, Y>, d| t.go(p, d),
                    &unrank(t.orig),
                    &unrank(t.dest),
                )
            }),
            ("astar_path_hash", &|t| {
                S::<X, Y, D, WORDS, SIZE>::astar_path_hash(
                    |p: Pos<X, Y>, d| t.go(p, d),
                    &unrank(t.orig),
                    &unrank(t.dest),
                )
            }),
        ],
    )
}

/// All entry points
fn stored<const X: u16, const Y: u16, const D: bool, const WORDS: usize, const SIZE: usize>(
    c: &Ra,
    obs: &mut Obs,
) -> R {
    type S<const X: u16, const Y: u16, const D: bool, const WORDS: usize, const SIZE: usize> =
        Sqrid<X, Y, D, WORDS, SIZE>;
    huge::<X, Y, D, WORDS, SIZE>(c, obs)?;
    judge_race(
        &c.race,
        (X, Y, D),
        &mut Obs::default(),
        None,
        &[
            ("astar_path", &|t| {
                S::<X, Y, D, WORDS, SIZE>::astar_path(
                    |p: Pos<X, Y>, d| t.go(p, d),
                    &unrank(t.orig),
                    &unrank(t.dest),
                )
            }),
            ("astar_path_grid", &|t| {
                S::<X, Y, D, WORDS, SIZE>::astar_path_grid(
                    |p: Pos<X, Y>, d| t.go(p, d),
                    &unrank(t.orig),
                    &unrank(t.dest),
                )
            }),
        ],
    )
}

fn one_huge<const X: u16, const Y: u16, const WORDS: usize, const SIZE: usize>(
    c: &Ra,
    obs: &mut Obs,
) -> R {
    if c.d {
        huge::<X, Y, true, WORDS, SIZE>(c, obs)
    } else {
        huge::<X, Y, false, WORDS, SIZE>(c, obs)
    }
}

fn one_stored<const X: u16, const Y: u16, const WORDS: usize, const SIZE: usize>(
    c: &Ra,
    obs: &mut Obs,
) -> R {
    if c.d {
        stored::<X, Y, true, WORDS, SIZE>(c, obs)
    } else {
        stored::<X, Y, false, WORDS, SIZE>(c, obs)
    }
}

type FnRa = fn(&Ra, &mut Obs) -> R;

fn races(c: &Ra, obs: &mut Obs) -> R {
    let t = race_dims!(__tab_search; one_stored, FnRa);
    (t[c.dim % t.len()].2)(c, obs)
}

fn races_huge(c: &Ra, obs: &mut Obs) -> R {
    let t = race_dims_huge!(__tab_search; one_huge, FnRa);
    (t[c.dim % t.len()].2)(c, obs)
}

fn gen_race() -> BoxedStrategy<Ra> {
    (0usize..64, any::<bool>(), race()).prop_map(|(dim, d, race)| Ra { dim, d, race }).boxed()
}

type Fn_ = fn(&C, &mut Obs) -> R;

fn small(c: &C, obs: &mut Obs) -> R {
    let t = search_dims!(__tab_search; one, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}

fn large(c: &C, obs: &mut Obs) -> R {
    let t = search_dims_big!(__tab_search; one, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}

fn gen(n: usize, cells: usize) -> BoxedStrategy<C> {
    (0..n, any::<bool>(), maze(cells), cxy(), cxy())
        .prop_map(|(dim, d, maze, orig, dest)| C { dim, d, maze, orig, dest })
        .boxed()
}

fn main() {
    main_check(
        "C20",
        &[
            &Facet {
                name: "small",
                rule: "mazes of eight styles on grids of up to 183 cells, any origin and destination, with and without diagonals, all entry points, against a reference breadth-first search; non-trivial when origin and destination differ",
                quick: 500_000,
                thorough: 7_500_000,
                strategy: |_| gen(64, 80),
                test: small,
            },
            &Facet {
                name: "large",
                rule: "as small, on grids of up to 131072 cells with paths of up to tens of thousands of moves",
                quick: 900,
                thorough: 13_500,
                strategy: |_| gen(64, 4),
                test: large,
            },
            &Facet {
                name: "races",
                rule: "two ends joined by one to three corridors of nearly equal lengths, up to 9000 moves, along an axis or a diagonal, all entry points, against a reference breadth-first search over the corridors; non-trivial when the fewest moves are more than the straight way",
                quick: 4000,
                thorough: 80000,
                strategy: |_| gen_race(),
                test: races,
            },
            &Facet {
                name: "races-huge",
                rule: "as races, on extents of up to 65536x65536, with the entry points that keep nothing per cell",
                quick: 6000,
                thorough: 120000,
                strategy: |_| gen_race(),
                test: races_huge,
            },
        ],
        &[],
    );
}
