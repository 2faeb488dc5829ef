//! C21: uniform-cost search returns a minimum-cost path.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sqrid::ucs::UcsIterator;
use sqrid::{Dir, Error, Grid, MapPos, Pos, Sqrid};
use vh::gen::*;
use vh::maze::*;
use vh::race::*;
use vh::*;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Costs {
    style: u8,
    /// Explicit values for the first cells, the others come from the salt
    cells: Vec<u8>,
    salt: u64,
}

const COSTS: [&str; 10] = [
    "zero",
    "unit",
    "small",
    "zero-or-more",
    "terrain",
    "turns",
    "huge",
    "enormous",
    "mixed",
    "close",
];

impl Costs {
    fn at(&self, i: usize, k: usize) -> usize {
        let r = match self.cells.get(i) {
            Some(b) => *b as u64,
            None => mix(self.salt ^ (i as u64) << 3) & 0xff,
        };
        let e = mix(self.salt ^ r ^ (k as u64) << 20);
        let r = r as usize;
        match self.style as usize % COSTS.len() {
            0 => 0,
            1 => 1,
            2 => 1 + (e % 9) as usize,
            3 => (e % 4).saturating_sub(1) as usize,
            // same cost for every direction
            4 => 1 + r,
            // cheap straight, dear across
            5 => {
                if k % 4 == 0 {
                    1
                } else {
                    3 + r % 7
                }
            }
            6 => 1usize << (50 + e % 12),
            7 => usize::MAX >> (e % 5),
            // a large cost each, nearly the same
            9 => (1usize << (20 + self.salt % 30)) + (e % 3) as usize,
            _ => match e % 5 {
                0 => 0,
                1 => usize::MAX - r,
                2 => 1 << 62,
                _ => r,
            },
        }
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct C {
    dim: usize,
    d: bool,
    maze: Maze,
    costs: Costs,
    orig: Cxy,
    dest: Cxy,
}

const MAX: u128 = usize::MAX as u128;

fn run<const X: u16, const Y: u16, const D: bool, const WORDS: usize, const SIZE: usize>(
    c: &C,
    obs: &mut Obs,
) -> R {
    let world = World::new(&c.maze, X, Y, D);
    let orig: Pos<X, Y> = pos_of(c.orig);
    let dest: Pos<X, Y> = pos_of(c.dest);
    let (o, t) = (rank(&orig), rank(&dest));
    let cost = |i: usize, k: usize| c.costs.at(i, k);
    let all = world.costs(o, &cost);
    let best = all[t];
    obs.nt(o != t);
    obs.label(c.maze.label());
    obs.label(COSTS[c.costs.style as usize % COSTS.len()]);
    obs.label(match best {
        None => "unreachable",
        Some(b) if b >= MAX => "not-representable",
        Some(_) if o == t => "same",
        Some(_) => "reachable",
    });
    obs.label_if(
        world.distances(o)[t].is_some_and(|d| best.is_some_and(|b| b > 0 && d > 1)),
        "several-moves",
    );

    let go = |p: Pos<X, Y>, d: Dir| {
        let i = rank(&p);
        world.go(p, d).map(|n| (n, cost(i, didx(d))))
    };
    let go: &dyn Fn(Pos<X, Y>, Dir) -> Option<(Pos<X, Y>, usize)> = &go;
    // Sums that do not fit in a usize are outside what the search promises; usize::MAX itself
    // stands for "not reached".
    let decided = best.is_none_or(|b| b < MAX);
    let want = best.map_or(Want::Unreachable, Want::Total);
    let check = |what: &str, got: Result<Vec<Dir>, Error>| -> R {
        world.reset();
        if decided {
            judge(&world, what, o, t, &got, &want, &cost)
        } else {
            Ok(())
        }
    };

    // The harness's own maps first: they notice what does not end.
    check(
        "ucs::search_path",
        sqrid::ucs::search_path::<_, VecMap<Option<Dir>>, VecMap<usize>, Pos<X, Y>, D, WORDS, SIZE>(
            go, &orig, &dest,
        ),
    )?;
    type S<const X: u16, const Y: u16, const D: bool, const WORDS: usize, const SIZE: usize> =
        Sqrid<X, Y, D, WORDS, SIZE>;
    check("ucs_path", S::<X, Y, D, WORDS, SIZE>::ucs_path(go, &orig, &dest))?;
    check("ucs_path_grid", S::<X, Y, D, WORDS, SIZE>::ucs_path_grid(go, &orig, &dest))?;
    check("ucs_path_hash", S::<X, Y, D, WORDS, SIZE>::ucs_path_hash(go, &orig, &dest))?;
    check("ucs_path_btree", S::<X, Y, D, WORDS, SIZE>::ucs_path_btree(go, &orig, &dest))?;
    check(
        "ucs::search_path_grid",
        sqrid::ucs::search_path_grid::<_, Pos<X, Y>, D, WORDS, SIZE>(go, &orig, &dest),
    )?;

    let map = sqrid::ucs::search_mapmov::<
        _,
        Grid<Option<Dir>, Pos<X, Y>, SIZE>,
        Grid<usize, Pos<X, Y>, SIZE>,
        Pos<X, Y>,
        D,
        WORDS,
        SIZE,
    >(go, &orig, &dest);
    if decided {
        let as_path = match map {
            Err(e) => Err(e),
            Ok(map) => {
                let get = |i: usize| {
                    *MapPos::<Option<Dir>, Pos<X, Y>, WORDS, SIZE>::get(&map, &unrank::<X, Y>(i))
                };
                ensure!(get(t).is_some(), "search_mapmov: {} is not in the map", world.at(t));
                Ok(follow(world.w, world.h, o, t, &get).map_err(|e| {
                    format!("search_mapmov from {} to {}: {e}", world.at(o), world.at(t))
                })?)
            }
        };
        check("ucs::search_mapmov", as_path)?;
    }

    // The traversal
    world.reset();
    let mut seen = vec![false; world.n()];
    let mut last = 0u128;
    let it =
        UcsIterator::<_, Grid<usize, Pos<X, Y>, SIZE>, Pos<X, Y>, D, WORDS, SIZE>::new(go, &orig);
    for (n, (p, _)) in it.enumerate() {
        let i = rank(&p);
        ensure!(n > 0 || i == o, "the traversal starts at {}, not {}", world.at(i), world.at(o));
        ensure!(n <= 64 * (world.n() + 1), "the traversal does not end");
        if seen[i] {
            continue;
        }
        seen[i] = true;
        let Some(cst) = all[i] else {
            return Err(format!("the traversal reaches {}, which no walk does", world.at(i)));
        };
        if cst < MAX {
            ensure!(
                cst >= last,
                "the traversal reaches {} (cost {cst}) after a position of cost {last}",
                world.at(i)
            );
            last = cst;
        }
    }
    for i in 0..world.n() {
        ensure!(
            seen[i] || all[i].is_none_or(|v| v >= MAX),
            "the traversal never reaches {}",
            world.at(i)
        );
    }
    Ok(())
}

fn one<const X: u16, const Y: u16, const WORDS: usize, const SIZE: usize>(
    c: &C,
    obs: &mut Obs,
) -> R {
    if c.d {
        run::<X, Y, true, WORDS, SIZE>(c, obs)
    } else {
        run::<X, Y, false, WORDS, SIZE>(c, obs)
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Ra {
    dim: usize,
    d: bool,
    race: Race,
    costs: Costs,
}

/// Entry points that keep nothing per cell
fn huge<const X: u16, const Y: u16, const D: bool, const WORDS: usize, const SIZE: usize>(
    c: &Ra,
    obs: &mut Obs,
) -> R {
    type S<const X: u16, const Y: u16, const D: bool, const WORDS: usize, const SIZE: usize> =
        Sqrid<X, Y, D, WORDS, SIZE>;
    let cost = |i: usize, k: usize| c.costs.at(i, k);
    judge_race(
        &c.race,
        (X, Y, D),
        obs,
        Some(&cost),
        &[
            ("ucs_path_btree", &|t| {
                let go = |p: Pos<X, Y>, d: Dir| t.go(p, d).map(|n| (n, cost(rank(&p), didx(d))));
                S::<X, Y, D, WORDS, SIZE>::ucs_path_btree(
                    go,
                    &unrank::<X, Y>(t.orig),
                    &unrank::<X, Y>(t.dest),
                )
            }),
            ("ucs_path_hash", &|t| {
                let go = |p: Pos<X, Y>, d: Dir| t.go(p, d).map(|n| (n, cost(rank(&p), didx(d))));
                S::<X, Y, D, WORDS, SIZE>::ucs_path_hash(
                    go,
                    &unrank::<X, Y>(t.orig),
                    &unrank::<X, Y>(t.dest),
                )
            }),
        ],
    )
}

/// All entry points
fn stored<const X: u16, const Y: u16, const D: bool, const WORDS: usize, const SIZE: usize>(
    c: &Ra,
    obs: &mut Obs,
) -> R {
    type S<const X: u16, const Y: u16, const D: bool, const WORDS: usize, const SIZE: usize> =
        Sqrid<X, Y, D, WORDS, SIZE>;
    let cost = |i: usize, k: usize| c.costs.at(i, k);
    huge::<X, Y, D, WORDS, SIZE>(c, obs)?;
    judge_race(
        &c.race,
        (X, Y, D),
        &mut Obs::default(),
        Some(&cost),
        &[
            ("ucs_path", &|t| {
                let go = |p: Pos<X, Y>, d: Dir| t.go(p, d).map(|n| (n, cost(rank(&p), didx(d))));
                S::<X, Y, D, WORDS, SIZE>::ucs_path(
                    go,
                    &unrank::<X, Y>(t.orig),
                    &unrank::<X, Y>(t.dest),
                )
            }),
            ("ucs_path_grid", &|t| {
                let go = |p: Pos<X, Y>, d: Dir| t.go(p, d).map(|n| (n, cost(rank(&p), didx(d))));
                S::<X, Y, D, WORDS, SIZE>::ucs_path_grid(
                    go,
                    &unrank::<X, Y>(t.orig),
                    &unrank::<X, Y>(t.dest),
                )
            }),
        ],
    )
}

fn one_huge<const X: u16, const Y: u16, const WORDS: usize, const SIZE: usize>(
    c: &Ra,
    obs: &mut Obs,
) -> R {
    if c.d {
        huge::<X, Y, true, WORDS, SIZE>(c, obs)
    } else {
        huge::<X, Y, false, WORDS, SIZE>(c, obs)
    }
}

fn one_stored<const X: u16, const Y: u16, const WORDS: usize, const SIZE: usize>(
    c: &Ra,
    obs: &mut Obs,
) -> R {
    if c.d {
        stored::<X, Y, true, WORDS, SIZE>(c, obs)
    } else {
        stored::<X, Y, false, WORDS, SIZE>(c, obs)
    }
}

type FnRa = fn(&Ra, &mut Obs) -> R;

fn races(c: &Ra, obs: &mut Obs) -> R {
    let t = race_dims!(__tab_search; one_stored, FnRa);
    (t[c.dim % t.len()].2)(c, obs)
}

fn races_huge(c: &Ra, obs: &mut Obs) -> R {
    let t = race_dims_huge!(__tab_search; one_huge, FnRa);
    (t[c.dim % t.len()].2)(c, obs)
}

fn gen_race() -> BoxedStrategy<Ra> {
    (0usize..64, any::<bool>(), race(), costs(1))
        .prop_map(|(dim, d, race, costs)| Ra { dim, d, race, costs })
        .boxed()
}

type Fn_ = fn(&C, &mut Obs) -> R;

fn small(c: &C, obs: &mut Obs) -> R {
    let t = search_dims!(__tab_search; one, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}

fn large(c: &C, obs: &mut Obs) -> R {
    let t = search_dims_big!(__tab_search; one, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}

fn costs(cells: usize) -> impl Strategy<Value = Costs> {
    (0u8..10, prop::collection::vec(any::<u8>(), 0..cells), any::<u64>())
        .prop_map(|(style, cells, salt)| Costs { style, cells, salt })
}

fn gen(n: usize, cells: usize) -> BoxedStrategy<C> {
    (0..n, any::<bool>(), maze(cells), costs(cells), cxy(), cxy())
        .prop_map(|(dim, d, maze, costs, orig, dest)| C { dim, d, maze, costs, orig, dest })
        .boxed()
}

fn main() {
    main_check(
        "C21",
        &[
            &Facet {
                name: "small",
                rule: "mazes of eight styles with costs of ten styles (zero to the largest integer) on grids of up to 183 cells, all entry points and the traversal, against a reference Dijkstra search with 128-bit sums; non-trivial when origin and destination differ",
                quick: 400_000,
                thorough: 6_000_000,
                strategy: |_| gen(64, 60),
                test: small,
            },
            &Facet {
                name: "large",
                rule: "as small, on grids of up to 131072 cells with paths of up to tens of thousands of moves",
                quick: 500,
                thorough: 7_500,
                strategy: |_| gen(64, 4),
                test: large,
            },
            &Facet {
                name: "races",
                rule: "two ends joined by one to three corridors of nearly equal lengths, up to 9000 moves, along an axis or a diagonal, all entry points, against a reference Dijkstra search with 128-bit sums over the corridors; non-trivial when the fewest moves are more than the straight way",
                quick: 3000,
                thorough: 60000,
                strategy: |_| gen_race(),
                test: races,
            },
            &Facet {
                name: "races-huge",
                rule: "as races, on extents of up to 65536x65536, with the entry points that keep nothing per cell",
                quick: 4500,
                thorough: 90000,
                strategy: |_| gen_race(),
                test: races_huge,
            },
        ],
        &[],
    );
}
