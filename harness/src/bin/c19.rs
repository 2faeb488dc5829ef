//! C19: breadth-first search returns a shortest path to a nearest goal.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sqrid::{Dir, Error, Grid, Gridbool, MapPos, Pos, Sqrid};
use vh::gen::*;
use vh::maze::*;
use vh::race::*;
use vh::*;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Goal {
    /// Exactly these cells
    Cells(Vec<Cxy>),
    Row(Co),
    Column(Co),
    /// Cells of the last column or row only
    Border,
    All,
    /// About one in 2^k
    Random(u8, u64),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct C {
    dim: usize,
    d: bool,
    maze: Maze,
    orig: Cxy,
    goal: Goal,
}

type Path<const X: u16, const Y: u16> = Result<(Pos<X, Y>, Vec<Dir>), Error>;

fn run<const X: u16, const Y: u16, const D: bool, const WORDS: usize, const SIZE: usize>(
    c: &C,
    obs: &mut Obs,
) -> R {
    type P<const X: u16, const Y: u16> = Pos<X, Y>;
    let world = World::new(&c.maze, X, Y, D);
    let n = world.n();
    let orig: P<X, Y> = pos_of(c.orig);
    let o = rank(&orig);
    let is_goal: Vec<bool> = {
        let mut v = vec![false; n];
        match &c.goal {
            Goal::Cells(ps) => ps.iter().for_each(|p| v[rank(&pos_of::<X, Y>(*p))] = true),
            Goal::Row(y) => (0..n).for_each(|i| v[i] = i / world.w == y.at(Y) as usize),
            Goal::Column(x) => (0..n).for_each(|i| v[i] = i % world.w == x.at(X) as usize),
            Goal::Border => {
                (0..n).for_each(|i| v[i] = i % world.w == X as usize || i / world.w == Y as usize)
            }
            Goal::All => v.fill(true),
            Goal::Random(k, s) => (0..n)
                .for_each(|i| v[i] = mix(s ^ mix(i as u64)) >> (64 - 1 - (*k as u32 % 8)) == 0),
        }
        v
    };
    let dist = world.distances(o);
    let best = (0..n).filter(|i| is_goal[*i]).filter_map(|i| dist[i]).min();
    obs.nt(best.is_none_or(|b| b > 0) && n > 1);
    obs.label(c.maze.label());
    obs.label(match best {
        None => "unreachable",
        Some(0) => "origin-is-goal",
        Some(b) if b as usize > world.w * world.w => "longer-than-width-squared",
        Some(b) if b > 20 => "long",
        _ => "short",
    });

    let go = |p: P<X, Y>, d: Dir| world.go(p, d);
    let go: &dyn Fn(P<X, Y>, Dir) -> Option<P<X, Y>> = &go;
    let found = |p: P<X, Y>| is_goal[rank(&p)];
    let found: &dyn Fn(P<X, Y>) -> bool = &found;
    let judge_path = |what: &str, got: Path<X, Y>| -> R {
        let (dest, got) = match got {
            Ok((dest, path)) => {
                let dest = rank(&dest);
                ensure!(
                    is_goal[dest],
                    "{what} on {}x{}: {} is not a goal",
                    world.w,
                    world.h,
                    world.at(dest)
                );
                (dest, Ok(path))
            }
            Err(e) => (o, Err(e)),
        };
        let want = best.map_or(Want::Unreachable, |b| Want::Total(b as u128));
        world.reset();
        judge(&world, what, o, dest, &got, &want, &|_, _| 1)
    };

    type S<const X: u16, const Y: u16, const D: bool, const WORDS: usize, const SIZE: usize> =
        Sqrid<X, Y, D, WORDS, SIZE>;
    // The harness's own map and set first: it notices what does not end.
    judge_path(
        "bf::search_path",
        sqrid::bf::search_path::<_, _, VecMap<Option<Dir>>, VecSet, P<X, Y>, D, WORDS, SIZE>(
            go, &orig, found,
        ),
    )?;
    judge_path("bfs_path", S::<X, Y, D, WORDS, SIZE>::bfs_path(go, &orig, found))?;
    judge_path("bfs_path_grid", S::<X, Y, D, WORDS, SIZE>::bfs_path_grid(go, &orig, found))?;
    judge_path("bfs_path_hash", S::<X, Y, D, WORDS, SIZE>::bfs_path_hash(go, &orig, found))?;
    judge_path("bfs_path_btree", S::<X, Y, D, WORDS, SIZE>::bfs_path_btree(go, &orig, found))?;
    judge_path(
        "bf::search_path_grid",
        sqrid::bf::search_path_grid::<_, _, P<X, Y>, D, WORDS, SIZE>(go, &orig, found),
    )?;

    // The came-from map itself
    let map = sqrid::bf::search_mapmov::<
        _,
        _,
        Grid<Option<Dir>, P<X, Y>, SIZE>,
        Gridbool<P<X, Y>, WORDS>,
        P<X, Y>,
        D,
        WORDS,
        SIZE,
    >(go, &orig, found);
    let as_path = match map {
        Err(e) => Err(e),
        Ok((dest, map)) => {
            let get = |i: usize| {
                *MapPos::<Option<Dir>, P<X, Y>, WORDS, SIZE>::get(&map, &unrank::<X, Y>(i))
            };
            let d = rank(&dest);
            // Documented: the destination is in the map
            ensure!(get(d).is_some(), "search_mapmov: goal {} is not in the map", world.at(d));
            let path = follow(world.w, world.h, o, d, &get).map_err(|e| {
                format!("search_mapmov from {} to {}: {e}", world.at(o), world.at(d))
            })?;
            Ok((dest, path))
        }
    };
    judge_path("bf::search_mapmov", as_path)
}

fn one<const X: u16, const Y: u16, const WORDS: usize, const SIZE: usize>(
    c: &C,
    obs: &mut Obs,
) -> R {
    if c.d {
        run::<X, Y, true, WORDS, SIZE>(c, obs)
    } else {
        run::<X, Y, false, WORDS, SIZE>(c, obs)
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Ra {
    dim: usize,
    d: bool,
    race: Race,
}

/// Entry points that keep nothing per cell
fn huge<const X: u16, const Y: u16, const D: bool, const WORDS: usize, const SIZE: usize>(
    c: &Ra,
    obs: &mut Obs,
) -> R {
    type S<const X: u16, const Y: u16, const D: bool, const WORDS: usize, const SIZE: usize> =
        Sqrid<X, Y, D, WORDS, SIZE>;
    judge_race(
        &c.race,
        (X, Y, D),
        obs,
        None,
        &[
            ("bfs_path_btree", &|t| {
                let found = |p: Pos<X, Y>| rank(&p) == t.dest;
                let got = S::<X, Y, D, WORDS, SIZE>::bfs_path_btree(
                    |p, d| t.go(p, d),
                    &unrank(t.orig),
                    found,
                );
                got.map(|(_, path)| path)
            }),
            ("bfs_path_hash", &|t| {
                let found = |p: Pos<X, Y>| rank(&p) == t.dest;
                let got = S::<X, Y, D, WORDS, SIZE>::bfs_path_hash(
                    |p, d| t.go(p, d),
                    &unrank(t.orig),
                    found,
                );
                got.map(|(_, path)| path)
            }),
        ],
    )
}

/// All entry points
fn stored<const X: u16, const Y: u16, const D: bool, const WORDS: usize, const SIZE: usize>(
    c: &Ra,
    obs: &mut Obs,
) -> R {
    type S<const X: u16, const Y: u16, const D: bool, const WORDS: usize, const SIZE: usize> =
        Sqrid<X, Y, D, WORDS, SIZE>;
    huge::<X, Y, D, WORDS, SIZE>(c, obs)?;
    judge_race(
        &c.race,
        (X, Y, D),
        &mut Obs::default(),
        None,
        &[
            ("bfs_path", &|t| {
                let found = |p: Pos<X, Y>| rank(&p) == t.dest;
                let got =
                    S::<X, Y, D, WORDS, SIZE>::bfs_path(|p, d| t.go(p, d), &unrank(t.orig), found);
                got.map(|(_, path)| path)
            }),
            ("bfs_path_grid", &|t| {
                let found = |p: Pos<X, Y>| rank(&p) == t.dest;
                let got = S::<X, Y, D, WORDS, SIZE>::bfs_path_grid(
                    |p, d| t.go(p, d),
                    &unrank(t.orig),
                    found,
                );
                got.map(|(_, path)| path)
            }),
        ],
    )
}

fn one_huge<const X: u16, const Y: u16, const WORDS: usize, const SIZE: usize>(
    c: &Ra,
    obs: &mut Obs,
) -> R {
    if c.d {
        huge::<X, Y, true, WORDS, SIZE>(c, obs)
    } else {
        huge::<X, Y, false, WORDS, SIZE>(c, obs)
    }
}

fn one_stored<const X: u16, const Y: u16, const WORDS: usize, const SIZE: usize>(
    c: &Ra,
    obs: &mut Obs,
) -> R {
    if c.d {
        stored::<X, Y, true, WORDS, SIZE>(c, obs)
    } else {
        stored::<X, Y, false, WORDS, SIZE>(c, obs)
    }
}

type FnRa = fn(&Ra, &mut Obs) -> R;

fn races(c: &Ra, obs: &mut Obs) -> R {
    let t = race_dims!(__tab_search; one_stored, FnRa);
    (t[c.dim % t.len()].2)(c, obs)
}

fn races_huge(c: &Ra, obs: &mut Obs) -> R {
    let t = race_dims_huge!(__tab_search; one_huge, FnRa);
    (t[c.dim % t.len()].2)(c, obs)
}

fn gen_race() -> BoxedStrategy<Ra> {
    (0usize..64, any::<bool>(), race()).prop_map(|(dim, d, race)| Ra { dim, d, race }).boxed()
}

type Fn_ = fn(&C, &mut Obs) -> R;

fn small(c: &C, obs: &mut Obs) -> R {
    let t = search_dims!(__tab_search; one, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}

fn large(c: &C, obs: &mut Obs) -> R {
    let t = search_dims_big!(__tab_search; one, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}

fn goal() -> BoxedStrategy<Goal> {
    prop_oneof![
        5 => prop::collection::vec(cxy(), 1..4).prop_map(Goal::Cells),
        1 => prop::collection::vec(cxy(), 0..1).prop_map(Goal::Cells),
        1 => co().prop_map(Goal::Row),
        1 => co().prop_map(Goal::Column),
        1 => Just(Goal::Border),
        1 => Just(Goal::All),
        2 => (0u8..8, any::<u64>()).prop_map(|(k, s)| Goal::Random(k, s)),
    ]
    .boxed()
}

fn gen(n: usize, cells: usize) -> BoxedStrategy<C> {
    (0..n, any::<bool>(), maze(cells), cxy(), goal())
        .prop_map(|(dim, d, maze, orig, goal)| C { dim, d, maze, orig, goal })
        .boxed()
}

fn main() {
    main_check(
        "C19",
        &[
            &Facet {
                name: "small",
                rule: "mazes of eight styles on grids of up to 183 cells, any origin and goal set, all entry points, against a reference breadth-first search; non-trivial unless the origin is a goal",
                quick: 700_000,
                thorough: 10_500_000,
                strategy: |_| gen(64, 80),
                test: small,
            },
            &Facet {
                name: "large",
                rule: "as small, on grids of up to 131072 cells with paths of up to tens of thousands of moves",
                quick: 1_000,
                thorough: 15_000,
                strategy: |_| gen(64, 4),
                test: large,
            },
            &Facet {
                name: "races",
                rule: "two ends joined by one to three corridors of nearly equal lengths, up to 9000 moves, along an axis or a diagonal, all entry points, against a reference breadth-first search over the corridors; non-trivial when the fewest moves are more than the straight way",
                quick: 1500,
                thorough: 30000,
                strategy: |_| gen_race(),
                test: races,
            },
            &Facet {
                name: "races-huge",
                rule: "as races, on extents of up to 65536x65536, with the entry points that keep nothing per cell",
                quick: 2250,
                thorough: 45000,
                strategy: |_| gen_race(),
                test: races_huge,
            },
        ],
        &[],
    );
}
