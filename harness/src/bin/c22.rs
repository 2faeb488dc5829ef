//! C22: all map and set backends behave the same.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sqrid::{Dir, Error, Grid, Gridbool, MapPos, Pos, SetPos, Sqrid};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use vh::gen::*;
use vh::maze::*;
use vh::*;

/* Maps and sets against a model *********************************************/

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct M {
    dim: usize,
    init: Option<i32>,
    /// (operation, position, value)
    ops: Vec<(u8, Cxy, i32)>,
}

fn map_history<Map, const X: u16, const Y: u16, const WORDS: usize, const SIZE: usize>(
    c: &M,
    name: &str,
) -> R
where
    Map: MapPos<i32, Pos<X, Y>, WORDS, SIZE> + Default,
{
    let init = c.init.unwrap_or_default();
    let mut map = match c.init {
        Some(i) => Map::new(i),
        None => Map::default(),
    };
    let mut model: HashMap<usize, i32> = HashMap::new();
    let ctx = |n: usize, i: usize| {
        format!("{name} on {}x{}, step {n}: get of cell {i}", X as usize + 1, Y as usize + 1)
    };
    for (n, (op, p, v)) in c.ops.iter().enumerate() {
        let p: Pos<X, Y> = pos_of(*p);
        let i = rank(&p);
        match op % 4 {
            0 | 1 => {
                map.set(p, *v);
                model.insert(i, *v);
            }
            2 => {
                // setting back to the initial value is not removing
                map.set(p, init);
                model.insert(i, init);
            }
            _ => {}
        }
        ensure_eq!(*map.get(&p), *model.get(&i).unwrap_or(&init), "{}", ctx(n, i));
    }
    let all: Box<dyn Iterator<Item = usize>> = if SIZE <= 2000 {
        Box::new(0..SIZE)
    } else {
        let mut v: Vec<usize> = model.keys().flat_map(|i| [*i, i + 1, i.wrapping_sub(1)]).collect();
        v.extend([0, SIZE - 1]);
        Box::new(v.into_iter().filter(|i| *i < SIZE))
    };
    for i in all {
        let got = *map.get(&unrank::<X, Y>(i));
        ensure_eq!(got, *model.get(&i).unwrap_or(&init), "{}", ctx(c.ops.len(), i));
    }
    Ok(())
}

fn set_history<Set, const X: u16, const Y: u16, const WORDS: usize, const SIZE: usize>(
    c: &M,
    name: &str,
) -> R
where
    Set: SetPos<Pos<X, Y>, WORDS, SIZE> + Default,
{
    let mut set = Set::default();
    let mut model: HashSet<usize> = HashSet::new();
    let ctx = |n: usize, i: usize| {
        format!("{name} on {}x{}, step {n}: contains cell {i}", X as usize + 1, Y as usize + 1)
    };
    for (n, (op, p, v)) in c.ops.iter().enumerate() {
        let p: Pos<X, Y> = pos_of(*p);
        let i = rank(&p);
        match op % 6 {
            0 | 1 => {
                set.insert(p);
                model.insert(i);
            }
            2 => {
                set.remove(&p);
                model.remove(&i);
            }
            3 | 4 => {
                set.set(p, v % 2 == 0);
                if v % 2 == 0 {
                    model.insert(i);
                } else {
                    model.remove(&i);
                }
            }
            _ => {}
        }
        ensure_eq!(set.contains(&p), model.contains(&i), "{}", ctx(n, i));
    }
    let all: Box<dyn Iterator<Item = usize>> = if SIZE <= 2000 {
        Box::new(0..SIZE)
    } else {
        let mut v: Vec<usize> = model.iter().flat_map(|i| [*i, i + 1, i.wrapping_sub(1)]).collect();
        v.extend([0, SIZE - 1]);
        Box::new(v.into_iter().filter(|i| *i < SIZE))
    };
    for i in all {
        ensure_eq!(set.contains(&unrank::<X, Y>(i)), model.contains(&i), "{}", ctx(c.ops.len(), i));
    }
    Ok(())
}

fn models<const X: u16, const Y: u16, const WORDS: usize, const SIZE: usize>(
    c: &M,
    obs: &mut Obs,
) -> R {
    let touched: HashSet<usize> = c.ops.iter().map(|o| rank(&pos_of::<X, Y>(o.1))).collect();
    obs.nt(c.ops.len() > 2 && touched.len() < c.ops.len() && SIZE > 1);
    obs.label_if(touched.len() > 1, "several-cells");
    obs.label_if(c.init.is_some(), "given-initial-value");
    map_history::<Grid<i32, Pos<X, Y>, SIZE>, X, Y, WORDS, SIZE>(c, "Grid")?;
    map_history::<(HashMap<Pos<X, Y>, i32>, i32), X, Y, WORDS, SIZE>(c, "HashMap")?;
    map_history::<(BTreeMap<Pos<X, Y>, i32>, i32), X, Y, WORDS, SIZE>(c, "BTreeMap")?;
    set_history::<Gridbool<Pos<X, Y>, WORDS>, X, Y, WORDS, SIZE>(c, "Gridbool")?;
    set_history::<HashSet<Pos<X, Y>>, X, Y, WORDS, SIZE>(c, "HashSet")?;
    set_history::<BTreeSet<Pos<X, Y>>, X, Y, WORDS, SIZE>(c, "BTreeSet")
}

type FnM = fn(&M, &mut Obs) -> R;

fn models_small(c: &M, obs: &mut Obs) -> R {
    let t = grid_dims!(__tab_search; models, FnM);
    (t[c.dim % t.len()].2)(c, obs)
}

fn models_large(c: &M, obs: &mut Obs) -> R {
    let t = search_dims_big!(__tab_search; models, FnM);
    (t[c.dim % t.len()].2)(c, obs)
}

/* Searches against each other ***********************************************/

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct S {
    dim: usize,
    d: bool,
    maze: Maze,
    orig: Cxy,
    dest: Cxy,
    /// Costs are drawn from this for the cost comparison
    salt: u64,
}

fn agree<T: PartialEq + std::fmt::Debug>(rs: &[(&str, T)], ctx: &str) -> R {
    for r in &rs[1..] {
        ensure!(r.1 == rs[0].1, "{ctx}: {} gives {:?}, {} gives {:?}", rs[0].0, rs[0].1, r.0, r.1);
    }
    Ok(())
}

fn searches_d<const X: u16, const Y: u16, const D: bool, const WORDS: usize, const SIZE: usize>(
    c: &S,
    obs: &mut Obs,
) -> R {
    let world = World::new(&c.maze, X, Y, D);
    let orig: Pos<X, Y> = pos_of(c.orig);
    let dest: Pos<X, Y> = pos_of(c.dest);
    obs.nt(orig != dest);
    obs.label(c.maze.label());
    let cost = |i: usize, k: usize| (mix(c.salt ^ mix((i * 8 + k) as u64)) % 12) as usize;
    let go = |p: Pos<X, Y>, d: Dir| world.go(p, d);
    let go: &dyn Fn(Pos<X, Y>, Dir) -> Option<Pos<X, Y>> = &go;
    let go1 = |p: Pos<X, Y>, d: Dir| world.go(p, d).map(|n| (n, 1));
    let go1: &dyn Fn(Pos<X, Y>, Dir) -> Option<(Pos<X, Y>, usize)> = &go1;
    let goc = |p: Pos<X, Y>, d: Dir| world.go(p, d).map(|n| (n, cost(rank(&p), didx(d))));
    let goc: &dyn Fn(Pos<X, Y>, Dir) -> Option<(Pos<X, Y>, usize)> = &goc;
    let found = |p: Pos<X, Y>| p == dest;
    let found: &dyn Fn(Pos<X, Y>) -> bool = &found;
    let ctx = format!(
        "{}x{} (diagonals {D}) from {} to {}",
        world.w,
        world.h,
        world.at(rank(&orig)),
        world.at(rank(&dest))
    );

    type Len = Result<usize, Error>;
    let mut lens: Vec<(&str, Len)> = vec![];
    let mut push = |name: &'static str, r: Result<Vec<Dir>, Error>| {
        world.reset();
        lens.push((name, r.map(|v| v.len())));
    };
    type Q<const X: u16, const Y: u16, const D: bool, const WORDS: usize, const SIZE: usize> =
        Sqrid<X, Y, D, WORDS, SIZE>;
    let nodest = |r: Result<(Pos<X, Y>, Vec<Dir>), Error>| r.map(|t| t.1);
    push("bfs_path", nodest(Q::<X, Y, D, WORDS, SIZE>::bfs_path(go, &orig, found)));
    push("bfs_path_grid", nodest(Q::<X, Y, D, WORDS, SIZE>::bfs_path_grid(go, &orig, found)));
    push("bfs_path_hash", nodest(Q::<X, Y, D, WORDS, SIZE>::bfs_path_hash(go, &orig, found)));
    push("bfs_path_btree", nodest(Q::<X, Y, D, WORDS, SIZE>::bfs_path_btree(go, &orig, found)));
    push("astar_path", Q::<X, Y, D, WORDS, SIZE>::astar_path(go, &orig, &dest));
    push("astar_path_grid", Q::<X, Y, D, WORDS, SIZE>::astar_path_grid(go, &orig, &dest));
    push("astar_path_hash", Q::<X, Y, D, WORDS, SIZE>::astar_path_hash(go, &orig, &dest));
    push("astar_path_btree", Q::<X, Y, D, WORDS, SIZE>::astar_path_btree(go, &orig, &dest));
    push("unit ucs_path", Q::<X, Y, D, WORDS, SIZE>::ucs_path(go1, &orig, &dest));
    push("unit ucs_path_grid", Q::<X, Y, D, WORDS, SIZE>::ucs_path_grid(go1, &orig, &dest));
    push("unit ucs_path_hash", Q::<X, Y, D, WORDS, SIZE>::ucs_path_hash(go1, &orig, &dest));
    push("unit ucs_path_btree", Q::<X, Y, D, WORDS, SIZE>::ucs_path_btree(go1, &orig, &dest));
    // mixed backends through the generic interface
    push(
        "bf::search_path with BTreeMap and Gridbool",
        nodest(sqrid::bf::search_path::<
            _,
            _,
            (BTreeMap<Pos<X, Y>, Option<Dir>>, Option<Dir>),
            Gridbool<Pos<X, Y>, WORDS>,
            Pos<X, Y>,
            D,
            WORDS,
            SIZE,
        >(go, &orig, found)),
    );
    push(
        "astar::search_path with Grid and HashMap",
        sqrid::astar::search_path::<
            _,
            Grid<Option<Dir>, Pos<X, Y>, SIZE>,
            (HashMap<Pos<X, Y>, usize>, usize),
            Pos<X, Y>,
            D,
            WORDS,
            SIZE,
        >(go, &orig, &dest),
    );
    push(
        "unit ucs::search_path with HashMap and Grid",
        sqrid::ucs::search_path::<
            _,
            (HashMap<Pos<X, Y>, Option<Dir>>, Option<Dir>),
            Grid<usize, Pos<X, Y>, SIZE>,
            Pos<X, Y>,
            D,
            WORDS,
            SIZE,
        >(go1, &orig, &dest),
    );
    obs.label(if lens[0].1.is_ok() { "reachable" } else { "unreachable" });
    agree(&lens, &ctx)?;

    // Costs
    let mut costs: Vec<(&str, Result<u128, Error>)> = vec![];
    for (name, r) in [
        ("ucs_path_grid", Q::<X, Y, D, WORDS, SIZE>::ucs_path_grid(goc, &orig, &dest)),
        ("ucs_path_hash", Q::<X, Y, D, WORDS, SIZE>::ucs_path_hash(goc, &orig, &dest)),
        ("ucs_path_btree", Q::<X, Y, D, WORDS, SIZE>::ucs_path_btree(goc, &orig, &dest)),
    ] {
        world.reset();
        costs.push((
            name,
            match r {
                Ok(p) => Ok(world.walk(rank(&orig), &p, &cost)?.1),
                Err(e) => Err(e),
            },
        ));
    }
    agree(&costs, &ctx)?;

    // Layers
    let layers = |it: &mut dyn Iterator<Item = Vec<(Pos<X, Y>, Dir)>>| -> Vec<Vec<usize>> {
        let mut v = vec![];
        for layer in it.take(world.n() + 1) {
            let mut l: Vec<usize> = layer.iter().map(|(p, _)| rank(p)).collect();
            l.sort_unstable();
            v.push(l);
        }
        world.reset();
        v
    };
    agree(
        &[
            ("bf_iter", layers(&mut Q::<X, Y, D, WORDS, SIZE>::bf_iter(go, &orig))),
            ("bf_iter_grid", layers(&mut Q::<X, Y, D, WORDS, SIZE>::bf_iter_grid(go, &orig))),
            ("bf_iter_hash", layers(&mut Q::<X, Y, D, WORDS, SIZE>::bf_iter_hash(go, &orig))),
            ("bf_iter_btree", layers(&mut Q::<X, Y, D, WORDS, SIZE>::bf_iter_btree(go, &orig))),
        ],
        &ctx,
    )
}

fn searches<const X: u16, const Y: u16, const WORDS: usize, const SIZE: usize>(
    c: &S,
    obs: &mut Obs,
) -> R {
    if c.d {
        searches_d::<X, Y, true, WORDS, SIZE>(c, obs)
    } else {
        searches_d::<X, Y, false, WORDS, SIZE>(c, obs)
    }
}

type FnS = fn(&S, &mut Obs) -> R;

fn searches_t(c: &S, obs: &mut Obs) -> R {
    let t = search_dims!(__tab_search; searches, FnS);
    (t[c.dim % t.len()].2)(c, obs)
}

fn history(max: usize) -> BoxedStrategy<M> {
    (
        0usize..500,
        prop::option::of(any::<i32>()),
        prop::collection::vec((0u8..12, cxy(), -3i32..4), 0..max),
    )
        .prop_map(|(dim, init, ops)| M { dim, init, ops })
        .boxed()
}

fn main() {
    main_check(
        "C22",
        &[
            &Facet {
                name: "histories",
                rule: "histories of writes and reads of maps, and of insertions, removals and queries of sets, run on every backend, against a hash map and set of cell numbers; non-trivial when there are more than two operations and a cell is used twice",
                quick: 500_000,
                thorough: 7_500_000,
                strategy: |_| history(40),
                test: models_small,
            },
            &Facet {
                name: "histories-large",
                rule: "as histories, on grids of up to 131072 cells",
                quick: 10_000,
                thorough: 150_000,
                strategy: |_| history(120),
                test: models_large,
            },
            &Facet {
                name: "histories-long",
                rule: "as histories, with up to 2999 operations",
                quick: 4_000,
                thorough: 60_000,
                strategy: |_| history(3000),
                test: models_small,
            },
            &Facet {
                name: "searches",
                rule: "mazes of eight styles: every search and traversal on every backend gives the same reachability, length, cost and layers; non-trivial when origin and destination differ",
                quick: 200_000,
                thorough: 3_000_000,
                strategy: |_| {
                    (0usize..64, any::<bool>(), maze(80), cxy(), cxy(), any::<u64>())
                        .prop_map(|(dim, d, maze, orig, dest, salt)| S { dim, d, maze, orig, dest, salt })
                        .boxed()
                },
                test: searches_t,
            },
        ],
        &[],
    );
}
