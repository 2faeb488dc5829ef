//! C23: following a came-from map gives the path or the right error.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sqrid::{camefrom_into_path, Dir, Error, Grid, Pos, Sqrid};
use std::collections::{BTreeMap, HashMap};
use vh::gen::*;
use vh::maze::*;
use vh::*;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Field {
    /// Explicit entries (0..8 a direction, 8 none), the others none
    Cells(Vec<u8>),
    /// Entries at given cells
    Sparse(Vec<(Cxy, u8)>),
    /// Drawn from a seed; about one in (k+1) missing
    Random(u64, u8),
    /// Random, leaning to one direction
    Wind(u64, u8),
    /// Snake through rows (or columns), towards the start or the end
    Snake(bool, bool),
    /// Tree of the backward directions of a breadth-first search of a maze from a root
    Tree(Maze, bool, Cxy),
    /// Inward spiral (or outward)
    Spiral(bool),
    /// A snake or spiral with some cells changed
    Changed(Box<Field>, Vec<(Cxy, u8)>),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct C {
    dim: usize,
    field: Field,
    orig: Cxy,
    dest: Cxy,
    /// Place the origin where following the map from the destination leads after so many steps
    along: Option<u32>,
}

fn build<const X: u16, const Y: u16>(f: &Field) -> Vec<Option<u8>> {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    let n = w * h;
    match f {
        Field::Cells(v) => (0..n).map(|i| v.get(i).copied().filter(|b| *b < 8)).collect(),
        Field::Sparse(v) => {
            let mut m = vec![None; n];
            for (p, b) in v {
                m[rank(&pos_of::<X, Y>(*p))] = Some(*b).filter(|b| *b < 8);
            }
            m
        }
        Field::Random(s, k) => (0..n)
            .map(|i| {
                let r = mix(s ^ mix(i as u64));
                ((r >> 8) % (*k as u64 + 1) != 0).then_some((r >> 40) as u8 % 8)
            })
            .collect(),
        Field::Wind(s, k) => (0..n)
            .map(|i| {
                let r = mix(s ^ mix(i as u64));
                Some((*k + [0, 0, 0, 1, 7, 0, 2, 6][r as usize % 8]) % 8)
            })
            .collect(),
        Field::Snake(rows, back) => (0..n)
            .map(|i| {
                let (x, y) = (i % w, i / w);
                let (a, b, la) = if *rows { (x, y, w) } else { (y, x, h) };
                let forward = b % 2 == 0;
                // directions along and across, towards the start
                let (fw, bw, up, down) = if *rows { (2, 6, 0, 4) } else { (4, 0, 6, 2) };
                Some(if *back {
                    match (forward, a) {
                        (true, 0) => up,
                        (true, _) => bw,
                        (false, a) if a == la - 1 => up,
                        (false, _) => fw,
                    }
                } else {
                    match (forward, a) {
                        (true, a) if a == la - 1 => down,
                        (true, _) => fw,
                        (false, 0) => down,
                        (false, _) => bw,
                    }
                })
            })
            .collect(),
        Field::Tree(m, d, root) => {
            let world = World::new(m, X, Y, *d);
            let root = rank(&pos_of::<X, Y>(*root));
            let mut out = vec![None; n];
            let mut seen = vec![false; n];
            seen[root] = true;
            out[root] = Some(0);
            let mut q = std::collections::VecDeque::from([root]);
            while let Some(i) = q.pop_front() {
                for k in world.dirs() {
                    if let Some(j) = world.step(i, k) {
                        if !seen[j] {
                            seen[j] = true;
                            out[j] = Some(((k + 4) % 8) as u8);
                            q.push_back(j);
                        }
                    }
                }
            }
            out
        }
        Field::Spiral(out) => {
            let mut m = vec![None; n];
            let (mut x, mut y, mut k) = (0i64, 0i64, 2usize);
            let mut order = vec![];
            let mut seen = vec![false; n];
            loop {
                order.push((x, y));
                seen[y as usize * w + x as usize] = true;
                let mut moved = false;
                for _ in 0..2 {
                    let (nx, ny) = (x + DIRS[k].1 as i64, y + DIRS[k].2 as i64);
                    let free = nx >= 0
                        && ny >= 0
                        && nx < w as i64
                        && ny < h as i64
                        && !seen[ny as usize * w + nx as usize];
                    if free {
                        (x, y) = (nx, ny);
                        moved = true;
                        break;
                    }
                    k = (k + 2) % 8;
                }
                if !moved {
                    break;
                }
            }
            if *out {
                order.reverse();
            }
            for p in order.windows(2) {
                let k = DIRS
                    .iter()
                    .position(|d| d.1 as i64 == p[1].0 - p[0].0 && d.2 as i64 == p[1].1 - p[0].1);
                m[p[0].1 as usize * w + p[0].0 as usize] = k.map(|k| k as u8);
            }
            m
        }
        Field::Changed(f, v) => {
            let mut m = build::<X, Y>(f);
            for (p, b) in v {
                m[rank(&pos_of::<X, Y>(*p))] = Some(*b).filter(|b| *b < 8);
            }
            m
        }
    }
}

/// Where the map leads from a cell, if anywhere.
fn back(m: &[Option<u8>], w: usize, h: usize, i: usize) -> Option<usize> {
    let k = m[i]? as usize;
    let (x, y) = ((i % w) as i64 + DIRS[k].1 as i64, (i / w) as i64 + DIRS[k].2 as i64);
    (x >= 0 && y >= 0 && x < w as i64 && y < h as i64).then(|| y as usize * w + x as usize)
}

fn one<const X: u16, const Y: u16, const WORDS: usize, const SIZE: usize>(
    c: &C,
    obs: &mut Obs,
) -> R {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    let m = build::<X, Y>(&c.field);
    let t = rank(&pos_of::<X, Y>(c.dest));
    let o = match c.along {
        None => rank(&pos_of::<X, Y>(c.orig)),
        Some(k) => {
            let mut i = t;
            for _ in 0..k as usize % (w * h) {
                match back(&m, w, h, i) {
                    Some(j) => i = j,
                    None => break,
                }
            }
            i
        }
    };
    // Follow the map: the directions of the path, or what went wrong
    let mut want: Result<Vec<Dir>, Error> = Ok(vec![]);
    let mut i = t;
    let mut seen = vec![false; w * h];
    while i != o {
        if seen[i] {
            want = Err(Error::Loop);
            break;
        }
        seen[i] = true;
        match back(&m, w, h, i) {
            Some(j) => {
                let k = m[i].expect("direction") as usize;
                if let Ok(p) = &mut want {
                    p.push(DIRS[(k + 4) % 8].0);
                }
                i = j;
            }
            None => {
                want = Err(Error::InvalidMovement);
                break;
            }
        }
    }
    if let Ok(p) = &mut want {
        p.reverse();
    }
    let absent = m[t].is_none();
    if absent {
        want = Err(Error::DestinationUnreachable);
    }
    obs.nt(o != t && m[t].is_some());
    obs.label(match &want {
        Ok(p) if p.is_empty() => "empty-path",
        Ok(p) if p.len() > w * w => "path-longer-than-width-squared",
        Ok(p) if p.len() > 20 => "long-path",
        Ok(_) => "path",
        Err(Error::Loop) => "loop",
        Err(Error::InvalidMovement) => "invalid",
        Err(_) => "absent",
    });

    let orig: Pos<X, Y> = unrank(o);
    let dest: Pos<X, Y> = unrank(t);
    let entry = |i: usize| m[i].map(|k| DIRS[k as usize].0);
    let check = |what: &str, got: Result<Vec<Dir>, Error>| -> R {
        let ctx =
            || format!("{what} on {w}x{h} from ({},{}) to ({},{})", o % w, o / w, t % w, t / w);
        // Nothing says whether an absent destination that is the origin is an error.
        if absent && o == t && got == Ok(vec![]) {
            return Ok(());
        }
        match (&got, &want) {
            (Ok(g), Ok(e)) => ensure!(
                g == e,
                "{}: got a path of {} moves, expected the map's {} moves (first difference at {:?})",
                ctx(),
                g.len(),
                e.len(),
                g.iter().zip(e).position(|(a, b)| a != b)
            ),
            (Err(g), Err(e)) => ensure!(g == e, "{}: got error {g:?}, expected {e:?}", ctx()),
            (Ok(g), Err(e)) => {
                return Err(format!("{}: got a path of {} moves, expected {e:?}", ctx(), g.len()))
            }
            (Err(g), Ok(e)) => {
                return Err(format!("{}: got {g:?}, expected a path of {} moves", ctx(), e.len()))
            }
        }
        Ok(())
    };
    type S<const X: u16, const Y: u16, const D: bool, const WORDS: usize, const SIZE: usize> =
        Sqrid<X, Y, D, WORDS, SIZE>;
    // The harness's own map first: it notices what does not end.
    let mut vm = VecMap::<Option<Dir>>::default();
    let mut hm: (HashMap<Pos<X, Y>, Option<Dir>>, Option<Dir>) = Default::default();
    let mut bm: (BTreeMap<Pos<X, Y>, Option<Dir>>, Option<Dir>) = Default::default();
    for i in 0..w * h {
        if let Some(d) = entry(i) {
            vm.v.insert(i, Some(d));
            hm.0.insert(unrank(i), Some(d));
            bm.0.insert(unrank(i), Some(d));
        } else if i % 3 == 0 {
            // an explicit "none" is the same as nothing
            hm.0.insert(unrank(i), None);
            bm.0.insert(unrank(i), None);
        }
    }
    check(
        "camefrom_into_path (harness map)",
        camefrom_into_path::<_, _, WORDS, SIZE>(vm, &orig, &dest),
    )?;
    let g: Grid<Option<Dir>, Pos<X, Y>, SIZE> = (0..w * h).map(entry).collect();
    check(
        "camefrom_into_path (grid)",
        camefrom_into_path::<_, _, WORDS, SIZE>(g.clone(), &orig, &dest),
    )?;
    check(
        "Sqrid::camefrom_into_path (grid)",
        S::<X, Y, false, WORDS, SIZE>::camefrom_into_path(g, &orig, &dest),
    )?;
    check("camefrom_into_path (hash)", camefrom_into_path::<_, _, WORDS, SIZE>(hm, &orig, &dest))?;
    check(
        "Sqrid::camefrom_into_path (btree)",
        S::<X, Y, true, WORDS, SIZE>::camefrom_into_path(bm, &orig, &dest),
    )
}

type Fn_ = fn(&C, &mut Obs) -> R;

fn small(c: &C, obs: &mut Obs) -> R {
    let t = search_dims!(__tab_search; one, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}

fn large(c: &C, obs: &mut Obs) -> R {
    let t = search_dims_big!(__tab_search; one, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}

fn field(large: bool) -> BoxedStrategy<Field> {
    let path = prop_oneof![
        2 => any::<(bool, bool)>().prop_map(|(a, b)| Field::Snake(a, b)),
        1 => any::<bool>().prop_map(Field::Spiral),
        2 => (maze(60), any::<bool>(), cxy()).prop_map(|(m, d, p)| Field::Tree(m, d, p)),
    ]
    .boxed();
    let changed = (path.clone(), prop::collection::vec((cxy(), 0u8..9), 1..4))
        .prop_map(|(f, v)| Field::Changed(Box::new(f), v));
    if large {
        prop_oneof![4 => path, 3 => changed, 1 => (any::<u64>(), 0u8..8).prop_map(|(s, k)| Field::Wind(s, k))]
            .boxed()
    } else {
        prop_oneof![
            3 => prop::collection::vec(0u8..9, 0..60).prop_map(Field::Cells),
            2 => prop::collection::vec((cxy(), 0u8..9), 0..12).prop_map(Field::Sparse),
            2 => (any::<u64>(), 1u8..12).prop_map(|(s, k)| Field::Random(s, k)),
            2 => (any::<u64>(), 0u8..8).prop_map(|(s, k)| Field::Wind(s, k)),
            4 => path,
            3 => changed,
        ]
        .boxed()
    }
}

fn gen(n: usize, large: bool) -> BoxedStrategy<C> {
    (0..n, field(large), cxy(), cxy(), prop::option::of(prop_oneof![0u32..12, any::<u32>()]))
        .prop_map(|(dim, field, orig, dest, along)| C { dim, field, orig, dest, along })
        .boxed()
}

/// Every map on 2x2 and 3x1 and 1x3 grids, with every origin and destination.
fn all_maps(c: &(u8, u32), obs: &mut Obs) -> R {
    let (shape, code) = *c;
    let n = if shape == 0 { 4 } else { 3 };
    let mut v = vec![];
    let mut k = code;
    for _ in 0..n {
        v.push((k % 9) as u8);
        k /= 9;
    }
    for o in 0..n as u16 {
        for t in 0..n as u16 {
            let at = |i: u16| match shape {
                0 => (Co(0, i % 2), Co(0, i / 2)),
                1 => (Co(0, i), Co(0, 0)),
                _ => (Co(0, 0), Co(0, i)),
            };
            let case =
                C { dim: 0, field: Field::Cells(v.clone()), orig: at(o), dest: at(t), along: None };
            match shape {
                0 => one::<1, 1, 1, 4>(&case, obs)?,
                1 => one::<2, 0, 1, 3>(&case, obs)?,
                _ => one::<0, 2, 1, 3>(&case, obs)?,
            }
        }
    }
    Ok(())
}

fn main() {
    main_check(
        "C23",
        &[
            &Exhaustive {
                name: "all-small-maps",
                rule: "every map of directions on grids of 2x2, 3x1 and 1x3, every origin and destination",
                cases: |_| {
                    let mut v: Vec<(u8, u32)> = (0..9u32.pow(4)).map(|k| (0, k)).collect();
                    for s in 1..3 {
                        v.extend((0..9u32.pow(3)).map(|k| (s, k)));
                    }
                    v
                },
                test: all_maps,
            },
            &Facet {
                name: "small",
                rule: "maps of eight kinds (explicit, sparse, random, wind, snakes, spirals, search trees, those with some cells changed) on grids of up to 183 cells, followed by the harness; non-trivial when origin and destination differ and the destination has a direction",
                quick: 1_000_000,
                thorough: 15_000_000,
                strategy: |_| gen(64, false),
                test: small,
            },
            &Facet {
                name: "large",
                rule: "as small, on grids of up to 131072 cells with paths over all of them",
                quick: 1_000,
                thorough: 15_000,
                strategy: |_| gen(64, true),
                test: large,
            },
        ],
        &[],
    );
}
