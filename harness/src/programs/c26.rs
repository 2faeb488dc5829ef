// Support code of the programs generated by the check of C26: everything about one set of types
// made by the factory macros, against searches and layouts computed here from coordinates.
use sqrid::*;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::marker::PhantomData;

const DIRS: [(Dir, i64, i64); 8] = [
    (Dir::N, 0, -1),
    (Dir::NE, 1, -1),
    (Dir::E, 1, 0),
    (Dir::SE, 1, 1),
    (Dir::S, 0, 1),
    (Dir::SW, -1, 1),
    (Dir::W, -1, 0),
    (Dir::NW, -1, -1),
];

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

struct M {
    w: usize,
    h: usize,
    d: bool,
    salt: u64,
    /// Walls per 16 moves
    walls: u64,
    asked: Cell<u8>,
    calls: Cell<u64>,
}

impl M {
    fn kof(&self, d: Dir) -> usize {
        DIRS.iter().position(|t| t.0 == d).unwrap()
    }
    fn step(&self, i: usize, k: usize) -> Option<usize> {
        let (x, y) = ((i % self.w) as i64 + DIRS[k].1, (i / self.w) as i64 + DIRS[k].2);
        if x < 0 || y < 0 || x >= self.w as i64 || y >= self.h as i64 {
            return None;
        }
        let r = mix(self.salt ^ (i as u64 * 8 + k as u64).wrapping_mul(0xD134_2543_DE82_EF95));
        (r % 16 >= self.walls).then_some(y as usize * self.w + x as usize)
    }
    fn go<const X: u16, const Y: u16>(&self, p: Pos<X, Y>, d: Dir) -> Option<Pos<X, Y>> {
        self.calls.set(self.calls.get() + 1);
        assert!(self.calls.get() < 3_000_000_000 / 16, "the search does not end");
        let k = self.kof(d);
        self.asked.set(self.asked.get() | 1 << k);
        self.step(rank(&p), k).map(unrank)
    }
    fn distances(&self, o: usize) -> Vec<Option<usize>> {
        let mut dist = vec![None; self.w * self.h];
        dist[o] = Some(0);
        let mut q = VecDeque::from([o]);
        while let Some(i) = q.pop_front() {
            for k in (0..8).step_by(if self.d { 1 } else { 2 }) {
                if let Some(j) = self.step(i, k) {
                    if dist[j].is_none() {
                        dist[j] = dist[i].map(|v| v + 1);
                        q.push_back(j);
                    }
                }
            }
        }
        dist
    }
}

fn rank<const X: u16, const Y: u16>(p: &Pos<X, Y>) -> usize {
    p.0 .1 .0 as usize * (X as usize + 1) + p.0 .0 .0 as usize
}

fn unrank<const X: u16, const Y: u16>(i: usize) -> Pos<X, Y> {
    let w = X as usize + 1;
    Pos((BoundedU16((i % w) as u16), BoundedU16((i / w) as u16)))
}

/// The types are inferred from the ones the macros make: they fit together or this does not compile.
pub fn check<
    const X: u16,
    const Y: u16,
    const D: bool,
    const WORDS: usize,
    const SIZE: usize,
    const GW: usize,
>(
    _: Sqrid<X, Y, D, WORDS, SIZE>,
    _: PhantomData<Pos<X, Y>>,
    _: PhantomData<Grid<u32, Pos<X, Y>, SIZE>>,
    _: PhantomData<Gridbool<Pos<X, Y>, GW>>,
    // what was asked for
    x: usize,
    y: usize,
    d: bool,
    (salt, walls, orig, dest): (u64, u64, usize, usize),
) {
    type S<const X: u16, const Y: u16, const D: bool, const W: usize, const N: usize> = Sqrid<X, Y, D, { W }, { N }>;
    let n = (x + 1) * (y + 1);
    assert_eq!((X as usize, Y as usize), (x, y), "maximum coordinates");
    assert_eq!((S::<X, Y, D, WORDS, SIZE>::XMAX as usize, S::<X, Y, D, WORDS, SIZE>::YMAX as usize), (x, y), "XMAX and YMAX");
    assert_eq!(D, d, "diagonals");
    assert_eq!(SIZE, n, "cells of the grid");
    assert_eq!(GW, n.div_ceil(32), "words of the boolean grid");
    assert!(WORDS == n.div_ceil(32) || WORDS == n / 32 + 1, "words of the searches");
    assert_eq!(Pos::<X, Y>::width(), x + 1, "width");
    assert_eq!(Pos::<X, Y>::height(), y + 1, "height");
    assert_eq!(<Pos<X, Y> as PosT>::dimensions(), n, "dimensions");
    assert_eq!(Pos::<X, Y>::LAST.tuple(), (x as u16, y as u16), "last position");

    // One cell and one bit per position
    let mut g = Grid::<u32, Pos<X, Y>, SIZE>::repeat(u32::MAX);
    let mut b = Gridbool::<Pos<X, Y>, GW>::default();
    for i in 0..n {
        let p = unrank::<X, Y>(i);
        assert_eq!(g[p], u32::MAX, "cell {i} before it is written");
        assert!(!b[p], "bit {i} before it is written");
        g[p] = i as u32;
        b.set(&p, mix(salt ^ i as u64) % 2 == 1);
    }
    assert_eq!(g.as_array().len(), n, "cells");
    assert!(g.iter().enumerate().all(|(i, v)| i as u32 == *v), "cells after being written");
    assert_eq!(g.iter().count(), n, "cells iterated");
    for i in 0..n {
        assert_eq!(b[unrank::<X, Y>(i)], mix(salt ^ i as u64) % 2 == 1, "bit {i} after being written");
    }
    assert_eq!(b.iter().count(), n, "bits iterated");
    assert_eq!(Gridbool::<Pos<X, Y>, GW>::ALL_TRUE.iter_t().count(), n, "bits of the full boolean grid");
    assert_eq!(Gridbool::<Pos<X, Y>, GW>::ALL_FALSE.iter_f().count(), n, "bits of the empty boolean grid");
    assert_eq!(Gridbool::<Pos<X, Y>, GW>::ALL_TRUE, Pos::<X, Y>::iter().collect(), "full boolean grid");
    assert_eq!(<Pos<X, Y> as PosT>::iter().count(), n, "positions iterated");

    // Traversals and searches
    let m = M {
        w: x + 1,
        h: y + 1,
        d,
        salt,
        walls,
        asked: Cell::new(0),
        calls: Cell::new(0),
    };
    let (o, t) = (orig % n, dest % n);
    let dist = m.distances(o);
    let reached = dist.iter().flatten().count();
    let (po, pt) = (unrank::<X, Y>(o), unrank::<X, Y>(t));
    let go = |p: Pos<X, Y>, d: Dir| m.go(p, d);
    let go1 = |p: Pos<X, Y>, d: Dir| m.go(p, d).map(|p| (p, 1));
    let all = if d { 0xff } else { 0x55 };
    let layers = |what: &str, it: &mut dyn Iterator<Item = Vec<(Pos<X, Y>, Dir)>>| {
        m.asked.set(0);
        m.calls.set(0);
        let mut seen = vec![false; n];
        seen[o] = true;
        let mut count = 1;
        for (i, layer) in it.enumerate() {
            for (p, back) in layer {
                let j = rank(&p);
                assert!(!seen[j], "{what}: {p:?} twice");
                seen[j] = true;
                count += 1;
                assert_eq!(dist[j], Some(i + 1), "{what}: distance of {p:?}");
                assert!(d || m.kof(back) % 2 == 0, "{what}: diagonal direction {back:?} at {p:?}");
                let q = (p + back).expect("direction out of the grid");
                assert_eq!(dist[rank(&q)], Some(i), "{what}: distance of the position before {p:?}");
                assert_eq!(m.step(rank(&q), (m.kof(back) + 4) % 8), Some(j), "{what}: move to {p:?}");
            }
        }
        assert_eq!(count, reached, "{what}: positions reached");
        assert!(m.asked.get() & !all == 0, "{what}: directions asked for");
    };
    layers("bf_iter", &mut S::<X, Y, D, WORDS, SIZE>::bf_iter(go, &po));
    layers("bf_iter_grid", &mut S::<X, Y, D, WORDS, SIZE>::bf_iter_grid(go, &po));
    layers("bf_iter_hash", &mut S::<X, Y, D, WORDS, SIZE>::bf_iter_hash(go, &po));
    layers("bf_iter_btree", &mut S::<X, Y, D, WORDS, SIZE>::bf_iter_btree(go, &po));

    let judge = |what: &str, r: Result<Vec<Dir>, Error>| {
        assert!(m.asked.get() & !all == 0, "{what}: directions asked for");
        match (r, dist[t]) {
            (Err(Error::DestinationUnreachable), None) => {}
            (Ok(path), Some(len)) => {
                assert_eq!(path.len(), len, "{what}: length of the path");
                let mut i = o;
                for k in path.iter().map(|d| m.kof(*d)) {
                    assert!(d || k % 2 == 0, "{what}: diagonal in the path");
                    i = m.step(i, k).expect("a move of the path is not allowed");
                }
                assert_eq!(i, t, "{what}: end of the path");
            }
            (r, want) => panic!("{what}: {r:?}, expected {want:?}"),
        }
    };
    macro_rules! path {
        ($what:literal, $e:expr) => {{
            m.asked.set(0);
            m.calls.set(0);
            let r = $e;
            judge($what, r);
        }};
    }
    let found = |p: Pos<X, Y>| p == pt;
    let goal = |r: Result<(Pos<X, Y>, Vec<Dir>), Error>| {
        r.map(|(p, v)| {
            assert_eq!(p, pt, "goal found");
            v
        })
    };
    path!("bfs_path", goal(S::<X, Y, D, WORDS, SIZE>::bfs_path(go, &po, found)));
    path!("bfs_path_grid", goal(S::<X, Y, D, WORDS, SIZE>::bfs_path_grid(go, &po, found)));
    path!("bfs_path_hash", goal(S::<X, Y, D, WORDS, SIZE>::bfs_path_hash(go, &po, found)));
    path!("bfs_path_btree", goal(S::<X, Y, D, WORDS, SIZE>::bfs_path_btree(go, &po, found)));
    path!("astar_path", S::<X, Y, D, WORDS, SIZE>::astar_path(go, &po, &pt));
    path!("astar_path_grid", S::<X, Y, D, WORDS, SIZE>::astar_path_grid(go, &po, &pt));
    path!("astar_path_hash", S::<X, Y, D, WORDS, SIZE>::astar_path_hash(go, &po, &pt));
    path!("astar_path_btree", S::<X, Y, D, WORDS, SIZE>::astar_path_btree(go, &po, &pt));
    path!("ucs_path", S::<X, Y, D, WORDS, SIZE>::ucs_path(go1, &po, &pt));
    path!("ucs_path_grid", S::<X, Y, D, WORDS, SIZE>::ucs_path_grid(go1, &po, &pt));
    path!("ucs_path_hash", S::<X, Y, D, WORDS, SIZE>::ucs_path_hash(go1, &po, &pt));
    path!("ucs_path_btree", S::<X, Y, D, WORDS, SIZE>::ucs_path_btree(go1, &po, &pt));

    // A map of directions of the grid's own type
    let mut map = Grid::<Option<Dir>, Pos<X, Y>, SIZE>::repeat(None);
    for (p, dir) in S::<X, Y, D, WORDS, SIZE>::bf_iter(go, &po).flatten() {
        map[p] = Some(dir);
    }
    if o != t {
        path!("camefrom_into_path", {
            m.asked.set(all);
            S::<X, Y, D, WORDS, SIZE>::camefrom_into_path(map, &po, &pt)
        });
    }
}
