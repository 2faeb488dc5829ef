//! Sets of allowed unit moves over a grid, with reference searches over them.
//!
//! Everything here is computed from coordinates, with no use of the library under test except the
//! `Dir` and `Pos` values handed back to it.

use crate::gen::*;
use crate::R;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sqrid::{Dir, Pos};
use std::cell::Cell;
use std::cmp::Reverse;
use std::collections::{BinaryHeap, VecDeque};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Maze {
    pub style: u8,
    pub density: u8,
    /// Explicit content of the first cells; the others come from `salt` (0: all zero).
    pub cells: Vec<u8>,
    pub salt: u64,
}

pub const STYLES: [&str; 8] =
    ["open", "walls", "edges", "rows", "columns", "rooms", "sparse", "conveyor"];

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Maze {
    pub fn label(&self) -> &'static str {
        STYLES[self.style as usize % STYLES.len()]
    }

    fn byte(&self, i: usize) -> u8 {
        if let Some(b) = self.cells.get(i) {
            *b
        } else if self.salt != 0 {
            let r = mix(self.salt ^ (i as u64).wrapping_mul(0xD134_2543_DE82_EF95));
            match r >> 60 {
                0..=7 => (r as u8) & (r >> 8) as u8,
                8..=11 => 0,
                _ => r as u8,
            }
        } else {
            0
        }
    }
}

pub fn maze(cells: usize) -> impl Strategy<Value = Maze> + Clone {
    (
        0u8..8,
        1u8..12,
        prop::collection::vec(
            prop_oneof![
                2 => Just(0u8),
                2 => (0u32..8).prop_map(|b| 1 << b),
                3 => any::<u8>(),
                1 => (0u32..8).prop_map(|b| !(1 << b)),
            ],
            0..cells,
        ),
        prop_oneof![1 => Just(0u64), 2 => any::<u64>()],
    )
        .prop_map(|(style, density, cells, salt)| Maze { style, density, cells, salt })
}

/// A maze on actual extents.
pub struct World<'a> {
    pub m: &'a Maze,
    pub w: usize,
    pub h: usize,
    /// Whether diagonal directions are moves
    pub d: bool,
    calls: Cell<u64>,
}

impl<'a> World<'a> {
    pub fn new(m: &'a Maze, x: u16, y: u16, d: bool) -> World<'a> {
        World { m, w: x as usize + 1, h: y as usize + 1, d, calls: Cell::new(0) }
    }

    pub fn n(&self) -> usize {
        self.w * self.h
    }

    /// Where direction number `k` leads from cell `i`, if it is allowed. Diagonals are reported
    /// even when they are not moves: the searches must not ask for them then.
    #[allow(clippy::precedence)]
    pub fn step(&self, i: usize, k: usize) -> Option<usize> {
        let (x, y) = ((i % self.w) as i64, (i / self.w) as i64);
        let (_, dx, dy) = DIRS[k];
        let (nx, ny) = (x + dx as i64, y + dy as i64);
        if nx < 0 || ny < 0 || nx >= self.w as i64 || ny >= self.h as i64 {
            return None;
        }
        let j = ny as usize * self.w + nx as usize;
        let b = self.m.byte(i);
        let ok = match self.m.style % 8 {
            0 => true,
            1 => {
                let t = self.m.byte(j) % 16;
                t == 0 || t > self.m.density
            }
            2 => b & (1 << k) == 0,
            3 => {
                let door = if y.min(ny) % 2 == 0 { self.w as i64 - 1 } else { 0 };
                dy == 0 || dx == 0 && (x == door || b % 64 == 1 && self.m.density > 8)
            }
            4 => {
                let door = if x.min(nx) % 2 == 0 { self.h as i64 - 1 } else { 0 };
                dx == 0 || dy == 0 && (y == door || b % 64 == 1 && self.m.density > 8)
            }
            5 => {
                let wall = nx % 4 == 3 || ny % 4 == 3;
                !wall || self.m.byte(j) % 4 == 1
            }
            6 => b & (1 << k) != 0,
            _ => {
                let flow = if y % 2 == 0 { 1 } else { -1 };
                if dy == 0 {
                    dx == flow
                } else {
                    b & (1 << k) != 0
                }
            }
        };
        ok.then_some(j)
    }

    pub fn dirs(&self) -> impl Iterator<Item = usize> {
        (0..8).step_by(if self.d { 1 } else { 2 })
    }

    /// Count a call from the search under test; it panics when there are too many of them for any
    /// search that ends.
    pub fn tick(&self) {
        self.calls.set(self.calls.get() + 1);
        // A search expands a position at most once per incoming move: 64 calls per cell.
        let per_cell = if self.n() < 10_000 { 500 } else { 100 };
        assert!(
            self.calls.get() <= per_cell * (self.n() as u64 + 10),
            "the search asked for {} moves on {} cells: it does not end",
            self.calls.get(),
            self.n()
        );
    }

    pub fn reset(&self) {
        self.calls.set(0);
    }

    /// The movement function given to the library.
    pub fn go<const X: u16, const Y: u16>(&self, p: Pos<X, Y>, d: Dir) -> Option<Pos<X, Y>> {
        self.tick();
        self.step(rank(&p), didx(d)).map(unrank)
    }

    /// Number of moves from `orig` to every cell, computed breadth-first.
    pub fn distances(&self, orig: usize) -> Vec<Option<u32>> {
        let mut dist = vec![None; self.n()];
        dist[orig] = Some(0);
        let mut q = VecDeque::from([orig]);
        while let Some(i) = q.pop_front() {
            for k in self.dirs() {
                if let Some(j) = self.step(i, k) {
                    if dist[j].is_none() {
                        dist[j] = dist[i].map(|v| v + 1);
                        q.push_back(j);
                    }
                }
            }
        }
        dist
    }

    /// Least cost from `orig` to every cell, computed with exact 128-bit sums.
    pub fn costs(&self, orig: usize, cost: &dyn Fn(usize, usize) -> usize) -> Vec<Option<u128>> {
        let mut best = vec![None; self.n()];
        let mut q = BinaryHeap::from([(Reverse(0u128), orig)]);
        while let Some((Reverse(c), i)) = q.pop() {
            if best[i].is_some() {
                continue;
            }
            best[i] = Some(c);
            for k in self.dirs() {
                if let Some(j) = self.step(i, k) {
                    if best[j].is_none() {
                        q.push((Reverse(c + cost(i, k) as u128), j));
                    }
                }
            }
        }
        best
    }

    pub fn at(&self, i: usize) -> String {
        format!("({},{})", i % self.w, i / self.w)
    }
}

/// Path read from a map of backward directions, followed by the harness.
pub fn follow(
    w: usize,
    h: usize,
    orig: usize,
    dest: usize,
    get: &dyn Fn(usize) -> Option<Dir>,
) -> Result<Vec<Dir>, String> {
    let mut i = dest;
    let mut path = vec![];
    while i != orig {
        let Some(d) = get(i) else {
            return Err(format!("no direction for ({},{}) in the map", i % w, i / w));
        };
        let k = didx(d);
        path.push(DIRS[(k + 4) % 8].0);
        let (x, y) = ((i % w) as i64 + DIRS[k].1 as i64, (i / w) as i64 + DIRS[k].2 as i64);
        if x < 0 || y < 0 || x >= w as i64 || y >= h as i64 {
            return Err(format!("the map leads out of the grid from ({},{})", i % w, i / w));
        }
        i = y as usize * w + x as usize;
        if path.len() > w * h {
            return Err("the map loops".to_string());
        }
    }
    path.reverse();
    Ok(path)
}

/// Expected outcome of a point-to-point search.
pub enum Want {
    Unreachable,
    /// Optimal total
    Total(u128),
}

/// Moves over the cells of a grid, identified by their rank (which may be beyond 32 bits).
pub trait Moves {
    fn w(&self) -> usize;
    fn h(&self) -> usize;
    fn d(&self) -> bool;
    fn step(&self, i: usize, k: usize) -> Option<usize>;

    fn at(&self, i: usize) -> String {
        format!("({},{})", i % self.w(), i / self.w())
    }

    /// Replay a path with allowed moves only; returns where it ends and what it cost.
    fn walk(
        &self,
        orig: usize,
        path: &[Dir],
        cost: &dyn Fn(usize, usize) -> usize,
    ) -> Result<(usize, u128), String> {
        let (mut i, mut total) = (orig, 0u128);
        for (n, d) in path.iter().enumerate() {
            let k = didx(*d);
            if !self.d() && k % 2 == 1 {
                return Err(format!("the path uses diagonal {d:?} at step {n}, and has them off"));
            }
            total += cost(i, k) as u128;
            i = self.step(i, k).ok_or_else(|| {
                format!(
                    "the path takes {d:?} from {} at step {n}, which is not allowed",
                    self.at(i)
                )
            })?;
        }
        Ok((i, total))
    }
}

impl Moves for World<'_> {
    fn w(&self) -> usize {
        self.w
    }
    fn h(&self) -> usize {
        self.h
    }
    fn d(&self) -> bool {
        self.d
    }
    fn step(&self, i: usize, k: usize) -> Option<usize> {
        World::step(self, i, k)
    }
}

/// Check a search result against the optimum.
pub fn judge(
    world: &impl Moves,
    what: &str,
    orig: usize,
    dest: usize,
    got: &Result<Vec<Dir>, sqrid::Error>,
    want: &Want,
    cost: &dyn Fn(usize, usize) -> usize,
) -> R {
    let ctx = || {
        format!(
            "{what} on {}x{} (diagonals {}) from {} to {}",
            world.w(),
            world.h(),
            world.d(),
            world.at(orig),
            world.at(dest)
        )
    };
    match (got, want) {
        (Err(sqrid::Error::DestinationUnreachable), Want::Unreachable) => Ok(()),
        (Err(e), Want::Unreachable) => {
            Err(format!("{}: error {e:?} instead of unreachable", ctx()))
        }
        (Ok(p), Want::Unreachable) => {
            Err(format!("{}: path of {} moves where none exists", ctx(), p.len()))
        }
        (Err(e), Want::Total(t)) => Err(format!("{}: error {e:?}, optimum is {t}", ctx())),
        (Ok(p), Want::Total(t)) => {
            let (end, total) = world.walk(orig, p, cost).map_err(|e| format!("{}: {e}", ctx()))?;
            if end != dest {
                return Err(format!("{}: the path ends at {}", ctx(), world.at(end)));
            }
            if total != *t {
                return Err(format!("{}: total {total}, optimum is {t}", ctx()));
            }
            Ok(())
        }
    }
}

/// Position-map backend of the harness: a vector with an entry per cell, counting its accesses.
#[derive(Debug, Clone)]
pub struct VecMap<T> {
    pub v: std::collections::BTreeMap<usize, T>,
    pub init: T,
    pub gets: Cell<u64>,
}

impl<T: Default> Default for VecMap<T> {
    fn default() -> Self {
        VecMap { v: Default::default(), init: T::default(), gets: Cell::new(0) }
    }
}

/// Bound on reads of a `VecMap` between writes: beyond it whoever reads does not end.
const MAX_GETS: u64 = 50_000_000;

impl<T, const X: u16, const Y: u16, const WORDS: usize, const SIZE: usize>
    sqrid::MapPos<T, Pos<X, Y>, WORDS, SIZE> for VecMap<T>
{
    fn new(item: T) -> Self {
        VecMap { v: Default::default(), init: item, gets: Cell::new(0) }
    }
    fn get(&self, pos: &Pos<X, Y>) -> &T {
        self.gets.set(self.gets.get() + 1);
        assert!(self.gets.get() < MAX_GETS, "a map of {} cells is read endlessly", SIZE);
        self.v.get(&rank(pos)).unwrap_or(&self.init)
    }
    fn set(&mut self, pos: Pos<X, Y>, item: T) {
        self.v.insert(rank(&pos), item);
    }
}

/// Position-set backend of the harness.
#[derive(Debug, Clone, Default)]
pub struct VecSet(pub std::collections::BTreeSet<usize>);

impl<const X: u16, const Y: u16, const WORDS: usize, const SIZE: usize>
    sqrid::SetPos<Pos<X, Y>, WORDS, SIZE> for VecSet
{
    fn contains(&self, pos: &Pos<X, Y>) -> bool {
        self.0.contains(&rank(pos))
    }
    fn insert(&mut self, pos: Pos<X, Y>) {
        self.0.insert(rank(&pos));
    }
    fn remove(&mut self, pos: &Pos<X, Y>) {
        self.0.remove(&rank(pos));
    }
}
