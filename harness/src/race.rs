//! "Races": long corridors of nearly equal lengths between two places, on extents of any size.
//!
//! The corridors differ by jogs put anywhere along them, so that a search which settles for what
//! looks best for most of the way, or which looks at long distances through narrow or rounded
//! numbers, takes the wrong one. Only the cells of the corridors count: nothing here is stored
//! per cell of the grid, and extents go up to 65536x65536.

use crate::gen::*;
use crate::maze::{judge, Moves, Want};
use crate::{Obs, R};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sqrid::{Dir, Error, Pos};
use std::cell::Cell;
use std::cmp::Reverse;
use std::collections::{BinaryHeap, HashMap, HashSet, VecDeque};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Lane {
    pub start: i8,
    /// Jogs: how far along (in 65536ths), and by how much aside
    pub jogs: Vec<(u16, i8)>,
    /// Where it comes back from how far it went aside, if it does
    pub gap: Option<u16>,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Race {
    pub len: u16,
    /// Along x, along y or along a diagonal, and which way
    pub frame: u8,
    pub lanes: Vec<Lane>,
    /// Where both ends are, aside
    pub ends: (i8, i8),
    /// Where in the grid, when there is more room than needed
    pub place: (u16, u16),
}

pub fn race() -> impl Strategy<Value = Race> + Clone {
    let jog = (
        prop_oneof![4 => any::<u16>(), 1 => 0u16..2000, 1 => 63000u16..=65535],
        prop_oneof![3 => -2i8..3, 1 => -6i8..7],
    );
    let lane =
        (-5i8..6, prop::collection::vec(jog, 0..6), prop::option::weighted(0.05, any::<u16>()))
            .prop_map(|(start, jogs, gap)| Lane { start, jogs, gap });
    (
        prop_oneof![3 => 2u16..400, 5 => 400u16..2500, 1 => 2500u16..9000],
        0u8..16,
        prop::collection::vec(lane, 1..4),
        (-2i8..3, -2i8..3),
        (any::<u16>(), any::<u16>()),
    )
        .prop_map(|(len, frame, lanes, ends, place)| Race { len, frame, lanes, ends, place })
}

/// How long the best way is.
pub fn moves_label(best: Option<u128>) -> &'static str {
    match best {
        None => "unreachable",
        Some(b) if b > 5000 => "over-5000",
        Some(b) if b > 1000 => "over-1000",
        Some(b) if b > 100 => "over-100",
        Some(_) => "up-to-100",
    }
}

/// A race on actual extents.
pub struct Track {
    pub w: usize,
    pub h: usize,
    pub d: bool,
    pub cells: HashSet<usize>,
    pub orig: usize,
    pub dest: usize,
    /// Moves along the way from one end to the other
    pub len: i64,
    calls: Cell<u64>,
}

pub const FRAMES: [&str; 4] = ["along-x", "along-y", "diagonal", "antidiagonal"];

impl Race {
    pub fn label(&self) -> &'static str {
        FRAMES[self.frame as usize % 4]
    }
}

impl Track {
    pub fn new(r: &Race, x: u16, y: u16, d: bool) -> Track {
        let (w, h) = (x as i64 + 1, y as i64 + 1);
        let frame = r.frame as usize % 4;
        let room = match frame {
            0 => w,
            1 => h,
            _ => w.min(h),
        };
        let len = (r.len as i64).min(room - 1);
        // Local coordinates: u along the way, v aside; the place of (0, 0) is chosen so that all of
        // v = 0 is in the grid
        let pick = |free: i64, at: u16| free * at as i64 / 65535;
        let (px, py) = (r.place.0, r.place.1);
        let (x0, y0) = match frame {
            0 => (pick(w - 1 - len, px), pick(h - 1, py)),
            1 => (pick(w - 1, px), pick(h - 1 - len, py)),
            _ => (pick(w - 1 - len, px), pick(h - 1 - len, py)),
        };
        let flip = r.frame & 4 != 0;
        let mirror = r.frame & 8 != 0;
        let to = |u: i64, v: i64| -> Option<usize> {
            let u = if flip { len - u } else { u };
            let v = if mirror { -v } else { v };
            let (x, y) = match frame {
                0 => (x0 + u, y0 + v),
                1 => (x0 + v, y0 + u),
                2 => (x0 + u, y0 + u + v),
                _ => (x0 + u, y0 + len - u + v),
            };
            (x >= 0 && y >= 0 && x < w && y < h).then_some((y * w + x) as usize)
        };
        let mut cells = HashSet::new();
        let mut open = |u: i64, v: i64| {
            let cell = to(u, v);
            cells.extend(cell);
            // without diagonal moves, diagonal corridors are staircases
            if let (true, Some(i), Some(j)) = (frame >= 2 && !d && u < len, cell, to(u + 1, v)) {
                cells.insert(i - i % w as usize + j % w as usize);
            }
        };
        let (mut top, mut bottom) = (0i64, 0i64);
        let mut last = vec![];
        for lane in &r.lanes {
            let mut jogs: Vec<(i64, i64)> =
                lane.jogs.iter().map(|(p, s)| (*p as i64 * len >> 16, *s as i64)).collect();
            jogs.sort();
            let gap = lane.gap.map(|g| g as i64 * len >> 16);
            let mut v = lane.start as i64 * 2;
            (top, bottom) = (top.min(v), bottom.max(v));
            let mut j = 0;
            for u in 0..=len {
                if gap != Some(u) {
                    open(u, v);
                }
                while j < jogs.len() && jogs[j].0 == u {
                    let nv = v + jogs[j].1;
                    (v.min(nv)..=v.max(nv)).for_each(|v| open(u, v));
                    v = nv;
                    j += 1;
                }
            }
            last.push(v);
        }
        let (a, b) = (r.ends.0 as i64, r.ends.1 as i64);
        for v in top.min(a)..=bottom.max(a) {
            open(0, v);
        }
        let lo = last.iter().copied().chain([b]).min().unwrap_or(0);
        let hi = last.iter().copied().chain([b]).max().unwrap_or(0);
        for v in lo..=hi {
            open(len, v);
        }
        let end = |u: i64, v: i64| {
            to(u, v).or_else(|| to(u, 0)).unwrap_or_else(|| panic!("no place for ({u}, {v})"))
        };
        let (orig, dest) = (end(0, a), end(len, b));
        cells.insert(orig);
        cells.insert(dest);
        Track { w: w as usize, h: h as usize, d, cells, orig, dest, len, calls: Cell::new(0) }
    }

    /// Moves from one end to the other with nothing in between.
    pub fn direct(&self) -> usize {
        let dx = (self.orig % self.w).abs_diff(self.dest % self.w);
        let dy = (self.orig / self.w).abs_diff(self.dest / self.w);
        if self.d {
            dx.max(dy)
        } else {
            dx + dy
        }
    }

    pub fn dirs(&self) -> impl Iterator<Item = usize> {
        (0..8).step_by(if self.d { 1 } else { 2 })
    }

    /// The movement function given to the library.
    pub fn go<const X: u16, const Y: u16>(&self, p: Pos<X, Y>, d: Dir) -> Option<Pos<X, Y>> {
        self.calls.set(self.calls.get() + 1);
        assert!(
            self.calls.get() <= 500 * (self.cells.len() as u64 + 10),
            "the search asked for {} moves on {} cells: it does not end",
            self.calls.get(),
            self.cells.len()
        );
        self.step(rank(&p), didx(d)).map(unrank)
    }

    pub fn reset(&self) {
        self.calls.set(0);
    }

    /// Number of moves from one end to every cell.
    pub fn distances(&self) -> HashMap<usize, u128> {
        let mut dist = HashMap::from([(self.orig, 0u128)]);
        let mut q = VecDeque::from([self.orig]);
        while let Some(i) = q.pop_front() {
            let n = dist[&i] + 1;
            for k in self.dirs() {
                if let Some(j) = self.step(i, k) {
                    dist.entry(j).or_insert_with(|| {
                        q.push_back(j);
                        n
                    });
                }
            }
        }
        dist
    }

    /// Least cost from one end to the other.
    pub fn cost(&self, cost: &dyn Fn(usize, usize) -> usize) -> Option<u128> {
        let mut done = HashSet::new();
        let mut q = BinaryHeap::from([(Reverse(0u128), self.orig)]);
        while let Some((Reverse(c), i)) = q.pop() {
            if i == self.dest {
                return Some(c);
            }
            if !done.insert(i) {
                continue;
            }
            for k in self.dirs() {
                if let Some(j) = self.step(i, k) {
                    if !done.contains(&j) {
                        q.push((Reverse(c + cost(i, k) as u128), j));
                    }
                }
            }
        }
        None
    }
}

impl Moves for Track {
    fn w(&self) -> usize {
        self.w
    }
    fn h(&self) -> usize {
        self.h
    }
    fn d(&self) -> bool {
        self.d
    }
    fn step(&self, i: usize, k: usize) -> Option<usize> {
        let (_, dx, dy) = DIRS[k];
        let (x, y) = ((i % self.w) as i64 + dx as i64, (i / self.w) as i64 + dy as i64);
        if x < 0 || y < 0 || x >= self.w as i64 || y >= self.h as i64 {
            return None;
        }
        let j = y as usize * self.w + x as usize;
        self.cells.contains(&j).then_some(j)
    }
}

/// A search over a race under test, and its name.
pub type Run<'a> = (&'a str, &'a dyn Fn(&Track) -> Result<Vec<Dir>, Error>);

/// Judge searches over a race. Without costs every move costs 1.
pub fn judge_race(
    race: &Race,
    (x, y, d): (u16, u16, bool),
    obs: &mut Obs,
    cost: Option<&dyn Fn(usize, usize) -> usize>,
    runs: &[Run],
) -> R {
    let track = Track::new(race, x, y, d);
    let moves = track.distances().get(&track.dest).copied();
    obs.nt(moves.is_some_and(|b| b > track.direct() as u128));
    obs.label(race.label());
    obs.label(moves_label(moves));
    let best = match cost {
        Some(cost) => track.cost(cost),
        None => moves,
    };
    // as everywhere: sums that do not fit are outside of what the searches promise
    if best.is_some_and(|b| b >= usize::MAX as u128) {
        obs.label("not-representable");
        return Ok(());
    }
    let want = best.map_or(Want::Unreachable, Want::Total);
    let cost = cost.unwrap_or(&|_, _| 1);
    for (what, run) in runs {
        let got = run(&track);
        track.reset();
        judge(&track, what, track.orig, track.dest, &got, &want, cost)?;
    }
    Ok(())
}
