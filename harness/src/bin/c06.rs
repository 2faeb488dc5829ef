//! C06: whole-grid iteration visits each position once, from both ends.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sqrid::{Pos, PosT, PosTIter};
use vh::gen::*;
use vh::iterlaw::{amount, drive2, script, Opt, Script};
use vh::*;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Op {
    Front(u32),
    Back(u32),
    Nth(u32),
    NthBack(u32),
    Alternate(u32),
    Copy,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct C {
    dim: usize,
    vertical: bool,
    ctor: u8,
    ops: Vec<Op>,
    finish: u8,
}

/// Most items consumed one by one in a case.
const CAP: usize = 150_000;

struct Model {
    w: usize,
    h: usize,
    vertical: bool,
    lo: usize,
    hi: usize,
}

impl Model {
    fn at(&self, i: usize) -> (u16, u16) {
        if self.vertical {
            ((i / self.h) as u16, (i % self.h) as u16)
        } else {
            ((i % self.w) as u16, (i / self.w) as u16)
        }
    }
    fn front(&mut self) -> Option<(u16, u16)> {
        (self.lo < self.hi).then(|| {
            self.lo += 1;
            self.at(self.lo - 1)
        })
    }
    fn back(&mut self) -> Option<(u16, u16)> {
        (self.lo < self.hi).then(|| {
            self.hi -= 1;
            self.at(self.hi)
        })
    }
    fn left(&self) -> usize {
        self.hi - self.lo
    }
}

fn hint<I: Iterator>(it: &I, m: &Model) -> R {
    let (lo, hi) = it.size_hint();
    ensure!(
        lo <= m.left() && hi.is_none_or(|h| h >= m.left()),
        "size hint ({lo}, {hi:?}) does not bracket the {} positions left of {}x{}",
        m.left(),
        m.w,
        m.h
    );
    Ok(())
}

fn run<const X: u16, const Y: u16, const XF: bool>(
    mut it: PosTIter<XF, Pos<X, Y>>,
    c: &C,
    obs: &mut Obs,
) -> R {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    let mut m = Model { w, h, vertical: c.vertical, lo: 0, hi: w * h };
    let mut budget = CAP;
    let (mut f, mut b) = (false, false);
    hint(&it, &m)?;
    for op in &c.ops {
        match *op {
            Op::Front(n) => {
                f = true;
                for _ in 0..n {
                    if budget == 0 {
                        break;
                    }
                    budget -= 1;
                    ensure_eq!(it.next().map(|p| raw(&p)), m.front(), "next on {w}x{h}");
                    hint(&it, &m)?;
                    if m.left() == 0 {
                        break;
                    }
                }
            }
            Op::Back(n) => {
                b = true;
                for _ in 0..n {
                    if budget == 0 {
                        break;
                    }
                    budget -= 1;
                    ensure_eq!(it.next_back().map(|p| raw(&p)), m.back(), "next_back on {w}x{h}");
                    hint(&it, &m)?;
                    if m.left() == 0 {
                        break;
                    }
                }
            }
            Op::Alternate(n) => {
                (f, b) = (true, true);
                for i in 0..n {
                    if budget == 0 {
                        break;
                    }
                    budget -= 1;
                    if i % 3 == 0 {
                        ensure_eq!(
                            it.next_back().map(|p| raw(&p)),
                            m.back(),
                            "next_back on {w}x{h}"
                        );
                    } else {
                        ensure_eq!(it.next().map(|p| raw(&p)), m.front(), "next on {w}x{h}");
                    }
                    if m.left() == 0 {
                        break;
                    }
                }
                hint(&it, &m)?;
            }
            Op::Nth(n) => {
                let n = amount(n);
                let steps = n.min(m.left()) + 1;
                if steps > budget {
                    continue;
                }
                budget -= steps;
                m.lo += n.min(m.left());
                ensure_eq!(it.nth(n).map(|p| raw(&p)), m.front(), "nth({n}) on {w}x{h}");
                hint(&it, &m)?;
            }
            Op::NthBack(n) => {
                let n = amount(n);
                let steps = n.min(m.left()) + 1;
                if steps > budget {
                    continue;
                }
                budget -= steps;
                m.hi -= n.min(m.left());
                ensure_eq!(it.nth_back(n).map(|p| raw(&p)), m.back(), "nth_back({n}) on {w}x{h}");
                hint(&it, &m)?;
            }
            Op::Copy => {
                // a copy continues from the same state and is independent
                let mut copy = it;
                ensure_eq!(
                    copy.next().map(|p| raw(&p)),
                    (m.left() > 0).then(|| m.at(m.lo)),
                    "next of a copy"
                );
            }
        }
    }
    obs.label_if(f && b, "both-ends");
    let left = m.left();
    if left <= CAP {
        obs.label("finished");
        match c.finish % 5 {
            0 => {
                let mut n = 0;
                for p in it.take(left + 2) {
                    ensure_eq!(Some(raw(&p)), m.front(), "item of the rest of {w}x{h}");
                    n += 1;
                }
                ensure_eq!(n, left, "number of positions left of {w}x{h}");
            }
            1 => {
                let mut n = 0;
                for p in it.rev().take(left + 2) {
                    ensure_eq!(Some(raw(&p)), m.back(), "item of the rest of {w}x{h}, reversed");
                    n += 1;
                }
                ensure_eq!(n, left, "number of positions left of {w}x{h}, reversed");
            }
            2 => {
                ensure_eq!(it.take(left + 2).count(), left, "count of the rest of {w}x{h}");
                let want = (left > 0).then(|| m.at(m.hi - 1));
                ensure_eq!(it.take(left + 2).last().map(|p| raw(&p)), want, "last of {w}x{h}");
            }
            3 => {
                let mut i = 0;
                let v: Vec<Pos<X, Y>> = it.take(left + 2).collect();
                for p in &v {
                    ensure_eq!(Some(raw(p)), m.front(), "collected item {i} of {w}x{h}");
                    i += 1;
                }
                ensure_eq!(v.len(), left, "collected positions of {w}x{h}");
            }
            _ => {
                for i in 0..left {
                    let (got, want) = if i % 2 == 0 {
                        (it.next(), m.front())
                    } else {
                        (it.next_back(), m.back())
                    };
                    ensure_eq!(got.map(|p| raw(&p)), want, "alternating item of {w}x{h}");
                }
                for k in 0..4 {
                    let got = if k % 2 == 0 { it.next() } else { it.next_back() };
                    ensure_eq!(got, None, "exhausted iterator of {w}x{h}");
                    hint(&it, &m)?;
                }
            }
        }
    }
    Ok(())
}

fn t<const X: u16, const Y: u16>(c: &C, obs: &mut Obs) -> R {
    let cells = (X as usize + 1) * (Y as usize + 1);
    obs.nt(cells > 1 && !c.ops.is_empty());
    obs.label_if(X != Y, "not-square");
    type P<const X: u16, const Y: u16> = Pos<X, Y>;
    if c.vertical {
        match c.ctor % 3 {
            0 => run::<X, Y, false>(P::<X, Y>::iter_vertical(), c, obs),
            1 => run::<X, Y, false>(P::<X, Y>::iter_orientation::<false>(), c, obs),
            _ => run::<X, Y, false>(PosTIter::default(), c, obs),
        }
    } else {
        match c.ctor % 4 {
            0 => run::<X, Y, true>(P::<X, Y>::iter(), c, obs),
            1 => run::<X, Y, true>(P::<X, Y>::iter_horizontal(), c, obs),
            2 => run::<X, Y, true>(P::<X, Y>::iter_orientation::<true>(), c, obs),
            _ => run::<X, Y, true>(PosTIter::default(), c, obs),
        }
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Sc {
    dim: usize,
    vertical: bool,
    script: Script,
}

/// Any way of consuming the iterators.
fn scripted<const X: u16, const Y: u16>(c: &Sc, obs: &mut Obs) -> R {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    obs.nt(w * h > 1);
    let m = Model { w, h, vertical: c.vertical, lo: 0, hi: w * h };
    let opt = Opt { hints: true, most: CAP, ordered: true };
    let at = |i: usize| m.at(i);
    let key = |p: Pos<X, Y>| raw(&p);
    if c.vertical {
        let what = format!("vertical iteration of {w}x{h}");
        drive2(Pos::<X, Y>::iter_vertical(), w * h, &at, &key, &c.script, opt, &what)
    } else {
        let what = format!("iteration of {w}x{h}");
        drive2(Pos::<X, Y>::iter(), w * h, &at, &key, &c.script, opt, &what)
    }
}

type FnSc = fn(&Sc, &mut Obs) -> R;

fn small_sc(c: &Sc, obs: &mut Obs) -> R {
    let tab = grid_dims!(__tab_xy; scripted, FnSc);
    (tab[c.dim % tab.len()].2)(c, obs)
}
fn big_sc(c: &Sc, obs: &mut Obs) -> R {
    let tab = pos_dims!(__tab_xy; scripted, FnSc);
    (tab[c.dim % tab.len()].2)(c, obs)
}
fn gen_sc(n: usize, most: u32) -> BoxedStrategy<Sc> {
    (0..n, any::<bool>(), script(most, 8))
        .prop_map(|(dim, vertical, script)| Sc { dim, vertical, script })
        .boxed()
}

type Fn_ = fn(&C, &mut Obs) -> R;

fn small_t(c: &C, obs: &mut Obs) -> R {
    let tab = grid_dims!(__tab_xy; t, Fn_);
    (tab[c.dim % tab.len()].2)(c, obs)
}
fn big_t(c: &C, obs: &mut Obs) -> R {
    let tab = pos_dims!(__tab_xy; t, Fn_);
    (tab[c.dim % tab.len()].2)(c, obs)
}

fn gen(n: usize, burst: u32) -> BoxedStrategy<C> {
    let k = prop_oneof![4 => 1u32..6, 2 => 0u32..70, 1 => 0..burst];
    let far = prop_oneof![6 => k.clone(), 1 => u32::MAX - 63..=u32::MAX];
    let op = prop_oneof![
        3 => k.clone().prop_map(Op::Front),
        3 => k.clone().prop_map(Op::Back),
        1 => k.clone().prop_map(Op::Alternate),
        1 => far.clone().prop_map(Op::Nth),
        1 => far.prop_map(Op::NthBack),
        1 => Just(Op::Copy),
    ];
    (0..n, any::<bool>(), 0u8..12, prop::collection::vec(op, 0..12), 0u8..5)
        .prop_map(|(dim, vertical, ctor, ops, finish)| C { dim, vertical, ctor, ops, finish })
        .boxed()
}

fn main() {
    main_check(
        "C06",
        &[
            &Facet {
                name: "small",
                rule: "extents of up to 514 cells, both orientations, up to 11 bursts of taking from either end, then the rest in one of five ways; non-trivial: more than one cell and at least one burst",
                quick: 4_000_000,
                thorough: 60_000_000,
                strategy: |_| gen(grid_dims!(__tab_xy; t, Fn_).len(), 300),
                test: small_t,
            },
            &Facet {
                name: "large",
                rule: "every extent up to 65536x65536; grids of up to 150000 cells are exhausted, larger ones consumed for up to 150000 steps; non-trivial as above",
                quick: 200_000,
                thorough: 3_000_000,
                strategy: |_| gen(pos_dims!(__tab_xy; t, Fn_).len(), 70_000),
                test: big_t,
            },
            &Facet {
                name: "scripts",
                rule: "extents of up to 514 cells, both orientations, consumed by up to seven of next, nth, skip, take, find and their counterparts at the back, then to the end in one of sixteen ways; non-trivial: more than one cell",
                quick: 1_500_000,
                thorough: 22_000_000,
                strategy: |_| gen_sc(grid_dims!(__tab_xy; scripted, FnSc).len(), 520),
                test: small_sc,
            },
            &Facet {
                name: "scripts-large",
                rule: "as scripts, every extent up to 65536x65536, to the end when at most 150000 positions are left; non-trivial as above",
                quick: 30_000,
                thorough: 450_000,
                strategy: |_| gen_sc(pos_dims!(__tab_xy; scripted, FnSc).len(), 70_000),
                test: big_sc,
            },
        ],
        &[],
    )
}
