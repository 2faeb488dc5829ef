//! C13: a boolean grid is a set of positions.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sqrid::{Gridbool, Pos};
use vh::gen::*;
use vh::iterlaw::{drive, script, Announce, Opt, Script};
use vh::*;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Op {
    SetT(Cxy),
    SetF(Cxy),
    Set(Cxy, bool),
    IterT(Vec<Cxy>),
    IterF(Vec<Cxy>),
    /// start over: 0 repeat(v), 1 the constant, 2 default
    Fill(u8, bool),
    /// start over from positions
    FromPos(Vec<Cxy>),
    /// start over from booleans: those of a multiplicative pattern
    FromBool(u32),
    /// rebuild the current contents through another interface
    Rebuild(u8),
    Save,
    Compare,
    Restore,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct C {
    dim: usize,
    extra: bool,
    ops: Vec<Op>,
    probe: Vec<Cxy>,
    script: Script,
}

type Gb<const X: u16, const Y: u16, const WORDS: usize> = Gridbool<Pos<X, Y>, WORDS>;

fn full<const X: u16, const Y: u16, const WORDS: usize>(
    g: &Gb<X, Y, WORDS>,
    m: &[bool],
    after: &str,
) -> R {
    for i in 0..m.len() {
        cell(g, m, i, after)?;
    }
    let s = m.len();
    let mut k = 0;
    for v in g.iter() {
        ensure!(k < s && v == m[k], "iter: item {k} of {s} is {v} after {after}");
        k += 1;
    }
    ensure_eq!(k, s, "iter: items after {after}");
    k = 0;
    for (p, v) in g.iter_pos() {
        ensure!(k < s, "iter_pos: too many items after {after}");
        ensure_eq!(rank(&p), k, "iter_pos: position of item {k} after {after}");
        ensure_eq!(v, m[k], "iter_pos: value of item {k} after {after}");
        k += 1;
    }
    ensure_eq!(k, s, "iter_pos: items after {after}");
    let t: Vec<usize> = g.iter_t().take(s + 1).map(|p| rank(&p)).collect();
    let want: Vec<usize> = (0..s).filter(|i| m[*i]).collect();
    ensure_eq!(t, want, "iter_t after {after}");
    let f: Vec<usize> = g.iter_f().take(s + 1).map(|p| rank(&p)).collect();
    let want: Vec<usize> = (0..s).filter(|i| !m[*i]).collect();
    ensure_eq!(f, want, "iter_f after {after}");
    Ok(())
}

fn cell<const X: u16, const Y: u16, const WORDS: usize>(
    g: &Gb<X, Y, WORDS>,
    m: &[bool],
    i: usize,
    after: &str,
) -> R {
    let p = unrank::<X, Y>(i);
    for (k, v) in [g.get(&p), g[p], g[&p]].into_iter().enumerate() {
        ensure_eq!(
            v,
            m[i],
            "cell {i} of {}x{} through interface {k} after {after}",
            X as u32 + 1,
            Y as u32 + 1
        );
    }
    Ok(())
}

/// One of the iterators, consumed in the way the script says.
fn scripted<const X: u16, const Y: u16, const WORDS: usize>(
    g: &Gb<X, Y, WORDS>,
    m: &[bool],
    script: &Script,
) -> R {
    let s = m.len();
    let opt = Opt { hints: true, most: usize::MAX, ordered: true };
    let ctx = |what: &str| format!("{what} on {}x{}", X as u32 + 1, Y as u32 + 1);
    let here = |v: bool| -> Vec<usize> { (0..s).filter(|i| m[*i] == v).collect() };
    match script.step % 4 {
        0 => drive(g.iter(), s, &|i| m[i], &|v| v, script, opt, &ctx("iter")),
        1 => drive(
            g.iter_pos(),
            s,
            &|i| (raw(&unrank::<X, Y>(i)), m[i]),
            &|(p, v)| (raw(&p), v),
            script,
            opt,
            &ctx("iter_pos"),
        ),
        2 => {
            let t = here(true);
            drive(
                g.iter_t(),
                t.len(),
                &|i| raw(&unrank::<X, Y>(t[i])),
                &|p| raw(&p),
                script,
                opt,
                &ctx("iter_t"),
            )
        }
        _ => {
            let t = here(false);
            drive(
                g.iter_f(),
                t.len(),
                &|i| raw(&unrank::<X, Y>(t[i])),
                &|p| raw(&p),
                script,
                opt,
                &ctx("iter_f"),
            )
        }
    }
}

/// The same contents built by other means.
fn rebuilt<const X: u16, const Y: u16, const WORDS: usize>(
    kind: u8,
    m: &[bool],
) -> Gb<X, Y, WORDS> {
    let ones = || (0..m.len()).filter(|i| m[*i]).map(unrank::<X, Y>);
    let zeros = || (0..m.len()).filter(|i| !m[*i]).map(unrank::<X, Y>);
    match kind % 6 {
        0 => ones().collect(),
        1 => m.iter().copied().collect(),
        2 => {
            let mut g = Gb::<X, Y, WORDS>::repeat(true);
            g.set_iter_f(zeros());
            g
        }
        3 => {
            let mut g = Gb::<X, Y, WORDS>::ALL_TRUE;
            for p in zeros() {
                g.set_f(&p);
            }
            g
        }
        4 => {
            let mut g = Gb::<X, Y, WORDS>::default();
            g.set_iter_t(ones());
            g
        }
        _ => {
            let mut g = Gb::<X, Y, WORDS>::ALL_FALSE;
            for (i, v) in m.iter().enumerate().rev() {
                g.set(&unrank::<X, Y>(i), !v);
                g.set(&unrank::<X, Y>(i), *v);
            }
            g
        }
    }
}

fn compare<const X: u16, const Y: u16, const WORDS: usize>(
    a: &Gb<X, Y, WORDS>,
    b: &Gb<X, Y, WORDS>,
    equal: bool,
    what: &str,
) -> R {
    let ctx = || format!("{what} on {}x{}", X as u32 + 1, Y as u32 + 1);
    ensure_eq!(a == b, equal, "{}: equality", ctx());
    ensure_eq!(a != b, !equal, "{}: inequality", ctx());
    ensure_eq!(a.cmp(b) == std::cmp::Ordering::Equal, equal, "{}: ordering equal", ctx());
    ensure_eq!(a.partial_cmp(b), Some(a.cmp(b)), "{}: partial order", ctx());
    ensure_eq!(b.cmp(a), a.cmp(b).reverse(), "{}: order is antisymmetric", ctx());
    if equal {
        ensure_eq!(hash_of(a), hash_of(b), "{}: hash", ctx());
    }
    Ok(())
}

fn pattern(k: u32, i: usize) -> bool {
    (i as u32 + 1).wrapping_mul(k | 1) >> 31 == 1
}

fn run<const X: u16, const Y: u16, const WORDS: usize>(c: &C, obs: &mut Obs) -> R {
    let s = (X as usize + 1) * (Y as usize + 1);
    let big = s > 600;
    let at = |p: &Cxy| rank(&pos_of::<X, Y>(*p));
    let pos = |p: &Cxy| pos_of::<X, Y>(*p);
    let mut g = Gb::<X, Y, WORDS>::default();
    let mut m = vec![false; s];
    let mut saved = (g, m.clone());
    obs.nt(s > 1 && c.ops.len() > 1);
    obs.label_if(s % 32 != 0, "padding-bits");
    let announce = |ps: &Vec<Cxy>| {
        let style = (ps.len() + c.probe.len()) as u8;
        Announce::new(ps.clone().into_iter().map(|p| pos(&p)), ps.len(), style)
    };
    for op in &c.ops {
        let after = if big { String::new() } else { format!("{op:?}") };
        let mut touched: Vec<usize> = vec![];
        match op {
            Op::SetT(p) => {
                g.set_t(&pos(p));
                m[at(p)] = true;
                touched.push(at(p));
            }
            Op::SetF(p) => {
                g.set_f(&pos(p));
                m[at(p)] = false;
                touched.push(at(p));
            }
            Op::Set(p, v) => {
                g.set(&pos(p), *v);
                m[at(p)] = *v;
                touched.push(at(p));
            }
            Op::IterT(ps) => {
                g.set_iter_t(announce(ps));
                ps.iter().for_each(|p| m[at(p)] = true);
                touched.extend(ps.iter().map(at));
            }
            Op::IterF(ps) => {
                g.set_iter_f(announce(ps));
                ps.iter().for_each(|p| m[at(p)] = false);
                touched.extend(ps.iter().map(at));
            }
            Op::Fill(kind, v) => {
                obs.label("fill");
                g = match (kind % 3, v) {
                    (0, v) => Gb::<X, Y, WORDS>::repeat(*v),
                    (_, true) => Gb::<X, Y, WORDS>::ALL_TRUE,
                    (1, false) => Gb::<X, Y, WORDS>::ALL_FALSE,
                    _ => Gb::<X, Y, WORDS>::default(),
                };
                m.fill(*v);
            }
            Op::FromPos(ps) => {
                g = announce(ps).collect();
                m.fill(false);
                ps.iter().for_each(|p| m[at(p)] = true);
                touched.extend(ps.iter().map(at));
            }
            Op::FromBool(k) => {
                g = (0..s).map(|i| pattern(*k, i)).collect();
                m = (0..s).map(|i| pattern(*k, i)).collect();
            }
            Op::Rebuild(kind) => {
                obs.label("rebuild");
                let other = rebuilt::<X, Y, WORDS>(*kind, &m);
                compare(&g, &other, true, &format!("same contents, built by means {}", kind % 6))?;
                g = other;
            }
            Op::Save => saved = (g, m.clone()),
            Op::Compare => {
                obs.label("compare");
                compare(&g, &saved.0, m == saved.1, "two histories")?;
            }
            Op::Restore => {
                std::mem::swap(&mut g, &mut saved.0);
                std::mem::swap(&mut m, &mut saved.1);
            }
        }
        if big {
            for i in touched.iter().copied().take(8).chain(c.probe.iter().map(at)) {
                cell(&g, &m, i, &after)?;
            }
        } else {
            full(&g, &m, &after)?;
        }
    }
    full(&g, &m, "all operations")?;
    scripted(&g, &m, &c.script)?;
    compare(&g, &saved.0, m == saved.1, "at the end")?;
    // one differing cell makes a different grid, wherever it is
    for p in c.probe.iter().take(2) {
        let mut other = g;
        other.set(&pos(p), !m[at(p)]);
        compare(&g, &other, false, &format!("differing at cell {}", at(p)))?;
        other.set(&pos(p), m[at(p)]);
        compare(&g, &other, true, &format!("restored at cell {}", at(p)))?;
    }
    // the inner bitmap is the contents: it can be copied, and changed cell by cell
    let mut other = Gb::<X, Y, WORDS>::repeat(c.extra);
    *other.as_inner_mut() = *g.as_inner();
    compare(&g, &other, true, "the inner bitmap copied")?;
    for p in c.probe.iter().take(2) {
        let (mut one, none) = (Gb::<X, Y, WORDS>::default(), Gb::<X, Y, WORDS>::default());
        one.set_t(&pos(p));
        for (k, word) in other.as_inner_mut().iter_mut().enumerate() {
            *word ^= one.as_inner()[k] ^ none.as_inner()[k];
        }
        m[at(p)] = !m[at(p)];
        cell(&other, &m, at(p), "changing the inner bitmap")?;
    }
    g = other;
    full(&g, &m, "changing the inner bitmap")?;
    for kind in 0..6 {
        if big && kind != (c.ops.len() % 6) as u8 {
            continue;
        }
        let other = rebuilt::<X, Y, WORDS>(kind, &m);
        compare(&g, &other, true, &format!("same contents, built by means {kind}"))?;
    }
    Ok(())
}

type Fn_ = fn(&C, &mut Obs) -> R;

fn small_t(c: &C, obs: &mut Obs) -> R {
    let t = if c.extra {
        grid_dims!(__tab_words1; run, Fn_)
    } else {
        grid_dims!(__tab_words; run, Fn_)
    };
    (t[c.dim % t.len()].2)(c, obs)
}
fn large_t(c: &C, obs: &mut Obs) -> R {
    let t = grid_dims_big!(__tab_words; run, Fn_);
    (t[c.dim % t.len()].2)(c, obs)
}

fn gen(n: usize, most: usize) -> BoxedStrategy<C> {
    let list = if most > 16 { 700 } else { 12 };
    let ps = move || prop::collection::vec(cxy(), 0..list);
    let op = prop_oneof![
        3 => cxy().prop_map(Op::SetT),
        3 => cxy().prop_map(Op::SetF),
        3 => (cxy(), any::<bool>()).prop_map(|(p, v)| Op::Set(p, v)),
        2 => ps().prop_map(Op::IterT),
        2 => ps().prop_map(Op::IterF),
        2 => (0u8..3, any::<bool>()).prop_map(|(k, v)| Op::Fill(k, v)),
        1 => ps().prop_map(Op::FromPos),
        1 => any::<u32>().prop_map(Op::FromBool),
        2 => (0u8..6).prop_map(Op::Rebuild),
        1 => Just(Op::Save),
        1 => Just(Op::Compare),
        1 => Just(Op::Restore),
    ];
    (
        0..n,
        any::<bool>(),
        prop::collection::vec(op, 0..most),
        prop::collection::vec(cxy(), 0..5),
        script(600, 6),
    )
        .prop_map(|(dim, extra, ops, probe, script)| C { dim, extra, ops, probe, script })
        .boxed()
}

fn main() {
    main_check(
        "C13",
        &[
            &Facet {
                name: "histories",
                rule: "histories of up to 15 operations on extents of up to 514 cells, with the least number of words or one more, all interfaces compared with a vector of booleans after every step, and with grids holding the same or one different value built by other means; non-trivial: more than one cell and at least two operations",
                quick: 400_000,
                thorough: 6_000_000,
                strategy: |_| gen(grid_dims!(__tab_words; run, Fn_).len(), 16),
                test: small_t,
            },
            &Facet {
                name: "long",
                rule: "as histories, with up to 199 operations and lists of up to 699 positions; non-trivial as above",
                quick: 2_000,
                thorough: 30_000,
                strategy: |_| gen(grid_dims!(__tab_words; run, Fn_).len(), 200),
                test: small_t,
            },
            &Facet {
                name: "large",
                rule: "histories on extents of up to 131072 cells, touched and probed cells compared after every step and everything at the end; non-trivial as above",
                quick: 10_000,
                thorough: 150_000,
                strategy: |_| gen(grid_dims_big!(__tab_words; run, Fn_).len(), 16),
                test: large_t,
            },
        ],
        &[],
    )
}
