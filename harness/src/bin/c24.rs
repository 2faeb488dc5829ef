//! C24: inconsistent sizes and out-of-range constants do not compile.
//!
//! A case is a pair of programs with the same text except for one number: the one with the right
//! number has to compile and the one with the wrong number must not.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::Mutex;
use vh::*;

/// Compile both variants; the accepted ones are remembered by their text.
fn decide(good: &str, bad: &str, obs: &mut Obs) -> R {
    let build = rustc::Build::of(bad);
    obs.label(build.label());
    static ACCEPTED: Mutex<Option<HashMap<u64, bool>>> = Mutex::new(None);
    let key = hash_of(&(good, build.label()));
    let known = ACCEPTED.lock().unwrap().get_or_insert_with(HashMap::new).get(&key).copied();
    if known != Some(true) {
        let c = rustc::compile(good, build);
        ensure!(c.ok, "the program with the right numbers is rejected:\n{good}\n{}", c.stderr);
        ACCEPTED.lock().unwrap().as_mut().unwrap().insert(key, true);
    }
    let c = rustc::compile(bad, build);
    ensure!(!c.ok, "the program with the wrong numbers compiles:\n{bad}");
    Ok(())
}

const PRELUDE: &str = "use sqrid::*;
use std::hint::black_box;
use std::ops::Add;
";

/// A user-defined position type.
fn user_type(w: u32, h: u32) -> String {
    format!(
        "#[derive(Debug, Default, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct UserPos(BoundedU16<0, {x}>, BoundedU32<0, {y}>);
impl PosT for UserPos {{
    type Xtype = BoundedU16<0, {x}>;
    type Ytype = BoundedU32<0, {y}>;
    const WIDTH: usize = {w};
    const HEIGHT: usize = {h};
    fn new_(xy: (Self::Xtype, Self::Ytype)) -> Self {{ UserPos(xy.0, xy.1) }}
    fn tuple(&self) -> (Self::Xtype, Self::Ytype) {{ (self.0, self.1) }}
}}
impl Add<Dir> for UserPos {{
    type Output = Result<UserPos, Error>;
    fn add(self, d: Dir) -> Self::Output {{ Ok(UserPos::new_(((self.0, self.1) + d)?)) }}
}}
",
        x = w - 1,
        y = h - 1
    )
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Extents {
    w: u16,
    h: u16,
    /// 0: Pos, 1: a user-defined type, 2: pairs of u8 (256x256)
    pos: u8,
}

fn extents() -> impl Strategy<Value = Extents> {
    let side = prop_oneof![
        4 => 1u16..10,
        2 => 1u16..70,
        2 => prop::sample::select(vec![31u16, 32, 33, 64, 96, 127, 128, 255, 256, 257, 300]),
    ];
    (side.clone(), side, prop_oneof![6 => Just(0u8), 3 => Just(1u8), 1 => Just(2u8)])
        .prop_map(|(w, h, pos)| Extents { w, h, pos })
}

impl Extents {
    fn n(&self) -> u64 {
        if self.pos == 2 {
            65536
        } else {
            self.w as u64 * self.h as u64
        }
    }
    fn wh(&self) -> (u64, u64) {
        if self.pos == 2 {
            (256, 256)
        } else {
            (self.w as u64, self.h as u64)
        }
    }
    fn program(&self, body: &str, size: u64, words: u64, d: bool) -> String {
        let (item, ty) = match self.pos {
            0 => (String::new(), format!("Pos<{}, {}>", self.w - 1, self.h - 1)),
            1 => (user_type(self.w as u32, self.h as u32), "UserPos".to_string()),
            _ => (String::new(), "(u8, u8)".to_string()),
        };
        let (w, h) = self.wh();
        format!(
            "{PRELUDE}{item}type P = {ty};
const N: usize = {n};
const SIZE: usize = {size};
const WORDS: usize = {words};
const D: bool = {d};
type S = Sqrid<{x}, {y}, D, WORDS, SIZE>;
fn go(p: P, d: Dir) -> Option<P> {{ (p + d).ok() }}
fn go1(p: P, d: Dir) -> Option<(P, usize)> {{ (p + d).ok().map(|p| (p, 1)) }}
{body}",
            n = self.n(),
            x = w - 1,
            y = h - 1,
        )
    }
}

/* Grids **********************************************************************/

/// Ways of obtaining a grid of type `G`, or of using one inside a search.
const GRID_USES: &[(&str, &str)] = &[
    ("repeat", "fn main() { black_box(G::repeat(E)); }"),
    ("default", "fn main() { black_box(G::default()); }"),
    ("collect", "fn main() { black_box((0..N).map(|_| E).collect::<G>()); }"),
    ("collect-ref", "fn main() { let v = vec![E; N]; black_box(v.iter().collect::<G>()); }"),
    ("try-from", "fn main() { let v = vec![vec![E]]; black_box(G::try_from(v).is_ok()); }"),
    ("try-into", "fn main() { let v = vec![vec![E]]; let g: Result<G, Error> = v.try_into(); black_box(g.is_ok()); }"),
    ("map-new", "fn main() { black_box(<G as MapPos<_, P, WORDS, SIZE>>::new(E)); }"),
    ("default-call", "fn main() { let g: G = Default::default(); black_box(g); }"),
    ("derived-default", "#[derive(Default)] struct Holder { a: u8, g: G } fn main() { black_box(Holder::default().g[P::first()]); }"),
    ("unwrap-or-default", "fn main() { let g: Option<G> = black_box(None); black_box(g.unwrap_or_default()); }"),
    ("boxed", "fn main() { let g: Box<G> = Box::default(); black_box(g); }"),
    ("in-branch", "fn main() { if black_box(1) == 2 { black_box(G::repeat(E)); } }"),
    ("in-function", "fn make<T: Default>() -> T { T::default() } fn main() { black_box(make::<G>()); }"),
    ("in-closure", "fn main() { let f = || G::repeat(E); black_box(f()); }"),
    ("write", "fn main() { let mut g = G::default(); g[P::last()] = E; black_box(g); }"),
    ("lazy", "static L: std::sync::OnceLock<G> = std::sync::OnceLock::new(); fn main() { black_box(L.get_or_init(G::default)); }"),
];

const SEARCH_USES: &[(&str, &str)] = &[
    ("bfs-path", "fn main() { let _ = black_box(S::bfs_path(go, &P::first(), |p: P| p == P::last())); }"),
    ("bfs-path-grid", "fn main() { let _ = black_box(S::bfs_path_grid(go, &P::first(), |p: P| p == P::last())); }"),
    ("bf-search", "fn main() { let _ = black_box(bf::search_path::<_, _, Grid<Option<Dir>, P, SIZE>, std::collections::HashSet<P>, P, D, WORDS, SIZE>(go, &P::first(), |p: P| p == P::last())); }"),
    ("bf-mapmov", "fn main() { let _ = black_box(bf::search_mapmov::<_, _, Grid<Option<Dir>, P, SIZE>, std::collections::BTreeSet<P>, P, D, WORDS, SIZE>(go, &P::first(), |p: P| p == P::last()).is_ok()); }"),
    ("astar-path", "fn main() { let _ = black_box(S::astar_path(go, &P::first(), &P::last())); }"),
    ("astar-path-grid", "fn main() { let _ = black_box(S::astar_path_grid(go, &P::first(), &P::last())); }"),
    ("astar-search", "fn main() { let _ = black_box(astar::search_path::<_, Grid<Option<Dir>, P, SIZE>, (std::collections::HashMap<P, usize>, usize), P, D, WORDS, SIZE>(go, &P::first(), &P::last())); }"),
    ("astar-costs", "fn main() { let _ = black_box(astar::search_path::<_, (std::collections::HashMap<P, Option<Dir>>, Option<Dir>), Grid<usize, P, SIZE>, P, D, WORDS, SIZE>(go, &P::first(), &P::last())); }"),
    ("ucs-path", "fn main() { let _ = black_box(S::ucs_path(go1, &P::first(), &P::last())); }"),
    ("ucs-path-grid", "fn main() { let _ = black_box(S::ucs_path_grid(go1, &P::first(), &P::last())); }"),
    ("ucs-search", "fn main() { let _ = black_box(ucs::search_path::<_, Grid<Option<Dir>, P, SIZE>, (std::collections::HashMap<P, usize>, usize), P, D, WORDS, SIZE>(go1, &P::first(), &P::last())); }"),
    ("ucs-costs", "fn main() { let _ = black_box(ucs::search_path::<_, (std::collections::HashMap<P, Option<Dir>>, Option<Dir>), Grid<usize, P, SIZE>, P, D, WORDS, SIZE>(go1, &P::first(), &P::last())); }"),
];

const ELEMS: &[(&str, &str)] = &[
    ("u8", "7"),
    ("i32", "-3"),
    ("Option<Dir>", "None"),
    ("bool", "true"),
    ("(u64, char)", "(9, 'x')"),
    ("usize", "usize::MAX"),
    ("()", "()"),
];

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct G {
    e: Extents,
    /// How the number of cells is wrong
    how: u8,
    delta: u16,
    using: usize,
    elem: usize,
    d: bool,
    words1: bool,
}

fn grids() -> BoxedStrategy<G> {
    (
        extents(),
        0u8..9,
        1u16..40,
        0..GRID_USES.len() + SEARCH_USES.len(),
        0..ELEMS.len(),
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(e, how, delta, using, elem, d, words1)| G {
            e,
            how,
            delta,
            using,
            elem,
            d,
            words1,
        })
        .boxed()
}

fn grid_t(c: &G, obs: &mut Obs) -> R {
    let n = c.e.n();
    let (w, h) = c.e.wh();
    let delta = c.delta as u64;
    let (what, size) = match c.how {
        0 => ("one-more", n + 1),
        1 => ("one-less", n - 1),
        2 => ("some-more", n + delta),
        3 => ("some-less", n.saturating_sub(delta)),
        4 => ("another-row", n + w),
        5 => ("row-missing", n - w),
        6 => ("another-column", n + h),
        7 => ("maximums", (w - 1) * (h - 1)),
        _ => ("column-missing", n - h),
    };
    assert!(size != n, "harness: the wrong size is right");
    let words = |c: &G| if c.words1 { n / 32 + 1 } else { n.div_ceil(32) };
    let (body, name) = if c.using < GRID_USES.len() {
        let (ety, e) = ELEMS[c.elem];
        let body = format!(
            "type G = Grid<{ety}, P, SIZE>;\nconst E: {ety} = {e};\n{}\n",
            GRID_USES[c.using].1
        );
        (body, GRID_USES[c.using].0)
    } else {
        let u = SEARCH_USES[c.using - GRID_USES.len()];
        (format!("{}\n", u.1), u.0)
    };
    obs.label(what);
    obs.label(name);
    obs.nt(true);
    decide(&c.e.program(&body, n, words(c), c.d), &c.e.program(&body, size, words(c), c.d), obs)
}

/* Boolean grids **************************************************************/

const BOOL_USES: &[(&str, &str)] = &[
    ("repeat", "fn main() { black_box(B::repeat(true)); }"),
    ("repeat-const", "const C: B = B::repeat(false); fn main() { black_box(C); }"),
    ("repeat-static", "static C: B = B::repeat(true); fn main() { black_box(&C); }"),
    ("all-true", "fn main() { black_box(B::ALL_TRUE); }"),
    ("all-false", "fn main() { black_box(B::ALL_FALSE); }"),
    ("default", "fn main() { black_box(B::default()); }"),
    ("collect-positions", "fn main() { black_box([P::first()].into_iter().collect::<B>()); }"),
    ("collect-booleans", "fn main() { black_box((0..N).map(|_| true).collect::<B>()); }"),
    ("derived-default", "#[derive(Default)] struct Holder { a: u8, b: B } fn main() { black_box(Holder::default().b[P::first()]); }"),
    ("boxed", "fn main() { let b: Box<B> = Box::default(); black_box(b); }"),
    ("in-branch", "fn main() { if black_box(1) == 2 { black_box(B::repeat(true)); } }"),
    ("in-function", "fn make<T: Default>() -> T { T::default() } fn main() { black_box(make::<B>()); }"),
    ("bf-iter", "fn main() { black_box(S::bf_iter(go, &P::first()).count()); }"),
    ("bf-iter-grid", "fn main() { black_box(S::bf_iter_grid(go, &P::first()).count()); }"),
    ("bf-iter-free", "fn main() { black_box(bf::bf_iter::<_, B, P, D, WORDS, SIZE>(go, &P::first()).count()); }"),
    ("bf-iter-new", "fn main() { black_box(bf::BfIterator::<_, B, P, D, WORDS, SIZE>::new(go, &P::first()).count()); }"),
    ("bfs-path", "fn main() { let _ = black_box(S::bfs_path(go, &P::first(), |p: P| p == P::last())); }"),
    ("bfs-path-grid", "fn main() { let _ = black_box(S::bfs_path_grid(go, &P::first(), |p: P| p == P::last())); }"),
    ("bf-search", "fn main() { let _ = black_box(bf::search_path::<_, _, (std::collections::HashMap<P, Option<Dir>>, Option<Dir>), B, P, D, WORDS, SIZE>(go, &P::first(), |p: P| p == P::last())); }"),
    ("write", "fn main() { let mut b = B::default(); b.set_t(&P::last()); black_box(b); }"),
];

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct B {
    e: Extents,
    how: u8,
    delta: u16,
    using: usize,
    d: bool,
    words1: bool,
}

fn bools() -> BoxedStrategy<B> {
    (extents(), 0u8..7, 1u16..40, 0..BOOL_USES.len(), any::<bool>(), any::<bool>())
        .prop_map(|(e, how, delta, using, d, words1)| B { e, how, delta, using, d, words1 })
        .boxed()
}

fn bool_t(c: &B, obs: &mut Obs) -> R {
    let n = c.e.n();
    let (least, most) = (n.div_ceil(32), n / 32 + 1);
    let delta = c.delta as u64;
    let (what, words) = match c.how {
        0 | 1 => ("one-less", least - 1),
        2 | 3 => ("one-more", most + 1),
        4 => ("some-less", least.saturating_sub(delta)),
        5 => ("some-more", most + delta),
        _ => ("bits-for-words", n.max(most + 1)),
    };
    let good = if c.words1 { most } else { least };
    let body = format!("type B = Gridbool<P, WORDS>;\n{}\n", BOOL_USES[c.using].1);
    obs.label(what);
    obs.label(BOOL_USES[c.using].0);
    obs.label_if(n % 32 == 0, "multiple-of-32");
    obs.nt(true);
    decide(&c.e.program(&body, n, good, c.d), &c.e.program(&body, n, words, c.d), obs)
}

/* Constants ******************************************************************/

const CONTEXTS: &[(&str, &str)] = &[
    ("const", "const C: T = @; fn main() { black_box(C); }"),
    ("static", "static C: T = @; fn main() { black_box(&C); }"),
    ("associated", "struct A; impl A { const C: T = @; } fn main() { black_box(A::C); }"),
    ("array", "const C: [T; 3] = [@; 3]; fn main() { black_box(C[1]); }"),
    ("inline-const", "fn main() { black_box(const { @ }); }"),
    ("let", "fn main() { let c: T = @; black_box(c); }"),
    ("argument", "fn main() { black_box(@); }"),
    ("function", "fn f() -> T { @ } fn main() { black_box(f()); }"),
    ("in-branch", "fn main() { if black_box(1) == 2 { black_box(@); } }"),
    ("closure", "fn main() { let f = || @; black_box(f()); }"),
    ("const-fn", "const fn f() -> T { @ } const C: T = f(); fn main() { black_box(C); }"),
];

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct K {
    /// 0..10: bounded integer types, otherwise positions
    ty: u8,
    a: u64,
    b: u64,
    v: u64,
    above: bool,
    near: bool,
    context: usize,
    unwrap: bool,
}

const INTS: [(&str, u32, bool); 12] = [
    ("U8", 8, false),
    ("U16", 16, false),
    ("U32", 32, false),
    ("U64", 64, false),
    ("U128", 128, false),
    ("I8", 8, true),
    ("I16", 16, true),
    ("I32", 32, true),
    ("I64", 64, true),
    ("I128", 128, true),
    ("Isize", 64, true),
    ("Isize", 64, true),
];

fn consts() -> BoxedStrategy<K> {
    (
        0u8..20,
        prop_oneof![2 => 0u64..20, 1 => any::<u64>()],
        prop_oneof![2 => 0u64..20, 1 => any::<u64>()],
        any::<u64>(),
        any::<bool>(),
        any::<bool>(),
        0..CONTEXTS.len(),
        any::<bool>(),
    )
        .prop_map(|(ty, a, b, v, above, near, context, unwrap)| K {
            ty,
            a,
            b,
            v,
            above,
            near,
            context,
            unwrap,
        })
        .boxed()
}

fn const_t(c: &K, obs: &mut Obs) -> R {
    // new_unwrap checks when it is evaluated: at compile time in constants only
    let n = CONTEXTS.len();
    let unwrap = c.unwrap && c.context < 5;
    let (cname, context) = CONTEXTS[c.context % n];
    obs.label(cname);
    obs.label(if unwrap { "new_unwrap" } else { "new_static" });
    obs.nt(true);
    let (decl, good, bad) = if (c.ty as usize) < INTS.len() {
        let (name, bits, signed) = INTS[c.ty as usize];
        obs.label(name);
        // Values as offsets from the smallest value of the type, at most 64 bits apart
        let range: u128 = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
        let m = |v: u64| {
            if range == u128::MAX {
                v as u128
            } else {
                v as u128 % (range + 1)
            }
        };
        // Centered on zero for signed types when small
        let base = if signed && c.a < 20 { range / 2 - 9 } else { 0 };
        let (x, y) = ((base + m(c.a)).min(range), (base + m(c.b)).min(range));
        let (lo, hi) = (x.min(y), x.max(y));
        let good = lo + m(c.v) % (hi - lo + 1);
        let far = m(c.v) % 1000;
        let off = if c.near { 0 } else { far };
        let above = || hi.checked_add(1 + off).filter(|v| *v <= range);
        let below = || lo.checked_sub(1 + off);
        let bad = if c.above { above().or_else(below) } else { below().or_else(above) };
        let Some(bad) = bad else {
            // every value of the type is in range
            obs.label("whole-type");
            obs.nontrivial = false;
            return Ok(());
        };
        let show = |v: u128| {
            if signed {
                let half = 1u128 << (bits - 1);
                if v >= half {
                    (v - half).to_string()
                } else {
                    format!("-{}", half - v)
                }
            } else {
                v.to_string()
            }
        };
        let ty = format!("Bounded{name}<{{{}}}, {{{}}}>", show(lo), show(hi));
        let call = |v: u128| {
            if unwrap {
                format!("<T>::new_unwrap({})", show(v))
            } else {
                format!("<T>::new_static::<{{{}}}>()", show(v))
            }
        };
        (ty, call(good), call(bad))
    } else {
        obs.label("position");
        let (x, y) = ((c.a % 65536) as u16, (c.b % 65536) as u16);
        let good = ((c.v % (x as u64 + 1)) as u16, (c.v / 7 % (y as u64 + 1)) as u16);
        let out = |m: u16| {
            let room = 65535 - m;
            (room > 0).then(|| m + 1 + if c.near { 0 } else { (c.v % room as u64) as u16 })
        };
        let bad = match (out(x), out(y)) {
            (Some(bx), _) if c.above => (bx, good.1),
            (_, Some(by)) => (good.0, by),
            (Some(bx), _) => (bx, good.1),
            _ => {
                obs.nontrivial = false;
                return Ok(());
            }
        };
        let call = |p: (u16, u16)| {
            if unwrap {
                format!("<T>::new_unwrap({}, {})", p.0, p.1)
            } else {
                format!("<T>::new_static::<{}, {}>()", p.0, p.1)
            }
        };
        (format!("Pos<{x}, {y}>"), call(good), call(bad))
    };
    let program =
        |call: &str| format!("{PRELUDE}type T = {decl};\n{}\n", context.replace('@', call));
    decide(&program(&good), &program(&bad), obs)
}

fn main() {
    main_check_with(
        "C24",
        &[
            &Facet {
                name: "grids",
                rule: "pairs of programs differing in the number of cells of a grid (one more, one less, a row or column more or less, maximums instead of sizes, others), 16 constructors and 12 searches, Pos, user-defined and (u8,u8) positions; all non-trivial",
                quick: 600,
                thorough: 12_000,
                strategy: |_| grids(),
                test: grid_t,
            },
            &Facet {
                name: "gridbools",
                rule: "pairs of programs differing in the number of words of a boolean grid, 20 constructors and searches; all non-trivial",
                quick: 600,
                thorough: 12_000,
                strategy: |_| bools(),
                test: bool_t,
            },
            &Facet {
                name: "constants",
                rule: "pairs of programs differing in the argument of new_static (or of new_unwrap in a constant) of a bounded integer of any type or a position, in eleven contexts; non-trivial: some value of the type is out of bounds",
                quick: 600,
                thorough: 12_000,
                strategy: |_| consts(),
                test: const_t,
            },
        ],
        &[],
        &[
            "the library of /repo's working tree, compiled as its only crate with rustc, half of the pairs with overflow checks and debug assertions and half without",
            "a wrong program counts as rejected whatever the error, given that its twin with the right number compiles",
            "programs are compiled to object code: functions that are never used are not instantiated and not checked",
        ],
    )
}
