//! C26: the type factory yields consistent types for any dimensions.
//!
//! A case is a program that makes types with the factory macros and checks them.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::*;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct C {
    sets: Vec<T>,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct T {
    x: u16,
    y: u16,
    d: bool,
    /// How the numbers are given
    form: u8,
    runs: Vec<(u64, u8, u32, u32)>,
}

fn sides(limit: u64) -> BoxedStrategy<(u16, u16)> {
    let m = prop_oneof![
        4 => 0u16..9,
        3 => 0u16..70,
        2 => prop::sample::select(vec![30u16, 31, 32, 33, 63, 64, 95, 127, 128, 254, 255, 256, 257, 511, 1023]),
    ];
    let plain = (m.clone(), m.clone());
    // numbers of cells at and around multiples of the word size
    let words = (
        1u64..40,
        0u64..3,
        prop::sample::select(vec![1u64, 2, 3, 4, 5, 7, 8, 16, 31, 32, 33]),
        any::<bool>(),
    )
        .prop_map(|(k, off, h, flip)| {
            let w = (32 * k + off - 1).div_ceil(h).max(1);
            let (x, y) = ((w - 1) as u16, (h - 1) as u16);
            if flip {
                (y, x)
            } else {
                (x, y)
            }
        });
    let long = (
        prop_oneof![Just(65535u16), Just(65534), Just(65503), Just(40000), Just(9999)],
        any::<bool>(),
    )
        .prop_map(|(l, flip)| if flip { (0, l) } else { (l, 0) });
    prop_oneof![6 => plain, 4 => words, 1 => long]
        .prop_map(move |(x, y)| {
            let (mut x, mut y) = (x, y);
            while (x as u64 + 1) * (y as u64 + 1) > limit {
                if x > y {
                    x /= 2
                } else {
                    y /= 2
                }
            }
            (x, y)
        })
        .boxed()
}

fn types(limit: u64) -> impl Strategy<Value = T> {
    (
        sides(limit),
        any::<bool>(),
        0u8..8,
        prop::collection::vec((any::<u64>(), 0u8..12, any::<u32>(), any::<u32>()), 1..4),
    )
        .prop_map(|((x, y), d, form, runs)| T { x, y, d, form, runs })
}

fn strategy(thorough: bool) -> BoxedStrategy<C> {
    let limit = if thorough { 140_000 } else { 70_000 };
    prop::collection::vec(types(limit), 1..4).prop_map(|sets| C { sets }).boxed()
}

impl T {
    fn module(&self, i: usize) -> String {
        let T { x, y, d, .. } = self;
        let (w, h) = (*x as u32 + 1, *y as u32 + 1);
        let create = match self.form {
            0 | 1 => format!("type S = sqrid::sqrid_create!({x}, {y}, {d});"),
            2 => format!("type S = sqrid::sqrid_create!({x}u16, {y}u16, {d});"),
            3 => format!("const XM: u16 = {x};\nconst YM: u16 = {y};\ntype S = sqrid::sqrid_create!(XM, YM, {d});"),
            4 => format!("const W: u32 = {w};\nconst H: u32 = {h};\ntype S = sqrid::sqrid_create!((W - 1) as u16, (H - 1) as u16, {d});"),
            5 => format!("type S = sqrid::sqrid_create!(sqrid::Pos::<{x}, {y}>, {d});"),
            6 => format!("type Q = sqrid::Pos<{x}, {y}>;\ntype S = sqrid::sqrid_create!(Q, {d});"),
            _ => format!("type R = sqrid::sqrid_create!({x}, {y}, {});\ntype Q = sqrid::pos_create!(R);\ntype S = sqrid::sqrid_create!(Q, {d});", !d),
        };
        let runs: String = self
            .runs
            .iter()
            .map(|(salt, walls, o, t)| {
                format!("    check(S::default(), PhantomData::<P>, PhantomData::<G>, PhantomData::<B>, {x}, {y}, {d}, ({salt}, {walls}, {o}, {t}));\n")
            })
            .collect();
        format!(
            "mod types{i} {{
use super::*;
{create}
type P = sqrid::pos_create!(S);
type G = sqrid::grid_create!(S, u32);
type B = sqrid::gridbool_create!(S);
pub fn run() {{
{runs}}}
}}
"
        )
    }
}

fn test(c: &C, obs: &mut Obs) -> R {
    let modules: String = c.sets.iter().enumerate().map(|(i, t)| t.module(i)).collect();
    let calls: String = (0..c.sets.len()).map(|i| format!("types{i}::run(); ")).collect();
    let main = format!(
        "{modules}fn main() {{
    let t = std::thread::Builder::new().stack_size(512 << 20).spawn(|| {{ {calls}}}).unwrap();
    if t.join().is_err() {{ std::process::exit(7); }}
    println!(\"done\");
}}
"
    );
    for t in &c.sets {
        let n = (t.x as u32 + 1) * (t.y as u32 + 1);
        obs.nt(n > 1);
        obs.label(match n % 32 {
            0 => "multiple-of-32",
            1 => "multiple-of-32-plus-1",
            31 => "multiple-of-32-less-1",
            _ => "other",
        });
        obs.label_if(n > 10_000, "more-than-10000-cells");
        obs.label(if t.d { "diagonals" } else { "no-diagonals" });
        obs.label(if t.form < 5 { "from-numbers" } else { "from-a-position-type" });
    }
    let src = format!("{}\n{main}", include_str!("../programs/c26.rs"));
    let build = rustc::Build::of(&main);
    obs.label(build.label());
    match rustc::run(&src, build) {
        Ok(out) if out == "done\n" => Ok(()),
        Ok(out) => Err(format!("the program printed {out}\n{main}")),
        Err(e) => Err(format!("{e}\n{main}")),
    }
}

/// Every form with sides of every width of an integer
fn forms(_: bool) -> Vec<C> {
    let sides = [(300u16, 2u16), (2, 300), (65535, 0), (0, 65535), (256, 255), (255, 256)];
    (0..8u8)
        .map(|form| C {
            sets: sides
                .iter()
                .enumerate()
                .map(|(i, &(x, y))| T {
                    x,
                    y,
                    d: (i as u8 + form) % 2 == 0,
                    form,
                    runs: vec![(i as u64, form, 1, 200)],
                })
                .collect(),
        })
        .collect()
}

fn main() {
    main_check_with(
        "C26",
        &[&Exhaustive {
            name: "forms",
            rule: "programs of six sets of types with sides above and below 256, each given in the same of the eight forms; all non-trivial",
            cases: forms,
            test,
        },
        &Facet {
            name: "programs",
            rule: "programs of one to three sets of types each, from numbers in five forms or from position types in three, up to 70000 cells (140000 thorough), one to three random mazes each, every traversal and search on every backend; non-trivial: more than one position",
            quick: 90,
            thorough: 4_000,
            strategy,
            test,
        }],
        &[],
        &["the library of /repo's working tree, compiled as its only crate with rustc at opt-level 1, half of the programs with overflow checks and debug assertions and half without"],
    )
}
