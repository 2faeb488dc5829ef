//! C15: displayed grids show every cell at its row and column.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sqrid::{Grid, Gridbool, Pos};
use vh::gen::*;
use vh::*;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct C {
    dim: usize,
    fmt: u8,
    width: usize,
    cells: Vec<String>,
    ints: Vec<i64>,
    salt: u64,
}

const NFMT: u8 = 8;

/// What the formatter is asked: (fill, alignment, whether the width is used)
fn spec(fmt: u8) -> (char, char, bool) {
    match fmt % NFMT {
        0 => (' ', '<', false),
        1 => (' ', '<', true),
        2 => (' ', '<', true),
        3 => (' ', '>', true),
        4 => (' ', '^', true),
        5 => ('*', '>', true),
        6 => ('0', '^', true),
        _ => ('é', '<', true),
    }
}

fn render<T: std::fmt::Display>(t: &T, fmt: u8, w: usize) -> String {
    match fmt % NFMT {
        0 => format!("{t}"),
        1 => format!("{t:w$}"),
        2 => format!("{t:<w$}"),
        3 => format!("{t:>w$}"),
        4 => format!("{t:^w$}"),
        5 => format!("{t:*>w$}"),
        6 => format!("{t:0^w$}"),
        _ => format!("{t:é<w$}"),
    }
}

fn pad(s: &str, fmt: u8, width: usize) -> String {
    let (fill, align, used) = spec(fmt);
    let n = s.chars().count();
    let missing = if used { width.saturating_sub(n) } else { 0 };
    let (l, r) = match align {
        '<' => (0, missing),
        '>' => (missing, 0),
        _ => (missing / 2, missing - missing / 2),
    };
    let mut o = String::new();
    for _ in 0..l {
        o.push(fill);
    }
    o.push_str(s);
    for _ in 0..r {
        o.push(fill);
    }
    o
}

fn expected(cells: &[String], w: usize, h: usize, fmt: u8, width: usize) -> String {
    let digits = |n: usize| n.to_string().len();
    let (nx, ny) = (digits(w - 1), digits(h - 1));
    let mut head = String::new();
    for d in 0..nx {
        head.push_str(&" ".repeat(ny + 1));
        for x in 0..w {
            let s = x.to_string();
            let lead = nx - s.len();
            let ch = if d < lead { " " } else { &s[d - lead..d - lead + 1] };
            head.push_str(&pad(ch, fmt, width));
        }
        head.push('\n');
    }
    let mut out = head.clone();
    for y in 0..h {
        let s = y.to_string();
        out.push_str(&" ".repeat(ny - s.len()));
        out.push_str(&s);
        out.push(' ');
        for x in 0..w {
            out.push_str(&pad(&cells[y * w + x], fmt, width));
        }
        out.push('\n');
    }
    out.push_str(&head);
    out
}

fn compare(what: &str, got: &str, want: &str, w: usize, h: usize) -> R {
    if got == want {
        return Ok(());
    }
    let (g, e): (Vec<&str>, Vec<&str>) = (got.split('\n').collect(), want.split('\n').collect());
    for (i, (a, b)) in g.iter().zip(&e).enumerate() {
        ensure!(a == b, "{what} {w}x{h}, line {i}: got {a:?}, expected {b:?}");
    }
    Err(format!("{what} {w}x{h}: got {} lines, expected {}", g.len(), e.len()))
}

fn one<const X: u16, const Y: u16, const WORDS: usize, const SIZE: usize>(
    c: &C,
    obs: &mut Obs,
) -> R {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    obs.nt(w > 1 || h > 1);
    obs.label_if(w > 10 || h > 10, "several-digits");
    obs.label_if(spec(c.fmt).2, "width");
    // the formatter may not be asked to shorten anything: cells keep their whole text
    let cell = |i: usize| -> String {
        if c.cells.is_empty() {
            String::new()
        } else {
            c.cells[(i as u64).wrapping_mul(c.salt | 1) as usize % c.cells.len()].clone()
        }
    };
    let cells: Vec<String> = (0..w * h).map(cell).collect();
    obs.label_if(
        spec(c.fmt).2 && cells.iter().any(|s| s.chars().count() > c.width),
        "overlong-cell",
    );
    obs.label_if(cells.iter().any(|s| !s.is_ascii()), "non-ascii");
    let g: Grid<String, Pos<X, Y>, SIZE> = cells.iter().cloned().collect();
    compare(
        "grid of strings",
        &render(&g, c.fmt, c.width),
        &expected(&cells, w, h, c.fmt, c.width),
        w,
        h,
    )?;

    let int = |i: usize| -> i64 {
        if c.ints.is_empty() {
            i as i64
        } else {
            c.ints[(i as u64).wrapping_mul(c.salt | 1).rotate_left(7) as usize % c.ints.len()]
        }
    };
    let ints: Vec<i64> = (0..w * h).map(int).collect();
    let texts: Vec<String> = ints.iter().map(|v| v.to_string()).collect();
    let g: Grid<i64, Pos<X, Y>, SIZE> = ints.iter().copied().collect();
    compare(
        "grid of integers",
        &render(&g, c.fmt, c.width),
        &expected(&texts, w, h, c.fmt, c.width),
        w,
        h,
    )?;

    let bit = |i: usize| (i as u64 + 1).wrapping_mul(c.salt | 1) >> 17 & 1 == 1;
    let texts: Vec<String> =
        (0..w * h).map(|i| if bit(i) { "#" } else { "." }.to_string()).collect();
    let b: Gridbool<Pos<X, Y>, WORDS> =
        (0..w * h).filter(|i| bit(*i)).map(unrank::<X, Y>).collect();
    compare(
        "boolean grid",
        &render(&b, c.fmt, c.width),
        &expected(&texts, w, h, c.fmt, c.width),
        w,
        h,
    )
}

macro_rules! tab {
    ($f:ident, $fty:ty ; $(($x:literal, $y:literal))*) => {{
        const T: &[(u16, u16, $fty)] = &[$((
            $x,
            $y,
            $f::<$x, $y, { (($x + 1) * ($y + 1) + 31) / 32 }, { ($x + 1) * ($y + 1) }>,
        )),*];
        T
    }};
}

type Fn_ = fn(&C, &mut Obs) -> R;

fn small(c: &C, obs: &mut Obs) -> R {
    let t = tab! { one, Fn_;
        (0, 0) (1, 0) (0, 1) (1, 1) (2, 2) (0, 6) (6, 0) (3, 1) (1, 3) (4, 2) (2, 4) (3, 3) (5, 6)
        (8, 8) (9, 8) (8, 9) (9, 9) (10, 8) (8, 10) (10, 10) (9, 0) (10, 0) (0, 9) (0, 10) (11, 1)
        (31, 0) (0, 31) (15, 15) (98, 1) (99, 0) (99, 1) (100, 0) (100, 2) (1, 98) (0, 99) (0, 100)
        (1, 99) (2, 100) (119, 9) (12, 103)
    };
    (t[c.dim % t.len()].2)(c, obs)
}

fn large(c: &C, obs: &mut Obs) -> R {
    let t = tab! { one, Fn_;
        (998, 0) (999, 1) (1000, 0) (1000, 1) (0, 999) (0, 1000) (1, 1000) (255, 99) (99, 255)
        (255, 255) (256, 256) (9999, 0) (0, 10000) (10000, 1) (65535, 0) (0, 65535) (1, 65535)
        (65534, 1)
    };
    (t[c.dim % t.len()].2)(c, obs)
}

/* The helper that both use, open to users, at any size ***********************/

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct H {
    w: usize,
    h: usize,
    fmt: u8,
    width: usize,
    cells: Vec<String>,
    /// 0: a size hint that is exact, 1: a lower bound, 2: an upper bound, 3: nothing known
    hint: u8,
}

struct Shown<'a>(&'a H, &'a [String]);

impl std::fmt::Display for Shown<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let it = self.1.iter().cloned();
        match self.0.hint % 4 {
            0 => sqrid::display_fmt_helper(f, self.0.w, self.0.h, it),
            1 => sqrid::display_fmt_helper(
                f,
                self.0.w,
                self.0.h,
                it.chain(std::iter::from_fn(|| None)),
            ),
            2 => sqrid::display_fmt_helper(f, self.0.w, self.0.h, it.filter(|_| true)),
            _ => {
                let mut it = it;
                sqrid::display_fmt_helper(
                    f,
                    self.0.w,
                    self.0.h,
                    std::iter::from_fn(move || it.next()),
                )
            }
        }
    }
}

fn helper(c: &H, obs: &mut Obs) -> R {
    obs.nt(c.w > 1 || c.h > 1);
    obs.label_if(c.w > 10, "columns-of-several-digits");
    obs.label_if(c.h > 10, "lines-of-several-digits");
    obs.label_if(
        [10, 100, 1000, 10000].contains(&c.w) || [10, 100, 1000, 10000].contains(&c.h),
        "power-of-ten",
    );
    let cells: Vec<String> = (0..c.w * c.h)
        .map(|i| {
            if c.cells.is_empty() {
                i.to_string()
            } else {
                c.cells[(i + i / c.w) % c.cells.len()].clone()
            }
        })
        .collect();
    let got = render(&Shown(c, &cells), c.fmt, c.width);
    compare("helper", &got, &expected(&cells, c.w, c.h, c.fmt, c.width), c.w, c.h)
}

fn helper_gen() -> BoxedStrategy<H> {
    let side = || {
        prop_oneof![
            6 => 1usize..13,
            2 => 1usize..110,
            1 => (1u32..4, 0usize..3).prop_map(|(e, d)| 10usize.pow(e) - 1 + d),
        ]
    };
    let size = prop_oneof![
        30 => (side(), side()).prop_map(|(w, h)| if w * h > 4000 { (w, 1 + h % 4) } else { (w, h) }),
        1 => (900usize..12000, 1usize..3),
        1 => (1usize..3, 900usize..12000),
    ];
    (size, 0..NFMT, 0usize..8, prop::collection::vec(cell(), 0..6), 0u8..4)
        .prop_map(|((w, h), fmt, width, cells, hint)| H { w, h, fmt, width, cells, hint })
        .boxed()
}

fn cell() -> BoxedStrategy<String> {
    prop_oneof![
        4 => prop::sample::select(vec!["", "a", "#", "..", "xyz", "longer cell", "-1"])
            .prop_map(str::to_string),
        3 => "[ -~]{0,6}",
        1 => prop::sample::select(vec!["é", "日本", "🦀", "ß-"]).prop_map(str::to_string),
    ]
    .boxed()
}

fn gen(n: usize) -> BoxedStrategy<C> {
    (
        0..n,
        0..NFMT,
        0usize..8,
        prop::collection::vec(cell(), 0..6),
        prop::collection::vec(
            prop_oneof![Just(0i64), -9i64..10, -1000i64..1000, any::<i64>()],
            0..6,
        ),
        any::<u64>(),
    )
        .prop_map(|(dim, fmt, width, cells, ints, salt)| C { dim, fmt, width, cells, ints, salt })
        .boxed()
}

fn main() {
    main_check(
        "C15",
        &[
            &Facet {
                name: "small",
                rule: "grids up to 120 columns or 104 rows of strings (any width, non-ascii too), of integers and of booleans, printed with every fill and alignment and compared to the exact text; non-trivial when the grid has more than one cell",
                quick: 200_000,
                thorough: 3_000_000,
                strategy: |_| gen(40),
                test: small,
            },
            &Facet {
                name: "large",
                rule: "as small, with three to five digits in row or column numbers (up to 65536)",
                quick: 600,
                thorough: 9_000,
                strategy: |_| gen(18),
                test: large,
            },
            &Facet {
                name: "helper",
                rule: "display_fmt_helper with any number of columns and lines (up to 12000), iterators of cells with all kinds of size hints; non-trivial when there is more than one cell",
                quick: 30_000,
                thorough: 900_000,
                strategy: |_| helper_gen(),
                test: helper,
            },
        ],
        &[],
    );
}
