//! C05: direction conversions accept exactly the valid encodings.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sqrid::{Dir, Error};
use std::str::FromStr;
use vh::gen::*;
use vh::*;

/// The documented symbols: direction index and character.
const SYMBOLS: [(usize, char); 24] = [
    (0, 'N'),
    (2, 'E'),
    (4, 'S'),
    (6, 'W'),
    (0, 'n'),
    (2, 'e'),
    (4, 's'),
    (6, 'w'),
    (0, '↑'),
    (1, '↗'),
    (2, '→'),
    (3, '↘'),
    (4, '↓'),
    (5, '↙'),
    (6, '←'),
    (7, '↖'),
    (0, '^'),
    (1, '7'),
    (2, '>'),
    (3, '\\'),
    (4, 'v'),
    (5, 'L'),
    (6, '<'),
    (7, '`'),
];

fn want_char(c: char) -> Result<Dir, Error> {
    SYMBOLS.iter().find(|s| s.1 == c).map(|s| DIRS[s.0].0).ok_or(Error::DirParseError)
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Range {
    from: u32,
    to: u32,
}

/// Every character of a block of code points.
fn chars(r: &Range, obs: &mut Obs) -> R {
    obs.nt(true);
    for u in r.from..r.to {
        let Some(c) = char::from_u32(u) else { continue };
        let want = want_char(c);
        ensure_eq!(Dir::try_from(c), want, "character {c:?}");
        let s = c.to_string();
        ensure_eq!(s.parse::<Dir>(), want, "string {s:?}");
        let s2 = format!("{c}\u{301}");
        ensure_eq!(Dir::from_str(&s2), Err(Error::DirParseError), "string {s2:?}");
    }
    Ok(())
}

fn strings(s: &String, obs: &mut Obs) -> R {
    let n = s.chars().count();
    obs.nt(n != 1);
    obs.label(match n {
        0 => "empty",
        1 => "one",
        _ => "longer",
    });
    let want = match n {
        1 => want_char(s.chars().next().unwrap()),
        _ => Err(Error::DirParseError),
    };
    obs.label_if(want.is_ok(), "valid");
    ensure_eq!(no_panic(|| s.parse::<Dir>()), Ok(want), "string {s:?}");
    Ok(())
}

fn any_string() -> BoxedStrategy<String> {
    let sym = prop::sample::select(SYMBOLS.iter().map(|s| s.1).collect::<Vec<_>>());
    prop_oneof![
        3 => prop::collection::vec(sym.clone(), 0..4).prop_map(|v| v.into_iter().collect()),
        1 => prop::collection::vec(any::<char>(), 0..3).prop_map(|v| v.into_iter().collect()),
        2 => (sym, prop::sample::select(vec![" ", "\n", "\0", "\u{301}", "\u{fe0f}", "E"]), any::<bool>())
            .prop_map(|(c, s, f)| if f { format!("{c}{s}") } else { format!("{s}{c}") }),
        1 => prop::sample::select(Dir::NAMES_CARDINAL.to_vec()).prop_map(String::from),
        1 => "[a-zA-Z^<>`7 ]{0,3}".prop_map(String::from),
    ]
    .boxed()
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Pair {
    x: W,
    y: W,
}

fn tuples(c: &Pair, obs: &mut Obs) -> R {
    let unit = |w: W| w.mag <= 1;
    let valid = unit(c.x) && unit(c.y) && (c.x.mag == 1 || c.y.mag == 1);
    obs.nt(!valid);
    obs.label(if valid { "valid" } else { "invalid" });
    let want = DIRS
        .iter()
        .find(|t| t.1.w() == c.x && t.2.w() == c.y)
        .map(|t| t.0)
        .ok_or(Error::InvalidDirection);
    macro_rules! each { ($($t:ty)*) => {$(
        if let (Some(x), Some(y)) = (<$t as AsW>::of(c.x), <$t as AsW>::of(c.y)) {
            ensure_eq!(Dir::try_from((x, y)), want, "direction of {:?}", (x, y));
            ensure_eq!(Dir::try_from(&(x, y)), want, "direction of &{:?}", (x, y));
            if let Ok(d) = want {
                ensure_eq!(<($t, $t)>::from(d), (x, y), "offset of {d:?}");
            }
        }
    )*}; }
    each!(i8 i16 i32 i64 i128 isize);
    Ok(())
}

fn small_offset() -> impl Strategy<Value = W> {
    prop_oneof![
        6 => (-2i128..=2).prop_map(W::i),
        // one plus or minus multiples of a narrower type's range
        3 => (prop::sample::select(vec![7u32, 8, 15, 16, 31, 32, 63, 64, 126]), -1i128..=1, any::<bool>())
            .prop_map(|(k, d, n)| W::i(if n { -(1i128 << k) + d } else { (1i128 << k) + d })),
        1 => wide(),
    ]
}

fn names(i: &usize, obs: &mut Obs) -> R {
    obs.nt(true);
    let d = DIRS[*i].0;
    let arrow = SYMBOLS[8 + *i].1;
    let ascii = SYMBOLS[16 + *i].1;
    ensure_eq!(d.name_utf8_char(), arrow, "arrow of {d:?}");
    ensure_eq!(d.name_utf8(), arrow.to_string(), "arrow name of {d:?}");
    ensure_eq!(d.name_ascii_char(), ascii, "ASCII symbol of {d:?}");
    ensure_eq!(d.name_ascii(), ascii.to_string(), "ASCII name of {d:?}");
    let card = ["N", "NE", "E", "SE", "S", "SW", "W", "NW"][*i];
    ensure_eq!(d.name_cardinal(), card, "name of {d:?}");
    ensure_eq!(d.to_string(), card, "display of {d:?}");
    ensure_eq!(Dir::try_from(d.name_utf8_char()), Ok(d), "parse of the arrow");
    ensure_eq!(Dir::try_from(d.name_ascii_char()), Ok(d), "parse of the ASCII symbol");
    ensure_eq!(d.name_utf8().parse(), Ok(d), "parse of the arrow string");
    ensure_eq!(d.name_ascii().parse(), Ok(d), "parse of the ASCII string");
    if i % 2 == 0 {
        ensure_eq!(d.to_string().parse(), Ok(d), "parse of the letter");
        ensure_eq!(d.to_string().to_lowercase().parse(), Ok(d), "parse of the lowercase letter");
    }
    ensure_eq!(Dir::NAMES_CARDINAL[*i], card, "NAMES_CARDINAL");
    ensure_eq!(Dir::NAMES_UTF8_CHAR[*i], arrow, "NAMES_UTF8_CHAR");
    ensure_eq!(Dir::NAMES_ASCII_CHAR[*i], ascii, "NAMES_ASCII_CHAR");
    Ok(())
}

fn main() {
    main_check(
        "C05",
        &[
            &Exhaustive {
                name: "names",
                rule: "the name tables of all eight directions and their parsing; all non-trivial",
                cases: |_| (0..8).collect(),
                test: names,
            },
            &Exhaustive {
                name: "chars",
                rule: "every Unicode scalar value, as a character, as a string and followed by another character; counted in blocks of 4096 code points, all non-trivial",
                cases: |_| {
                    (0..=0x10ffffu32 / 4096)
                        .map(|b| Range { from: b * 4096, to: (b + 1) * 4096 })
                        .collect()
                },
                test: chars,
            },
            &Facet {
                name: "strings",
                rule: "strings of zero to four characters, symbols of directions, padded symbols, two-letter names, arbitrary characters; non-trivial: not exactly one character",
                quick: 6_000_000,
                thorough: 90_000_000,
                strategy: |_| any_string(),
                test: strings,
            },
            &Facet {
                name: "tuples",
                rule: "pairs of integers near zero, at and around the powers of two of every width, tried in every signed type that holds them; non-trivial: not a unit offset",
                quick: 8_000_000,
                thorough: 120_000_000,
                strategy: |_| (small_offset(), small_offset()).prop_map(|(x, y)| Pair { x, y }).boxed(),
                test: tuples,
            },
        ],
        &[],
    )
}
