//! Generators shared by the checks.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sqrid::{Dir, Pos};

/// A coordinate still to be fitted into a range: kind and raw value.
///
/// Kind 0 counts from the start, 1 from the end, 2 picks a notable value (bytes and words ends).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Co(pub u8, pub u16);

const NOTABLE: [u16; 20] = [
    255, 256, 254, 257, 127, 128, 31, 32, 33, 63, 64, 32767, 32768, 32766, 65535, 65534, 7, 8, 15,
    16,
];

impl Co {
    /// The coordinate within 0..=max.
    pub fn at(self, max: u16) -> u16 {
        let n = max as u32 + 1;
        match self.0 {
            0 => (self.1 as u32 % n) as u16,
            1 => max - (self.1 as u32 % n) as u16,
            _ => (NOTABLE[self.1 as usize % NOTABLE.len()] as u32 % n) as u16,
        }
    }
}

pub fn co() -> impl Strategy<Value = Co> + Clone {
    prop_oneof![
        3 => (0u16..8).prop_map(|r| Co(0, r)),
        4 => any::<u16>().prop_map(|r| Co(0, r)),
        3 => (0u16..8).prop_map(|r| Co(1, r)),
        1 => (0u16..20).prop_map(|r| Co(2, r)),
    ]
}

pub type Cxy = (Co, Co);

pub fn cxy() -> impl Strategy<Value = Cxy> + Clone {
    (co(), co())
}

/// Build a position through its public tuple field: independent of every constructor under test.
pub fn mkpos<const X: u16, const Y: u16>(x: u16, y: u16) -> Pos<X, Y> {
    assert!(x <= X && y <= Y, "harness built an invalid position");
    Pos((sqrid::BoundedU16(x), sqrid::BoundedU16(y)))
}

pub fn pos_of<const X: u16, const Y: u16>(c: Cxy) -> Pos<X, Y> {
    mkpos(c.0.at(X), c.1.at(Y))
}

/// Coordinates of a position through its public tuple field.
pub fn raw<const X: u16, const Y: u16>(p: &Pos<X, Y>) -> (u16, u16) {
    (p.0 .0 .0, p.0 .1 .0)
}

/// Index of a position, computed by the harness.
pub fn rank<const X: u16, const Y: u16>(p: &Pos<X, Y>) -> usize {
    let (x, y) = raw(p);
    y as usize * (X as usize + 1) + x as usize
}

pub fn unrank<const X: u16, const Y: u16>(i: usize) -> Pos<X, Y> {
    let w = X as usize + 1;
    mkpos((i % w) as u16, (i / w) as u16)
}

/// The directions in clockwise order, as the documentation lists them, with their offsets.
pub const DIRS: [(Dir, i8, i8); 8] = [
    (Dir::N, 0, -1),
    (Dir::NE, 1, -1),
    (Dir::E, 1, 0),
    (Dir::SE, 1, 1),
    (Dir::S, 0, 1),
    (Dir::SW, -1, 1),
    (Dir::W, -1, 0),
    (Dir::NW, -1, -1),
];

/// Index of a direction in `DIRS`.
pub fn didx(d: Dir) -> usize {
    DIRS.iter().position(|t| t.0 == d).expect("direction")
}

pub fn dir() -> impl Strategy<Value = u8> + Clone {
    0u8..8
}

/// An integer of any sign and any size up to 128 bits.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct W {
    pub neg: bool,
    #[serde(with = "u128str")]
    pub mag: u128,
}

mod u128str {
    pub fn serialize<S: serde::Serializer>(v: &u128, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&v.to_string())
    }
    pub fn deserialize<'a, D: serde::Deserializer<'a>>(d: D) -> Result<u128, D::Error> {
        let s: String = serde::Deserialize::deserialize(d)?;
        s.parse().map_err(serde::de::Error::custom)
    }
}

impl W {
    pub fn new(neg: bool, mag: u128) -> W {
        W { neg: neg && mag != 0, mag }
    }
    pub fn u(v: u128) -> W {
        W::new(false, v)
    }
    pub fn i(v: i128) -> W {
        W::new(v < 0, v.unsigned_abs())
    }
    /// Exact sum, or None when it does not even fit in sign and 128 bits.
    pub fn add(self, o: W) -> Option<W> {
        if self.neg == o.neg {
            Some(W::new(self.neg, self.mag.checked_add(o.mag)?))
        } else if self.mag >= o.mag {
            Some(W::new(self.neg, self.mag - o.mag))
        } else {
            Some(W::new(o.neg, o.mag - self.mag))
        }
    }
    pub fn minus(self) -> W {
        W::new(!self.neg, self.mag)
    }
    pub fn sub(self, o: W) -> Option<W> {
        self.add(o.minus())
    }
    pub fn to_i128(self) -> Option<i128> {
        if self.neg {
            if self.mag == 1u128 << 127 {
                Some(i128::MIN)
            } else {
                i128::try_from(self.mag).ok().map(|v| -v)
            }
        } else {
            i128::try_from(self.mag).ok()
        }
    }
    pub fn to_u128(self) -> Option<u128> {
        (!self.neg).then_some(self.mag)
    }
}

impl PartialOrd for W {
    fn partial_cmp(&self, o: &W) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for W {
    fn cmp(&self, o: &W) -> std::cmp::Ordering {
        match (self.neg, o.neg) {
            (true, false) => std::cmp::Ordering::Less,
            (false, true) => std::cmp::Ordering::Greater,
            (false, false) => self.mag.cmp(&o.mag),
            (true, true) => o.mag.cmp(&self.mag),
        }
    }
}

/// Integer types and their exact value.
pub trait AsW: Copy {
    fn w(self) -> W;
    fn of(w: W) -> Option<Self>;
}
macro_rules! asw_u { ($($t:ty)*) => {$(
    impl AsW for $t {
        fn w(self) -> W { W::u(self as u128) }
        fn of(w: W) -> Option<Self> {
            let v = w.to_u128()?;
            if v <= <$t>::MAX as u128 { Some(v as $t) } else { None }
        }
    }
)*}; }
macro_rules! asw_i { ($($t:ty)*) => {$(
    impl AsW for $t {
        fn w(self) -> W { W::i(self as i128) }
        fn of(w: W) -> Option<Self> {
            let v = w.to_i128()?;
            if v >= <$t>::MIN as i128 && v <= <$t>::MAX as i128 { Some(v as $t) } else { None }
        }
    }
)*}; }
asw_u!(u8 u16 u32 u64 u128 usize);
asw_i!(i8 i16 i32 i64 i128 isize);

/// Integers of any size, dense near zero and near the ends of every integer type.
pub fn wide() -> impl Strategy<Value = W> + Clone {
    prop_oneof![
        4 => (any::<bool>(), 0u128..300).prop_map(|(n, m)| W::new(n, m)),
        2 => (any::<bool>(), 0u128..70000).prop_map(|(n, m)| W::new(n, m)),
        4 => (any::<bool>(), 0u32..129, 0u128..4, any::<bool>()).prop_map(|(n, k, d, up)| {
            let p = if k == 128 { u128::MAX } else { 1u128 << k };
            W::new(n, if up { p.saturating_add(d) } else { p.saturating_sub(d) })
        }),
        // multiples of 2^16, 2^32, 2^64 plus something small: what truncation would map back
        3 => (any::<bool>(), prop::sample::select(vec![8u32, 16, 32, 64]), 1u128..6, 0u128..300)
            .prop_map(|(n, k, a, b)| W::new(n, (a << k) + b)),
        1 => (any::<bool>(), any::<u128>()).prop_map(|(n, m)| W::new(n, m)),
    ]
}
