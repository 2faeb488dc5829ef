//! Scripts that consume an iterator in every way the standard traits offer, against the sequence
//! it should yield; and iterators that announce any honest size.
use crate::{ensure, ensure_eq, R};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Take {
    /// next, so many times
    Next(u32),
    Nth(u32),
    /// by_ref().skip(n).next()
    Skip(u32),
    /// by_ref().take(n) collected
    Some(u32),
    /// find the item so many ahead
    Find(u32),
    /// the place of the item so many ahead
    Position(u32),
    /// try_fold that breaks at the item so many ahead
    Break(u32),
    NextBack(u32),
    NthBack(u32),
    /// by_ref().rev().take(n) collected
    SomeBack(u32),
    /// find the item so many from the back
    FindBack(u32),
    /// try_rfold that breaks at the item so many from the back
    BreakBack(u32),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Script {
    pub takes: Vec<Take>,
    pub finish: u8,
    pub step: u8,
}

/// Counts in the last 64 stand for as many below the largest `usize`.
pub fn amount(n: u32) -> usize {
    match u32::MAX - n {
        below @ 0..64 => usize::MAX - below as usize,
        _ => n as usize,
    }
}

pub fn script(most: u32, len: usize) -> BoxedStrategy<Script> {
    let n = prop_oneof![6 => 0u32..4, 3 => 0u32..most.clamp(5, 40), 1 => 0..most.max(1)];
    let huge = prop_oneof![3 => u32::MAX - 63..=u32::MAX, 1 => 1u32 << 31..u32::MAX];
    let n = prop_oneof![24 => n, 1 => huge];
    let take = (0u8..12, n).prop_map(|(k, n)| match k {
        0 => Take::Next(n),
        1 => Take::Nth(n),
        2 => Take::Skip(n),
        3 => Take::Some(n),
        4 => Take::Find(n),
        5 => Take::NextBack(n),
        6 => Take::NthBack(n),
        7 => Take::Position(n),
        8 => Take::Break(n),
        9 => Take::FindBack(n),
        10 => Take::BreakBack(n),
        _ => Take::SomeBack(n),
    });
    (prop::collection::vec(take, 0..len), 0u8..40, 1u8..9)
        .prop_map(|(takes, finish, step)| Script { takes, finish, step })
        .boxed()
}

/// What the sequence still has: items lo..hi of `at`.
struct Left<'a, K> {
    lo: usize,
    hi: usize,
    at: &'a dyn Fn(usize) -> K,
}

impl<K> Left<'_, K> {
    fn len(&self) -> usize {
        self.hi - self.lo
    }
    fn front(&mut self, skip: usize) -> Option<K> {
        self.lo += skip.min(self.len());
        (self.lo < self.hi).then(|| {
            self.lo += 1;
            (self.at)(self.lo - 1)
        })
    }
    fn back(&mut self, skip: usize) -> Option<K> {
        self.hi -= skip.min(self.len());
        (self.lo < self.hi).then(|| {
            self.hi -= 1;
            (self.at)(self.hi)
        })
    }
}

/// What a script does to an iterator from the front, whatever its type: the engine below is compiled
/// once for every type of key, and only this for every type of iterator.
trait Front<K> {
    fn next(&mut self) -> Option<K>;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn nth(&mut self, n: usize) -> Option<K>;
    fn find(&mut self, found: &mut dyn FnMut() -> bool) -> Option<K>;
    fn position(&mut self, found: &mut dyn FnMut() -> bool) -> Option<usize>;
    fn any(&mut self, found: &mut dyn FnMut() -> bool) -> bool;
    fn all(&mut self, goes_on: &mut dyn FnMut(K) -> bool) -> bool;
    /// Whether it went to the end.
    fn try_fold(&mut self, goes_on: &mut dyn FnMut(K) -> bool) -> bool;
    fn consume(self: Box<Self>, how: How) -> Got<K>;
}

/// From both ends.
trait Both<K>: Front<K> {
    fn next_back(&mut self) -> Option<K>;
    fn nth_back(&mut self, n: usize) -> Option<K>;
    fn rfind(&mut self, found: &mut dyn FnMut() -> bool) -> Option<K>;
    fn try_rfold(&mut self, goes_on: &mut dyn FnMut(K) -> bool) -> bool;
    fn rfold(self: Box<Self>) -> Vec<K>;
}

#[derive(Clone, Copy, Debug)]
enum How {
    Collect,
    Count,
    Last,
    Fold,
    ForEach,
    Partition(usize),
    Max,
    Min,
    IsSorted,
    MaxBy,
    MinBy,
    Reduce,
}

#[derive(PartialEq, Debug)]
enum Got<K> {
    All(Vec<K>),
    Number(usize),
    One(Option<K>),
    Two(Vec<K>, Vec<K>),
    Answer(bool),
}

struct Of<'a, I: Iterator, K> {
    it: I,
    key: &'a dyn Fn(I::Item) -> K,
}

impl<I: Iterator<Item: Ord>, K> Front<K> for Of<'_, I, K> {
    fn next(&mut self) -> Option<K> {
        self.it.next().map(self.key)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
    fn nth(&mut self, n: usize) -> Option<K> {
        self.it.nth(n).map(self.key)
    }
    fn find(&mut self, found: &mut dyn FnMut() -> bool) -> Option<K> {
        self.it.find(|_| found()).map(self.key)
    }
    fn position(&mut self, found: &mut dyn FnMut() -> bool) -> Option<usize> {
        self.it.position(|_| found())
    }
    fn any(&mut self, found: &mut dyn FnMut() -> bool) -> bool {
        self.it.any(|_| found())
    }
    fn all(&mut self, goes_on: &mut dyn FnMut(K) -> bool) -> bool {
        let key = self.key;
        self.it.all(|i| goes_on(key(i)))
    }
    fn try_fold(&mut self, goes_on: &mut dyn FnMut(K) -> bool) -> bool {
        let key = self.key;
        self.it.try_fold((), |_, i| goes_on(key(i)).then_some(())).is_some()
    }
    fn consume(self: Box<Self>, how: How) -> Got<K> {
        let Of { it, key } = *self;
        match how {
            How::Collect => {
                let v: Vec<I::Item> = it.collect();
                Got::All(v.into_iter().map(key).collect())
            }
            How::Count => Got::Number(it.count()),
            How::Last => Got::One(it.last().map(key)),
            How::Fold => Got::All(it.fold(vec![], |mut v, i| {
                v.push(key(i));
                v
            })),
            How::ForEach => {
                let mut got = vec![];
                it.for_each(|i| got.push(key(i)));
                Got::All(got)
            }
            How::Partition(step) => {
                let mut k = 0;
                let (a, b): (Vec<I::Item>, Vec<I::Item>) = it.partition(|_| {
                    k += 1;
                    k % step == 0
                });
                Got::Two(a.into_iter().map(key).collect(), b.into_iter().map(key).collect())
            }
            How::Max => Got::One(it.max().map(key)),
            How::Min => Got::One(it.min().map(key)),
            How::IsSorted => Got::Answer(it.is_sorted()),
            How::MaxBy => Got::One(it.max_by(|a, b| b.cmp(a)).map(key)),
            How::MinBy => Got::One(it.min_by(|a, b| b.cmp(a)).map(key)),
            How::Reduce => Got::One(it.reduce(|a, b| a.max(b)).map(key)),
        }
    }
}

impl<I: DoubleEndedIterator<Item: Ord>, K> Both<K> for Of<'_, I, K> {
    fn next_back(&mut self) -> Option<K> {
        self.it.next_back().map(self.key)
    }
    fn nth_back(&mut self, n: usize) -> Option<K> {
        self.it.nth_back(n).map(self.key)
    }
    fn rfind(&mut self, found: &mut dyn FnMut() -> bool) -> Option<K> {
        self.it.rfind(|_| found()).map(self.key)
    }
    fn try_rfold(&mut self, goes_on: &mut dyn FnMut(K) -> bool) -> bool {
        let key = self.key;
        self.it.try_rfold((), |_, i| goes_on(key(i)).then_some(())).is_some()
    }
    fn rfold(self: Box<Self>) -> Vec<K> {
        let Of { it, key } = *self;
        it.rfold(vec![], |mut v, i| {
            v.push(key(i));
            v
        })
    }
}

/// The iterator seen from the front, as an iterator of its keys, for the adaptors.
struct Ahead<'a, 'b, K>(&'a mut (dyn Front<K> + 'b));

impl<K> Iterator for Ahead<'_, '_, K> {
    type Item = K;
    fn next(&mut self) -> Option<K> {
        self.0.next()
    }
    fn nth(&mut self, n: usize) -> Option<K> {
        self.0.nth(n)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}

/// The same from the back.
struct Behind<'a, 'b, K>(&'a mut (dyn Both<K> + 'b));

impl<K> Iterator for Behind<'_, '_, K> {
    type Item = K;
    fn next(&mut self) -> Option<K> {
        self.0.next_back()
    }
    fn nth(&mut self, n: usize) -> Option<K> {
        self.0.nth_back(n)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}

fn hint<K>(it: &dyn Front<K>, m: &Left<K>, what: &str) -> R {
    let (lo, hi) = it.size_hint();
    let n = m.len();
    ensure!(
        lo <= n && hi.is_none_or(|h| h >= n),
        "{what}: size hint ({lo}, {hi:?}) with {n} items left"
    );
    Ok(())
}

/// Settings: check size hints; the most items left that are taken to the end; whether keys are
/// ordered like the items they stand for.
#[derive(Clone, Copy)]
pub struct Opt {
    pub hints: bool,
    pub most: usize,
    pub ordered: bool,
}

/// Whether a step goes further than what is worth going through.
fn too_far<K>(t: &Take, m: &Left<K>, opt: Opt) -> bool {
    let (Take::Next(n)
    | Take::Nth(n)
    | Take::Skip(n)
    | Take::Some(n)
    | Take::Find(n)
    | Take::Position(n)
    | Take::Break(n)
    | Take::FindBack(n)
    | Take::BreakBack(n)
    | Take::NextBack(n)
    | Take::NthBack(n)
    | Take::SomeBack(n)) = *t;
    n >= 1 << 31 && m.len() > opt.most
}


/// A closure that says yes at the item so many ahead.
fn ahead(n: u32) -> impl FnMut() -> bool {
    let mut k = 0;
    move || {
        k += 1;
        k > n
    }
}

fn forward<K: PartialEq + Debug>(
    it: &mut dyn Front<K>,
    t: &Take,
    m: &mut Left<K>,
    what: &str,
) -> R {
    match *t {
        Take::Next(n) => {
            for _ in 0..n {
                ensure_eq!(it.next(), m.front(0), "{what}: next");
                if m.len() == 0 {
                    break;
                }
            }
        }
        Take::Nth(n) => {
            ensure_eq!(it.nth(amount(n)), m.front(amount(n)), "{what}: nth({n})");
        }
        Take::Skip(n) => {
            let got = Ahead(it).skip(amount(n)).next();
            ensure_eq!(got, m.front(amount(n)), "{what}: skip({n}).next()");
        }
        Take::Some(n) => {
            let n = amount(n);
            let got: Vec<K> = Ahead(it).take(n).collect();
            let want: Vec<K> = (0..n).map_while(|_| m.front(0)).collect();
            ensure_eq!(got, want, "{what}: take({n})");
        }
        Take::Find(n) => {
            let got = it.find(&mut ahead(n));
            ensure_eq!(got, m.front(n as usize), "{what}: find the item {n} ahead");
        }
        Take::Position(n) => {
            let got = it.position(&mut ahead(n));
            let want = m.front(n as usize).map(|_| n as usize);
            ensure_eq!(got, want, "{what}: position of the item {n} ahead");
        }
        Take::Break(n) => {
            let mut seen = vec![];
            let ended = it.try_fold(&mut |k| {
                seen.push(k);
                seen.len() <= n as usize
            });
            let left = m.len();
            let want: Vec<K> = (0..=n).map_while(|_| m.front(0)).collect();
            ensure_eq!(seen, want, "{what}: try_fold({n})");
            ensure_eq!(ended, left <= n as usize, "{what}: end of try_fold({n})");
        }
        _ => {}
    }
    Ok(())
}

fn backward<K: PartialEq + Debug>(
    it: &mut dyn Both<K>,
    t: &Take,
    m: &mut Left<K>,
    what: &str,
) -> R {
    match *t {
        Take::NextBack(n) => {
            for _ in 0..n {
                ensure_eq!(it.next_back(), m.back(0), "{what}: next_back");
                if m.len() == 0 {
                    break;
                }
            }
        }
        Take::NthBack(n) => {
            ensure_eq!(it.nth_back(amount(n)), m.back(amount(n)), "{what}: nth_back({n})");
        }
        Take::SomeBack(n) => {
            let n = amount(n);
            let got: Vec<K> = Behind(it).take(n).collect();
            let want: Vec<K> = (0..n).map_while(|_| m.back(0)).collect();
            ensure_eq!(got, want, "{what}: rev().take({n})");
        }
        Take::FindBack(n) => {
            let got = it.rfind(&mut ahead(n));
            ensure_eq!(got, m.back(n as usize), "{what}: rfind the item {n} from the back");
        }
        Take::BreakBack(n) => {
            let mut seen = vec![];
            let ended = it.try_rfold(&mut |k| {
                seen.push(k);
                seen.len() <= n as usize
            });
            let left = m.len();
            let want: Vec<K> = (0..=n).map_while(|_| m.back(0)).collect();
            ensure_eq!(seen, want, "{what}: try_rfold({n})");
            ensure_eq!(ended, left <= n as usize, "{what}: end of try_rfold({n})");
        }
        _ => {}
    }
    Ok(())
}

fn finish<K: Ord + Debug>(
    mut it: Box<dyn Front<K> + '_>,
    s: &Script,
    m: &mut Left<K>,
    ordered: bool,
    what: &str,
) -> R {
    let left = m.len();
    let step = s.step as usize;
    let rest: Vec<K> = (m.lo..m.hi).map(m.at).collect();
    let kind = if ordered { s.finish % 19 } else { s.finish % 13 };
    let over = |it: &mut dyn Front<K>| -> R {
        for _ in 0..3 {
            ensure!(it.next().is_none(), "{what}: yields again after the end");
        }
        Ok(())
    };
    let (how, want) = match kind {
        0 => (How::Collect, Got::All(rest)),
        1 => (How::Count, Got::Number(left)),
        2 => (How::Last, Got::One(rest.into_iter().next_back())),
        3 => (How::Fold, Got::All(rest)),
        4 => (How::ForEach, Got::All(rest)),
        5 => {
            let want: Vec<K> = rest.into_iter().step_by(step).collect();
            let got: Vec<K> = Ahead(&mut *it).step_by(step).collect();
            ensure_eq!(got, want, "{what}: step_by({step})");
            return over(&mut *it);
        }
        6 => {
            let got: Vec<K> = Ahead(&mut *it).skip(step).collect();
            let want: Vec<K> = rest.into_iter().skip(step).collect();
            ensure_eq!(got, want, "{what}: skip({step})");
            return over(&mut *it);
        }
        7 => {
            let got: Vec<(K, usize)> = Ahead(&mut *it).zip(0..).collect();
            let want: Vec<(K, usize)> = rest.into_iter().zip(0..).collect();
            ensure_eq!(got, want, "{what}: zip");
            return over(&mut *it);
        }
        8 => {
            let mut got = vec![];
            while let Some(i) = it.next() {
                got.push(i);
                ensure!(got.len() <= left, "{what}: more than the {left} items left");
            }
            ensure_eq!(got, rest, "{what}: next to the end");
            return over(&mut *it);
        }
        9 => {
            let mut got = vec![];
            let all = it.all(&mut |k| {
                got.push(k);
                true
            });
            ensure!(all, "{what}: all");
            ensure_eq!(got, rest, "{what}: all");
            return over(&mut *it);
        }
        10 => {
            ensure_eq!(it.nth(left), None, "{what}: nth past the end");
            return over(&mut *it);
        }
        11 => {
            let mut k = 0;
            let any = it.any(&mut || {
                k += 1;
                false
            });
            ensure!(!any, "{what}: any");
            ensure_eq!(k, left, "{what}: items seen by any");
            return over(&mut *it);
        }
        12 => {
            let mut k = 0;
            let (a, b) = rest.into_iter().partition(|_| {
                k += 1;
                k % step == 0
            });
            (How::Partition(step), Got::Two(a, b))
        }
        13 => (How::Max, Got::One(rest.into_iter().max())),
        14 => (How::Min, Got::One(rest.into_iter().min())),
        15 => (How::IsSorted, Got::Answer(rest.is_sorted())),
        16 => (How::MaxBy, Got::One(rest.into_iter().min())),
        17 => (How::MinBy, Got::One(rest.into_iter().max())),
        _ => (How::Reduce, Got::One(rest.into_iter().max())),
    };
    ensure_eq!(it.consume(how), want, "{what}: {how:?}");
    Ok(())
}

/// An iterator consumed from the front.
pub fn drive<I: Iterator<Item: Ord>, K: Ord + Debug>(
    it: I,
    n: usize,
    at: &dyn Fn(usize) -> K,
    key: &dyn Fn(I::Item) -> K,
    s: &Script,
    opt: Opt,
    what: &str,
) -> R {
    run(Box::new(Of { it, key }), n, at, s, opt, what)
}

fn run<K: Ord + Debug>(
    mut it: Box<dyn Front<K> + '_>,
    n: usize,
    at: &dyn Fn(usize) -> K,
    s: &Script,
    opt: Opt,
    what: &str,
) -> R {
    let mut m = Left { lo: 0, hi: n, at };
    for (k, t) in s.takes.iter().enumerate() {
        let what = format!("{what} after {:?}", &s.takes[..k]);
        if opt.hints {
            hint(&*it, &m, &what)?;
        }
        if too_far(t, &m, opt) {
            continue;
        }
        forward(&mut *it, t, &mut m, &what)?;
    }
    let what = format!("{what} after {:?}", s.takes);
    if opt.hints {
        hint(&*it, &m, &what)?;
    }
    if m.len() <= opt.most {
        finish(it, s, &mut m, opt.ordered, &what)?;
    }
    Ok(())
}

/// An iterator consumed from both ends.
pub fn drive2<I: DoubleEndedIterator<Item: Ord>, K: Ord + Debug>(
    it: I,
    n: usize,
    at: &dyn Fn(usize) -> K,
    key: &dyn Fn(I::Item) -> K,
    s: &Script,
    opt: Opt,
    what: &str,
) -> R {
    run2(Box::new(Of { it, key }), n, at, s, opt, what)
}

fn run2<K: Ord + Debug>(
    mut it: Box<dyn Both<K> + '_>,
    n: usize,
    at: &dyn Fn(usize) -> K,
    s: &Script,
    opt: Opt,
    what: &str,
) -> R {
    let mut m = Left { lo: 0, hi: n, at };
    for (k, t) in s.takes.iter().enumerate() {
        let what = format!("{what} after {:?}", &s.takes[..k]);
        if opt.hints {
            hint(&*it, &m, &what)?;
        }
        if too_far(t, &m, opt) {
            continue;
        }
        forward(&mut *it, t, &mut m, &what)?;
        backward(&mut *it, t, &mut m, &what)?;
    }
    let what = format!("{what} after {:?}", s.takes);
    if opt.hints {
        hint(&*it, &m, &what)?;
    }
    if m.len() > opt.most {
        return Ok(());
    }
    if s.finish < 24 {
        return finish(it, s, &mut m, opt.ordered, &what);
    }
    let rest: Vec<K> = (m.lo..m.hi).map(m.at).rev().collect();
    match s.finish % 4 {
        0 => {
            let step = s.step as usize;
            let got: Vec<K> = Behind(&mut *it).step_by(step).collect();
            let want: Vec<K> = rest.into_iter().step_by(step).collect();
            ensure_eq!(got, want, "{what}: rev().step_by({step})");
        }
        1 => {
            ensure_eq!(it.rfold(), rest, "{what}: rfold");
            return Ok(());
        }
        2 => {
            let mut got = vec![];
            while let Some(i) = it.next_back() {
                got.push(i);
                ensure!(got.len() <= rest.len(), "{what}: too many items from the back");
            }
            ensure_eq!(got, rest, "{what}: next_back to the end");
        }
        _ => {
            ensure_eq!(it.nth_back(rest.len()), None, "{what}: nth_back past the end");
        }
    }
    for _ in 0..3 {
        ensure!(it.next().is_none(), "{what}: yields again after the end");
        ensure!(it.next_back().is_none(), "{what}: yields again at the back");
    }
    Ok(())
}

/* Iterators with any honest announcement of their size */

/// Yields what `items` has, then None; announces its size in the way `style` says. When `resumes`,
/// yields those items again after the first None, as iterators may that are not fused.
#[derive(Clone, Debug)]
pub struct Announce<I> {
    items: I,
    left: usize,
    style: u8,
}

impl<I: Iterator> Announce<I> {
    pub fn new(items: I, left: usize, style: u8) -> Self {
        Announce { items, left, style }
    }
    pub fn label(style: u8) -> &'static str {
        ["exact", "unknown", "at-least", "at-most", "loose", "no-lower"][style as usize % 6]
    }
}

impl<I: Iterator> Iterator for Announce<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let r = self.items.next();
        self.left = self.left.saturating_sub(r.is_some() as usize);
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.left;
        match self.style % 6 {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n, None),
            3 => (0, Some(n + 7)),
            4 => (n / 2, Some(n.saturating_mul(2).max(n + 64))),
            _ => (0, Some(n)),
        }
    }
}

/// Yields the items, None once, and, as it is not fused, some of the items again.
#[derive(Clone, Debug)]
pub struct Resuming<'a, T> {
    items: &'a [T],
    again: usize,
    at: usize,
}

impl<'a, T> Resuming<'a, T> {
    pub fn new(items: &'a [T], again: usize) -> Self {
        Resuming { items, again, at: 0 }
    }
}

impl<'a, T> Iterator for Resuming<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        self.at += 1;
        let n = self.items.len();
        if self.at <= n {
            self.items.get(self.at - 1)
        } else if self.at == n + 1 || self.at > n + 1 + self.again {
            None
        } else {
            self.items.get((self.at - n - 2) % n)
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.items.len().saturating_sub(self.at), None)
    }
}
