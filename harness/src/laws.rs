//! What every iterator the library hands out has to do, whatever it is made of: the ways of
//! walking it that the standard library offers see the same items in the same order.
use crate::rng::Rng;

/// `make` gives a fresh iterator on every call; `key` makes items comparable (bits of floats).
/// The iterator is expected to end before `cap` items.  Returns how many ways were compared.
pub fn laws<I: Iterator, K: PartialEq + Copy + std::fmt::Debug>(
    rng: &mut Rng,
    what: &str,
    cap: usize,
    make: impl Fn() -> I,
    key: impl Fn(I::Item) -> K,
) -> Result<u64, String> {
    let all: Vec<K> = make().take(cap + 1).map(&key).collect();
    let n = all.len();
    if n > cap {
        return Err(format!("{what}: more than {cap} items"));
    }
    let bad = |how: String| Err(format!("{what}: {how}, next() walks {n} items"));
    // size_hint is a bound at every point on the way
    let mut it = make();
    for left in (0..=n).rev() {
        let (lo, hi) = it.size_hint();
        if lo > left || hi.is_some_and(|h| h < left) {
            return bad(format!("size_hint() = ({lo}, {hi:?}) with {left} items left"));
        }
        if it.next().is_none() != (left == 0) {
            return bad(format!("a second walk differs at item {}", n - left));
        }
    }
    let c = make().count();
    if c != n {
        return bad(format!("count() = {c}"));
    }
    let l = make().last().map(&key);
    if l != all.last().copied() {
        return bad(format!("last() = {l:?}, not {:?}", all.last()));
    }
    let folded = make().fold(Vec::with_capacity(n), |mut v, x| {
        v.push(key(x));
        v
    });
    if folded != all {
        let i = folded.iter().zip(&all).position(|(a, b)| a != b);
        return bad(format!("fold() walks {} items, first difference {i:?}", folded.len()));
    }
    // skipping: a run of nth() calls with small, zero and large steps
    for _ in 0..3 {
        let mut it = make();
        let mut at = 0usize;
        loop {
            let k = match rng.below(5) {
                0 => 0,
                1 => rng.idx(3),
                2 => rng.idx(40),
                3 => rng.idx(n + 2),
                _ => usize::from(rng.bool()),
            };
            let g = it.nth(k).map(&key);
            let w = all.get(at + k).copied();
            if g != w {
                return bad(format!("nth({k}) after {at} items = {g:?}, not {w:?}"));
            }
            at += k + 1;
            if w.is_none() {
                break;
            }
            let (lo, hi) = it.size_hint();
            if lo > n - at || hi.is_some_and(|h| h < n - at) {
                return bad(format!("size_hint() = ({lo}, {hi:?}) with {} items left", n - at));
            }
        }
    }
    let step = 1 + rng.idx(70);
    let off = rng.idx(n + 1);
    let g: Vec<K> = make().skip(off).step_by(step).map(&key).collect();
    let w: Vec<K> = all.iter().copied().skip(off).step_by(step).collect();
    if g != w {
        return bad(format!("skip({off}).step_by({step}) gives {} items, not {}", g.len(), w.len()));
    }
    // part by next(), the rest by fold: internal state is carried over
    let mut it = make();
    let mut mixed: Vec<K> = Vec::with_capacity(n);
    for _ in 0..off {
        if let Some(x) = it.next() {
            mixed.push(key(x));
        }
    }
    mixed.extend(it.map(&key));
    if mixed != all {
        return bad(format!("{off} next() then a fold of the rest walks {} items", mixed.len()));
    }
    // two at the same time
    let (mut a, mut b) = (make(), make());
    for i in 0..n {
        let x = a.next().map(&key);
        let y = b.next().map(&key);
        if x != Some(all[i]) || y != x {
            return bad(format!("two iterators side by side give {x:?} and {y:?} at {i}"));
        }
    }
    Ok(7 + 3)
}

/// A pixel mask as a caller may write it: what it says about its length is true, but not always
/// much, and it need not end.
pub struct Mask<'a> {
    rest: std::slice::Iter<'a, bool>,
    kind: usize,
}

impl<'a> Mask<'a> {
    pub const KINDS: usize = 6;

    pub fn new(mask: &'a [bool], kind: usize) -> Self {
        Mask {
            rest: mask.iter(),
            kind: kind % Self::KINDS,
        }
    }
}

impl Iterator for Mask<'_> {
    type Item = bool;

    fn next(&mut self) -> Option<bool> {
        match (self.rest.next(), self.kind) {
            (None, 4) => Some(false),
            (v, _) => v.copied(),
        }
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.rest.len();
        match self.kind {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (0, Some(n + 1000)),
            3 => (n, None),
            4 => (usize::MAX, None),
            _ => (0, Some(n)),
        }
    }
}
