//! Queries as data: evaluated by a one-line model, and as real banyan queries.
use crate::rng::Rng;
use crate::types::{KeyRange, TT};
use banyan::index::{BranchIndex, LeafIndex};
use banyan::query::{AllQuery, AndQuery, EmptyQuery, OffsetRangeQuery, OrQuery, Query, QueryExt};
use serde::{Deserialize, Serialize};
use std::ops::Bound;
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Q {
    All,
    Empty,
    /// inclusive
    Keys(u64, u64),
    KeySet(Vec<u64>),
    /// kind: 0 a..b, 1 a..=b, 2 a.., 3 ..b, 4 ..=b, 5 (a, b] as bounds, 6 ..
    Off(u8, u64, u64),
    And(Box<Q>, Box<Q>),
    Or(Box<Q>, Box<Q>),
}

#[derive(Debug, Clone)]
struct Keys(Vec<KeyRange>);

impl Query<TT> for Keys {
    fn containing(&self, _: u64, index: &LeafIndex<TT>, res: &mut [bool]) {
        for (r, k) in res.iter_mut().zip(index.keys()) {
            *r = *r && self.0.iter().any(|x| x.0 <= k.k && k.k <= x.1);
        }
    }
    fn intersecting(&self, _: u64, index: &BranchIndex<TT>, res: &mut [bool]) {
        for (r, s) in res.iter_mut().zip(index.summaries.as_ref()) {
            *r = *r && self.0.iter().any(|x| x.0 <= s.1 && s.0 <= x.1);
        }
    }
}

impl Q {
    pub fn matches(&self, offset: u64, key: u64) -> bool {
        match self {
            Q::All => true,
            Q::Empty => false,
            Q::Keys(a, b) => *a <= key && key <= *b,
            Q::KeySet(ks) => ks.contains(&key),
            Q::Off(kind, a, b) => match kind {
                0 => offset >= *a && offset < *b,
                1 => offset >= *a && offset <= *b,
                2 => offset >= *a,
                3 => offset < *b,
                4 => offset <= *b,
                5 => offset > *a && offset <= *b,
                7 => offset > *a && offset < *b,
                8 => offset > *a,
                _ => true,
            },
            Q::And(x, y) => x.matches(offset, key) && y.matches(offset, key),
            Q::Or(x, y) => x.matches(offset, key) || y.matches(offset, key),
        }
    }

    pub fn real(&self) -> Arc<dyn Query<TT>> {
        match self {
            Q::All => AllQuery.boxed(),
            Q::Empty => EmptyQuery.boxed(),
            Q::Keys(a, b) => Keys(vec![KeyRange(*a, *b)]).boxed(),
            Q::KeySet(ks) => Keys(ks.iter().map(|k| KeyRange(*k, *k)).collect()).boxed(),
            Q::Off(kind, a, b) => match kind {
                0 => OffsetRangeQuery::from(*a..*b).boxed(),
                1 => OffsetRangeQuery::from(*a..=*b).boxed(),
                2 => OffsetRangeQuery::from(*a..).boxed(),
                3 => OffsetRangeQuery::from(..*b).boxed(),
                4 => OffsetRangeQuery::from(..=*b).boxed(),
                5 => OffsetRangeQuery::from((Bound::Excluded(*a), Bound::Included(*b))).boxed(),
                7 => OffsetRangeQuery::from((Bound::Excluded(*a), Bound::Excluded(*b))).boxed(),
                8 => OffsetRangeQuery::from((Bound::Excluded(*a), Bound::Unbounded)).boxed(),
                _ => OffsetRangeQuery::from(..).boxed(),
            },
            Q::And(x, y) => AndQuery(x.real(), y.real()).boxed(),
            Q::Or(x, y) => OrQuery(x.real(), y.real()).boxed(),
        }
    }

    /// Can the query match something in a subtree with this summary, in a branch with that range of
    /// offsets? `lenient`: also true for degenerate offset ranges that lie inside, but are empty.
    fn may(&self, start: u64, count: u64, s: &KeyRange, lenient: bool) -> bool {
        let end = start + count;
        match self {
            Q::All => true,
            Q::Empty => false,
            Q::Keys(a, b) => *a <= s.1 && s.0 <= *b,
            Q::KeySet(ks) => ks.iter().any(|k| s.0 <= *k && *k <= s.1),
            Q::Off(kind, a, b) => {
                let (a, b) = (*a, *b);
                let x = match kind {
                    0 => b > start && end > a,
                    1 => b >= start && end > a,
                    2 => end > a,
                    3 => b > start,
                    4 => b >= start,
                    5 => b >= start && end > a,
                    7 => b > start && end > a,
                    8 => end > a,
                    _ => true,
                };
                x && (lenient
                    || (*kind == 0 && a < b)
                    || (*kind == 1 && a <= b)
                    || (*kind == 5 && a < b && end > a + 1)
                    || (*kind == 7 && a + 1 < b && end > a + 1 && b > start)
                    || (*kind == 8 && end > a + 1)
                    || !matches!(kind, 0 | 1 | 5 | 7 | 8))
            }
            Q::And(x, y) => x.may(start, count, s, lenient) && y.may(start, count, s, lenient),
            Q::Or(x, y) => x.may(start, count, s, lenient) || y.may(start, count, s, lenient),
        }
    }

    /// bits for the children of a branch, computed without banyan's query code
    pub fn branch_bits(&self, offset: u64, index: &BranchIndex<TT>, lenient: bool) -> Vec<bool> {
        index
            .summaries
            .as_ref()
            .iter()
            .map(|s| self.may(offset, index.count, s, lenient))
            .collect()
    }
    pub fn leaf_bits(&self, offset: u64, index: &LeafIndex<TT>) -> Vec<bool> {
        index
            .keys
            .0
            .iter()
            .enumerate()
            .map(|(i, k)| self.matches(offset + i as u64, k.k))
            .collect()
    }

    /// domain: largest interesting key and offset
    pub fn random(rng: &mut Rng, keys: u64, count: u64, depth: u32) -> Q {
        let w: &[u64] = if depth == 0 {
            &[2, 1, 6, 4, 6, 0, 0]
        } else {
            &[1, 1, 4, 3, 4, 4, 4]
        };
        match rng.weighted(w) {
            0 => Q::All,
            1 => Q::Empty,
            2 => {
                let a = rng.range(0, keys);
                let b = match rng.below(4) {
                    0 => a,
                    1 => a.saturating_add(rng.below(3)),
                    _ => a.saturating_add(rng.range(0, keys)),
                };
                Q::Keys(a, b)
            }
            3 => {
                let n = rng.range(1, 4);
                Q::KeySet((0..n).map(|_| rng.range(0, keys)).collect())
            }
            4 => {
                let mut a = rng.range(0, count + 1);
                let mut b = match rng.below(5) {
                    0 => a,
                    1 => a + 1,
                    2 => a + rng.below(8),
                    3 => u64::MAX,
                    _ => rng.range(0, count + 2),
                };
                if rng.pct(90) && a > b {
                    std::mem::swap(&mut a, &mut b);
                }
                let kind = rng.below(9) as u8;
                // inverted bounds are only meaningful as an empty half open range
                if a > b {
                    return Q::Off(0, a, b);
                }
                if matches!(kind, 5 | 7) && a == b {
                    return Q::Off(1, a, b);
                }
                Q::Off(kind, a, b)
            }
            5 => Q::And(
                Box::new(Q::random(rng, keys, count, depth - 1)),
                Box::new(Q::random(rng, keys, count, depth - 1)),
            ),
            _ => Q::Or(
                Box::new(Q::random(rng, keys, count, depth - 1)),
                Box::new(Q::random(rng, keys, count, depth - 1)),
            ),
        }
    }
}
