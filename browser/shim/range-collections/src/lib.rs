//! Stand-in for the part of range-collections that is used: sets of half-open ranges
use std::marker::PhantomData;
use std::ops::{Bound, Range};

pub trait AbstractRangeSet {}

#[derive(Clone, PartialEq, Eq)]
pub struct RangeSet<A>(Vec<(u64, u64)>, PhantomData<A>);
pub type RangeSet2<T> = RangeSet<[T; 2]>;

impl RangeSet<[u64; 2]> {
    pub fn empty() -> Self {
        RangeSet(vec![], PhantomData)
    }
    pub fn union_with(&mut self, o: &Self) {
        let mut v: Vec<(u64, u64)> = self.0.iter().chain(o.0.iter()).cloned().collect();
        v.sort();
        self.0.clear();
        for (a, b) in v {
            match self.0.last_mut() {
                Some(l) if l.1 >= a => l.1 = l.1.max(b),
                _ => self.0.push((a, b)),
            }
        }
    }
    pub fn is_disjoint(&self, o: &Self) -> bool {
        self.0.iter().all(|x| o.0.iter().all(|y| x.1 <= y.0 || y.1 <= x.0))
    }
    pub fn difference(&self, o: &Self) -> Self {
        let mut v = self.0.clone();
        for y in &o.0 {
            v = v.into_iter().flat_map(|x| [(x.0, x.1.min(y.0).max(x.0)), (x.0.max(y.1).min(x.1), x.1)]).filter(|x| x.0 < x.1).collect();
        }
        RangeSet(v, PhantomData)
    }
    #[allow(clippy::type_complexity)]
    pub fn iter(&self) -> std::iter::Map<std::slice::Iter<'_, (u64, u64)>, fn(&(u64, u64)) -> (Bound<&u64>, Bound<&u64>)> {
        self.0.iter().map(|x| (Bound::Included(&x.0), Bound::Excluded(&x.1)))
    }
}

impl From<Range<u64>> for RangeSet<[u64; 2]> {
    fn from(r: Range<u64>) -> Self {
        RangeSet(if r.start < r.end { vec![(r.start, r.end)] } else { vec![] }, PhantomData)
    }
}
