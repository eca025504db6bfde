//! A stand-in for clubcard that records what it is given: per block the items of
//! the approximate part, its universe size, and the labelled items of the exact
//! part. Items that were never given are answered arbitrarily.
use std::collections::BTreeMap;
use std::fmt;

/// What identifies an item: its block (issuer) and its discriminant (serial).
pub trait Item {
    fn block_of(&self) -> Vec<u8>;
    fn discriminant_of(&self) -> Vec<u8>;
    fn included_of(&self) -> bool;
}
pub trait Query {
    fn block_of(&self) -> Vec<u8>;
    fn discriminant_of(&self) -> Vec<u8>;
}

#[derive(Default, Clone, Debug)]
pub struct Block {
    pub approx: Vec<(Vec<u8>, bool)>,
    pub universe: Option<usize>,
    pub exact: Vec<(Vec<u8>, bool)>,
}

#[derive(Debug)]
pub struct Clubcard<const W: usize, U, P> {
    pub universe: U,
    pub partition: P,
    pub blocks: BTreeMap<Vec<u8>, Block>,
    pub labels: BTreeMap<(Vec<u8>, Vec<u8>), (bool, Option<bool>)>,
}

impl<const W: usize, U, P> Clubcard<W, U, P> {
    pub fn of(universe: U, partition: P, blocks: BTreeMap<Vec<u8>, Block>) -> Self {
        let mut labels: BTreeMap<(Vec<u8>, Vec<u8>), (bool, Option<bool>)> = BTreeMap::new();
        for (id, b) in &blocks {
            for (k, inc) in &b.approx {
                labels.entry((id.clone(), k.clone())).or_default().0 |= *inc;
            }
            for (k, inc) in &b.exact {
                labels.entry((id.clone(), k.clone())).or_default().1 = Some(*inc);
            }
        }
        Clubcard { universe, partition, blocks, labels }
    }
    pub fn unchecked_contains<Q: Query>(&self, q: &Q) -> bool {
        let d = q.discriminant_of();
        let odd = d.iter().fold(0u8, |a, b| a ^ b).count_ones() % 2 == 1;
        match self.labels.get(&(q.block_of(), d)) {
            None => odd,
            Some((true, None)) => odd,
            Some((true, Some(x))) => *x,
            Some((false, x)) => odd && *x == Some(true),
        }
    }
}
impl<const W: usize, U, P> fmt::Display for Clubcard<W, U, P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "clubcard of {} blocks", self.blocks.len())
    }
}

pub mod builder {
    use super::{Block, Clubcard, Item};
    use std::collections::BTreeMap;
    use std::marker::PhantomData;

    pub struct ClubcardBuilder<const W: usize, T> {
        blocks: BTreeMap<Vec<u8>, Block>,
        _t: PhantomData<fn() -> T>,
    }
    pub struct RibbonBuilder<'a, const W: usize, T> {
        id: Vec<u8>,
        items: Vec<(Vec<u8>, bool)>,
        universe: Option<usize>,
        _t: PhantomData<(&'a (), fn() -> T)>,
    }
    pub struct ApproximateRibbon<const W: usize, T> {
        id: Vec<u8>,
        items: Vec<(Vec<u8>, bool)>,
        universe: Option<usize>,
        _t: PhantomData<fn() -> T>,
    }
    pub struct ExactRibbon<const W: usize, T> {
        id: Vec<u8>,
        items: Vec<(Vec<u8>, bool)>,
        _t: PhantomData<fn() -> T>,
    }

    impl<'a, const W: usize, T: Item> RibbonBuilder<'a, W, T> {
        pub fn insert(&mut self, item: T) {
            assert!(item.block_of() == self.id, "an item of another block");
            self.items.push((item.discriminant_of(), item.included_of()));
        }
        pub fn set_universe_size(&mut self, n: usize) {
            self.universe = Some(n);
        }
        pub fn len(&self) -> usize {
            self.items.len()
        }
        pub fn is_empty(&self) -> bool {
            self.items.is_empty()
        }
    }
    impl<'a, const W: usize, T> From<RibbonBuilder<'a, W, T>> for ApproximateRibbon<W, T> {
        fn from(b: RibbonBuilder<'a, W, T>) -> Self {
            ApproximateRibbon { id: b.id, items: b.items, universe: b.universe, _t: PhantomData }
        }
    }
    impl<'a, const W: usize, T> From<RibbonBuilder<'a, W, T>> for ExactRibbon<W, T> {
        fn from(b: RibbonBuilder<'a, W, T>) -> Self {
            ExactRibbon { id: b.id, items: b.items, _t: PhantomData }
        }
    }

    impl<const W: usize, T: Item> Default for ClubcardBuilder<W, T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<const W: usize, T: Item> ClubcardBuilder<W, T> {
        pub fn new() -> Self {
            ClubcardBuilder { blocks: BTreeMap::new(), _t: PhantomData }
        }
        fn ribbon(&self, id: &[u8]) -> RibbonBuilder<'_, W, T> {
            RibbonBuilder { id: id.to_vec(), items: vec![], universe: None, _t: PhantomData }
        }
        pub fn new_approx_builder(&self, id: &[u8]) -> RibbonBuilder<'_, W, T> {
            self.ribbon(id)
        }
        pub fn new_exact_builder(&self, id: &[u8]) -> RibbonBuilder<'_, W, T> {
            self.ribbon(id)
        }
        pub fn collect_approx_ribbons(&mut self, v: Vec<ApproximateRibbon<W, T>>) {
            for r in v {
                let b = self.blocks.entry(r.id).or_default();
                b.approx.extend(r.items);
                b.universe = r.universe;
            }
        }
        pub fn collect_exact_ribbons(&mut self, v: Vec<ExactRibbon<W, T>>) {
            for r in v {
                self.blocks.entry(r.id).or_default().exact.extend(r.items);
            }
        }
        pub fn build<Q: BuildFor>(self, universe: Q::Universe, partition: Q::Partition) -> Clubcard<W, Q::Universe, Q::Partition> {
            Clubcard::of(universe, partition, self.blocks)
        }
    }
    pub trait BuildFor {
        type Universe;
        type Partition;
    }
}
