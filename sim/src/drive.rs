//! However an iterator is asked for its items - one by one, all of the rest at once, by internal iteration -
//! they have to be the same ones.
use crate::world::*;

pub struct Driven<I: Iterator> {
    it: Option<I>,
    way: u32,
    /// items asked for one by one before the rest is taken at once
    singly: u32,
    /// taken already, last first
    taken: Vec<I::Item>,
}
pub trait Drive: Iterator + Sized {
    fn driven(self) -> Driven<Self> {
        self.in_some_way(8)
    }
    /// Never asked for more than the items taken from it.
    fn driven_singly(self) -> Driven<Self> {
        self.in_some_way(4)
    }
    fn in_some_way(self, ways: u32) -> Driven<Self> {
        let way = if chance(1, 6) { draw(ways) } else { 0 };
        let singly = if way > 3 { draw(5) } else { 0 };
        if way > 0 {
            count("probe.driven_otherwise");
        }
        Driven { it: Some(self), way, singly, taken: vec![] }
    }
}
impl<I: Iterator> Drive for I {}

impl<I: Iterator> Driven<I> {
    fn rest(&mut self) {
        let Some(mut it) = self.it.take() else { return };
        let mut all: Vec<I::Item> = vec![];
        match self.way {
            4 => {
                all = it.fold(all, |mut v, x| {
                    v.push(x);
                    v
                })
            }
            5 => it.for_each(|x| all.push(x)),
            6 => all = it.collect(),
            _ => {
                it.by_ref().take(2).for_each(|x| all.push(x));
                all.extend(it);
            }
        }
        all.reverse();
        self.taken = all;
    }
}
impl<I: Iterator> Iterator for Driven<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.way < 4 || self.singly > 0 {
            self.singly = self.singly.saturating_sub(1);
            let it = self.it.as_mut()?;
            return match self.way {
                1 => it.nth(0),
                2 => it.try_fold((), |(), x| Err(x)).err(),
                3 => {
                    let (low, high) = it.size_hint();
                    let x = it.next();
                    assert!(if x.is_some() { high != Some(0) } else { low == 0 }, "size hint {low}..{high:?}, next item there: {}", x.is_some());
                    x
                }
                _ => it.next(),
            };
        }
        self.rest();
        self.taken.pop()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match &self.it {
            Some(it) => it.size_hint(),
            None => (self.taken.len(), Some(self.taken.len())),
        }
    }
}
