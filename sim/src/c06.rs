//! C06: histories of heap columns against a map from rows to coefficients.
use crate::drive::*;
use crate::ensure;
use crate::field::*;
use crate::model::*;
use crate::native;
use crate::simmat::*;
use crate::world::*;
use phlite::columns::{BHCol, ColumnEntry};
use phlite::matrices::*;
use std::cmp::Reverse;

/// Filtration values whose comparison is a seam call.
#[derive(Clone, Copy, Debug)]
pub struct SFil(pub isize);
impl PartialEq for SFil {
    fn eq(&self, o: &SFil) -> bool {
        yp(Pt::Cmp);
        self.0 == o.0
    }
}
impl Eq for SFil {}
impl FiltrationValue for SFil {}
impl PartialOrd for SFil {
    fn partial_cmp(&self, o: &SFil) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for SFil {
    fn cmp(&self, o: &SFil) -> std::cmp::Ordering {
        yp(Pt::Cmp);
        self.0.cmp(&o.0)
    }
}
/// The two directions in which the library itself orders rows.
pub trait Kind {
    type Fil: FiltrationValue;
    type Row: BasisElement;
    fn fil(x: isize) -> Self::Fil;
    fn unfil(x: &Self::Fil) -> isize;
    fn row(x: u32) -> Self::Row;
    fn unrow(x: &Self::Row) -> u32;
    const REV: bool;
}
pub struct Fwd;
impl Kind for Fwd {
    type Fil = SFil;
    type Row = Idx;
    fn fil(x: isize) -> SFil {
        SFil(x)
    }
    fn unfil(x: &SFil) -> isize {
        x.0
    }
    fn row(x: u32) -> Idx {
        Idx(x)
    }
    fn unrow(x: &Idx) -> u32 {
        x.0
    }
    const REV: bool = false;
}
pub struct Bwd;
impl Kind for Bwd {
    type Fil = Reverse<SFil>;
    type Row = Reverse<Idx>;
    fn fil(x: isize) -> Reverse<SFil> {
        Reverse(SFil(x))
    }
    fn unfil(x: &Reverse<SFil>) -> isize {
        x.0 .0
    }
    fn row(x: u32) -> Reverse<Idx> {
        Reverse(Idx(x))
    }
    fn unrow(x: &Reverse<Idx>) -> u32 {
        x.0 .0
    }
    const REV: bool = true;
}
/// A source of entries that yields, and may fail, before each of them.
struct Source<K: Kind, C: Coef> {
    items: std::vec::IntoIter<(Val, u32, isize)>,
    fail_in: Option<usize>,
    hint: u32,
    _k: std::marker::PhantomData<(K, C)>,
}
impl<K: Kind, C: Coef> Iterator for Source<K, C> {
    type Item = (C, K::Row, K::Fil);
    fn next(&mut self) -> Option<Self::Item> {
        yp(Pt::Source);
        if let Some(k) = self.fail_in.as_mut() {
            if *k == 0 {
                count("fault.source_fails");
                note(|| "the source of entries fails".into());
                fail();
            }
            *k -= 1;
        }
        self.items.next().map(|(c, r, f)| (C::of(c), K::row(r), K::fil(f)))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        match self.hint {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n / 2, Some(n + 7)),
            _ => (n / 3, Some(usize::MAX)),
        }
    }
}
pub struct Heap<K: Kind, C: Coef> {
    f: Fld,
    fil: Vec<isize>,
    h: BHCol<K::Fil, K::Row, C>,
    model: SVec,
    ops: u32,
    bulk: u32,
}
impl<K: Kind, C: Coef> Heap<K, C> {
    fn new(f: Fld, fil: Vec<isize>) -> Self {
        Heap { f, fil, h: BHCol::default(), model: SVec::new(), ops: 0, bulk: 7 }
    }
    fn key(&self, r: u32) -> (isize, i64) {
        let s = if K::REV { -1 } else { 1 };
        (s * self.fil[r as usize], s as i64 * r as i64)
    }
    fn top(&self) -> Option<u32> {
        pivot(&self.model, |r| self.key(r))
    }
    fn is(&self, what: &str, e: Option<(u32, isize, Val)>) -> R {
        let want = self.top().map(|r| (r, self.fil[r as usize], self.model[&r]));
        ensure!(e == want, "pivot", "{what} is {e:?}, should be {want:?}; the column is {}", show(&self.model));
        Ok(())
    }
    fn plain(e: &ColumnEntry<K::Fil, K::Row, C>) -> R<(u32, isize, Val)> {
        Ok((K::unrow(&e.row_index), K::unfil(&e.filtration_value), e.coeff.val()?))
    }
    fn opt(e: Option<&ColumnEntry<K::Fil, K::Row, C>>) -> R<Option<(u32, isize, Val)>> {
        match e {
            None => Ok(None),
            Some(e) => Self::plain(e).map(Some),
        }
    }
    fn draw_terms(&self, most: u32) -> Vec<(Val, u32, isize)> {
        let n = self.fil.len() as u32;
        if most > 500 {
            // thousands of terms: some of them cancel what is there
            let mut r = Lrng(draw_seed());
            let here: Vec<u32> = self.model.keys().copied().collect();
            let mut left = self.model.clone();
            return (0..draw(most + 1))
                .map(|_| {
                    let row = if here.is_empty() || r.below(2) == 0 { r.below(n as u64) as u32 } else { here[r.below(here.len() as u64) as usize] };
                    let c = match left.remove(&row) {
                        Some(x) => self.f.neg(x),
                        None => rng_val(self.f, &mut r),
                    };
                    (c, row, self.fil[row as usize])
                })
                .collect();
        }
        (0..draw(most + 1))
            .map(|_| {
                // often cancel what is there
                let tops: Vec<u32> = self.model.keys().copied().collect();
                if !tops.is_empty() && chance(1, 3) {
                    let r = match draw(2) {
                        0 => self.top().unwrap(),
                        _ => tops[draw(tops.len() as u32) as usize],
                    };
                    (self.f.neg(self.model[&r]), r, self.fil[r as usize])
                } else {
                    let r = draw(n);
                    (draw_val(self.f), r, self.fil[r as usize])
                }
            })
            .collect()
    }
    fn contents(h: BHCol<K::Fil, K::Row, C>) -> R<Vec<(u32, isize, Val)>> {
        muted(|| h.to_sorted_vec().iter().map(Self::plain).collect())
    }
    fn expected(&self) -> Vec<(u32, isize, Val)> {
        let mut v: Vec<u32> = self.model.keys().copied().collect();
        v.sort_by_key(|&r| std::cmp::Reverse(self.key(r)));
        v.into_iter().map(|r| (r, self.fil[r as usize], self.model[&r])).collect()
    }
    fn check_all(&self, what: &str) -> R {
        let got = Self::contents(self.h.clone())?;
        let want = self.expected();
        ensure!(got == want, "contents", "{what}: the column drains as {got:?}, should be {want:?}");
        Ok(())
    }
    fn step(&mut self) -> R {
        self.ops += 1;
        let f = self.f;
        match draw(12) {
            0 => {
                for (c, r, v) in self.draw_terms(2) {
                    let e: ColumnEntry<K::Fil, K::Row, C> = (C::of(c), K::row(r), K::fil(v)).into();
                    if chance(1, 3) {
                        let k = draw_val(f);
                        self.h.add_entry(e * C::of(k));
                        add_term(f, &mut self.model, r, f.mul(c, k));
                    } else {
                        self.h.add_entry(e);
                        add_term(f, &mut self.model, r, c);
                    }
                }
            }
            1 => {
                for (c, r, v) in self.draw_terms(2) {
                    self.h.add_tuple((C::of(c), K::row(r), K::fil(v)));
                    add_term(f, &mut self.model, r, c);
                }
            }
            2..=5 => {
                let items = self.draw_terms(self.bulk);
                let fail_in = if chance(1, 4) { Some(draw(items.len() as u32 + 1) as usize) } else { None };
                let src = Source::<K, C> { items: items.clone().into_iter(), fail_in, hint: draw(4), _k: std::marker::PhantomData };
                let tuples = chance(1, 2);
                let h = &mut self.h;
                let out = attempt(|| {
                    if tuples {
                        h.add_tuples(src);
                    } else {
                        h.add_entries(src.map(ColumnEntry::from));
                    }
                    Ok(())
                })?;
                match (out, fail_in) {
                    (Outcome::Done(()), Some(_)) => return viol("failure-swallowed", "insertion returned although its source failed"),
                    (Outcome::Done(()), None) => {
                        for (c, r, _) in items {
                            add_term(f, &mut self.model, r, c);
                        }
                    }
                    (Outcome::Failed, None) => return viol("failure-again", "a failure injected earlier surfaced once more, in an operation that met none"),
                    (Outcome::Failed, Some(k)) => {
                        // some prefix of what was delivered is in, nothing else changed
                        let got = Self::contents(self.h.clone())?;
                        let mut ok = false;
                        for cut in (0..=k).rev() {
                            let mut m = self.model.clone();
                            for &(c, r, _) in &items[..cut] {
                                add_term(f, &mut m, r, c);
                            }
                            let old = std::mem::replace(&mut self.model, m);
                            if self.expected() == got {
                                ok = true;
                                break;
                            }
                            self.model = old;
                        }
                        ensure!(ok, "cut-short", "after a source failed at term {k} of {items:?} the column drains as {got:?}; before it was {}", show(&self.model));
                        count("op.insertion_cut_short");
                    }
                }
            }
            6 => {
                let e = self.h.pop_pivot();
                self.is("popped pivot", Self::opt(e.as_ref())?)?;
                if let Some(r) = self.top() {
                    self.model.remove(&r);
                }
                count("op.pop");
            }
            7 => {
                let e = self.h.clone_pivot();
                self.is("pivot", Self::opt(e.as_ref())?)?;
                let p = Self::opt(self.h.peek_pivot())?;
                self.is("pivot peeked at after a query", p)?;
                count("op.query");
            }
            8 => {
                // pop and put back
                if let Some(e) = self.h.pop_pivot() {
                    self.is("popped pivot", Some(Self::plain(&e)?))?;
                    self.h.add_entry(e);
                    let p = Self::opt(self.h.peek_pivot())?;
                    self.is("pivot peeked at after putting it back", p)?;
                } else {
                    self.is("popped pivot", None)?;
                }
            }
            9 => {
                // a drain, abandoned after some terms
                let k = draw(5);
                let mut out = vec![];
                {
                    let mut it = self.h.drain_sorted().driven_singly();
                    for _ in 0..k {
                        match it.next() {
                            Some(e) => out.push(Self::plain(&e)?),
                            None => break,
                        }
                    }
                }
                let want: Vec<_> = self.expected().into_iter().take(k as usize).collect();
                ensure!(out == want, "drained", "drain yields {out:?}, should be {want:?}");
                for (r, ..) in &out {
                    self.model.remove(r);
                }
                count("op.drain_abandoned");
            }
            10 => {
                let copy = self.h.clone();
                let out = copy.to_sorted_vec();
                let out: Vec<_> = out.iter().map(Self::plain).collect::<R<_>>()?;
                ensure!(out == self.expected(), "drained", "sorted vector {out:?}, should be {:?}", self.expected());
            }
            _ => {
                // the copy lives on instead
                self.h = self.h.clone();
            }
        }
        if self.ops % 4 == 0 {
            self.check_all("history so far")?;
        }
        Ok(())
    }
    fn end(&mut self) -> R {
        self.check_all("end of history")?;
        let mut out = vec![];
        for e in self.h.drain_sorted().driven() {
            out.push(Self::plain(&e)?);
        }
        ensure!(out == self.expected(), "drained", "final drain {out:?}, should be {:?}", self.expected());
        self.model.clear();
        let e = self.h.pop_pivot();
        self.is("pivot of an empty column", Self::opt(e.as_ref())?)?;
        let e = self.h.clone_pivot();
        self.is("pivot of an empty column", Self::opt(e.as_ref())?)
    }
}
pub fn history<K: Kind, C: Coef>(f: Fld, fil: Vec<isize>, ops: u32) -> R {
    let mut h = Heap::<K, C>::new(f, fil);
    if h.fil.len() > 9 {
        h.bulk = 120;
    }
    if h.fil.len() > 500 {
        h.bulk = 6000;
    }
    // sometimes a second column in turn with the first
    let mut other = if chance(1, 4) { Some(Heap::<K, C> { bulk: h.bulk, ..Heap::new(f, h.fil.clone()) }) } else { None };
    for _ in 0..ops {
        match &mut other {
            Some(o) if draw(3) == 0 => o.step()?,
            _ => h.step()?,
        }
    }
    h.end()?;
    if let Some(mut o) = other {
        o.end()?;
    }
    count("op.history");
    Ok(())
}
fn client<C: Coef>(f: Fld, fil: Vec<isize>, rev: bool, ops: u32) -> R {
    let inner = fil.clone();
    nested(&|| history::<Fwd, C>(f, inner.clone(), 6), || if rev { history::<Bwd, C>(f, fil, ops) } else { history::<Fwd, C>(f, fil, ops) })
}
pub fn run_c06(w: &World) -> R {
    let f = draw_field(true);
    let native = draw_native(f);
    let big = f.p > 0 && chance(1, 100);
    if big {
        count("probe.large_column");
    }
    let huge = f.p > 0 && chance(1, 400);
    if huge {
        count("probe.huge_column");
    }
    let n = if huge { range(600, 5000) } else if big { range(40, 400) } else { range(1, 9) } as usize;
    let fil = if huge {
        let mut r = Lrng(draw_seed());
        let lv = [1, 40, 100_000][draw(3) as usize];
        (0..n).map(|_| r.below(lv) as isize).collect()
    } else {
        crate::expr::draw_fil(n)
    };
    desc(|| format!("rows with filtration {fil:?}"));
    let clients = users(&[1, 1, 1, 2, 3]);
    let plans: Vec<(bool, u32)> = (0..clients).map(|_| (chance(1, 2), if huge { range(2, 7) } else { range(5, 60) })).collect();
    let cs: Vec<Box<dyn FnOnce() -> R + Send>> = plans
        .into_iter()
        .map(|(rev, ops)| {
            let fil = fil.clone();
            Box::new(move || if native { native!(f, C => client::<C>(f, fil, rev, ops)) } else { client::<SF>(f, fil, rev, ops) }) as Box<dyn FnOnce() -> R + Send>
        })
        .collect();
    w.run_clients(cs).into_iter().collect()
}
