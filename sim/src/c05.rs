//! C05: cached columns, including caches that are read while one of their columns is being computed.
use crate::c01::reduce_std;
use crate::checks::*;
use crate::ensure;
use crate::field::*;
use crate::model::*;
use crate::simmat::*;
use crate::drive::*;
use crate::world::*;
use phlite::matrices::combinators::*;
use phlite::matrices::*;
use std::cell::{Cell, RefCell};
use std::cmp::Reverse;
use std::rc::Rc;
use std::sync::Arc;

/// Run `op` with a failure armed; whether it was reached decides what the outcome must be.
pub fn with_fault<T>(at: u64, op: impl FnOnce() -> R<T>) -> R<Outcome<T>> {
    arm_fault(at);
    let out = attempt(op);
    let fired = !disarm_fault();
    let out = out?;
    match (&out, fired) {
        (Outcome::Done(_), true) => viol("failure-swallowed", format!("the operation returned although its input failed at seam call {at}")),
        (Outcome::Failed, false) => viol("failure-again", "a failure injected earlier surfaced once more, in an operation that met none"),
        _ => Ok(out),
    }
}

pub trait ReadCol {
    fn read<'a>(&'a self, c: u32) -> Bx<'a, (SF, Idx)>;
}
impl<M: MatrixOracle<CoefficientField = SF, ColT = Idx, RowT = Idx>> ReadCol for M {
    fn read<'a>(&'a self, c: u32) -> Bx<'a, (SF, Idx)> {
        Box::new(self.column(Idx(c)).driven())
    }
}
/// What the wrapped matrix and the checks share.
pub struct Book {
    pub started: RefCell<Vec<u64>>,
    /// failures met and contained by the wrapped matrix itself
    pub contained: Cell<u64>,
    link: Cell<Option<*const (dyn ReadCol + 'static)>>,
}
/// A matrix whose columns may be defined from other columns, read through the cache around it.
pub struct Rec {
    pub den: Arc<Den>,
    own: Vec<Vec<(Val, u32)>>,
    deps: Vec<Vec<(Val, u32, u32)>>, // coefficient, column, manner of reading
    delivery: Delivery,
    basis: DimBasis,
    pub book: Rc<Book>,
}
impl MatrixOracle for Rec {
    type CoefficientField = SF;
    type ColT = Idx;
    type RowT = Idx;
    fn column(&self, col: Idx) -> impl Iterator<Item = (SF, Idx)> {
        yp(Pt::Col);
        let c = col.0 as usize;
        let read = {
            let mut s = self.book.started.borrow_mut();
            s[c] += 1;
            s[c] + c as u64 * 1000
        };
        note(|| format!("wrapped matrix computes column {c}"));
        let own = self.delivery.spell(self.den.f, &self.own[c], self.den.n() as u32, read);
        let own = own.into_iter().map(|(x, r)| {
            yp(Pt::Next);
            (x, Idx(r))
        });
        let link: Option<&dyn ReadCol> = self.book.link.get().map(|p| unsafe { &*p });
        let mut eager: Vec<(SF, Idx)> = vec![];
        for &(a, k, how) in &self.deps[c] {
            let cache = link.expect("linked");
            count("nested.read_while_computing");
            match how {
                0 => eager.extend(cache.read(k).map(|(x, r)| (x * SF::of(a), r))),
                1 => {
                    let mut half = cache.read(k);
                    let _ = half.next();
                    eager.extend(cache.read(k).map(|(x, r)| (x * SF::of(a), r)));
                }
                4 => {
                    // a read that fails, which this part contains, and then makes again
                    let at = 1 + draw(30) as u64;
                    let out = contained(|| with_fault(at, || Ok(cache.read(k).count())));
                    match out {
                        Ok(Outcome::Done(_)) => {}
                        Ok(Outcome::Failed) => {
                            self.book.contained.set(self.book.contained.get() + 1);
                            count("op.contained_failure");
                        }
                        Err(v) => panic!("{}: {}", v.class, v.msg),
                    }
                    eager.extend(cache.read(k).map(|(x, r)| (x * SF::of(a), r)));
                }
                _ => {}
            }
        }
        let late = self.deps[c].iter().filter(|d| matches!(d.2, 2 | 3)).flat_map(move |&(a, k, how)| {
            let cache = link.expect("linked");
            let second = if how == 3 { Some(cache.read(k)) } else { None };
            let a = SF::of(a);
            let mut other = second;
            cache.read(k).map(move |(x, r)| {
                if let Some(o) = other.as_mut() {
                    let _ = o.next();
                }
                (x * a, r)
            })
        });
        own.chain(eager).chain(late)
    }
}
impl HasRowFiltration for Rec {
    type FiltrationT = isize;
    fn filtration_value(&self, row: Idx) -> isize {
        yp(Pt::Filt);
        self.den.fil[row.0 as usize]
    }
}
impl HasColBasis for Rec {
    type BasisT = DimBasis;
    type BasisRef<'a> = BRef<'a, DimBasis>;
    fn basis(&self) -> BRef<'_, DimBasis> {
        yp(Pt::Basis);
        BRef::Ref(&self.basis)
    }
}
pub fn draw_rec(f: Fld) -> Rec {
    let many = f.p > 0 && chance(1, 100);
    if many {
        count("probe.many_columns");
    }
    let n = if many { range(12, 70) } else { range(1, 6) } as usize;
    let base = if many { draw_sparse(f, n) } else { draw_den(f, n, 2 + draw(2)) };
    let mut long: Vec<usize> = vec![];
    let mut cols: Vec<SVec> = vec![];
    let mut own: Vec<Vec<(Val, u32)>> = vec![];
    let mut deps: Vec<Vec<(Val, u32, u32)>> = vec![];
    let nested = chance(2, 3);
    for c in 0..n {
        let mut v = base.cols[c].clone();
        long.push(v.len());
        own.push(v.iter().map(|(&r, &x)| (x, r)).collect());
        let mut d = vec![];
        if nested && c > 0 {
            for _ in 0..draw(3) {
                let k = draw(c as u32);
                if many && long[c] + long[k as usize] > 60 {
                    continue;
                }
                long[c] += long[k as usize];
                let a = if f.p == 0 { f.int(1 - 2 * draw(2) as i64).unwrap() } else { draw_val(f) };
                d.push((a, k, draw(5)));
                axpy(f, &mut v, a, &cols[k as usize]);
            }
        }
        cols.push(v);
        deps.push(d);
    }
    let mut dims: Vec<Vec<u32>> = vec![vec![], vec![]];
    for &b in &base.basis {
        dims[draw(2) as usize].push(b);
    }
    let den = Den::new(f, cols, base.fil.clone(), dims);
    desc(|| show_den(&den));
    desc(|| format!("column = own {own:?} + through the cache {deps:?}"));
    let delivery = Delivery::draw();
    desc(|| format!("{delivery:?}"));
    let basis = DimBasis::of(&den.dims);
    Rec { own, deps, delivery, basis, book: Rc::new(Book { started: RefCell::new(vec![0; n]), contained: Cell::new(0), link: Cell::new(None) }), den: Arc::new(den) }
}
/// Let the wrapped matrix read the cache for as long as `body` runs.
pub fn linked<C: ReadCol, T>(book: &Book, cache: &C, body: impl FnOnce() -> T) -> T {
    struct Unlink<'a>(&'a Book);
    impl Drop for Unlink<'_> {
        fn drop(&mut self) {
            self.0.link.set(None);
        }
    }
    let p: *const (dyn ReadCol + '_) = cache;
    book.link.set(Some(unsafe { std::mem::transmute::<*const (dyn ReadCol + '_), *const (dyn ReadCol + 'static)>(p) }));
    let _u = Unlink(book);
    body()
}

struct Cur<'a> {
    what: &'static str,
    col: u32,
    want: SVec,
    got: SVec,
    it: Box<dyn Iterator<Item = (SF, u32, Option<isize>)> + 'a>,
}
fn advance(f: Fld, fil: &[isize], c: &mut Cur, steps: u32) -> R<bool> {
    for _ in 0..steps {
        match c.it.next() {
            None => {
                let got = std::mem::take(&mut c.got);

                ensure!(got == c.want, "cached-read", "{} column {} read as {}, should be {}", c.what, c.col, show(&got), show(&c.want));
                count("cursor.completed");
                return Ok(false);
            }
            Some((x, r, v)) => {
                if let Some(v) = v {
                    ensure!(v == fil[r as usize], "filtration-of-entry", "{} column {}: row {r} delivered with {v}", c.what, c.col);
                }
                add_term(f, &mut c.got, r, x.val()?);
            }
        }
    }
    Ok(true)
}
fn go<C>(cache: &C, den: &Den, book: &Book, faults: bool) -> R
where
    C: MatrixOracle<CoefficientField = SF, ColT = Idx, RowT = Idx> + HasRowFiltration<FiltrationT = isize> + HasColBasis,
    C::BasisT: SplitByDimension,
{
    let f = den.f;
    let n = den.n() as u32;
    let mut fired = 0u64;
    let prod = product(cache, cache);
    let twice = sum(cache, cache);
    let rev = cache.reverse();
    let cons = cache.consolidate();
    let one_of = |what: u32, c: u32| -> SVec {
        match what {
            2 => mat_vec(f, &den.cols, &den.cols[c as usize]),
            3 => {
                let mut v = den.cols[c as usize].clone();
                axpy(f, &mut v, f.one(), &den.cols[c as usize]);
                v
            }
            _ => den.cols[c as usize].clone(),
        }
    };
    let at_most_once = |fired: u64| -> R {
        let fired = fired + book.contained.get();
        for (c, &s) in book.started.borrow().iter().enumerate() {
            ensure!(s <= 1 + fired, "computed-again", "column {c} was computed {s} times by the wrapped matrix after {fired} failed reads");
        }
        Ok(())
    };
    if faults && chance(1, 40) {
        // one failure after the other, so that what each leaves behind would add up
        count("probe.many_failures");
        let c = draw(n);
        for _ in 0..range(10, 300) {
            if let Outcome::Failed = with_fault(1 + draw(2) as u64, || Ok(cache.column(Idx(c)).count()))? {
                fired += 1;
            }
        }
    }
    let mut open: Vec<Cur> = vec![];
    for _ in 0..range(5, 30) {
        let fault = if faults && chance(1, 3) { Some(1 + draw(40) as u64) } else { None };
        let op = draw(10);
        match op {
            0..=3 if open.len() < 5 => {
                let what = draw(6);
                let c = draw(n);
                let mk = || -> R<Cur> {
                    let (name, it): (&'static str, Box<dyn Iterator<Item = (SF, u32, Option<isize>)>>) = match what {
                        0 => ("cached", Box::new(cache.column(Idx(c)).map(|(x, r)| (x, r.0, None)).driven())),
                        1 => ("cached, with filtration,", Box::new(cache.column_with_filtration(Idx(c)).map(|e| (e.coeff, e.row_index.0, Some(e.filtration_value))).driven())),
                        2 => ("squared", Box::new(prod.column_with_filtration(Idx(c)).map(|e| (e.coeff, e.row_index.0, Some(e.filtration_value))).driven())),
                        3 => ("doubled", Box::new(twice.column(Idx(c)).map(|(x, r)| (x, r.0, None)).driven())),
                        4 => ("reversed", Box::new(rev.column_with_filtration(Reverse(Idx(c))).map(|e| (e.coeff, e.row_index.0 .0, Some(e.filtration_value.0))).driven())),
                        _ => ("consolidated", Box::new(cons.column(Idx(c)).map(|(x, r)| (x, r.0, None)).driven())),
                    };
                    Ok(Cur { what: name, col: c, want: one_of(what, c), got: SVec::new(), it })
                };
                note(|| format!("open column {c} (manner {what})"));
                let r = match fault {
                    None => Outcome::Done(mk()?),
                    Some(k) => with_fault(k, mk)?,
                };
                match r {
                    Outcome::Done(c) => {
                        open.push(c);
                        count("cursor.opened");
                        if open.len() > 1 {
                            count("cursor.overlapping");
                        }
                    }
                    Outcome::Failed => fired += 1,
                }
            }
            4 if !open.is_empty() => {
                let k = draw(open.len() as u32) as usize;
                open.swap_remove(k);
                count("cursor.abandoned");
            }
            5 => {
                // the same column through the cache and as it should be
                let c = draw(n);
                let m = SimMat::new(Den::new(f, den.cols.clone(), den.fil.clone(), den.dims.clone()), Delivery::plain(), 0);
                let eq = || Ok(cache.eq_on_col(&m, Idx(c)));
                match fault {
                    None => ensure!(eq()?, "cached-read", "eq_on_col({c}) is false against the same matrix"),
                    Some(k) => match with_fault(k, eq)? {
                        Outcome::Done(e) => ensure!(e, "cached-read", "eq_on_col({c}) is false against the same matrix"),
                        Outcome::Failed => fired += 1,
                    },
                }
            }
            6 if f.p > 0 || n <= 4 => {
                let view = View::of(den, false);
                let mode = draw(8);
                match fault {
                    None => reduce_std(cache, &view, mode)?,
                    Some(k) => {
                        if let Outcome::Failed = with_fault(k * 3, || reduce_std(cache, &view, mode))? {
                            fired += 1;
                        }
                    }
                }
            }
            _ if !open.is_empty() => {
                let k = draw(open.len() as u32) as usize;
                let steps = [1, 1, 2, 4, 10000][draw(5) as usize];
                let more = match fault {
                    None => advance(f, &den.fil, &mut open[k], steps)?,
                    Some(x) => match with_fault(x, || advance(f, &den.fil, &mut open[k], steps))? {
                        Outcome::Done(m) => m,
                        Outcome::Failed => {
                            fired += 1;
                            false
                        }
                    },
                };
                if !more {
                    open.swap_remove(k);
                }
            }
            _ => {
                let c = draw(n);
                let rd = || collect(f, cache.column(Idx(c)).map(|(x, r)| (x, r.0)));
                let got = match fault {
                    None => Outcome::Done(rd()?),
                    Some(k) => with_fault(k, rd)?,
                };
                match got {
                    Outcome::Done(got) => ensure!(got == den.cols[c as usize], "cached-read", "column {c} read as {}, should be {}", show(&got), show(&den.cols[c as usize])),
                    Outcome::Failed => {
                        fired += 1;
                        // the very next read succeeds and is complete
                        let got = rd()?;
                        ensure!(got == den.cols[c as usize], "partial-retained", "after a failed read column {c} is {}, should be {}", show(&got), show(&den.cols[c as usize]));
                        count("op.retry_after_failure");
                    }
                }
            }
        }
        at_most_once(fired)?;
    }
    for mut c in open {
        while advance(f, &den.fil, &mut c, 1000)? {}
    }
    let before = book.started.borrow().clone();
    for c in 0..n {
        let got = collect(f, cache.column(Idx(c)).map(|(x, r)| (x, r.0)))?;
        ensure!(got == den.cols[c as usize], "cached-read", "finally column {c} is {}, should be {}", show(&got), show(&den.cols[c as usize]));
    }
    at_most_once(fired)?;
    let mid = book.started.borrow().clone();
    for c in 0..n {
        let got = collect(f, cache.column(Idx(c)).map(|(x, r)| (x, r.0)))?;
        ensure!(got == den.cols[c as usize], "cached-read", "read again column {c} is {}, should be {}", show(&got), show(&den.cols[c as usize]));
    }
    ensure!(mid == *book.started.borrow(), "computed-again", "columns computed {mid:?} times and again {:?}", book.started.borrow());
    if before.iter().zip(&mid).any(|(a, b)| a == b) {
        count("probe.cache_hit");
    }
    for r in 0..n {
        ensure!(cache.filtration_value(Idx(r)) == den.fil[r as usize], "filtration", "row {r} of the cached matrix");
    }
    let b = cache.basis();
    let got: Vec<u32> = (0..b.size()).map(|i| b.element(i).0).collect();
    ensure!(got == den.basis, "basis-order", "basis of the cached matrix {got:?}, should be {:?}", den.basis);
    for (k, d) in den.dims.iter().enumerate() {
        let s = b.in_dimension(k);
        let got: Vec<u32> = (0..s.size()).map(|i| s.element(i).0).collect();
        ensure!(&got == d, "basis-order", "dimension {k} of the cached matrix {got:?}, should be {d:?}");
    }
    Ok(())
}

/// Thousands of short columns, all of them cached.
fn huge(f: Fld) -> R {
    count("probe.huge_cache");
    let n = range(700, 5000) as usize;
    let mut r = Lrng(draw_seed());
    let mut cols = vec![SVec::new(); n];
    let mut own = vec![vec![]; n];
    let mut deps = vec![vec![]; n];
    let link = draw(3) as u64;
    for c in 0..n {
        for _ in 0..r.below(3) {
            let (x, v) = (r.below(n as u64) as u32, rng_val(f, &mut r));
            if cols[c].insert(x, v).is_none() {
                own[c].push((v, x));
            } else {
                own[c].retain(|e: &(Val, u32)| e.1 != x);
                own[c].push((v, x));
            }
        }
        if c > 0 && r.below(6) < link {
            let k = r.below(c as u64) as usize;
            if cols[k].len() < 12 {
                let col = cols[k].clone();
                axpy(f, &mut cols[c], f.one(), &col);
                deps[c].push((f.one(), k as u32, r.below(4) as u32));
            }
        }
    }
    let fil = (0..n).map(|_| r.below(9) as isize).collect();
    let den = Den::new(f, cols, fil, vec![(0..n as u32).collect()]);
    let basis = DimBasis::of(&den.dims);
    let book = Rc::new(Book { started: RefCell::new(vec![0; n]), contained: Cell::new(0), link: Cell::new(None) });
    let den = Arc::new(den);
    let rec = Rec { own, deps, delivery: Delivery::draw(), basis, book: book.clone(), den: den.clone() };
    let cache = rec.cache_cols();
    linked(&book, &cache, || {
        let mut order: Vec<u32> = (0..n as u32).collect();
        for pass in 0..3 {
            if pass != 1 {
                r.shuffle(&mut order);
            }
            let mut open = None;
            for &c in &order {
                if pass == 1 && open.is_none() && r.below(500) == 0 {
                    // stays open while very many others are read
                    let mut it = cache.column(Idx(c));
                    let first = it.next();
                    open = Some((c, first, it));
                }
                let got = collect(f, cache.column(Idx(c)).map(|(x, r)| (x, r.0)))?;
                ensure!(got == den.cols[c as usize], "cached-read", "column {c} read as {}, should be {}", show(&got), show(&den.cols[c as usize]));
            }
            if let Some((c, first, it)) = open {
                let got = collect(f, first.into_iter().chain(it).map(|(x, r)| (x, r.0)))?;
                ensure!(got == den.cols[c as usize], "cached-read", "column {c}, long open, read as {}, should be {}", show(&got), show(&den.cols[c as usize]));
            }
            for (c, &s) in book.started.borrow().iter().enumerate() {
                ensure!(s <= 1, "computed-again", "column {c} was computed {s} times by the wrapped matrix");
            }
        }
        Ok(())
    })
}
pub fn run_c05(w: &World) -> R {
    let f = draw_field(true);
    if draw_native(f) {
        return crate::native!(f, C => crate::c04::native_stack::<C>(w, f, true));
    }
    if f.p > 0 && chance(1, 400) {
        let c: Box<dyn FnOnce() -> R + Send> = Box::new(move || huge(f));
        return w.run_clients(vec![c]).into_iter().collect();
    }
    let recs = several(|| draw_rec(f));
    let faults = chance(1, 2);
    let moved = chance(1, 4);
    let pack = Wrap(recs);
    // caches are per user: every run has one, optionally used from a second thread later on
    let first: Box<dyn FnOnce() -> R + Send> = Box::new(move || {
        let Wrap(recs) = { pack };
        // one cache after the other, or the second while the first is in use
        let mut all: Vec<_> = recs.into_iter().map(|rec| (rec.den.clone(), rec.book.clone(), rec.cache_cols())).collect();
        let first = all.remove(0);
        let Some((den, book, cache)) = all.pop() else {
            return linked(&first.1, &first.2, || go(&first.2, &first.0, &first.1, faults));
        };
        linked(&first.1, &first.2, || {
            linked(&book, &cache, || {
                let half = |c: u32| collect(den.f, cache.column(Idx(c)).map(|(x, r)| (x, r.0)));
                for c in 0..den.n() as u32 {
                    let got = half(c)?;
                    ensure!(got == den.cols[c as usize], "cached-read", "column {c} of the second cache is {}, should be {}", show(&got), show(&den.cols[c as usize]));
                    if c % 2 == 0 {
                        let c = draw(first.0.n() as u32);
                        let got = collect(den.f, first.2.column(Idx(c)).map(|(x, r)| (x, r.0)))?;
                        ensure!(got == first.0.cols[c as usize], "cached-read", "column {c} of the first cache is {}, should be {}", show(&got), show(&first.0.cols[c as usize]));
                    }
                }
                go(&first.2, &first.0, &first.1, faults)?;
                go(&cache, &den, &book, faults)
            })
        })
    });
    if moved {
        // an unrelated user with its own cache over a composed matrix, interleaved
        let pool = crate::c04::draw_pool(f, 3, 3, false);
        let d = pool.pick();
        let other: Box<dyn FnOnce() -> R + Send> = Box::new(move || {
            let cache = d.clone().cache_cols();
            for _ in 0..6 {
                let c = draw(3);
                let got = collect(f, cache.column(Idx(c)).map(|(x, r)| (x, r.0)))?;
                ensure!(got == d.den.cols[c as usize], "cached-read", "column {c} of cached {} is {}, should be {}", d.name, show(&got), show(&d.den.cols[c as usize]));
            }
            Ok(())
        });
        return w.run_clients(vec![first, other]).into_iter().collect();
    }
    w.run_clients(vec![first]).into_iter().collect()
}
