//! C04: lazy matrices composed of others, read through many open cursors.
use crate::checks::interleaved_reads;
use crate::ensure;
use crate::expr::*;
use crate::field::*;
use crate::model::*;
use crate::native;
use crate::simmat::*;
use crate::world::*;
use phlite::matrices::adaptors::*;
use phlite::matrices::combinators::*;
use phlite::matrices::implementors::*;
use phlite::matrices::*;
use std::borrow::Cow;
use std::cmp::Reverse;
use std::sync::Arc;

/// Everything about a composed matrix that can be asked for without a cursor.
pub fn check_shape(d: &Dyn) -> R {
    let den = &d.den;
    let b = d.node.bsize();
    ensure!(b == den.basis.len(), "basis-size", "{}: basis has {b} elements, should have {}", d.name, den.basis.len());
    for (i, &want) in den.basis.iter().enumerate() {
        let got = d.node.belem(i).0;
        ensure!(got == want, "basis-order", "{}: basis element {i} is {got}, should be {want}", d.name);
    }
    for (k, dim) in den.dims.iter().enumerate() {
        let s = d.node.dsize(k);
        ensure!(s == dim.len(), "basis-dimension", "{}: dimension {k} has {s} elements, should have {}", d.name, dim.len());
        for (i, &want) in dim.iter().enumerate() {
            let got = d.node.delem(k, i).0;
            ensure!(got == want, "basis-dimension", "{}: element {i} of dimension {k} is {got}, should be {want}", d.name);
        }
    }
    for r in 0..den.n() as u32 {
        let got = d.node.fil(r);
        ensure!(got == den.fil[r as usize], "filtration", "{}: row {r} has filtration {got}, should be {}", d.name, den.fil[r as usize]);
    }
    Ok(())
}
fn check_bases(d: &Dyn) -> R {
    let b = d.basis();
    let want = &d.den.basis;
    let n = want.len();
    let look = b.construct_reverse_lookup();
    ensure!(look.len() == n, "reverse-lookup", "lookup has {} of {n} elements", look.len());
    for (i, &e) in want.iter().enumerate() {
        ensure!(look.get(&Idx(e)) == Some(&i), "reverse-lookup", "element {e} at {:?}, should be at {i}", look.get(&Idx(e)));
        let r = ColBasis::reverse(b).element(n - 1 - i);
        ensure!(r.0 .0 == e, "reverse-basis", "reversed basis has {} where {e} should be", r.0 .0);
        let u = ReverseBasis(b).unreverse().element(i);
        ensure!(u.0 == e, "reverse-basis", "unreversed basis has {} where {e} should be", u.0);
        let rb = ReverseBasis(b);
        let u = ColBasis::unreverse(&rb).element(i);
        ensure!(u.0 == e, "reverse-basis", "unreversed basis has {} where {e} should be", u.0);
    }
    for (k, dim) in d.den.dims.iter().enumerate() {
        let rb = ReverseBasis(b);
        let rb2: &ReverseBasis<DynBasis> = &rb;
        let sub = rb2.in_dimension(k);
        ensure!(sub.size() == dim.len(), "reverse-basis", "reversed dimension {k} has {} elements", sub.size());
        for (i, &e) in dim.iter().rev().enumerate() {
            let g = sub.element(i).0 .0;
            ensure!(g == e, "reverse-basis", "reversed dimension {k} has {g} where {e} should be");
        }
    }
    let s = StandardBasis::new(n);
    ensure!(ColBasis::size(&s) == n && (0..n).all(|i| ColBasis::element(&s, i) == i), "standard-basis", "standard basis of size {n} is wrong");
    Ok(())
}
fn check_eq(pool: &[Dyn]) -> R {
    let k = pool.len() as u32;
    let a = &pool[draw(k) as usize];
    let b = if chance(1, 3) { a } else { &pool[draw(k) as usize] };
    for c in 0..a.den.n() as u32 {
        let got = a.eq_on_col(b, Idx(c));
        let want = a.den.cols[c as usize] == b.den.cols[c as usize];
        ensure!(got == want, "eq-on-col", "{} and {} on column {c}: equal reported {got}, columns {} and {}", a.name, b.name, show(&a.den.cols[c as usize]), show(&b.den.cols[c as usize]));
        count(if want { "probe.equal_columns" } else { "probe.unequal_columns" });
    }
    // against a copy with one coefficient changed
    let full: Vec<usize> = (0..a.den.n()).filter(|&c| !a.den.cols[c].is_empty()).collect();
    if !full.is_empty() {
        let c = if chance(1, 2) { *full.iter().max_by_key(|&&c| a.den.cols[c].len()).unwrap() } else { full[draw(full.len() as u32) as usize] };
        let mut other = a.den.cols.clone();
        change_one(a.den.f, &mut other[c], a.den.n() as u32);
        let want = other[c] == a.den.cols[c];
        let m = SimMat::new(Den::new(a.den.f, other, a.den.fil.clone(), a.den.dims.clone()), Delivery::draw(), 0);
        let got = a.eq_on_col(&m, Idx(c as u32));
        ensure!(got == want, "eq-on-col", "changed column {c}: equal reported {got}, should be {want}");
        let got = m.eq_on_col(a, Idx(c as u32));
        ensure!(got == want, "eq-on-col", "column {c} against the changed one: equal reported {got}, should be {want}");
    }
    if chance(1, 60) {
        return check_eq_long(a.den.f);
    }
    Ok(())
}
fn change_one(f: Fld, col: &mut SVec, n: u32) {
    let rows: Vec<u32> = col.keys().copied().collect();
    let r = if rows.is_empty() { draw(n) } else { rows[draw(rows.len() as u32) as usize] };
    match draw(4) {
        0 => add_term(f, col, r, draw_val(f)),
        1 => {
            let x = col.remove(&r);
            // perhaps to another row
            if let (Some(x), 0) = (x, draw(2)) {
                add_term(f, col, draw(n), x);
            }
        }
        2 => {
            col.remove(&r);
        }
        _ => add_term(f, col, draw(n), draw_val(f)),
    }
}
/// Long columns, equal or nearly.
fn check_eq_long(f: Fld) -> R {
    count("probe.long_equality");
    let n = range(20, 300);
    let mut r = Lrng(draw_seed());
    let share = range(1, 4) as u64;
    let mut cols = vec![SVec::new(); n as usize];
    for row in 0..n {
        if r.below(4) < share {
            cols[0].insert(row, rng_val(f, &mut r));
        }
    }
    let mut other = cols.clone();
    for _ in 0..draw(3) {
        change_one(f, &mut other[0], n);
    }
    let want = other[0] == cols[0];
    let fil = vec![0; n as usize];
    let dims = vec![vec![0]];
    let a = SimMat::new(Den::new(f, cols, fil.clone(), dims.clone()), Delivery::draw(), 0);
    let b = SimMat::new(Den::new(f, other, fil, dims), Delivery::draw(), 0);
    let got = (a.eq_on_col(&b, Idx(0)), b.eq_on_col(&a, Idx(0)));
    ensure!(got == (want, want), "eq-on-col", "columns of {} and {} entries: equal reported {got:?}, should be {want}", a.den.cols[0].len(), b.den.cols[0].len());
    count(if want { "probe.equal_columns" } else { "probe.unequal_columns" });
    Ok(())
}
/// A basis of any size whose elements are computed: `add + mul * i (mod n)`, in dimensions of any sizes.
pub struct FarBasis {
    n: u32,
    mul: u32,
    parts: Vec<FarPart>,
}
pub struct FarPart {
    n: u32,
    mul: u32,
    from: u32,
    len: u32,
}
impl FarPart {
    fn at(&self, i: u32) -> u32 {
        ((i as u64 * self.mul as u64 + self.from as u64 * self.mul as u64) % self.n as u64) as u32
    }
}
impl ColBasis for FarPart {
    type ElemT = Idx;
    fn element(&self, i: usize) -> Idx {
        yp(Pt::Basis);
        assert!(i < self.len as usize, "basis index out of range");
        Idx(self.at(i as u32))
    }
    fn size(&self) -> usize {
        self.len as usize
    }
}
impl FarBasis {
    fn draw() -> FarBasis {
        let n = [255, 256, 1023, 4096, 65_535, 65_536, 100_000][draw(7) as usize] + draw(3);
        let mut mul = 1 + draw(n - 1);
        while gcd(mul, n) != 1 {
            mul = mul % n + 1;
        }
        let mut at: Vec<u32> = (0..draw(4)).map(|_| draw(n + 1)).collect();
        at.extend([0, n]);
        at.sort();
        FarBasis { n, mul, parts: at.windows(2).map(|w| FarPart { n, mul, from: w[0], len: w[1] - w[0] }).collect() }
    }
    fn at(&self, i: u32) -> u32 {
        (i as u64 * self.mul as u64 % self.n as u64) as u32
    }
}
fn gcd(a: u32, b: u32) -> u32 {
    if b == 0 { a } else { gcd(b, a % b) }
}
impl ColBasis for FarBasis {
    type ElemT = Idx;
    fn element(&self, i: usize) -> Idx {
        yp(Pt::Basis);
        assert!(i < self.n as usize, "basis index out of range");
        Idx(self.at(i as u32))
    }
    fn size(&self) -> usize {
        self.n as usize
    }
}
impl SplitByDimension for FarBasis {
    type SubBasisT = FarPart;
    fn in_dimension(&self, d: usize) -> &FarPart {
        &self.parts[d]
    }
}
/// Column c is 1 at c and at (c + 1) mod n.
pub struct FarMat(Fld, u32);
impl MatrixOracle for FarMat {
    type CoefficientField = SF;
    type ColT = Idx;
    type RowT = Idx;
    fn column(&self, c: Idx) -> impl Iterator<Item = (SF, Idx)> {
        yp(Pt::Col);
        let n = self.1;
        [c.0, (c.0 + 1) % n].into_iter().map(|r| (SF::of(self.0.one()), Idx(r)))
    }
}
/// Every element of a basis, in order, and where its reverse lookup has it.
fn all_elements<B: ColBasis>(what: &str, b: &B, want: &[u32], key: impl Fn(u32) -> B::ElemT) -> R
where
    B::ElemT: std::hash::Hash + std::fmt::Debug,
{
    ensure!(b.size() == want.len(), "basis-size", "{what} has {} elements, should have {}", b.size(), want.len());
    for (i, &e) in want.iter().enumerate() {
        let g = b.element(i);
        ensure!(g == key(e), "basis-order", "element {i} of {what} is {g:?}, should be {e}");
    }
    let look = b.construct_reverse_lookup();
    ensure!(look.len() == want.len(), "reverse-lookup", "the lookup of {what} has {} of {} elements", look.len(), want.len());
    for (i, &e) in want.iter().enumerate() {
        ensure!(look.get(&key(e)) == Some(&i), "reverse-lookup", "{what}: element {e} at {:?}, should be at {i}", look.get(&key(e)));
    }
    Ok(())
}
fn check_far(f: Fld) -> R {
    count("probe.far_basis");
    let b = FarBasis::draw();
    let n = b.n;
    desc(|| format!("basis of {n} elements, multiplier {}, dimensions of {:?} elements", b.mul, b.parts.iter().map(|p| p.len).collect::<Vec<_>>()));
    let all: Vec<u32> = (0..n).map(|i| b.at(i)).collect();
    let rev: Vec<u32> = all.iter().rev().copied().collect();
    let d = draw(b.parts.len() as u32) as usize;
    let (from, len) = (b.parts[d].from as usize, b.parts[d].len as usize);
    let m = FarMat(f, n).with_trivial_filtration().with_basis(b);
    let m = &m;
    let (i, rid) = (|e| Idx(e), |e| Reverse(Idx(e)));
    match draw(6) {
        0 => all_elements("the basis", &*m.basis(), &all, i)?,
        1 => all_elements("the reversed basis", &*m.reverse().basis(), &rev, rid)?,
        2 => all_elements("the basis reversed twice", &*m.reverse().unreverse().basis(), &all, i)?,
        3 => all_elements("a dimension", &*m.sub_matrix_in_dimension(d).basis(), &all[from..from + len], i)?,
        4 => {
            let part: Vec<u32> = all[from..from + len].iter().rev().copied().collect();
            all_elements("a dimension, reversed", m.reverse().basis().in_dimension(d), &part, rid)?;
        }
        _ => {
            let by_index = m.using_col_basis_index();
            for _ in 0..40 {
                let k = if chance(1, 4) { n - 1 - draw(n.min(3)) } else { draw(n) } as usize;
                let got = collect(f, by_index.column(k).map(|(x, r)| (x, r.0)))?;
                let want: SVec = [all[k], (all[k] + 1) % n].into_iter().map(|r| (r, f.one())).collect();
                ensure!(got == want, "column-read", "column at index {k} is {}, should be {}", show(&got), show(&want));
            }
        }
    }
    Ok(())
}
/// Consolidated columns hold each row once, non-zero (in whatever order).
fn check_consolidated(d: &Dyn, c: u32) -> R {
    let con = d.clone().consolidate();
    let mut got = SVec::new();
    for (x, r) in con.column(Idx(c)) {
        let old = got.insert(r.0, x.val()?);
        ensure!(old.is_none(), "consolidated-twice", "consolidated column {c} of {}: row {} delivered more than once", d.name, r.0);
    }
    ensure!(got == d.den.cols[c as usize], "column-read", "consolidated column {c} of {} is {}, should be {}", d.name, show(&got), show(&d.den.cols[c as usize]));
    Ok(())
}
/// Cursors over several composed matrices (sharing parts), interleaved.
fn cursors(items: &[Dyn], ops: u32) -> R {
    struct Cur<'a> {
        item: usize,
        col: u32,
        got: SVec,
        it: Box<dyn Iterator<Item = (SF, Idx, Option<isize>)> + 'a>,
    }
    let f = items[0].den.f;
    let n = items[0].den.n() as u32;
    if n == 0 {
        return Ok(());
    }
    let done = |c: &Cur| -> R {
        let want = &items[c.item].den.cols[c.col as usize];
        ensure!(&c.got == want, "column-read", "column {} of {} read as {}, should be {}", c.col, items[c.item].name, show(&c.got), show(want));
        count("cursor.completed");
        Ok(())
    };
    fn step(items: &[Dyn], f: Fld, c: &mut Cur) -> R<bool> {
        match c.it.next() {
            None => Ok(false),
            Some((x, r, fil)) => {
                if let Some(v) = fil {
                    let want = items[c.item].den.fil[r.0 as usize];
                    ensure!(v == want, "filtration-of-entry", "{}: row {} delivered with {v}, should be {want}", items[c.item].name, r.0);
                }
                add_term(f, &mut c.got, r.0, x.val()?);
                Ok(true)
            }
        }
    }
    let mut open: Vec<Cur> = vec![];
    for _ in 0..ops {
        match draw(6) {
            0 | 1 if open.len() < 6 => {
                let item = draw(items.len() as u32) as usize;
                let col = draw(n);
                note(|| format!("open column {col} of {}", items[item].name));
                let it: Box<dyn Iterator<Item = (SF, Idx, Option<isize>)>> = if draw(2) == 0 {
                    Box::new(items[item].node.col(col).map(|(x, r)| (x, r, None)))
                } else {
                    Box::new(items[item].node.colf(col).map(|(x, r, v)| (x, r, Some(v))))
                };
                open.push(Cur { item, col, got: SVec::new(), it });
                count("cursor.opened");
                if open.len() > 1 {
                    count("cursor.overlapping");
                }
            }
            5 if !open.is_empty() && chance(1, 2) => {
                let k = draw(open.len() as u32) as usize;
                note(|| "abandon a cursor".into());
                open.swap_remove(k);
                count("cursor.abandoned");
            }
            _ if !open.is_empty() => {
                let k = draw(open.len() as u32) as usize;
                for _ in 0..[1, 1, 2, 5, 10000][draw(5) as usize] {
                    if !step(items, f, &mut open[k])? {
                        let c = open.swap_remove(k);
                        done(&c)?;
                        break;
                    }
                }
            }
            _ => {
                let item = draw(items.len() as u32) as usize;
                let col = draw(n);
                let d = &items[item];
                // a heap column started, and added to, as the reduction algorithms do it
                let mut want = SVec::new();
                let mut h = if chance(1, 4) {
                    d.empty_bhcol()
                } else {
                    want = d.den.cols[col as usize].clone();
                    d.build_bhcol(Idx(col))
                };
                for _ in 0..if chance(1, 3) { range(1, 4) } else { 0 } {
                    let k = if chance(1, 3) { col } else { draw(n) };
                    let c = if chance(1, 3) { f.neg(f.one()) } else { draw_val(f) };
                    note(|| format!("add {c:?} times column {k} to the heap of column {col} of {}", d.name));
                    h.add_entries(d.column_with_filtration(Idx(k)).map(|e| e * SF::of(c)));
                    axpy(f, &mut want, c, &d.den.cols[k as usize]);
                    count("op.heap_of_matrix_column_added_to");
                    if chance(1, 3) {
                        let top = h.clone_pivot().map(|e| (e.row_index.0, e.filtration_value));
                        ensure!(top.is_none_or(|t| want.contains_key(&t.0) && want.keys().all(|&r| (d.den.fil[r as usize], r) <= (t.1, t.0))) && top.is_none() == want.is_empty(), "pivot", "{}: pivot of the heap is {top:?}, the column {}", d.name, show(&want));
                    }
                }
                let mut got = SVec::new();
                while let Some(e) = h.pop_pivot() {
                    ensure!(e.filtration_value == d.den.fil[e.row_index.0 as usize], "filtration-of-entry", "{}: heap of column {col}, row {}", d.name, e.row_index.0);
                    got.insert(e.row_index.0, e.coeff.val()?);
                }
                ensure!(got == want, "column-read", "column {col} of {}, with what was added to it, drained as {}, should be {}", d.name, show(&got), show(&want));
            }
        }
    }
    while let Some(mut c) = open.pop() {
        while step(items, f, &mut c)? {}
        done(&c)?;
    }
    Ok(())
}
/// Operands of different shapes: D (rows × mid) times V (mid × cols), stored in every provided way.
fn check_rect<C: Coef>(f: Fld) -> R {
    let (rows, mid, cols) = (range(1, 5), range(1, 5), range(1, 4));
    let gen = |r: u32, c: u32| -> Vec<SVec> {
        (0..c)
            .map(|_| {
                let mut v = SVec::new();
                for i in 0..r {
                    if chance(1, 2) {
                        v.insert(i, draw_val(f));
                    }
                }
                v
            })
            .collect()
    };
    let (a, b) = (gen(rows, mid), gen(mid, cols));
    let store = |m: &[SVec]| -> Vec<Vec<(C, usize)>> { m.iter().map(|c| c.iter().map(|(&r, &x)| (C::of(x), r as usize)).collect()) .collect() };
    let (sa, sb) = (store(&a), store(&b));
    let la = VecVecMatrix::from(&sa);
    let lb = VecVecMatrix::from(Cow::Owned(sb));
    let fil: Vec<isize> = draw_fil(rows as usize);
    let la2 = la.with_filtration(|r: usize| fil[r]);
    let p = product(&la2, &lb);
    let rp = p.reverse();
    let basis = rp.basis();
    let (size, element) = (ColBasis::size(&basis.0), |i: usize| ColBasis::element(&basis, i));
    ensure!(size == cols as usize, "basis-size", "product of {rows}x{mid} and {mid}x{cols} has {size} columns");
    for i in 0..cols as usize {
        let j = element(i);
        ensure!(j.0 == cols as usize - 1 - i, "basis-order", "reversed product basis element {i} is {j:?}");
        let want = mat_vec(f, &a, &b[j.0]);
        let mut got = SVec::new();
        for e in rp.column_with_filtration(j) {
            ensure!(e.filtration_value == Reverse(fil[e.row_index.0]), "filtration-of-entry", "reversed product row {:?}", e.row_index);
            add_term(f, &mut got, e.row_index.0 as u32, e.coeff.val()?);
        }
        ensure!(got == want, "column-read", "column {} of a reversed product is {}, should be {}", j.0, show(&got), show(&want));
    }
    let ones = VecVecMatrix::<C, usize>::new_all_one(a.iter().map(|c| c.keys().map(|&r| r as usize).collect::<Vec<_>>()));
    for (j, c) in a.iter().enumerate() {
        let got = collect(f, ones.column(j).map(|(x, r)| (x, r as u32)))?;
        let want: SVec = c.keys().map(|&r| (r, f.one())).collect();
        ensure!(got == want, "column-read", "all-one column {j} is {}, should be {}", show(&got), show(&want));
    }
    Ok(())
}

pub fn draw_pool(f: Fld, n: usize, grow: u32, allow_cache: bool) -> Pool {
    let shards = if f.p > 0 && n < 10 && chance(1, 400) { [40, 300, 1500][draw(3) as usize] } else { 0 };
    if shards > 0 {
        count("probe.shattered_columns");
    }
    let mut pool = Pool { f, n, items: vec![], allow_cache, max_bound: if f.p == 0 { 40 } else { 300 + 8 * shards as usize }, shards };
    for _ in 0..range(1, 2) {
        pool.leaf();
    }
    for _ in 0..grow {
        pool.grow();
    }
    pool
}
/// Every adaptor and combinator over the library's own coefficients, cached if so asked.
pub fn native_stack<C: Coef>(w: &World, f: Fld, cached: bool) -> R {
    let n = range(1, if f.p == 0 { 4 } else { 7 });
    let a = draw_den(f, n as usize, 1 + draw(4));
    let mut b = draw_den(f, n as usize, 1 + draw(4));
    b.fil = a.fil.clone();
    let (da, db) = (Arc::new(a.clone()), Arc::new(b.clone()));
    desc(|| format!("A {} B {}", show_den(&a), show_den(&b)));
    let (a, b) = (SimMat::new(a, Delivery::draw(), draw(3)), SimMat::new(b, Delivery::draw(), draw(3)));
    let both = Wrap((Nat::<_, C>::of(a), Nat::<_, C>::of(b)));
    let (both, da, db) = (&both, &da, &db);
    let read = move || -> R {
        let (a, b) = both.get();
        let own;
        let (ca, pa);
        if cached {
            own = (a.cache_cols(), b.cache_cols());
            ca = Some(&own);
            pa = None;
        } else {
            ca = None;
            pa = Some((a, b));
        }
        for _ in 0..3 {
            let kind = draw(8);
            match (ca, pa) {
                (Some((a, b)), _) => native_ops(f, a, b, da, db, kind)?,
                (_, Some((a, b))) => native_ops(f, a, b, da, db, kind)?,
                _ => {}
            }
        }
        Ok(())
    };
    let cs: Vec<Box<dyn FnOnce() -> R + Send>> = (0..range(1, 3)).map(|_| Box::new(move || nested(&read, read)) as Box<dyn FnOnce() -> R + Send>).collect();
    w.run_clients(cs).into_iter().collect()
}
fn native_ops<A, B>(f: Fld, a: &A, b: &B, da: &Arc<Den>, db: &Arc<Den>, kind: u32) -> R
where
    A: MatrixOracle<ColT = Idx, RowT = Idx> + HasRowFiltration<FiltrationT = isize> + HasColBasis,
    B: MatrixOracle<CoefficientField = A::CoefficientField, ColT = Idx, RowT = Idx> + HasRowFiltration<FiltrationT = isize> + HasColBasis,
    A::CoefficientField: Coef,
{
    let n = da.n() as u32;
    let all: Vec<u32> = (0..n).collect();
    let fil = |r: u32, v: &isize| *v == da.fil[r as usize];
    let of_sum = |j: u32| {
        let mut v = da.cols[j as usize].clone();
        axpy(f, &mut v, f.one(), &db.cols[j as usize]);
        v
    };
    let col_a = |j: u32| da.cols[j as usize].clone();
    match kind {
        0 => interleaved_reads(a, f, &all, col_a, fil, 10),
        1 => interleaved_reads(&product(a, b), f, &all, |j| mat_vec(f, &da.cols, &db.cols[j as usize]), fil, 10),
        2 => interleaved_reads(&sum(a, b).with_filtration(fil_fn(da.fil.clone())), f, &all, of_sum, fil, 10),
        3 => interleaved_reads(&a.reverse(), f, &all, col_a, |r, v| v.0 == da.fil[r as usize], 10),
        4 => {
            let con = a.consolidate();
            for &j in &all {
                let mut got = SVec::new();
                for (x, r) in con.column(Idx(j)) {
                    ensure!(got.insert(r.0, x.val()?).is_none(), "consolidated-twice", "consolidated column {j}: row {} delivered more than once", r.0);
                }
                ensure!(got == da.cols[j as usize], "column-read", "consolidated column {j} is {}, should be {}", show(&got), show(&da.cols[j as usize]));
            }
            interleaved_reads(&con, f, &all, col_a, fil, 10)
        }
        5 => {
            let s = sum(a, b).with_filtration(fil_fn(da.fil.clone()));
            let c = product(&s, a);
            let d = c.consolidate();
            interleaved_reads(&d, f, &all, |j| mat_vec(f, &all.iter().map(|&k| of_sum(k)).collect::<Vec<_>>(), &da.cols[j as usize]), fil, 10)
        }
        6 => {
            for &j in &all {
                let eq = a.eq_on_col(b, Idx(j));
                let want = da.cols[j as usize] == db.cols[j as usize];
                ensure!(eq == want, "eq-on-col", "columns {j} of A and B: equal reported {eq}, should be {want}");
                ensure!(a.eq_on_col(&a.consolidate(), Idx(j)), "eq-on-col", "column {j} and the same consolidated are reported different");
            }
            Ok(())
        }
        _ => check_rect::<A::CoefficientField>(f),
    }
}
pub fn run_c04(w: &World) -> R {
    let f = draw_field(true);
    if draw_native(f) {
        return native!(f, C => native_stack::<C>(w, f, false));
    }
    if chance(1, 200) {
        let c: Box<dyn FnOnce() -> R + Send> = Box::new(move || check_far(f));
        return w.run_clients(vec![c]).into_iter().collect();
    }
    let many = f.p > 0 && chance(1, 150);
    let n = if many { range(10, 40) } else { draw(if f.p == 0 { 5 } else { 7 }) } as usize;
    if many {
        count("probe.many_columns");
    }
    let clients = users(&[1, 1, 2, 3, 4]);
    let grow = draw(8);
    let pool = draw_pool(f, n, grow, clients == 1 && chance(1, 2));
    if pool.items.len() > 4 {
        count("probe.deep_expression");
    }
    let items = &pool.items;
    let plans: Vec<Vec<u32>> = (0..clients).map(|_| (0..1 + draw(4)).map(|_| draw(9)).collect()).collect();
    let cs: Vec<Box<dyn FnOnce() -> R + Send>> = plans
        .into_iter()
        .map(|plan| {
            Box::new(move || {
                for p in plan {
                    let k = items.len() as u32;
                    let d = &items[draw(k).max(draw(k)) as usize];
                    match p {
                        0..=3 => nested(&|| cursors(items, 5), || cursors(items, 20))?,
                        4 => check_shape(d)?,
                        5 => check_bases(d)?,
                        6 => nested(&|| cursors(items, 5), || check_eq(items))?,
                        7 if d.den.n() > 0 => check_consolidated(d, draw(d.den.n() as u32))?,
                        7 => {}
                        _ => check_rect::<SF>(f)?,
                    }
                }
                Ok(())
            }) as Box<dyn FnOnce() -> R + Send>
        })
        .collect();
    w.run_clients(cs).into_iter().collect::<R>()?;
    // after all of it the matrices still are what they were
    for d in items {
        check_shape(d)?;
        for c in 0..n as u32 {
            let got = collect(f, d.node.col(c).map(|(x, r)| (x, r.0)))?;
            ensure!(got == d.den.cols[c as usize], "column-read", "afterwards column {c} of {} is {}, should be {}", d.name, show(&got), show(&d.den.cols[c as usize]));
        }
    }
    Ok(())
}
