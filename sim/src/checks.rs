//! Oracles shared by the scenarios: certificates of a reduction, and reads through open cursors.
use crate::ensure;
use crate::field::*;
use crate::model::*;
use crate::simmat::*;
use crate::drive::*;
use crate::world::*;
use phlite::columns::ColumnEntry;
use phlite::matrices::combinators::product;
use phlite::matrices::*;
use phlite::reduction::Diagram;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet};

pub trait AsU {
    fn u(&self) -> u32;
    fn of(x: u32) -> Self;
}
impl AsU for Idx {
    fn u(&self) -> u32 {
        self.0
    }
    fn of(x: u32) -> Idx {
        Idx(x)
    }
}
impl AsU for usize {
    fn u(&self) -> u32 {
        *self as u32
    }
    fn of(x: u32) -> usize {
        x as usize
    }
}
impl<T: AsU> AsU for Reverse<T> {
    fn u(&self) -> u32 {
        self.0.u()
    }
    fn of(x: u32) -> Self {
        Reverse(T::of(x))
    }
}

/// The matrix a reduction is asked to reduce, as plain data.
pub struct View {
    pub f: Fld,
    pub cols: Vec<SVec>,
    pub order: Vec<u32>,  // columns, in basis order
    pub rank: Vec<usize>, // position of each row in the row order
}
impl View {
    pub fn of(d: &Den, rev: bool) -> View {
        let n = d.n();
        let mut rows: Vec<u32> = (0..n as u32).collect();
        rows.sort_by_key(|&r| d.key(r));
        let mut order = d.basis.clone();
        if rev {
            rows.reverse();
            order.reverse();
        }
        let mut rank = vec![0; n];
        for (i, r) in rows.iter().enumerate() {
            rank[*r as usize] = i;
        }
        View { f: d.f, cols: d.cols.clone(), order, rank }
    }
    pub fn low(&self, v: &SVec) -> Option<u32> {
        pivot(v, |r| self.rank[r as usize])
    }
}

pub struct Cert {
    pub v: BTreeMap<u32, SVec>,
    pub r: BTreeMap<u32, SVec>,
}
/// V (given column by column) is invertible upper triangular in `order`, R = DV is reduced.
pub fn check_v(view: &View, order: &[u32], mut vcol: impl FnMut(u32) -> R<SVec>) -> R<Cert> {
    let mut lows: BTreeMap<u32, u32> = BTreeMap::new();
    let mut cert = Cert { v: BTreeMap::new(), r: BTreeMap::new() };
    let mut before = vec![false; view.cols.len()];
    for &j in order {
        let v = vcol(j)?;
        before[j as usize] = true;
        ensure!(v.contains_key(&j), "v-not-invertible", "V[{j}] = {} has no diagonal entry", show(&v));
        for &k in v.keys() {
            ensure!(before.get(k as usize) == Some(&true), "v-not-triangular", "V[{j}] = {} uses column {k} which is not before it", show(&v));
        }
        let r = mat_vec(view.f, &view.cols, &v);
        if let Some(l) = view.low(&r) {
            if let Some(o) = lows.insert(l, j) {
                return viol("r-not-reduced", format!("columns {o} and {j} of R = DV both have lowest row {l}; V[{j}] = {}", show(&v)));
            }
        }
        cert.v.insert(j, v);
        cert.r.insert(j, r);
    }
    Ok(cert)
}
pub fn expected_diagram(view: &View, cert: &Cert, order: &[u32]) -> (BTreeSet<u32>, BTreeSet<(u32, u32)>) {
    let mut pairs = BTreeSet::new();
    let mut zero = BTreeSet::new();
    for &j in order {
        match view.low(&cert.r[&j]) {
            Some(l) => {
                pairs.insert((l, j));
            }
            None => {
                zero.insert(j);
            }
        }
    }
    for (l, _) in &pairs {
        zero.remove(l);
    }
    (zero, pairs)
}
pub fn check_diagram<T: AsU + Clone>(d: &Diagram<T>, ess: &BTreeSet<u32>, pairs: &BTreeSet<(u32, u32)>, what: &str) -> R {
    let e: BTreeSet<u32> = d.essential.iter().map(|x| x.u()).collect();
    let p: BTreeSet<(u32, u32)> = d.pairings.iter().map(|(a, b)| (a.u(), b.u())).collect();
    ensure!(&p == pairs, "pairings", "{what}: pairings {p:?}, expected {pairs:?}");
    ensure!(&e == ess, "essential", "{what}: essential {e:?}, expected {ess:?}");
    Ok(())
}

/// Read one column of any matrix to the end.
pub fn read_col<M>(m: &M, f: Fld, j: u32) -> R<SVec>
where
    M: MatrixOracle,
    M::CoefficientField: Coef,
    M::ColT: AsU,
    M::RowT: AsU,
{
    collect(f, m.column(M::ColT::of(j)).map(|(c, r)| (c, r.u())))
}

/// A reader that opens cursors on columns of a matrix, interleaves, abandons and finishes them.
/// `expect(j)` is the column; `fil(row)` the filtration value delivered with it.
pub fn interleaved_reads<M>(m: &M, f: Fld, cols: &[u32], expect: impl Fn(u32) -> SVec, fil_ok: impl Fn(u32, &M::FiltrationT) -> bool, ops: u32) -> R
where
    M: HasRowFiltration,
    M::CoefficientField: Coef,
    M::ColT: AsU,
    M::RowT: AsU,
{
    if cols.is_empty() {
        return Ok(());
    }
    let fil_ok = &fil_ok;
    type Cur<'a, C> = (u32, SVec, Box<dyn Iterator<Item = R<(C, u32)>> + 'a>);
    let mut open: Vec<Cur<M::CoefficientField>> = vec![];
    let pick = |x: u32| cols[x as usize % cols.len()];
    for _ in 0..ops {
        match draw(6) {
            0 | 1 if open.len() < 5 => {
                let j = pick(draw(cols.len() as u32));
                note(|| format!("open column {j}"));
                if draw(2) == 0 {
                    let it = m.column(M::ColT::of(j)).map(|(c, r)| Ok((c, r.u()))).driven();
                    open.push((j, SVec::new(), Box::new(it)));
                } else {
                    let it = m.column_with_filtration(M::ColT::of(j)).map(move |e: ColumnEntry<_, _, _>| {
                        let r = e.row_index.u();
                        if !muted(|| fil_ok(r, &e.filtration_value)) {
                            return viol("filtration-of-entry", format!("column {j} delivers row {r} with a wrong filtration value"));
                        }
                        Ok((e.coeff, r))
                    }).driven();
                    open.push((j, SVec::new(), Box::new(it)));
                }
                count("cursor.opened");
                if open.len() > 1 {
                    count("cursor.overlapping");
                }
            }
            5 if !open.is_empty() && chance(1, 2) => {
                let k = draw(open.len() as u32) as usize;
                let (j, ..) = open.swap_remove(k);
                note(|| format!("abandon column {j}"));
                count("cursor.abandoned");
            }
            _ if !open.is_empty() => {
                let k = draw(open.len() as u32) as usize;
                let steps = [1, 2, 3, 1000][draw(4) as usize];
                for _ in 0..steps {
                    match open[k].2.next() {
                        Some(e) => {
                            let (c, r) = e?;
                            let c = c.val()?;
                            add_term(f, &mut open[k].1, r, c);
                        }
                        None => {
                            let (j, got, it) = open.swap_remove(k);
                            drop(it);
                            let want = muted(|| expect(j));
                            ensure!(got == want, "column-read", "column {j} read as {}, should be {}", show(&got), show(&want));
                            count("cursor.completed");
                            break;
                        }
                    }
                }
            }
            _ => {
                let j = pick(draw(cols.len() as u32));
                let mut h = m.build_bhcol(M::ColT::of(j));
                let mut got = SVec::new();
                while let Some(e) = h.pop_pivot() {
                    let r = e.row_index.u();
                    ensure!(muted(|| fil_ok(r, &e.filtration_value)), "filtration-of-entry", "heap of column {j} has a wrong filtration value at row {r}");
                    ensure!(got.insert(r, e.coeff.val()?).is_none(), "column-read", "heap of column {j} yields row {r} twice");
                }
                let want = muted(|| expect(j));
                ensure!(got == want, "column-read", "column {j} drained as {}, should be {}", show(&got), show(&want));
            }
        }
    }
    while let Some((j, mut got, it)) = open.pop() {
        for e in it {
            let (c, r) = e?;
            add_term(f, &mut got, r, c.val()?);
        }
        let want = muted(|| expect(j));
        ensure!(got == want, "column-read", "column {j} read as {}, should be {}", show(&got), show(&want));
        count("cursor.completed");
    }
    Ok(())
}

/// Read R through the library's own product.
pub fn check_product<M, V>(d: &M, v: &V, f: Fld, cert: &Cert) -> R
where
    M: HasRowFiltration,
    M::CoefficientField: Coef,
    V: MatrixOracle<CoefficientField = M::CoefficientField, ColT = M::ColT, RowT = M::ColT>,
    M::ColT: AsU,
    M::RowT: AsU,
{
    let p = product(d, v);
    for (&j, want) in &cert.r {
        let got = read_col(&p, f, j)?;
        ensure!(&got == want, "product-read", "column {j} of product(D, V) is {}, should be {}", show(&got), show(want));
    }
    Ok(())
}
