//! C01: the standard reduction, and C02: the clearing reduction.
use crate::checks::*;
use crate::ensure;
use crate::expr::*;
use crate::field::*;
use crate::model::*;
use crate::native;
use crate::simmat::*;
use crate::world::*;
use phlite::matrices::combinators::product;
use phlite::matrices::implementors::*;
use phlite::matrices::*;
use phlite::reduction::standard::read_off_diagram;
use phlite::reduction::*;
use rustc_hash::FxHashMap;
use std::fmt::Debug;
use std::hash::Hash;
use std::sync::Arc;

/// One user's standard reduction of `m`, certified against `view`.
pub fn reduce_std<M>(m: M, view: &View, mode: u32) -> R
where
    M: MatrixOracle + HasRowFiltration + HasColBasis + SquareMatrix + Copy,
    M::CoefficientField: Coef,
    M::ColT: Hash + AsU + 'static,
    M::RowT: 'static,
    M::FiltrationT: 'static,
{
    let flag = mode & 1 == 1;
    let (v, d) = if mode & 2 == 0 {
        standard_algo_with_diagram(m, flag)
    } else {
        let v = standard_algo(m);
        let d = read_off_diagram(m, &v, flag);
        (v, d)
    };
    muted(|| {
        let cert = check_v(view, &view.order, |j| read_col(&v, view.f, j))?;
        let (e, p) = expected_diagram(view, &cert, &view.order);
        check_diagram(&d, &e, &p, if flag { "reverse_order" } else { "forward order" })?;
        if !p.is_empty() {
            count("probe.pairs");
        }
        if cert.v.values().any(|v| v.len() > 1) {
            count("probe.column_additions");
        }
        if mode & 4 != 0 {
            check_product(&m, &v, view.f, &cert)?;
            let d2 = read_off_diagram(m, &v, !flag);
            check_diagram(&d2, &e, &p, "other read-off order")?;
        }
        Ok(())
    })
}

/// A matrix shared by the users of a standard reduction.
pub enum Stack {
    Plain(SimMat, View),
    Tree(Dyn, View),
    RevTree(Dyn, View),
    VecVec(Vec<Vec<(SF, usize)>>, Den, View),
    MapVec(FxHashMap<Idx, Vec<(SF, Idx)>>, Den, View),
    Uns(Dyn, View),
}
pub struct StdScenario {
    pub stack: Stack,
    pub private_cache: bool,
    pub native: bool,
}
/// Many columns, or few very long ones.
fn draw_big_den(f: Fld) -> Den {
    count("probe.big_matrix");
    let mut r = Lrng(draw_seed());
    let wide = draw(2) == 1;
    let n = if wide { range(100, 400) } else { range(20, 70) } as usize;
    let mut b: Vec<u32> = (0..n as u32).collect();
    for i in (1..n).rev() {
        b.swap(i, r.below(i as u64 + 1) as usize);
    }
    if wide {
        b.truncate(range(1, 6) as usize);
    }
    let mut cols = vec![SVec::new(); n];
    for &c in &b {
        let k = if wide { n as u64 / 4 + r.below(n as u64) } else { r.below(5) };
        for _ in 0..k {
            cols[c as usize].insert(r.below(n as u64) as u32, rng_val(f, &mut r));
        }
    }
    let lv = [1, 4, 1000][draw(3) as usize];
    let fil = (0..n).map(|_| r.below(lv) as isize - 1).collect();
    Den::new(f, cols, fil, vec![b])
}
/// Columns that take dozens of additions, most of them down to nothing.
fn draw_deep_den(f: Fld) -> Den {
    count("probe.deep_matrix");
    let mut r = Lrng(draw_seed());
    let mixed = draw(2) == 0;
    let rank = range(20, if mixed { 36 } else { 64 }) as usize;
    let dep = range(1, 8) as usize;
    let n = rank + dep;
    let lv = [1, 4, 1000][draw(3) as usize];
    let fil: Vec<isize> = (0..n).map(|_| r.below(lv) as isize - 1).collect();
    let mut rows: Vec<u32> = (0..n as u32).collect();
    rows.sort_by_key(|&x| (fil[x as usize], x));
    let mut cols = vec![SVec::new(); n];
    let mut names: Vec<u32> = (0..n as u32).collect();
    r.shuffle(&mut names);
    let spread = [1, 3, n as u64][draw(3) as usize];
    let mut piv: Vec<usize> = (0..n).collect();
    r.shuffle(&mut piv);
    for i in 0..rank {
        let (c, q) = (names[i] as usize, piv[i]);
        cols[c].insert(rows[q], rng_val(f, &mut r));
        for _ in 0..r.below(3) {
            let back = 1 + r.below(spread) as usize;
            if back <= q {
                cols[c].insert(rows[q - back], rng_val(f, &mut r));
            }
        }
    }
    let share = range(1, 5) as u64;
    for i in rank..n {
        let mut x = SVec::new();
        for &b in &names[..rank] {
            if r.below(4) < share {
                let k = rng_val(f, &mut r);
                for (&row, &v) in &cols[b as usize] {
                    add_term(f, &mut x, row, f.mul(k, v));
                }
            }
        }
        // one in eight is not dependent after all
        if r.below(8) == 0 {
            add_term(f, &mut x, r.below(n as u64) as u32, rng_val(f, &mut r));
        }
        cols[names[i] as usize] = x;
    }
    if mixed {
        r.shuffle(&mut names);
    }
    Den::new(f, cols, fil, vec![names])
}
/// Thousands of columns of little work each.
fn draw_huge_den(f: Fld) -> Den {
    count("probe.huge_matrix");
    let n;
    let mut r = Lrng(draw_seed());
    let mut cols;
    let mut fil: Vec<isize>;
    let lv = [2, 50, 100_000][draw(3) as usize];
    if draw(2) == 0 {
        // one or two entries to a column, each row taken about once
        n = range(800, 4000) as usize;
        let mut rows: Vec<u32> = (0..n as u32).collect();
        r.shuffle(&mut rows);
        let zeros = draw(4) as u64;
        cols = vec![SVec::new(); n];
        for (c, &row) in cols.iter_mut().zip(&rows) {
            if r.below(8) >= zeros {
                c.insert(row, rng_val(f, &mut r));
            }
            if r.below(16) == 0 {
                c.insert(r.below(n as u64) as u32, rng_val(f, &mut r));
            }
        }
        fil = (0..n).map(|_| r.below(lv) as isize).collect();
    } else {
        // boundary of a graph
        let nv = range(100, 700) as u64;
        let ne = nv + r.below(nv);
        n = (nv + ne) as usize;
        fil = (0..n).map(|_| r.below(lv) as isize).collect();
        cols = vec![SVec::new(); n];
        for e in nv as usize..n {
            let (a, b) = (r.below(nv) as u32, r.below(nv) as u32);
            fil[e] = fil[e].max(fil[a as usize]).max(fil[b as usize]);
            if a != b {
                cols[e].insert(a, f.int(1).unwrap());
                cols[e].insert(b, f.int(-1).unwrap());
            }
        }
    }
    let mut b: Vec<u32> = (0..n as u32).collect();
    r.shuffle(&mut b);
    if draw(2) == 0 {
        b.sort_by_key(|&c| fil[c as usize]);
    }
    Den::new(f, cols, fil, vec![b])
}
fn draw_std_den(f: Fld) -> Den {
    if chance(1, 1000) {
        return draw_huge_den(f);
    }
    if f.p > 0 && chance(1, 100) {
        return draw_deep_den(f);
    }
    if f.p > 0 && chance(1, 120) {
        return draw_big_den(f);
    }
    let cap = if f.p == 0 { 7 } else { 10 };
    match draw(4) {
        0 | 1 => {
            let n = draw(cap + 1) as usize;
            let mut den = draw_den(f, n, 1 + draw(4));
            if chance(1, 4) && n > 0 {
                den.basis.truncate(1 + draw(n as u32) as usize);
                den.dims = vec![den.basis.clone()];
            } else if chance(1, 2) {
                // basis in row order
                let mut b: Vec<u32> = (0..n as u32).collect();
                b.sort_by_key(|&r| den.key(r));
                den.basis = b.clone();
                den.dims = vec![b];
            }
            den
        }
        2 => {
            // sparse, larger, low rank
            let n = range(1, if f.p == 0 { 8 } else { 18 }) as usize;
            draw_den(f, n, 1)
        }
        _ => {
            let c = draw_complex(f, if f.p == 0 { 14 } else { 26 });
            let cols = if chance(1, 3) { transpose(&c.cols) } else { c.cols };
            let mut b: Vec<u32> = (0..cols.len() as u32).collect();
            match draw(3) {
                0 => b.sort_by_key(|&r| (c.fil[r as usize], c.dim[r as usize], r)),
                1 => b.sort_by_key(|&r| (c.dim[r as usize], c.fil[r as usize], r)),
                _ => shuffle(&mut b),
            }
            Den::new(f, cols, c.fil, vec![b])
        }
    }
}
impl StdScenario {
    pub fn draw(f: Fld) -> StdScenario {
        let den = draw_std_den(f);
        desc(|| show_den(&den));
        let private_cache = chance(1, 8);
        let stack = match draw(7) {
            0 | 1 => {
                let del = Delivery::draw();
                desc(|| format!("{del:?}"));
                let v = View::of(&den, false);
                Stack::Plain(SimMat::new(den, del, draw(3)), v)
            }
            2 | 3 | 4 => {
                let del = Delivery::draw();
                desc(|| format!("{del:?}"));
                let leaf = Dyn::leaf(SimMat::new(den, del, draw(3)));
                let n = leaf.den.n();
                let mut pool = Pool { f, n, items: vec![leaf], allow_cache: false, max_bound: if f.p == 0 { 12 } else { 60 }, shards: 0 };
                if n > 0 && (f.p > 0 || n <= 5) {
                    for _ in 0..draw(if n <= 12 { 4 } else { 2 }) {
                        if chance(1, 4) && f.p > 0 && n <= 12 {
                            pool.leaf();
                        }
                        pool.grow();
                    }
                }
                let d = pool.items.pop().unwrap();
                let rev = chance(1, 2);
                desc(|| format!("reduce {}{}", d.name, if rev { " reversed" } else { "" }));
                let v = View::of(&d.den, rev);
                match (rev, draw(3)) {
                    (true, _) => Stack::RevTree(d, v),
                    (false, 2) => Stack::Uns(d, v),
                    _ => Stack::Tree(d, v),
                }
            }
            5 => {
                // owned columns, standard basis
                let n = den.n();
                let del = Delivery::draw();
                let cols = (0..n)
                    .map(|c| {
                        let e: Vec<(Val, u32)> = den.cols[c].iter().map(|(&r, &v)| (v, r)).collect();
                        del.spell(f, &e, n as u32, c as u64).into_iter().map(|(x, r)| (x, r as usize)).collect()
                    })
                    .collect();
                let den = Den::new(f, den.cols, den.fil, vec![(0..n as u32).collect()]);
                let v = View::of(&den, false);
                desc(|| "as VecVecMatrix".into());
                Stack::VecVec(cols, den, v)
            }
            _ => {
                let del = Delivery::draw();
                let n = den.n();
                let cols = (0..n)
                    .map(|c| {
                        let e: Vec<(Val, u32)> = den.cols[c].iter().map(|(&r, &v)| (v, r)).collect();
                        (Idx(c as u32), del.spell(f, &e, n as u32, c as u64).into_iter().map(|(x, r)| (x, Idx(r))).collect())
                    })
                    .collect();
                let v = View::of(&den, false);
                desc(|| "as MapVecMatrix".into());
                Stack::MapVec(cols, den, v)
            }
        };
        StdScenario { stack, private_cache, native: false }
    }
    /// The same over the library's own coefficient type.
    fn once_native<C: Coef>(&self, mode: u32) -> R {
        let of = |c: &SF| -> R<C> { Ok(C::of(c.val()?)) };
        match &self.stack {
            Stack::Plain(m, v) => {
                let m = Nat::<_, C>::of(m);
                if self.private_cache {
                    let c = m.cache_cols();
                    return reduce_std(&c, v, mode);
                }
                reduce_std(&m, v, mode)
            }
            Stack::Tree(m, v) | Stack::Uns(m, v) => reduce_std(&Nat::<_, C>::of(m), v, mode),
            Stack::RevTree(m, v) => reduce_std(&Nat::<_, C>::of(m).reverse(), v, mode),
            Stack::VecVec(c, den, v) => {
                let c: Vec<Vec<(C, usize)>> = c.iter().map(|c| c.iter().map(|(x, r)| Ok((of(x)?, *r))).collect::<R<_>>()).collect::<R<_>>()?;
                let m = VecVecMatrix::from(&c);
                let m = m.with_filtration(|r: usize| {
                    yp(Pt::Filt);
                    den.fil[r]
                });
                reduce_std(&m, v, mode)
            }
            Stack::MapVec(c, den, v) => {
                let c: FxHashMap<Idx, Vec<(C, Idx)>> = c.iter().map(|(k, c)| Ok((*k, c.iter().map(|(x, r)| Ok((of(x)?, *r))).collect::<R<_>>()?))).collect::<R<_>>()?;
                let m = MapVecMatrix::from(&c);
                let m = m.with_filtration(fil_fn(den.fil.clone())).with_basis(IdxBasis(den.basis.clone()));
                reduce_std(&m, v, mode)
            }
        }
    }
    pub fn once(&self, mode: u32) -> R {
        if self.native {
            return native!(cur_field(), C => self.once_native::<C>(mode));
        }
        match &self.stack {
            Stack::Plain(m, v) => {
                if self.private_cache {
                    let c = m.cache_cols();
                    reduce_std(&c, v, mode)
                } else {
                    reduce_std(m, v, mode)
                }
            }
            Stack::Tree(m, v) => {
                if self.private_cache {
                    let c = m.cache_cols();
                    reduce_std(&c, v, mode)
                } else {
                    reduce_std(m, v, mode)
                }
            }
            Stack::RevTree(m, v) => reduce_std(&m.clone().reverse(), v, mode),
            Stack::Uns(m, v) => reduce_std(&MatrixOracle::unreverse(m.clone().reverse()), v, mode),
            Stack::VecVec(c, den, v) => {
                let m = VecVecMatrix::from(c);
                let m = m.with_filtration(|r: usize| {
                    yp(Pt::Filt);
                    den.fil[r]
                });
                reduce_std(&m, v, mode)
            }
            Stack::MapVec(c, den, v) => {
                let m = MapVecMatrix::from(c);
                let m = m.with_filtration(fil_fn(den.fil.clone())).with_basis(IdxBasis(den.basis.clone()));
                reduce_std(&m, v, mode)
            }
        }
    }
}

pub fn run_c01(w: &World) -> R {
    let f = draw_field(true);
    if chance(1, 16) {
        return lifetimes(w, || StdScenario::draw(f), |sc| sc.once(draw(8)));
    }
    let native = draw_native(f);
    let scs = several(|| StdScenario { native, ..StdScenario::draw(f) });
    let clients = users(&[1, 1, 2, 3, 4]);
    let modes: Vec<Vec<u32>> = (0..clients).map(|_| (0..1 + draw(2)).map(|_| draw(8)).collect()).collect();
    let any = &|| &scs[draw(scs.len() as u32) as usize];
    let cs: Vec<Box<dyn FnOnce() -> R + Send>> = modes
        .into_iter()
        .map(|ms| {
            Box::new(move || {
                for m in ms {
                    nested(&|| any().once(draw(8)), || any().once(m))?;
                    count("op.standard_reduction");
                }
                Ok(())
            }) as Box<dyn FnOnce() -> R + Send>
        })
        .collect();
    w.run_clients(cs).into_iter().collect()
}

// ---------------------------------------------------------------- C02

pub struct ClearScenario {
    pub d: Dyn,
    pub rev: bool,
    pub dims: Vec<usize>,
    pub view: View,
    pub native: bool,
}
impl ClearScenario {
    pub fn draw(f: Fld) -> ClearScenario {
        let c = draw_complex(f, if f.p == 0 { 14 } else { 30 });
        let nd = c.dim.iter().max().unwrap() + 1;
        let kind = draw(3); // 0 boundary, 1 coboundary of the reversed matrix, 2 coboundary with negated filtration
        let (cols, fil) = match kind {
            0 => (c.cols.clone(), c.fil.clone()),
            1 => (transpose(&c.cols), c.fil.clone()),
            _ => (transpose(&c.cols), c.fil.iter().map(|x| -x).collect()),
        };
        let mut dims = vec![vec![]; nd];
        for (i, &d) in c.dim.iter().enumerate() {
            dims[d].push(i as u32);
        }
        for d in dims.iter_mut() {
            d.sort_by_key(|&r| (fil[r as usize], r));
        }
        let den = Den::new(f, cols, fil, dims);
        let del = Delivery::draw();
        desc(|| format!("{} {}", ["boundary", "coboundary (reversed)", "coboundary"][kind as usize], show_den(&den)));
        desc(|| format!("{del:?}"));
        let mut d = Dyn::leaf(SimMat::new(den, del, draw(3)));
        // transparent wrappers that keep the basis and filtration
        for _ in 0..draw(3) {
            let den = d.den.clone();
            let name = format!("w({})", d.name);
            d = match draw(4) {
                0 => Dyn::new(Arc::new(Wrap(d.consolidate())), den, name),
                1 => Dyn::new(Arc::new(Wrap(MatrixOracle::unreverse(d.reverse()))), den, name),
                2 => Dyn::new(Arc::new(Wrap(leak(d))), den, name),
                _ => Dyn::new(Arc::new(Wrap(d.with_filtration(fil_fn(den.fil.clone())))), den, name),
            };
        }
        let rev = kind == 1;
        let a = draw(nd as u32) as usize;
        let b = a + draw((nd - a) as u32) as usize;
        let (a, b) = if chance(1, 2) { (0, nd - 1) } else { (a, b) };
        let order: Vec<usize> = if kind == 0 { (a..=b).rev().collect() } else { (a..=b).collect() };
        desc(|| format!("dimension order {order:?}"));
        let mut view = View::of(&d.den, rev);
        view.order = order
            .iter()
            .flat_map(|&k| {
                let mut v = d.den.dims[k].clone();
                if rev {
                    v.reverse();
                }
                v
            })
            .collect();
        ClearScenario { d, rev, dims: order, view, native: false }
    }
    fn go<M>(&self, m: M, mode: u32) -> R
    where
        M: MatrixOracle + HasRowFiltration + HasColBasis + SquareMatrix + Copy,
    M::CoefficientField: Coef,
        M::BasisT: SplitByDimension,
        M::ColT: Hash + AsU + Debug + 'static,
        M::RowT: 'static,
        M::FiltrationT: FilU,
    {
        let view = &self.view;
        let (v, d) = ClearedReductionMatrix::build_with_diagram(m, self.dims.iter().copied());
        let cert = muted(|| {
            let cert = check_v(view, &view.order, |j| read_col(&v, view.f, j))?;
            let (e, p) = expected_diagram(view, &cert, &view.order);
            check_diagram(&d, &e, &p, "clearing")?;
            // the same diagram as the standard reduction (computed independently)
            let model = reduce(view.f, &view.cols, &view.order, |r| view.rank[r as usize]);
            ensure!(model.pairs == p, "pairings", "clearing pairs {p:?}, standard reduction {:?}", model.pairs);
            if p.iter().any(|(i, _)| view.order.contains(i)) {
                count("probe.cleared_columns");
            }
            for (&j, r) in &cert.r {
                let c = v.col_is_cycle(M::ColT::of(j));
                ensure!(c == r.is_empty(), "cycle-query", "col_is_cycle({j}) = {c} but R[{j}] = {}", show(r));
            }
            // columns of other dimensions that were cleared on the way: V_i = R_j
            for &(i, j) in &p {
                if !view.order.contains(&i) {
                    let vi = read_col(&v, view.f, i)?;
                    ensure!(vi == cert.r[&j], "cleared-column", "V[{i}] = {}, should be R[{j}] = {}", show(&vi), show(&cert.r[&j]));
                    ensure!(v.col_is_cycle(M::ColT::of(i)), "cycle-query", "cleared column {i} reported as no cycle");
                }
            }
            Ok(cert)
        })?;
        // later reads, interleaved
        if mode & 1 == 1 {
            let fil = |r: u32, x: &M::FiltrationT| x.f() == self.d.den.fil[r as usize];
            let rm = product(m, &v);
            if mode & 2 == 0 {
                interleaved_reads(&rm, view.f, &view.order, |j| cert.r[&j].clone(), fil, 12)?;
            } else {
                let tv = (&v).with_trivial_filtration();
                interleaved_reads(&tv, view.f, &view.order, |j| cert.v[&j].clone(), |_, _| true, 12)?;
            }
        }
        if mode & 4 != 0 {
            for _ in 0..3 {
                if view.order.is_empty() {
                    break;
                }
                let j = view.order[draw(view.order.len() as u32) as usize];
                let c = v.col_is_cycle(M::ColT::of(j));
                ensure!(c == cert.r[&j].is_empty(), "cycle-query", "col_is_cycle({j}) = {c} but R[{j}] = {}", show(&cert.r[&j]));
            }
        }
        if mode & 8 != 0 {
            // the same columns again, and through a copy of the matrix
            muted(|| {
                for (&j, want) in &cert.v {
                    let a = read_col(&v, view.f, j)?;
                    ensure!(&a == want, "v-changed", "V[{j}] read as {} after {}", show(&a), show(want));
                }
                let basis = v.basis();
                let b: Vec<u32> = (0..basis.size()).map(|i| basis.element(i).u()).collect();
                let mut want = self.d.den.basis.clone();
                if self.rev {
                    want.reverse();
                }
                ensure!(b == want, "v-basis", "basis of V is {b:?}, should be {want:?}");
                Ok(())
            })?;
        }
        Ok(())
    }
    fn once_native<C: Coef>(&self, mode: u32) -> R {
        let m = Nat::<_, C>::of(&self.d);
        if self.rev {
            self.go(&m.reverse(), mode)
        } else {
            self.go(&m, mode)
        }
    }
    fn readers_native<C: Coef>(&self, w: &World, readers: u32) -> R {
        let m = Nat::<_, C>::of(&self.d);
        if self.rev {
            self.shared_readers(w, &m.reverse(), readers)
        } else {
            self.shared_readers(w, &m, readers)
        }
    }
    pub fn once(&self, mode: u32) -> R {
        if self.native {
            return native!(cur_field(), C => self.once_native::<C>(mode));
        }
        if self.rev {
            self.go(&(&self.d).reverse(), mode)
        } else {
            self.go(&self.d, mode)
        }
    }
    /// Several readers of one V.
    fn shared_readers<M>(&self, w: &World, m: M, readers: u32) -> R
    where
        M: MatrixOracle + HasRowFiltration + HasColBasis + SquareMatrix + Copy,
    M::CoefficientField: Coef,
        M::BasisT: SplitByDimension,
        M::ColT: Hash + AsU + Debug + 'static,
        M::RowT: 'static,
        M::FiltrationT: FilU,
    {
        let view = &self.view;
        let (v, _) = guard_val(|| Ok(ClearedReductionMatrix::build_with_diagram(m, self.dims.iter().copied())))?;
        let cert = check_v(view, &view.order, |j| read_col(&v, view.f, j))?;
        let cert = &cert;
        let shared = Wrap((m, &v));
        let shared = &shared;
        let cs: Vec<Box<dyn FnOnce() -> R + Send>> = (0..readers)
            .map(|k| {
                Box::new(move || {
                    let (m, v) = shared.get();
                    let (m, v) = (*m, *v);
                    let fil = |r: u32, x: &M::FiltrationT| x.f() == self.d.den.fil[r as usize];
                    count("op.shared_reader");
                    let read = |k: u32, ops: u32| {
                        if k % 2 == 0 {
                            interleaved_reads(&product(m, v), view.f, &view.order, |j| cert.r[&j].clone(), fil, ops)
                        } else {
                            interleaved_reads(&v.with_trivial_filtration(), view.f, &view.order, |j| cert.v[&j].clone(), |_, _| true, ops)
                        }
                    };
                    nested(&|| read(draw(2), 3), || read(k, 16))?;
                    for (&j, r) in &cert.r {
                        if chance(1, 3) {
                            let c = v.col_is_cycle(M::ColT::of(j));
                            ensure!(c == r.is_empty(), "cycle-query", "col_is_cycle({j}) = {c} but R[{j}] = {}", show(r));
                        }
                    }
                    Ok(())
                }) as Box<dyn FnOnce() -> R + Send>
            })
            .collect();
        w.run_clients(cs).into_iter().collect()
    }
}
/// Filtration values read back as integers whatever direction they have.
pub trait FilU {
    fn f(&self) -> isize;
}
impl FilU for isize {
    fn f(&self) -> isize {
        *self
    }
}
impl FilU for std::cmp::Reverse<isize> {
    fn f(&self) -> isize {
        self.0
    }
}
pub fn guard_val<T>(f: impl FnOnce() -> R<T>) -> R<T> {
    let mut out = None;
    guard(|| {
        out = Some(f()?);
        Ok(())
    })?;
    Ok(out.unwrap())
}

pub fn run_c02(w: &World) -> R {
    let f = draw_field(true);
    if chance(1, 16) {
        return lifetimes(w, || ClearScenario::draw(f), |sc| sc.once(draw(16)));
    }
    let native = draw_native(f);
    let scs = several(|| ClearScenario { native, ..ClearScenario::draw(f) });
    let sc = &scs[0];
    if chance(1, 3) {
        let readers = users(&[1, 2, 3, 4]);
        if native {
            return native!(f, C => sc.readers_native::<C>(w, readers));
        }
        if sc.rev {
            let m = (&sc.d).reverse();
            return sc.shared_readers(w, &m, readers);
        } else {
            return sc.shared_readers(w, &sc.d, readers);
        }
    }
    let clients = users(&[1, 1, 2, 3]);
    let modes: Vec<Vec<u32>> = (0..clients).map(|_| (0..1 + draw(2)).map(|_| draw(16)).collect()).collect();
    let any = &|| &scs[draw(scs.len() as u32) as usize];
    let cs: Vec<Box<dyn FnOnce() -> R + Send>> = modes
        .into_iter()
        .map(|ms| {
            Box::new(move || {
                for m in ms {
                    nested(&|| any().once(draw(16)), || any().once(m))?;
                    count("op.clearing_reduction");
                }
                Ok(())
            }) as Box<dyn FnOnce() -> R + Send>
        })
        .collect();
    w.run_clients(cs).into_iter().collect()
}
