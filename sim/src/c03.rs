//! C03: Vietoris-Rips matrices shared by several users.
use crate::ensure;
use crate::field::*;
use crate::model::*;
use crate::native;
use crate::simmat::*;
use crate::drive::*;
use crate::world::*;
use ordered_float::NotNan;
use phlite::matrices::combinators::product;
use phlite::matrices::*;
use phlite::reduction::*;
use phlite_rips::cohomology::{build_rips_coboundary_matrix, RipsCoboundaryAllDims};
use phlite_rips::homology::{build_rips_boundary_matrix, RipsBoundaryAllDims};
use phlite_rips::RipsIndex;
use std::cmp::Reverse;
use std::collections::BTreeMap;

/// A flag triangulation of the projective plane: its homology depends on the field.
const RP2: [(usize, usize); 30] = [
    (0, 1), (0, 2), (0, 6), (0, 7), (0, 8), (1, 3), (1, 5), (1, 7), (1, 8), (1, 9), (2, 3), (2, 5), (2, 6), (2, 8), (2, 10),
    (3, 5), (3, 6), (3, 9), (4, 5), (4, 6), (4, 7), (4, 8), (4, 9), (4, 10), (5, 7), (5, 10), (6, 7), (6, 9), (8, 9), (8, 10),
];

pub type Dist = Vec<Vec<i64>>;

pub fn draw_distances() -> (Dist, usize) {
    let kind = draw(12);
    if chance(1, 200) {
        // more points than usual
        count("probe.many_points");
        let (n, max_dim) = match draw(8) {
            0..=2 => (range(12, 14) as usize, draw(2) as usize),
            3..=5 => (range(12, 30) as usize, 0),
            6 => (range(30, 150) as usize, 0),
            _ => match draw(3) {
                0 => (range(14, 36) as usize, 1),
                1 => (range(11, 16) as usize, 2),
                _ => (range(9, 11) as usize, 3),
            },
        };
        let mut r = Lrng(draw_seed());
        let lv = [2, 9, 100000][draw(3) as usize];
        let mut d = vec![vec![0; n]; n];
        for i in 0..n {
            for j in 0..i {
                d[i][j] = r.below(lv) as i64;
                d[j][i] = d[i][j];
            }
        }
        if n <= 30 {
            desc(|| format!("max_dim {max_dim}, distances {d:?} units"));
        } else {
            desc(|| format!("max_dim {max_dim}, {n} points, distances below {lv} units"));
        }
        return (d, max_dim);
    }
    let (mut d, maxes): (Dist, u32) = match kind {
        0..=5 => {
            let n = draw(8) as usize;
            let lv = [1, 2, 4, 12, 40][draw(5) as usize];
            let lo = draw(2) as i64;
            let mut d = vec![vec![0; n]; n];
            for i in 0..n {
                for j in 0..i {
                    d[i][j] = lo + draw(lv) as i64;
                    d[j][i] = d[i][j];
                }
            }
            (d, if n <= 6 { 4 } else { 3 })
        }
        6 | 7 => {
            // points on a circle: distance along it
            let n = range(3, 10) as i64;
            let d = (0..n).map(|i| (0..n).map(|j| (i - j).rem_euclid(n).min((j - i).rem_euclid(n)) * 2).collect()).collect();
            (d, if n <= 7 { 3 } else { 2 })
        }
        8 | 9 => {
            // cross-polytope: a sphere
            let n = [4, 6, 8][draw(3) as usize];
            let d = (0..n).map(|i: usize| (0..n).map(|j| if i == j { 0 } else if i / 2 == j / 2 { 9 } else { 3 }).collect()).collect();
            (d, 3)
        }
        10 => {
            let mut d = vec![vec![8; 11]; 11];
            for (i, row) in d.iter_mut().enumerate() {
                row[i] = 0;
            }
            for (a, b) in RP2 {
                d[a][b] = 4;
                d[b][a] = 4;
            }
            count("probe.projective_plane");
            (d, 2)
        }
        _ => {
            // points of a small grid, taxicab
            let n = range(1, 9) as usize;
            let p: Vec<(i64, i64)> = (0..n).map(|_| (draw(5) as i64, draw(5) as i64)).collect();
            (p.iter().map(|a| p.iter().map(|b| (a.0 - b.0).abs() + (a.1 - b.1).abs()).collect()).collect(), if n <= 6 { 3 } else { 2 })
        }
    };
    let n = d.len();
    if (6..12).contains(&kind) && n > 1 {
        // disturb a few pairs, and relabel the points
        for _ in 0..draw(4) {
            let i = draw(n as u32) as usize;
            let j = draw(n as u32) as usize;
            if i != j {
                let v = draw(12) as i64;
                d[i][j] = v;
                d[j][i] = v;
            }
        }
        let mut p: Vec<usize> = (0..n).collect();
        shuffle(&mut p);
        d = p.iter().map(|&i| p.iter().map(|&j| d[i][j]).collect()).collect();
    }
    if chance(1, 12) {
        // all far apart, by nearly the same distance
        let far = [1 << 20, 1 << 26, 1i64 << 44][draw(3) as usize];
        let also_zero = chance(1, 2);
        for i in 0..n {
            for j in 0..n {
                if i != j && (also_zero || d[i][j] > 0) {
                    d[i][j] += far;
                }
            }
        }
        count("probe.nearly_equal_distances");
    }
    let max_dim = if kind == 10 { range(1, 2) } else { draw(maxes + 1) } as usize;
    desc(|| format!("max_dim {max_dim}, distances {d:?} units"));
    (d, max_dim)
}

pub struct Skeleton {
    pub n: usize,
    pub max_dim: usize,
    pub cells: Vec<Vec<usize>>,
    pub id: BTreeMap<Vec<usize>, u32>,
    pub diam: Vec<i64>,
    pub bd: Vec<SVec>,
    pub cobd: Vec<SVec>, // within the skeleton
}
impl Skeleton {
    /// All simplices of dimension at most max_dim + 1.
    pub fn of(f: Fld, d: &Dist, max_dim: usize) -> Skeleton {
        let n = d.len();
        let mut cells: Vec<Vec<usize>> = vec![];
        let mut layer: Vec<Vec<usize>> = (0..n).map(|v| vec![v]).collect();
        for _ in 0..max_dim + 2 {
            cells.extend(layer.iter().cloned());
            layer = layer.iter().flat_map(|s| (s[s.len() - 1] + 1..n).map(move |v| [s.clone(), vec![v]].concat())).collect();
        }
        let id: BTreeMap<Vec<usize>, u32> = cells.iter().enumerate().map(|(i, c)| (c.clone(), i as u32)).collect();
        let diam: Vec<i64> = cells.iter().map(|c| c.iter().flat_map(|&i| c.iter().map(move |&j| d[i][j])).max().unwrap()).collect();
        let mut bd = vec![];
        for c in &cells {
            let mut v = SVec::new();
            if c.len() > 1 {
                for k in 0..c.len() {
                    let mut g = c.clone();
                    g.remove(k);
                    v.insert(id[&g], f.int(if k % 2 == 0 { 1 } else { -1 }).unwrap());
                }
            }
            bd.push(v);
        }
        let cobd = transpose(&bd);
        Skeleton { n, max_dim, cells, id, diam, bd, cobd }
    }
    pub fn dim(&self, i: u32) -> usize {
        self.cells[i as usize].len() - 1
    }
    /// Barcode of the cells of dimension at most `top`: finite bars of positive length and essential births.
    pub fn barcode(&self, f: Fld, top: usize) -> Bars {
        let mut order: Vec<u32> = (0..self.cells.len() as u32).filter(|&i| self.dim(i) <= top).collect();
        order.sort_by_key(|&i| (self.diam[i as usize], self.dim(i), i));
        let p = reduce(f, &self.bd, &order, |r| (self.diam[r as usize], self.dim(r), r));
        let mut b = Bars::default();
        for &(i, j) in &p.pairs {
            b.add(self.dim(i), self.diam[i as usize], Some(self.diam[j as usize]));
        }
        let paired: std::collections::BTreeSet<u32> = p.pairs.iter().map(|x| x.0).collect();
        for &z in &p.zero_cols {
            if !paired.contains(&z) {
                b.add(self.dim(z), self.diam[z as usize], None);
            }
        }
        b
    }
}
/// (over the simulator's own coefficients, unless it says otherwise)
pub type RipsScenario = RipsOver<SF>;
pub struct RipsOver<C: Coef> {
    pub f: Fld,
    pub sk: Skeleton,
    pub co_bars: Bars, // dimensions 0..=max_dim
    pub bd_bars: Bars, // of the max_dim-skeleton
    pub co: Wrap<RipsCoboundaryAllDims<C>>,
    pub bd: Wrap<RipsBoundaryAllDims<C>>,
}
fn value(x: NotNan<f64>) -> R<i64> {
    in_units(x.into_inner())
}
impl<C: Coef> RipsOver<C> {
    pub fn draw(f: Fld, big: bool) -> Self {
        Self::draw_like(f, big, None)
    }
    pub fn draw_like(f: Fld, big: bool, like: Option<(usize, usize)>) -> Self {
        let (d, mut max_dim) = match like {
            Some((n, max_dim)) if n < 11 => {
                let lv = [2, 4, 12, 40][draw(4) as usize];
                let mut d = vec![vec![0; n]; n];
                for i in 0..n {
                    for j in 0..i {
                        d[i][j] = draw(lv) as i64;
                        d[j][i] = d[i][j];
                    }
                }
                desc(|| format!("max_dim {max_dim}, distances {d:?} units"));
                (d, max_dim)
            }
            _ => draw_distances(),
        };
        if !big {
            max_dim = max_dim.min(2);
        }
        let sk = Skeleton::of(f, &d, max_dim);
        let all = sk.barcode(f, max_dim + 1);
        let co_bars = all.below(max_dim + 1);
        let bd_bars = sk.barcode(f, max_dim);
        let dist: Vec<Vec<NotNan<f64>>> = d.iter().map(|r| r.iter().map(|&x| NotNan::new(x as f64 * unit()).unwrap()).collect()).collect();
        let co = build_rips_coboundary_matrix::<C>(dist.clone(), max_dim);
        let bd = build_rips_boundary_matrix::<C>(dist, max_dim);
        if co_bars.0.keys().any(|k| k.0 > 0 && k.2.is_some()) {
            count("probe.finite_bar_above_dim0");
        }
        if max_dim == 0 {
            count("probe.max_dim_zero");
        }
        RipsOver { f, sk, co_bars, bd_bars, co: Wrap(co), bd: Wrap(bd) }
    }
    fn cell(&self, x: RipsIndex) -> R<u32> {
        let mut v = x.to_vec(self.sk.n);
        v.sort();
        match self.sk.id.get(&v) {
            Some(&i) => Ok(i),
            None => viol("unknown-simplex", format!("{x:?} = {v:?} is not a simplex of dimension at most {}", self.sk.max_dim + 1)),
        }
    }
    fn index(&self, i: u32) -> RipsIndex {
        RipsIndex::from_indices(self.sk.cells[i as usize].iter().copied(), self.sk.n).unwrap()
    }
    fn bars(&self, what: &str, pairs: impl Iterator<Item = (RipsIndex, RipsIndex)>, ess: impl Iterator<Item = RipsIndex>, want: &Bars, fil: impl Fn(RipsIndex) -> NotNan<f64>) -> R {
        let mut got = Bars::default();
        for (b, d) in pairs {
            let (bi, di) = (self.cell(b)?, self.cell(d)?);
            let (bf, df) = (value(fil(b))?, value(fil(d))?);
            ensure!(bf == self.sk.diam[bi as usize] && df == self.sk.diam[di as usize], "filtration-value", "{what}: pair of simplices {:?}, {:?} valued {bf}, {df}", self.sk.cells[bi as usize], self.sk.cells[di as usize]);
            ensure!(self.sk.dim(di) == self.sk.dim(bi) + 1, "pair-dimension", "{what}: simplices {:?}, {:?} are paired", self.sk.cells[bi as usize], self.sk.cells[di as usize]);
            got.add(self.sk.dim(bi), bf, Some(df));
        }
        for e in ess {
            let i = self.cell(e)?;
            let v = value(fil(e))?;
            ensure!(v == self.sk.diam[i as usize], "filtration-value", "{what}: essential simplex {:?} valued {v}", self.sk.cells[i as usize]);
            got.add(self.sk.dim(i), v, None);
        }
        ensure!(&got == want, "barcode", "{what}: barcode (dim, birth, death) {:?}, should be {:?}", got.0, want.0);
        Ok(())
    }
    pub fn once(&self, mode: u32) -> R {
        let co = self.co.get();
        let bd = self.bd.get();
        let md = self.sk.max_dim;
        match mode % 8 {
            0 => {
                let m = co.reverse();
                let (_, d) = standard_algo_with_diagram(&m, mode & 8 != 0);
                muted(|| self.bars("coboundary, standard", d.pairings.iter().map(|p| (p.1 .0, p.0 .0)), d.essential.iter().map(|e| e.0), &self.co_bars, |x| co.filtration_value(x)))
            }
            1 | 2 => {
                let m = co.reverse();
                let (v, d) = ClearedReductionMatrix::build_with_diagram(&m, 0..=md);
                muted(|| self.bars("coboundary, clearing", d.pairings.iter().map(|p| (p.1 .0, p.0 .0)), d.essential.iter().map(|e| e.0), &self.co_bars, |x| co.filtration_value(x)))?;
                // R, read through the library, is a coboundary supported where it should be
                let r = product(&m, &v);
                for e in d.essential.iter().take(3) {
                    let got = r.column(*e).driven().collect::<Vec<_>>();
                    let got = muted(|| self.sum(got.into_iter().map(|(c, x)| (c, x.0))))?;
                    ensure!(got.is_empty(), "essential-not-cycle", "coboundary of the class at {:?} is {}", e.0.to_vec(self.sk.n), show(&got));
                }
                Ok(())
            }
            3 => {
                let (_, d) = standard_algo_with_diagram(bd, mode & 8 != 0);
                muted(|| self.bars("boundary, standard", d.pairings.iter().copied(), d.essential.iter().copied(), &self.bd_bars, |x| bd.filtration_value(x)))
            }
            4 => {
                let (_, d) = ClearedReductionMatrix::build_with_diagram(bd, (0..=md).rev());
                muted(|| self.bars("boundary, clearing", d.pairings.iter().copied(), d.essential.iter().copied(), &self.bd_bars, |x| bd.filtration_value(x)))
            }
            5 => self.read(16),
            6 => {
                self.basis("coboundary", co.basis().size(), |i| co.basis().element(i))?;
                self.basis("boundary", bd.basis().size(), |i| bd.basis().element(i))?;
                for d in 0..=md {
                    self.dim_basis(d, (0..co.basis().in_dimension(d).size()).map(|i| co.basis().in_dimension(d).element(i)))?;
                    self.dim_basis(d, (0..bd.basis().in_dimension(d).size()).map(|i| bd.basis().in_dimension(d).element(i)))?;
                    let rev = co.reverse();
                    let b = rev.basis();
                    let s = b.in_dimension(d);
                    self.dim_basis(d, (0..s.size()).rev().map(|i| s.element(i).0))?;
                }
                Ok(())
            }
            _ => {
                // the boundary of a boundary and the coboundary of a coboundary vanish
                let p = product(bd, bd);
                let q = product(co, co);
                for _ in 0..3 {
                    if self.sk.n == 0 {
                        break;
                    }
                    let i = self.some_cell(md);
                    let got: Vec<_> = p.column(self.index(i)).driven().collect();
                    let got = muted(|| self.sum(got.into_iter()))?;
                    ensure!(got.is_empty(), "boundary-of-boundary", "of {:?} is {}", self.sk.cells[i as usize], show(&got));
                    if md > 0 {
                        let i = self.some_cell(md - 1);
                        let got: Vec<_> = q.column_with_filtration(self.index(i)).map(|e| (e.coeff, e.row_index)).driven().collect();
                        let got = muted(|| self.sum(got.into_iter()))?;
                        ensure!(got.is_empty(), "coboundary-of-coboundary", "of {:?} is {}", self.sk.cells[i as usize], show(&got));
                    }
                }
                Ok(())
            }
        }
    }
    fn some_cell(&self, max: usize) -> u32 {
        // cells are listed by dimension
        let k = self.sk.cells.iter().filter(|c| c.len() <= max + 1).count();
        draw(k as u32)
    }
    fn sum(&self, it: impl Iterator<Item = (C, RipsIndex)>) -> R<SVec> {
        let mut v = SVec::new();
        for (c, x) in it {
            let i = self.cell(x)?;
            add_term(self.f, &mut v, i, c.val()?);
        }
        Ok(v)
    }
    fn basis(&self, what: &str, size: usize, el: impl Fn(usize) -> RipsIndex) -> R {
        let mut seen = std::collections::BTreeSet::new();
        for i in 0..size {
            let c = self.cell(el(i))?;
            ensure!(seen.insert(c), "basis", "{what} basis lists {:?} twice", self.sk.cells[c as usize]);
        }
        let want: std::collections::BTreeSet<u32> = (0..self.sk.cells.len() as u32).filter(|&i| self.sk.dim(i) <= self.sk.max_dim).collect();
        ensure!(seen == want, "basis", "{what} basis has {} simplices, should have {}", seen.len(), want.len());
        Ok(())
    }
    fn dim_basis(&self, d: usize, it: impl Iterator<Item = RipsIndex>) -> R {
        let mut last = i64::MIN;
        let mut k = 0;
        for x in it {
            let c = self.cell(x)?;
            ensure!(self.sk.dim(c) == d, "basis", "{:?} listed in dimension {d}", self.sk.cells[c as usize]);
            let v = self.sk.diam[c as usize];
            ensure!(v >= last, "basis-order", "dimension {d} of the basis is not sorted by filtration");
            ensure!(x.dimension(self.sk.n) == d, "basis", "dimension of {:?} reported as {}", self.sk.cells[c as usize], x.dimension(self.sk.n));
            last = v;
            k += 1;
        }
        let want = self.sk.cells.iter().filter(|c| c.len() == d + 1).count();
        ensure!(k == want, "basis", "dimension {d} has {k} simplices, should have {want}");
        Ok(())
    }
    /// Interleaved cursors over columns of both matrices.
    pub fn read(&self, ops: u32) -> R {
        if self.sk.n == 0 {
            return Ok(());
        }
        struct Cur<'a, C> {
            cell: u32,
            manner: u32,
            got: SVec,
            it: Box<dyn Iterator<Item = (C, RipsIndex, Option<NotNan<f64>>)> + 'a>,
        }
        let (co, bd) = (self.co.get(), self.bd.get());
        let rev = co.reverse();
        let step = |c: &mut Cur<C>, k: u32| -> R<bool> {
            for _ in 0..k {
                let Some((x, r, v)) = c.it.next() else {
                    let want = if c.manner < 5 { &self.sk.cobd } else { &self.sk.bd };
                    let want = &want[c.cell as usize];
                    ensure!(&c.got == want, "column-read", "{} of {:?} (manner {}) read as {}, should be {} (numbers are places in {:?})", if c.manner < 5 { "coboundary" } else { "boundary" }, self.sk.cells[c.cell as usize], c.manner, show(&c.got), show(want), self.sk.cells);
                    count("cursor.completed");
                    return Ok(false);
                };
                let i = self.cell(r)?;
                if let Some(v) = v {
                    let v = value(v)?;
                    ensure!(v == self.sk.diam[i as usize], "filtration-of-entry", "simplex {:?} delivered in the column of {:?} (manner {}) with value {v}, diameter {}", self.sk.cells[i as usize], self.sk.cells[c.cell as usize], c.manner, self.sk.diam[i as usize]);
                }
                add_term(self.f, &mut c.got, i, x.val()?);
            }
            Ok(true)
        };
        let mut open: Vec<Cur<C>> = vec![];
        for _ in 0..ops {
            match draw(5) {
                0 | 1 if open.len() < 5 => {
                    let cell = self.some_cell(self.sk.max_dim);
                    let ix = self.index(cell);
                    let manner = draw(9);
                    let it: Box<dyn Iterator<Item = _>> = match manner {
                        0 => Box::new(co.column(ix).map(|(c, r)| (c, r, None)).driven()),
                        1 => Box::new(co.column_with_filtration(ix).map(|e| (e.coeff, e.row_index, Some(e.filtration_value))).driven()),
                        2 => Box::new(co.matrix.column_with_filtration(ix).map(|e| (e.coeff, e.row_index, Some(e.filtration_value))).driven()),
                        3 => Box::new(rev.column_with_filtration(Reverse(ix)).map(|e| (e.coeff, e.row_index.0, Some(e.filtration_value.0))).driven()),
                        4 => Box::new(co.matrix.column(ix).map(|(c, r)| (c, r, None)).driven()),
                        5 => Box::new(bd.column(ix).map(|(c, r)| (c, r, None)).driven()),
                        6 => Box::new(bd.column_with_filtration(ix).map(|e| (e.coeff, e.row_index, Some(e.filtration_value))).driven()),
                        7 => Box::new(bd.matrix.column_with_filtration(ix).map(|e| (e.coeff, e.row_index, Some(e.filtration_value))).driven()),
                        _ => Box::new(bd.matrix.column(ix).map(|(c, r)| (c, r, None)).driven()),
                    };
                    note(|| format!("open column of {:?} (manner {manner})", self.sk.cells[cell as usize]));
                    open.push(Cur { cell, manner, got: SVec::new(), it });
                    count("cursor.opened");
                    if open.len() > 1 {
                        count("cursor.overlapping");
                    }
                }
                2 if !open.is_empty() && chance(1, 3) => {
                    let k = draw(open.len() as u32) as usize;
                    open.swap_remove(k);
                    count("cursor.abandoned");
                }
                _ if !open.is_empty() => {
                    let k = draw(open.len() as u32) as usize;
                    if !step(&mut open[k], [1, 2, 100][draw(3) as usize])? {
                        open.swap_remove(k);
                    }
                }
                _ => {}
            }
        }
        for mut c in open {
            while step(&mut c, 100)? {}
        }
        Ok(())
    }
}

pub fn run_c03(w: &World) -> R {
    draw_unit();
    if chance(1, 12) {
        return run_wide(w);
    }
    let f = draw_field(true);
    if draw_native(f) {
        native!(f, C => run_over::<C>(w, f))
    } else {
        run_over::<SF>(w, f)
    }
}
fn run_over<C: Coef>(w: &World, f: Fld) -> R {
    if chance(1, 16) {
        let mut like = None;
        return lifetimes(
            w,
            move || {
                // as many points as the one before: the next matrix fits where the last one was
                let sc = RipsOver::<C>::draw_like(f, true, like);
                like = like.or(Some((sc.sk.n, sc.sk.max_dim)));
                sc
            },
            |sc| sc.once(draw(16)),
        );
    }
    let scs = several(|| RipsOver::<C>::draw(f, true));
    let clients = users(&[1, 1, 2, 3, 4]);
    let modes: Vec<Vec<u32>> = (0..clients).map(|_| (0..1 + draw(3)).map(|_| draw(16)).collect()).collect();
    let any = &|| &scs[draw(scs.len() as u32) as usize];
    let cs: Vec<Box<dyn FnOnce() -> R + Send>> = modes
        .into_iter()
        .map(|ms| {
            Box::new(move || {
                for m in ms {
                    nested(&|| any().once(draw(16)), || any().once(m))?;
                    count("op.rips");
                }
                Ok(())
            }) as Box<dyn FnOnce() -> R + Send>
        })
        .collect();
    w.run_clients(cs).into_iter().collect()
}

/// Many points, no stored basis beyond the points: columns of simplices with large indices.
pub struct Wide {
    f: Fld,
    n: usize,
    d: Vec<Vec<i64>>,
    co: Wrap<RipsCoboundaryAllDims<SF>>,
    bd: Wrap<RipsBoundaryAllDims<SF>>,
}
impl Wide {
    fn draw(f: Fld) -> Wide {
        let n = if chance(1, 12) { range(260, 700) } else { range(9, 260) } as usize;
        let mut r = Lrng(draw_seed());
        let lv = [3, 50, 100000][draw(3) as usize];
        let mut d = vec![vec![0; n]; n];
        for i in 0..n {
            for j in 0..i {
                d[i][j] = r.below(lv) as i64;
                d[j][i] = d[i][j];
            }
        }
        desc(|| format!("{n} points, columns only"));
        let dist: Vec<Vec<NotNan<f64>>> = d.iter().map(|r| r.iter().map(|&x| NotNan::new(x as f64 * unit()).unwrap()).collect()).collect();
        count("probe.wide");
        Wide { f, n, co: Wrap(build_rips_coboundary_matrix::<SF>(dist.clone(), 0)), bd: Wrap(build_rips_boundary_matrix::<SF>(dist, 0)), d }
    }
    fn read(&self) -> R {
        let k = range(1, if self.n > 260 { 4 } else { 5 }) as usize; // (indices of cofaces have to fit a machine word)
        let mut vs: std::collections::BTreeSet<usize> = Default::default();
        while vs.len() < k {
            vs.insert(draw(self.n as u32) as usize);
            if draw(2) == 1 {
                // neighbouring and extreme points
                vs.insert([0, self.n - 1, (vs.first().unwrap() + 1) % self.n][draw(3) as usize]);
            }
        }
        let s: Vec<usize> = vs.into_iter().collect();
        let ix = RipsIndex::from_indices(s.iter().copied(), self.n).unwrap();
        note(|| format!("simplex {s:?}"));
        let diam = |s: &[usize]| s.iter().flat_map(|&i| s.iter().map(move |&j| self.d[i][j])).max().unwrap();
        let mut want_co: BTreeMap<Vec<usize>, Val> = BTreeMap::new();
        for v in 0..self.n {
            if !s.contains(&v) {
                let p = s.iter().filter(|&&x| x < v).count();
                let mut t = s.clone();
                t.insert(p, v);
                want_co.insert(t, self.f.int(if p % 2 == 0 { 1 } else { -1 }).unwrap());
            }
        }
        let mut want_bd: BTreeMap<Vec<usize>, Val> = BTreeMap::new();
        if s.len() > 1 {
            for p in 0..s.len() {
                let mut t = s.clone();
                t.remove(p);
                want_bd.insert(t, self.f.int(if p % 2 == 0 { 1 } else { -1 }).unwrap());
            }
        }
        type It<'a> = Box<dyn Iterator<Item = (SF, RipsIndex, Option<NotNan<f64>>)> + 'a>;
        let manner = draw(4);
        let it: It = match manner {
            0 => Box::new(self.co.get().column(ix).map(|(c, r)| (c, r, None)).driven()),
            1 => Box::new(self.co.get().matrix.column_with_filtration(ix).map(|e| (e.coeff, e.row_index, Some(e.filtration_value))).driven()),
            2 => Box::new(self.bd.get().column(ix).map(|(c, r)| (c, r, None)).driven()),
            _ => Box::new(self.bd.get().column_with_filtration(ix).map(|e| (e.coeff, e.row_index, Some(e.filtration_value))).driven()),
        };
        let want = if manner < 2 { want_co } else { want_bd };
        let mut got: BTreeMap<Vec<usize>, Val> = BTreeMap::new();
        for (c, r, v) in it {
            let mut t = r.to_vec(self.n);
            t.sort();
            if let Some(v) = v {
                let v = value(v)?;
                ensure!(v == diam(&t), "filtration-of-entry", "simplex {t:?} delivered in the column of {s:?} (manner {manner}, {} points) with value {v}, diameter {}", self.n, diam(&t));
            }
            let c = c.val()?;
            let sum = match got.get(&t) {
                None => Some(c),
                Some(&x) => self.f.add(x, c),
            };
            match sum {
                None => {
                    got.remove(&t);
                }
                Some(x) => {
                    got.insert(t, x);
                }
            }
        }
        if got != want {
            let bad = got.iter().find(|(k, v)| want.get(*k) != Some(v)).or_else(|| want.iter().find(|(k, _)| !got.contains_key(*k)));
            return viol("column-read", format!("column of {s:?} (manner {manner}, {} points) differs, e.g. at {bad:?}", self.n));
        }
        Ok(())
    }
}
fn run_wide(w: &World) -> R {
    let f = draw_field(true);
    let scs = several(|| Wide::draw(f));
    let any = &|| &scs[draw(scs.len() as u32) as usize];
    let clients = range(1, 3);
    let cs: Vec<Box<dyn FnOnce() -> R + Send>> = (0..clients)
        .map(|_| {
            Box::new(move || {
                for _ in 0..4 {
                    any().read()?;
                }
                Ok(())
            }) as Box<dyn FnOnce() -> R + Send>
        })
        .collect();
    w.run_clients(cs).into_iter().collect()
}
