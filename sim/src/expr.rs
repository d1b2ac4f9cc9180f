//! Random expressions over the library's combinators and adaptors, with what they denote.
use crate::field::*;
use crate::model::*;
use crate::simmat::*;
use crate::drive::*;
use crate::world::*;
use phlite::matrices::adaptors::*;
use phlite::matrices::combinators::*;
use phlite::matrices::implementors::*;
use phlite::matrices::*;
use phlite::matrix_col_product;
use rustc_hash::FxHashMap;
use std::cmp::Reverse;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

/// Values that outlive the run's matrices; cleared between runs.
static KEEP: Mutex<Vec<usize>> = Mutex::new(vec![]);
pub fn leak(d: Dyn) -> &'static Dyn {
    let p = Box::into_raw(Box::new(d));
    KEEP.lock().unwrap_or_else(|e| e.into_inner()).push(p as usize);
    unsafe { &*p }
}
/// Free what a finished run leaked (later first: they refer to earlier ones).
pub fn free_leaked() {
    let v: Vec<usize> = std::mem::take(&mut *KEEP.lock().unwrap_or_else(|e| e.into_inner()));
    for p in v.into_iter().rev() {
        drop(unsafe { Box::from_raw(p as *mut Dyn) });
    }
}

/// Harness-side removal of `Reverse`, so that the library's `reverse` is looked at on its own.
pub struct HUnrev<M>(pub M);
impl<M> MatrixOracle for HUnrev<M>
where
    M: MatrixOracle<CoefficientField = SF, ColT = Reverse<Idx>, RowT = Reverse<Idx>>,
{
    type CoefficientField = SF;
    type ColT = Idx;
    type RowT = Idx;
    fn column(&self, c: Idx) -> impl Iterator<Item = (SF, Idx)> {
        self.0.column(Reverse(c)).map(|(x, r)| (x, r.0))
    }
}
impl<M> HasRowFiltration for HUnrev<M>
where
    M: MatrixOracle<CoefficientField = SF, ColT = Reverse<Idx>, RowT = Reverse<Idx>> + HasRowFiltration<FiltrationT = Reverse<isize>>,
{
    type FiltrationT = isize;
    fn filtration_value(&self, r: Idx) -> isize {
        self.0.filtration_value(Reverse(r)).0
    }
    fn column_with_filtration(&self, c: Idx) -> impl Iterator<Item = phlite::columns::ColumnEntry<isize, Idx, SF>> {
        self.0.column_with_filtration(Reverse(c)).map(|e| (e.coeff, e.row_index.0, e.filtration_value.0).into())
    }
}
pub struct HUnrevNode(HUnrev<ReverseMatrix<Dyn>>);
impl Node for HUnrevNode {
    fn col<'a>(&'a self, c: u32) -> Bx<'a, (SF, Idx)> {
        Box::new(self.0.column(Idx(c)).driven())
    }
    fn colf<'a>(&'a self, c: u32) -> Bx<'a, (SF, Idx, isize)> {
        Box::new(self.0.column_with_filtration(Idx(c)).map(|e| (e.coeff, e.row_index, e.filtration_value)).driven())
    }
    fn heap(&self, c: Option<u32>) -> Heap {
        let mut all = match c {
            Some(c) => self.0 .0.build_bhcol(Reverse(Idx(c))),
            None => self.0 .0.empty_bhcol(),
        };
        let mut h = Heap::default();
        h.add_tuples(all.drain_sorted().map(|e| (e.coeff, e.row_index.0, e.filtration_value.0)));
        h
    }
    fn fil(&self, r: u32) -> isize {
        self.0.filtration_value(Idx(r))
    }
    fn bsize(&self) -> usize {
        self.0 .0.basis().size()
    }
    fn belem(&self, i: usize) -> Idx {
        self.0 .0.basis().element(i).0
    }
    fn dsize(&self, d: usize) -> usize {
        self.0 .0.basis().in_dimension(d).size()
    }
    fn delem(&self, d: usize, i: usize) -> Idx {
        self.0 .0.basis().in_dimension(d).element(i).0
    }
}

/// Index columns by `Idx` where the library wants `usize`.
pub struct UsizeCols<M>(pub M);
impl<M: MatrixOracle<CoefficientField = SF, ColT = usize, RowT = Idx>> MatrixOracle for UsizeCols<M> {
    type CoefficientField = SF;
    type ColT = Idx;
    type RowT = Idx;
    fn column(&self, c: Idx) -> impl Iterator<Item = (SF, Idx)> {
        self.0.column(c.0 as usize)
    }
}
impl<M: MatrixOracle<CoefficientField = SF, ColT = usize, RowT = Idx> + HasRowFiltration<FiltrationT = isize>> HasRowFiltration for UsizeCols<M> {
    type FiltrationT = isize;
    fn filtration_value(&self, r: Idx) -> isize {
        self.0.filtration_value(r)
    }
    fn column_with_filtration(&self, c: Idx) -> impl Iterator<Item = phlite::columns::ColumnEntry<isize, Idx, SF>> {
        self.0.column_with_filtration(c.0 as usize)
    }
}
/// The exported product macro.
pub struct MacroProd(Dyn, Dyn);
impl MatrixOracle for MacroProd {
    type CoefficientField = SF;
    type ColT = Idx;
    type RowT = Idx;
    fn column(&self, c: Idx) -> impl Iterator<Item = (SF, Idx)> {
        let right = self.1.column(c);
        matrix_col_product!(self.0, right)
    }
}

pub fn fil_fn(f: Vec<isize>) -> impl Fn(Idx) -> isize {
    move |r: Idx| {
        yp(Pt::Filt);
        f[r.0 as usize]
    }
}

pub struct Pool {
    pub f: Fld,
    pub n: usize,
    pub items: Vec<Dyn>,
    pub allow_cache: bool,
    pub max_bound: usize,
    pub shards: u32,
}
fn mk(node: impl Node + 'static, den: Den, name: String) -> Dyn {
    Dyn::new(Arc::new(node), Arc::new(den), name)
}
fn draw_dims(n: usize) -> Vec<Vec<u32>> {
    // a random subset of the columns in random order, cut into dimensions
    let mut b: Vec<u32> = (0..n as u32).collect();
    shuffle(&mut b);
    let keep = n as u32 - draw(3).min(n as u32);
    b.truncate(keep as usize);
    let mut dims: Vec<Vec<u32>> = vec![vec![]; 1 + draw(3) as usize];
    let k = dims.len() as u32;
    for x in b {
        let d = draw(k) as usize;
        dims[d].push(x);
    }
    dims
}
pub fn draw_fil(n: usize) -> Vec<isize> {
    let lv = 1 + draw(n as u32 + 1);
    (0..n).map(|_| draw(lv) as isize - 1).collect()
}

impl Pool {
    pub fn leaf(&mut self) -> Dyn {
        let mut den = if self.n > 9 { draw_sparse(self.f, self.n) } else { draw_den(self.f, self.n, 2 + draw(3)) };
        if chance(1, 2) {
            let dims = draw_dims(self.n);
            den = Den::new(self.f, den.cols, den.fil, dims);
        }
        let shards = if self.shards > 0 && chance(1, 2) { self.shards } else { 0 };
        let draw_delivery = || Delivery { shards, ..Delivery::draw() };
        let name = format!("L{}", self.items.len());
        desc(|| format!("{name}: {}", show_den(&den)));
        let kind = draw(8);
        let spelled = |d: &Delivery, c: usize| -> Vec<(SF, Idx)> {
            let e: Vec<(Val, u32)> = den.cols[c].iter().map(|(&r, &v)| (v, r)).collect();
            d.spell(self.f, &e, self.n as u32, c as u64).into_iter().map(|(x, r)| (x, Idx(r))).collect()
        };
        let d = match kind {
            0..=4 => {
                let del = draw_delivery();
                desc(|| format!("{name} delivery {del:?}"));
                Dyn::leaf(SimMat::new(den.clone(), del, draw(3)))
            }
            5 | 6 => {
                let del = draw_delivery();
                let cols: Vec<Vec<(SF, Idx)>> = (0..self.n).map(|c| spelled(&del, c)).collect();
                let mut dn = den.clone();
                dn.bound = cols.iter().map(|c| c.len()).collect();
                let m = VecVecMatrix::<'static, SF, Idx>::new(cols);
                let m = UsizeCols(m.with_filtration(fil_fn(dn.fil.clone())));
                mk(Wrap(m.with_basis(DimBasis::of(&dn.dims))), dn, String::new())
            }
            _ => {
                let del = draw_delivery();
                let cols: FxHashMap<Idx, Vec<(SF, Idx)>> = (0..self.n).map(|c| (Idx(c as u32), spelled(&del, c))).collect();
                let mut dn = den.clone();
                dn.bound = (0..self.n).map(|c| cols[&Idx(c as u32)].len()).collect();
                let m = MapVecMatrix::from(cols);
                mk(Wrap(m.with_filtration(fil_fn(dn.fil.clone())).with_basis(DimBasis::of(&dn.dims))), dn, String::new())
            }
        };
        let d = Dyn { name: Arc::new(name), ..d };
        self.items.push(d.clone());
        d
    }
    pub fn pick(&self) -> Dyn {
        // favour recent items: they are deeper
        let k = self.items.len() as u32;
        let a = draw(k);
        let b = draw(k);
        self.items[a.max(b) as usize].clone()
    }
    /// Combine existing expressions into a new one.
    pub fn grow(&mut self) {
        let a = self.pick();
        let f = self.f;
        let n = self.n;
        let ad = (*a.den).clone();
        let maxb = |d: &Den| d.bound.iter().copied().max().unwrap_or(0);
        let d = match draw(if self.allow_cache { 17 } else { 15 }) {
            0 | 1 => {
                let b = self.pick();
                let macro_ = draw(3) == 2;
                if maxb(&ad) * maxb(&b.den) > self.max_bound {
                    count("probe.product_skipped");
                    return;
                }
                let cols = b.den.cols.iter().map(|c| mat_vec(f, &ad.cols, c)).collect();
                let den = Den { cols, fil: ad.fil.clone(), dims: b.den.dims.clone(), basis: b.den.basis.clone(), bound: b.den.bound.iter().map(|x| x * maxb(&ad)).collect(), f };
                if macro_ {
                    let m = MacroProd(a.clone(), b.clone()).with_filtration(fil_fn(ad.fil.clone()));
                    let den = Den::new(f, den.cols.clone(), den.fil.clone(), ad.dims.clone()).with_bound(den.bound.clone());
                    mk(Wrap(m.with_basis(DimBasis::of(&ad.dims))), den, format!("macroprod({},{})", a.name, b.name))
                } else {
                    mk(Wrap(product(a.clone(), b.clone())), den, format!("({}*{})", a.name, b.name))
                }
            }
            2 => {
                let b = self.pick();
                let cols = (0..n)
                    .map(|i| {
                        let mut v = ad.cols[i].clone();
                        axpy(f, &mut v, f.one(), &b.den.cols[i]);
                        v
                    })
                    .collect();
                let dims = draw_dims(n);
                let fil = draw_fil(n);
                let bound: Vec<usize> = (0..n).map(|i| ad.bound[i] + b.den.bound[i]).collect();
                let m = sum(a.clone(), b.clone()).with_filtration(fil_fn(fil.clone()));
                mk(Wrap(m.with_basis(DimBasis::of(&dims))), Den::new(f, cols, fil, dims).with_bound(bound), format!("({}+{})", a.name, b.name))
            }
            3 => {
                // (what a read costs stays what it was)
                let bound = if self.shards > 0 { ad.bound.clone() } else { ad.cols.iter().map(|c| c.len()).collect() };
                mk(Wrap(a.clone().consolidate()), ad.with_bound(bound), format!("cons({})", a.name))
            }
            4 => {
                let dims: Vec<Vec<u32>> = ad.dims.iter().map(|d| d.iter().rev().copied().collect()).collect();
                let basis = ad.basis.iter().rev().copied().collect();
                let den = Den { dims, basis, ..ad };
                mk(HUnrevNode(HUnrev(a.clone().reverse())), den, format!("rev({})", a.name))
            }
            5 => mk(Wrap(MatrixOracle::unreverse(a.clone().reverse())), ad, format!("unrev(rev({}))", a.name)),
            6 => mk(Wrap(a.clone().reverse().unreverse()), ad, format!("rev({}).unrev", a.name)),
            7 => {
                if ad.basis.len() != n {
                    return;
                }
                let cols = ad.basis.iter().map(|&b| ad.cols[b as usize].clone()).collect();
                let bound = ad.basis.iter().map(|&b| ad.bound[b as usize]).collect();
                let dims = draw_dims(n);
                let m = UsizeCols(a.clone().using_col_basis_index()).with_basis(DimBasis::of(&dims));
                mk(Wrap(m), Den::new(f, cols, ad.fil, dims).with_bound(bound), format!("ix({})", a.name))
            }
            8 => {
                let fil = draw_fil(n);
                let m = a.clone().with_filtration(fil_fn(fil.clone()));
                mk(Wrap(m), Den { fil, ..ad }, format!("fil({})", a.name))
            }
            9 => {
                let fil = draw_fil(n);
                let m = a.clone().with_trivial_filtration().with_filtration(fil_fn(fil.clone()));
                mk(Wrap(m), Den { fil, ..ad }, format!("fil(triv({}))", a.name))
            }
            10 => {
                let dims = draw_dims(n);
                let m = MatrixWithBasis::new(a.clone(), DimBasis::of(&dims));
                mk(Wrap(m), Den { basis: dims.concat(), dims, ..ad }, format!("bas({})", a.name))
            }
            11 => {
                let d = draw(ad.dims.len() as u32) as usize;
                let sub = ad.dims[d].clone();
                let m = a.clone().sub_matrix_in_dimension(d);
                mk(Wrap(m), Den { basis: sub.clone(), dims: vec![sub], ..ad }, format!("sub{d}({})", a.name))
            }
            12 => {
                let r = leak(a.clone());
                mk(Wrap(r), ad, format!("&{}", a.name))
            }
            13 => {
                let dims = ad.dims.clone();
                let fil = ad.fil.clone();
                let bas = DimBasis::of(&dims);
                let den = Den { basis: dims.concat(), ..ad };
                match draw(3) {
                    0 => mk(Wrap(Arc::new(a.clone()).with_filtration(fil_fn(fil)).with_basis(bas)), den, format!("Arc({})", a.name)),
                    1 => mk(Wrap(Box::new(a.clone()).with_filtration(fil_fn(fil)).with_basis(bas)), den, format!("Box({})", a.name)),
                    _ => mk(Wrap(Rc::new(a.clone()).with_filtration(fil_fn(fil)).with_basis(bas)), den, format!("Rc({})", a.name)),
                }
            }
            14 => {
                let m = a.clone().with_filtration(fil_fn(draw_fil(n))).discard_filtration();
                mk(Wrap(m), ad, format!("disc({})", a.name))
            }
            _ => {
                count("probe.cached_node");
                mk(Wrap(a.clone().cache_cols()), ad, format!("cache({})", a.name))
            }
        };
        desc(|| format!("E{} = {}", self.items.len(), d.name));
        self.items.push(d);
    }
}
impl Den {
    pub fn with_bound(mut self, b: Vec<usize>) -> Den {
        self.bound = b;
        self
    }
}
