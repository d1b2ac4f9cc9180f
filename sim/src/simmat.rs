//! Simulated user-supplied parts: indices, column sources, bases, filtrations; and type-erased matrices.
use crate::field::*;
use crate::model::*;
use crate::drive::*;
use crate::world::*;
use phlite::columns::{BHCol, ColumnEntry};
use phlite::matrices::*;
use std::collections::BTreeSet;
use std::ops::Deref;
use fine::own::{AtomicU32, AtomicU64};
use std::sync::atomic::Ordering as AO;
use std::sync::Arc;

/// A user-supplied index type: every comparison and hash is a seam call.
#[derive(Clone, Copy, Debug)]
pub struct Idx(pub u32);
impl PartialEq for Idx {
    fn eq(&self, o: &Idx) -> bool {
        yp(Pt::Cmp);
        self.0 == o.0
    }
}
impl Eq for Idx {}
impl PartialOrd for Idx {
    fn partial_cmp(&self, o: &Idx) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Idx {
    fn cmp(&self, o: &Idx) -> std::cmp::Ordering {
        yp(Pt::Cmp);
        self.0.cmp(&o.0)
    }
}
impl std::hash::Hash for Idx {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        yp(Pt::Hash);
        // equal indices have equal hashes, and that is all a user has to see to
        let x = self.0;
        match HASH_STYLE.load(std::sync::atomic::Ordering::Relaxed) {
            0 => x,
            1 => x >> 1,
            2 => x >> 3,
            _ => x.saturating_sub(63),
        }
        .hash(h)
    }
}
pub static HASH_STYLE: AtomicU32 = AtomicU32::new(0);
/// How well this run's indices hash.
pub fn draw_hash_style() {
    let s = [0, 0, 0, 0, 1, 2, 3][draw(7) as usize];
    HASH_STYLE.store(s, std::sync::atomic::Ordering::SeqCst);
    if s > 0 {
        count("probe.colliding_hashes");
    }
}
impl BasisElement for Idx {}

/// How a source spells out a column on each read.
#[derive(Clone, Debug)]
pub struct Delivery {
    pub seed: u64,
    pub reorder: u32,  // 0 ascending, 1 descending, 2 shuffled per read
    pub split: u32,    // of 8: chance a coefficient is spread over repeated rows
    pub cancel: u32,   // of 8: chance a cancelling pair is inserted per column
    pub hint: u32,     // 0 exact, 1 none, 2 half, 3 loose, 4 no less than nothing and no more than everything
    pub shards: u32,   // cancelling pairs added to each column
}
impl Delivery {
    pub fn plain() -> Delivery {
        Delivery { seed: 0, reorder: 0, split: 0, cancel: 0, hint: 0, shards: 0 }
    }
    pub fn draw() -> Delivery {
        let d = Delivery { reorder: draw(3), split: [0, 0, 2, 5][draw(4) as usize], cancel: [0, 0, 2, 6][draw(4) as usize], hint: draw(5), seed: draw_seed(), shards: 0 };
        if d.reorder == 2 {
            count("delivery.reordered_source");
        }
        if d.split > 0 {
            count("delivery.split_source");
        }
        if d.cancel > 0 {
            count("delivery.cancelling_source");
        }
        d
    }
    /// Upper bound on the number of entries for a column of `k` terms.
    pub fn bound(&self, k: usize) -> usize {
        (if self.split > 0 { 3 * k } else { k }) + if self.cancel > 0 { 2 } else { 0 } + 2 * self.shards as usize
    }
    pub fn spell(&self, f: Fld, col: &[(Val, u32)], n_rows: u32, read: u64) -> Vec<(SF, u32)> {
        let mut r = Lrng(mix(self.seed, read));
        let mut out: Vec<(Val, u32)> = vec![];
        for &(c, row) in col {
            if self.split > 0 && r.below(8) < self.split as u64 {
                // c = x + (c - x)   or   c = x + (-x) + c
                let x = rng_val(f, &mut r);
                match f.add(c, f.neg(x)) {
                    Some(y) if r.below(2) == 0 => out.extend([(x, row), (y, row)]),
                    _ => out.extend([(x, row), (f.neg(x), row), (c, row)]),
                }
            } else {
                out.push((c, row));
            }
        }
        if self.cancel > 0 && n_rows > 0 && r.below(8) < self.cancel as u64 {
            let row = r.below(n_rows as u64) as u32;
            let x = rng_val(f, &mut r);
            out.extend([(x, row), (f.neg(x), row)]);
        }
        if n_rows > 0 {
            for _ in 0..self.shards {
                let row = r.below(n_rows as u64) as u32;
                let x = rng_val(f, &mut r);
                out.extend([(x, row), (f.neg(x), row)]);
            }
        }
        match self.reorder {
            0 => out.sort_by_key(|e| e.1),
            1 => out.sort_by_key(|e| std::cmp::Reverse(e.1)),
            _ => {
                for i in (1..out.len()).rev() {
                    out.swap(i, r.below(i as u64 + 1) as usize);
                }
            }
        }
        out.into_iter().map(|(c, r)| (SF::of(c), r)).collect()
    }
}

pub struct SimStream {
    items: std::vec::IntoIter<(SF, u32)>,
    hint: u32,
}
impl Iterator for SimStream {
    type Item = (SF, Idx);
    fn next(&mut self) -> Option<(SF, Idx)> {
        yp(Pt::Next);
        self.items.next().map(|(c, r)| (c, Idx(r)))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        match self.hint {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n / 2, None),
            3 => (n / 2, Some(2 * n + 3)),
            _ => (0, Some(usize::MAX)),
        }
    }
}

// ---------------------------------------------------------------- bases

#[derive(Clone, Debug)]
pub struct IdxBasis(pub Vec<u32>);
impl ColBasis for IdxBasis {
    type ElemT = Idx;
    fn element(&self, i: usize) -> Idx {
        yp(Pt::Basis);
        Idx(self.0[i])
    }
    fn size(&self) -> usize {
        self.0.len()
    }
}
impl SplitByDimension for IdxBasis {
    type SubBasisT = IdxBasis;
    fn in_dimension(&self, _d: usize) -> &IdxBasis {
        self
    }
}
#[derive(Clone, Debug)]
pub struct DimBasis(pub Vec<IdxBasis>);
impl DimBasis {
    pub fn of(dims: &[Vec<u32>]) -> DimBasis {
        DimBasis(dims.iter().map(|d| IdxBasis(d.clone())).collect())
    }
}
impl ColBasis for DimBasis {
    type ElemT = Idx;
    fn element(&self, mut i: usize) -> Idx {
        for d in &self.0 {
            if i < d.0.len() {
                return d.element(i);
            }
            i -= d.0.len();
        }
        panic!("basis index out of range")
    }
    fn size(&self) -> usize {
        self.0.iter().map(|d| d.0.len()).sum()
    }
}
impl SplitByDimension for DimBasis {
    type SubBasisT = IdxBasis;
    fn in_dimension(&self, d: usize) -> &IdxBasis {
        &self.0[d]
    }
}
/// What `basis()` hands out: a reference, a shared pointer or an owned copy.
pub enum BRef<'a, B> {
    Ref(&'a B),
    Shared(Arc<B>),
    Own(Box<B>),
}
impl<B> Deref for BRef<'_, B> {
    type Target = B;
    fn deref(&self) -> &B {
        match self {
            BRef::Ref(b) => b,
            BRef::Shared(b) => b,
            BRef::Own(b) => b,
        }
    }
}

// ---------------------------------------------------------------- denotations and the simulated matrix

/// What a (square, over rows/columns 0..n) matrix denotes.
#[derive(Clone, Debug)]
pub struct Den {
    pub f: Fld,
    pub cols: Vec<SVec>,
    pub fil: Vec<isize>,
    pub dims: Vec<Vec<u32>>,
    pub basis: Vec<u32>,
    pub bound: Vec<usize>, // entries a read may deliver, per column
}
impl Den {
    pub fn n(&self) -> usize {
        self.cols.len()
    }
    pub fn new(f: Fld, cols: Vec<SVec>, fil: Vec<isize>, dims: Vec<Vec<u32>>) -> Den {
        Den { f, cols, fil, basis: dims.concat(), dims, bound: vec![] }
    }
    pub fn key(&self, r: u32) -> (isize, u32) {
        (self.fil[r as usize], r)
    }
}

pub struct SimMat {
    pub den: Arc<Den>,
    entries: Vec<Vec<(Val, u32)>>,
    pub delivery: Delivery,
    basis: Arc<DimBasis>,
    bref: u32,
    reads: AtomicU64,
}
impl SimMat {
    pub fn new(mut den: Den, delivery: Delivery, bref: u32) -> SimMat {
        let entries: Vec<Vec<(Val, u32)>> = den.cols.iter().map(|c| c.iter().map(|(&r, &v)| (v, r)).collect()).collect();
        den.bound = entries.iter().map(|c| delivery.bound(c.len())).collect();
        let basis = Arc::new(DimBasis::of(&den.dims));
        SimMat { den: Arc::new(den), entries, delivery, basis, bref, reads: AtomicU64::new(0) }
    }
}
impl MatrixOracle for SimMat {
    type CoefficientField = SF;
    type ColT = Idx;
    type RowT = Idx;
    fn column(&self, col: Idx) -> impl Iterator<Item = (SF, Idx)> {
        yp(Pt::Col);
        let read = self.reads.fetch_add(1, AO::SeqCst);
        let items = self.delivery.spell(self.den.f, &self.entries[col.0 as usize], self.den.n() as u32, read);
        SimStream { items: items.into_iter(), hint: self.delivery.hint }
    }
}
impl HasRowFiltration for SimMat {
    type FiltrationT = isize;
    fn filtration_value(&self, row: Idx) -> isize {
        yp(Pt::Filt);
        self.den.fil[row.0 as usize]
    }
}
impl HasColBasis for SimMat {
    type BasisT = DimBasis;
    type BasisRef<'a> = BRef<'a, DimBasis>;
    fn basis(&self) -> BRef<'_, DimBasis> {
        yp(Pt::Basis);
        match self.bref {
            0 => BRef::Ref(&self.basis),
            1 => BRef::Shared(self.basis.clone()),
            _ => BRef::Own(Box::new((*self.basis).clone())),
        }
    }
}

/// A simulated matrix over the library's own coefficient type.
pub struct Nat<M, C>(M, std::marker::PhantomData<C>);
impl<M, C> Nat<M, C> {
    pub fn of(m: M) -> Self {
        Nat(m, std::marker::PhantomData)
    }
}
impl<M: MatrixOracle<CoefficientField = SF>, C: Coef> MatrixOracle for Nat<M, C> {
    type CoefficientField = C;
    type ColT = M::ColT;
    type RowT = M::RowT;
    fn column(&self, col: M::ColT) -> impl Iterator<Item = (C, M::RowT)> {
        self.0.column(col).map(|(c, r)| (C::of(c.sh()), r))
    }
}
impl<M: HasRowFiltration<CoefficientField = SF>, C: Coef> HasRowFiltration for Nat<M, C> {
    type FiltrationT = M::FiltrationT;
    fn filtration_value(&self, row: M::RowT) -> M::FiltrationT {
        self.0.filtration_value(row)
    }
}
impl<M: HasColBasis<CoefficientField = SF>, C: Coef> HasColBasis for Nat<M, C> {
    type BasisT = M::BasisT;
    type BasisRef<'a> = M::BasisRef<'a> where Self: 'a;
    fn basis(&self) -> M::BasisRef<'_> {
        self.0.basis()
    }
}

// ---------------------------------------------------------------- type erasure

pub type Bx<'a, T> = Box<dyn Iterator<Item = T> + 'a>;
pub type Heap = BHCol<isize, Idx, SF>;
pub trait Node: Send + Sync {
    fn col<'a>(&'a self, c: u32) -> Bx<'a, (SF, Idx)>;
    fn colf<'a>(&'a self, c: u32) -> Bx<'a, (SF, Idx, isize)>;
    /// The column as a heap, or an empty one that takes its entries.
    fn heap(&self, c: Option<u32>) -> Heap;
    fn fil(&self, r: u32) -> isize;
    fn bsize(&self) -> usize;
    fn belem(&self, i: usize) -> Idx;
    fn dsize(&self, d: usize) -> usize;
    fn delem(&self, d: usize, i: usize) -> Idx;
}
/// A real matrix value of any type built by the library.
/// Sound to share because the simulator lets exactly one client run at a time, with a lock at every hand-over.
pub struct Wrap<M>(pub M);
unsafe impl<M> Send for Wrap<M> {}
unsafe impl<M> Sync for Wrap<M> {}
impl<M> Wrap<M> {
    /// (a whole-struct borrow, so that closures capture `Wrap` and not its field)
    pub fn get(&self) -> &M {
        &self.0
    }
}
impl<M> Node for Wrap<M>
where
    M: MatrixOracle<CoefficientField = SF, ColT = Idx, RowT = Idx> + HasRowFiltration<FiltrationT = isize> + HasColBasis,
    M::BasisT: SplitByDimension,
{
    fn col<'a>(&'a self, c: u32) -> Bx<'a, (SF, Idx)> {
        Box::new(self.0.column(Idx(c)).driven())
    }
    fn colf<'a>(&'a self, c: u32) -> Bx<'a, (SF, Idx, isize)> {
        Box::new(self.0.column_with_filtration(Idx(c)).map(|e| (e.coeff, e.row_index, e.filtration_value)).driven())
    }
    fn heap(&self, c: Option<u32>) -> Heap {
        match c {
            Some(c) => self.0.build_bhcol(Idx(c)),
            None => self.0.empty_bhcol(),
        }
    }
    fn fil(&self, r: u32) -> isize {
        self.0.filtration_value(Idx(r))
    }
    fn bsize(&self) -> usize {
        self.0.basis().size()
    }
    fn belem(&self, i: usize) -> Idx {
        self.0.basis().element(i)
    }
    fn dsize(&self, d: usize) -> usize {
        self.0.basis().in_dimension(d).size()
    }
    fn delem(&self, d: usize, i: usize) -> Idx {
        self.0.basis().in_dimension(d).element(i)
    }
}

pub struct DynSub {
    node: Arc<dyn Node>,
    d: usize,
}
impl ColBasis for DynSub {
    type ElemT = Idx;
    fn element(&self, i: usize) -> Idx {
        self.node.delem(self.d, i)
    }
    fn size(&self) -> usize {
        self.node.dsize(self.d)
    }
}
impl SplitByDimension for DynSub {
    type SubBasisT = DynSub;
    fn in_dimension(&self, _d: usize) -> &DynSub {
        self
    }
}
pub struct DynBasis {
    node: Arc<dyn Node>,
    subs: Vec<DynSub>,
}
impl ColBasis for DynBasis {
    type ElemT = Idx;
    fn element(&self, i: usize) -> Idx {
        self.node.belem(i)
    }
    fn size(&self) -> usize {
        self.node.bsize()
    }
}
impl SplitByDimension for DynBasis {
    type SubBasisT = DynSub;
    fn in_dimension(&self, d: usize) -> &DynSub {
        &self.subs[d]
    }
}
#[derive(Clone)]
pub struct Dyn {
    pub node: Arc<dyn Node>,
    pub basis: Arc<DynBasis>,
    pub den: Arc<Den>,
    pub name: Arc<String>,
}
impl Dyn {
    pub fn new(node: Arc<dyn Node>, den: Arc<Den>, name: String) -> Dyn {
        let subs = (0..den.dims.len()).map(|d| DynSub { node: node.clone(), d }).collect();
        Dyn { basis: Arc::new(DynBasis { node: node.clone(), subs }), node, den, name: Arc::new(name) }
    }
    pub fn leaf(m: SimMat) -> Dyn {
        let den = m.den.clone();
        Dyn::new(Arc::new(Wrap(m)), den, "A".into())
    }
}
impl MatrixOracle for Dyn {
    type CoefficientField = SF;
    type ColT = Idx;
    type RowT = Idx;
    fn column(&self, c: Idx) -> impl Iterator<Item = (SF, Idx)> {
        self.node.col(c.0)
    }
}
impl HasRowFiltration for Dyn {
    type FiltrationT = isize;
    fn filtration_value(&self, r: Idx) -> isize {
        self.node.fil(r.0)
    }
    fn column_with_filtration(&self, c: Idx) -> impl Iterator<Item = ColumnEntry<isize, Idx, SF>> {
        self.node.colf(c.0).map(|e| ColumnEntry::from(e))
    }
    fn empty_bhcol(&self) -> Heap {
        self.node.heap(None)
    }
    fn build_bhcol(&self, c: Idx) -> Heap {
        self.node.heap(Some(c.0))
    }
}
impl HasColBasis for Dyn {
    type BasisT = DynBasis;
    type BasisRef<'a> = &'a DynBasis;
    fn basis(&self) -> &DynBasis {
        &self.basis
    }
}

// ---------------------------------------------------------------- generators

/// A random sparse square matrix with filtration; basis = all columns in a random order, one dimension.
pub fn draw_den(f: Fld, n: usize, dense: u32) -> Den {
    let mut cols = vec![];
    for _ in 0..n {
        let mut c = SVec::new();
        for r in 0..n {
            if chance(dense, 8) {
                c.insert(r as u32, draw_val(f));
            }
        }
        cols.push(c);
    }
    let lv = 1 + draw(n as u32 + 1);
    let fil = (0..n).map(|_| draw(lv) as isize - 1).collect();
    let mut b: Vec<u32> = (0..n as u32).collect();
    shuffle(&mut b);
    Den::new(f, cols, fil, vec![b])
}
/// A larger matrix with few entries per column.
pub fn draw_sparse(f: Fld, n: usize) -> Den {
    let mut r = Lrng(draw_seed());
    let cols = (0..n).map(|_| (0..r.below(5)).map(|_| (r.below(n as u64) as u32, rng_val(f, &mut r))).collect()).collect();
    let lv = [1, 3, 1000][draw(3) as usize];
    let fil = (0..n).map(|_| r.below(lv) as isize - 1).collect();
    let mut b: Vec<u32> = (0..n as u32).collect();
    for i in (1..n).rev() {
        b.swap(i, r.below(i as u64 + 1) as usize);
    }
    Den::new(f, cols, fil, vec![b])
}
pub fn shuffle<T>(v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = i - draw(i as u32 + 1) as usize;
        v.swap(i, j);
    }
}
pub fn show_den(d: &Den) -> String {
    let c: Vec<String> = d.cols.iter().enumerate().map(|(j, c)| format!("{j}:{}", show(c))).collect();
    format!("cols {} fil {:?} basis {:?}", c.join(" "), d.fil, d.dims)
}

/// A random chain complex: faces of random simplices, or random boundary maps in canonical form under a
/// random triangular change of basis.  Returned with dims; filtration is monotone (faces not later).
pub struct Complex {
    pub cols: Vec<SVec>,
    pub dim: Vec<usize>,
    pub fil: Vec<isize>,
}
pub fn draw_complex(f: Fld, max_cells: usize) -> Complex {
    if max_cells >= 20 && chance(1, 120) {
        return draw_large(f);
    }
    if draw(3) != 2 {
        draw_simplicial(f, max_cells)
    } else {
        draw_algebraic(f, max_cells)
    }
}
fn draw_simplicial(f: Fld, max_cells: usize) -> Complex {
    let nv = range(1, 6);
    let nfac = range(1, 6);
    let mut set: BTreeSet<Vec<u32>> = BTreeSet::new();
    for _ in 0..nfac {
        let k = range(1, nv.min(4));
        let mut vs: Vec<u32> = (0..nv).collect();
        shuffle(&mut vs);
        let mut s: Vec<u32> = vs[..k as usize].to_vec();
        s.sort();
        // all non-empty faces
        let mut add = vec![];
        for m in 1..1u32 << s.len() {
            add.push((0..s.len()).filter(|i| m >> i & 1 == 1).map(|i| s[i]).collect::<Vec<u32>>());
        }
        let extra = add.iter().filter(|x| !set.contains(*x)).count();
        if set.len() + extra <= max_cells {
            set.extend(add);
        }
    }
    if set.is_empty() {
        set.insert(vec![0]);
    }
    let mut cells: Vec<Vec<u32>> = set.into_iter().collect();
    shuffle(&mut cells);
    let lv = range(1, 6);
    let fil: Vec<isize> = cells.iter().map(|_| draw(lv) as isize).collect();
    cells_to_complex(f, cells, fil)
}
fn cells_to_complex(f: Fld, cells: Vec<Vec<u32>>, mut fil: Vec<isize>) -> Complex {
    let at: std::collections::BTreeMap<&Vec<u32>, u32> = cells.iter().enumerate().map(|(i, c)| (c, i as u32)).collect();
    let pos = |c: &Vec<u32>| at[c];
    // monotone closure: a cell is at least as late as its faces
    let mut ord: Vec<usize> = (0..cells.len()).collect();
    ord.sort_by_key(|&i| cells[i].len());
    let mut cols = vec![SVec::new(); cells.len()];
    for &i in &ord {
        if cells[i].len() == 1 {
            continue;
        }
        for k in 0..cells[i].len() {
            let mut g = cells[i].clone();
            g.remove(k);
            let p = pos(&g);
            fil[i] = fil[i].max(fil[p as usize]);
            cols[i].insert(p, f.int(if k % 2 == 0 { 1 } else { -1 }).unwrap());
        }
    }
    Complex { cols, dim: cells.iter().map(|c| c.len() - 1).collect(), fil }
}
/// A graph with hundreds of vertices, and a few triangles.
fn draw_huge(f: Fld) -> Complex {
    count("probe.huge_complex");
    let nv = range(100, 800);
    let mut set: BTreeSet<Vec<u32>> = (0..nv).map(|v| vec![v]).collect();
    let mut r = Lrng(draw_seed());
    let some = |r: &mut Lrng, k: u32| -> Vec<u32> {
        let s: BTreeSet<u32> = (0..k).map(|_| r.below(nv as u64) as u32).collect();
        s.into_iter().collect()
    };
    for _ in 0..nv / 2 + draw(nv) {
        let s = some(&mut r, 2);
        set.insert(s);
    }
    for _ in 0..draw(200) {
        let s = some(&mut r, 3);
        for m in 1..1u32 << s.len() {
            set.insert((0..s.len()).filter(|i| m >> i & 1 == 1).map(|i| s[i]).collect());
        }
    }
    let mut cells: Vec<Vec<u32>> = set.into_iter().collect();
    r.shuffle(&mut cells);
    let lv = [1, 3, 1000][draw(3) as usize];
    let fil = cells.iter().map(|_| r.below(lv) as isize).collect();
    cells_to_complex(f, cells, fil)
}
/// A long cycle with chords and triangles: long columns of V, many cells.
fn draw_large(f: Fld) -> Complex {
    match draw(8) {
        6 | 7 => return draw_huge(f),
        3 | 4 | 5 => return draw_algebraic_large(f),
        _ => {}
    }
    count("probe.large_complex");
    let nv = range(12, 60);
    let mut set: BTreeSet<Vec<u32>> = (0..nv).map(|v| vec![v]).collect();
    let mut names: Vec<u32> = (0..nv).collect();
    let mut r = Lrng(draw_seed());
    for i in (1..nv as usize).rev() {
        names.swap(i, r.below(i as u64 + 1) as usize);
    }
    let gaps = draw(3) as u64;
    for i in 0..nv as usize {
        if gaps == 0 || r.below(12) >= gaps {
            let mut e = vec![names[i], names[(i + 1) % nv as usize]];
            e.sort();
            set.insert(e);
        }
    }
    for _ in 0..draw(16) {
        let (a, b, c) = (r.below(nv as u64) as u32, r.below(nv as u64) as u32, r.below(nv as u64) as u32);
        let s: BTreeSet<u32> = if draw(2) == 0 { [a, b].into() } else { [a, b, c].into() };
        let s: Vec<u32> = s.into_iter().collect();
        for m in 1..1u32 << s.len() {
            set.insert((0..s.len()).filter(|i| m >> i & 1 == 1).map(|i| s[i]).collect());
        }
    }
    let mut cells: Vec<Vec<u32>> = set.into_iter().collect();
    for i in (1..cells.len()).rev() {
        cells.swap(i, r.below(i as u64 + 1) as usize);
    }
    let lv = [1, 3, 1000][draw(3) as usize];
    let fil = cells.iter().map(|_| r.below(lv) as isize).collect();
    cells_to_complex(f, cells, fil)
}
/// D' = P^-1 D P with D in pair/essential form, P unitriangular within (filtration, index) order per dimension.
fn draw_algebraic(f: Fld, max_cells: usize) -> Complex {
    let n = range(1, max_cells.min(12) as u32) as usize;
    let nd = range(1, 4) as usize;
    let steps = draw(2 * n as u32 + 1);
    let lv = range(1, 6);
    algebraic(f, n, nd, lv, steps, &mut |k| draw(k), &mut || draw_val(f))
}
/// The same with so many cells, and so far from pair form, that columns take dozens of additions.
fn draw_algebraic_large(f: Fld) -> Complex {
    count("probe.large_algebraic");
    let n = range(30, 110) as usize;
    let nd = range(1, 8) as usize;
    let steps = draw(5 * n as u32);
    let lv = [1, 5, 1000][draw(3) as usize];
    let r = std::cell::RefCell::new(Lrng(draw_seed()));
    algebraic(f, n, nd, lv, steps, &mut |k| r.borrow_mut().below(k as u64) as u32, &mut || rng_val(f, &mut r.borrow_mut()))
}
fn algebraic(f: Fld, n: usize, nd: usize, lv: u32, steps: u32, below: &mut dyn FnMut(u32) -> u32, val: &mut dyn FnMut() -> Val) -> Complex {
    let dim: Vec<usize> = (0..n).map(|_| below(nd as u32) as usize).collect();
    let mut fil: Vec<isize> = (0..n).map(|_| below(lv) as isize).collect();
    let mut used = vec![false; n];
    let mut cols = vec![SVec::new(); n];
    for j in 0..n {
        if used[j] || dim[j] == 0 || below(4) == 0 {
            continue;
        }
        let cand: Vec<usize> = (0..n).filter(|&i| !used[i] && dim[i] + 1 == dim[j] && cols[i].is_empty() && i != j).collect();
        if cand.is_empty() {
            continue;
        }
        let i = cand[below(cand.len() as u32) as usize];
        used[i] = true;
        used[j] = true;
        if fil[j] < fil[i] {
            fil.swap(i, j);
        }
        cols[j].insert(i as u32, val());
    }
    // elementary changes: e_b := e_b + c e_a for a before b in filtration order, same dimension.
    for _ in 0..steps {
        let a = below(n as u32) as usize;
        let b = below(n as u32) as usize;
        if a == b || dim[a] != dim[b] || (fil[a], a) > (fil[b], b) {
            continue;
        }
        let c = val();
        // column op: col_b += c col_a ; row op: row_a -= c row_b
        let ca = cols[a].clone();
        axpy(f, &mut cols[b], c, &ca);
        for col in cols.iter_mut() {
            if let Some(&x) = col.get(&(b as u32)) {
                add_term(f, col, a as u32, f.neg(f.mul(c, x)));
            }
        }
        if cols.iter().map(|c| c.len()).sum::<usize>() > 6 * n {
            break;
        }
    }
    Complex { cols, dim, fil }
}
pub fn transpose(cols: &[SVec]) -> Vec<SVec> {
    let mut t = vec![SVec::new(); cols.len()];
    for (j, c) in cols.iter().enumerate() {
        for (&r, &v) in c {
            t[r as usize].insert(j as u32, v);
        }
    }
    t
}
