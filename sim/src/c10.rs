//! C10: grounded path homology matrices over a digraph filtration supplied (and queried) piecemeal.
use crate::ensure;
use crate::field::*;
use crate::model::*;
use crate::native;
use crate::simmat::*;
use crate::drive::*;
use crate::world::*;
use ordered_float::NotNan;
use phlite::matrices::combinators::product;
use phlite::matrices::*;
use phlite::reduction::*;
use phlite_grpph::boundary::GrPPHBoundary;
use phlite_grpph::coboundary::*;
use rustc_hash::{FxHashMap, FxHashSet};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet};

/// A user-supplied filtration: every query is a seam call.
pub struct SimFil {
    n: usize,
    t: Vec<Option<i64>>,
}
impl DigraphFiltration for SimFil {
    fn edge_time(&self, s: &u16, t: &u16) -> Option<NotNan<f64>> {
        yp(Pt::Edge);
        self.t[*s as usize * self.n + *t as usize].map(nn)
    }
}
fn nn(x: i64) -> NotNan<f64> {
    NotNan::new(x as f64 * unit()).unwrap()
}
fn value(x: NotNan<f64>) -> R<i64> {
    in_units(x.into_inner())
}

pub struct Graph {
    pub f: Fld,
    pub n: usize,
    pub time: Vec<Option<i64>>, // edge times, row-major
    pub ground: Vec<bool>,
    pub bars: Bars,
}
impl Graph {
    pub fn birth(&self, e: usize) -> Option<i64> {
        if self.ground[e] { Some(0) } else { self.time[e] }
    }
    /// Boundaries of allowed elementary 2-paths, chains with allowed boundary, and their pairing with cycles.
    fn barcode(f: Fld, n: usize, time: &[Option<i64>], ground: &[bool]) -> Bars {
        let birth = |e: usize| if ground[e] { Some(0) } else { time[e] };
        let mut bars = Bars::default();
        let mut edges: Vec<(i64, usize)> = (0..n * n).filter_map(|e| birth(e).map(|t| (t, e))).collect();
        edges.sort();
        // degree 0, and the edges that close cycles
        let mut comp: Vec<usize> = (0..n).collect();
        let mut closing: BTreeSet<usize> = BTreeSet::new();
        for &(t, e) in &edges {
            let (a, b) = (comp[e / n], comp[e % n]);
            if a == b {
                closing.insert(e);
            } else {
                bars.add(0, 0, Some(t));
                comp.iter_mut().for_each(|c| {
                    if *c == a {
                        *c = b
                    }
                });
            }
        }
        for _ in comp.iter().collect::<BTreeSet<_>>() {
            bars.add(0, 0, None);
        }
        // degree 1
        let mut times: Vec<i64> = time.iter().flatten().copied().collect();
        times.sort();
        times.dedup();
        let mut killed: BTreeSet<usize> = BTreeSet::new();
        for &t in &times {
            let inside = |e: usize| time[e].is_some_and(|x| x <= t);
            let mut cols = vec![];
            for a in 0..n {
                for b in 0..n {
                    for c in 0..n {
                        if a == b || b == c || !inside(a * n + b) || !inside(b * n + c) {
                            continue;
                        }
                        let mut v = SVec::new();
                        add_term(f, &mut v, (a * n + b) as u32, f.one());
                        add_term(f, &mut v, (b * n + c) as u32, f.one());
                        if a != c {
                            add_term(f, &mut v, (a * n + c) as u32, f.neg(f.one()));
                        }
                        cols.push(v);
                    }
                }
            }
            let order: Vec<u32> = (0..cols.len() as u32).collect();
            let p = reduce(f, &cols, &order, |e| {
                let e = e as usize;
                if inside(e) { (0, birth(e).unwrap(), e) } else { (1, 0, e) }
            });
            for (e, _) in p.pairs {
                let e = e as usize;
                if inside(e) && killed.insert(e) {
                    bars.add(1, birth(e).unwrap(), Some(t));
                }
            }
        }
        for &e in &closing {
            if !killed.contains(&e) {
                bars.add(1, birth(e).unwrap(), None);
            }
        }
        bars
    }
    pub fn draw(f: Fld) -> Graph {
        let g = Graph::draw_part(f, 7);
        if g.n > 0 && chance(1, 300) {
            // the same digraph among many isolated vertices
            count("probe.many_vertices");
            let big = range(20, 80) as usize;
            return Graph::spread(f, vec![g], big, false);
        }
        if chance(1, 12) {
            let mut parts = vec![g];
            for _ in 0..range(1, 2) {
                parts.push(Graph::draw_part(f, 5));
            }
            count("probe.disjoint_union");
            let n = parts.iter().map(|g| g.n).sum();
            return Graph::spread(f, parts, n, true);
        }
        g
    }
    /// More vertices than fit a byte.
    fn draw_vast(f: Fld) -> Graph {
        let n = range(257, 420) as usize;
        let mut parts: Vec<Graph> = vec![];
        for _ in 0..range(1, 70) {
            parts.push(Graph::draw_part(f, 6));
        }
        count("probe.vast");
        Graph::spread(f, parts, n, true)
    }
    /// The disjoint union of digraphs, on `big` vertices.
    fn spread(f: Fld, parts: Vec<Graph>, big: usize, shuffle: bool) -> Graph {
        let total: usize = parts.iter().map(|g| g.n).sum();
        let mut at: Vec<usize> = vec![];
        let mut free: Vec<usize> = (0..big).collect();
        let mut r = Lrng(draw_seed());
        for _ in 0..total {
            at.push(free.swap_remove(r.below(free.len() as u64) as usize));
        }
        if !shuffle {
            at.sort();
        }
        desc(|| format!("spread over {big} vertices at {at:?}"));
        let (mut time, mut ground) = (vec![None; big * big], vec![false; big * big]);
        let mut bars = Bars::default();
        let mut base = 0;
        for g in &parts {
            for i in 0..g.n {
                for j in 0..g.n {
                    let e = at[base + i] * big + at[base + j];
                    time[e] = g.time[i * g.n + j];
                    ground[e] = g.ground[i * g.n + j];
                }
            }
            base += g.n;
            for (k, c) in &g.bars.0 {
                *bars.0.entry(*k).or_default() += c;
            }
        }
        for _ in total..big {
            bars.add(0, 0, None);
        }
        Graph { f, n: big, time, ground, bars }
    }
    fn draw_part(f: Fld, most: u32) -> Graph {
        let n = if most == 7 && chance(1, 200) { range(7, 9) } else { draw(most) } as usize;
        let mut time = vec![None; n * n];
        let mut ground = vec![false; n * n];
        let lv = [1, 2, 4, 12][draw(4) as usize];
        let dense = range(1, 7);
        let kind = draw(4);
        for e in 0..n * n {
            if e / n == e % n {
                continue;
            }
            match kind {
                // shortest-path filtration of a weighted digraph; some weights infinite
                0 | 1 => {
                    if chance(dense, 8) {
                        ground[e] = true;
                        if !chance(1, 10) {
                            time[e] = Some(draw(lv) as i64 + draw(2) as i64);
                        }
                    }
                }
                // any filtration whatever
                _ => {
                    if chance(dense, 8) {
                        time[e] = Some(draw(lv) as i64);
                        ground[e] = chance(1, 2);
                    } else {
                        ground[e] = kind == 3 && chance(1, 8);
                    }
                }
            }
        }
        if chance(1, 12) {
            // all late, at nearly the same time
            let late = [1 << 20, 1 << 26, 1i64 << 44][draw(3) as usize];
            time.iter_mut().flatten().for_each(|t| *t += late);
            count("probe.nearly_equal_times");
        }
        if kind < 2 {
            for k in 0..n {
                for i in 0..n {
                    for j in 0..n {
                        if let (Some(x), Some(y)) = (time[i * n + k], time[k * n + j]) {
                            if i != j && time[i * n + j].is_none_or(|z| x + y < z) {
                                time[i * n + j] = Some(x + y);
                            }
                        }
                    }
                }
            }
            count("probe.shortest_path_filtration");
        }
        desc(|| {
            let s: Vec<String> = (0..n * n).filter(|&e| time[e].is_some() || ground[e]).map(|e| format!("{}->{}{}{}", e / n, e % n, if ground[e] { "*" } else { "" }, time[e].map(|t| format!("@{t}")).unwrap_or("@never".into()))).collect();
            format!("{n} vertices, edges (* grounded) {}", s.join(" "))
        });
        let bars = Graph::barcode(f, n, &time, &ground);
        if bars.0.keys().any(|k| k.0 == 1 && k.2.is_some()) {
            count("probe.finite_bar_degree1");
        }
        Graph { f, n, time, ground, bars }
    }
    pub fn edge_set(&self) -> DigraphEdgeSet {
        let mut s = FxHashSet::default();
        for e in 0..self.n * self.n {
            if self.ground[e] {
                s.insert(((e / self.n) as u16, (e % self.n) as u16));
            }
        }
        s
    }
    /// When a cell enters, from the definition.
    fn cell_time(&self, c: &PathHomCell) -> Option<i64> {
        let t = |a: u16, b: u16| self.time[a as usize * self.n + b as usize];
        match *c {
            PathHomCell::Node(_) => Some(0),
            PathHomCell::Edge(a, b) => self.birth(a as usize * self.n + b as usize),
            PathHomCell::TwoCell(PathHom2Cell::DoubleEdge(a, b)) => Some(t(a, b)?.max(t(b, a)?)),
            PathHomCell::TwoCell(PathHom2Cell::DirectedTriangle(a, b, c)) => Some(t(a, b)?.max(t(b, c)?).max(t(a, c)?)),
            PathHomCell::TwoCell(PathHom2Cell::LongSquare(a, b, c, d)) => Some(t(a, b)?.max(t(b, d)?).max(t(a, c)?).max(t(c, d)?)),
        }
    }
    fn check_bars(&self, what: &str, only: Option<usize>, pairs: impl Iterator<Item = (PathHomCell, PathHomCell)>, ess: impl Iterator<Item = PathHomCell>, fil: impl Fn(PathHomCell) -> NotNan<f64>) -> R {
        let mut got = Bars::default();
        for (b, d) in pairs {
            let (bf, df) = (value(fil(b))?, value(fil(d))?);
            ensure!(Some(bf) == self.cell_time(&b) && Some(df) == self.cell_time(&d), "filtration-value", "{what}: {b:?} valued {bf}, {d:?} valued {df}");
            ensure!(d.dimension() == b.dimension() + 1, "pair-dimension", "{what}: {b:?} is paired with {d:?}");
            got.add(b.dimension(), bf, Some(df));
        }
        for e in ess {
            let v = value(fil(e))?;
            ensure!(Some(v) == self.cell_time(&e), "filtration-value", "{what}: essential {e:?} valued {v}");
            got.add(e.dimension(), v, None);
        }
        let want: BTreeMap<_, _> = self.bars.0.iter().filter(|(k, _)| only.is_none_or(|d| k.0 == d && k.2.is_some())).map(|(k, v)| (*k, *v)).collect();
        if only.is_some() {
            got.0.retain(|k, _| only == Some(k.0) && k.2.is_some());
        }
        ensure!(got.0 == want, "barcode", "{what}: barcode (degree, birth, death, in units) {:?}, should be {want:?}", got.0);
        Ok(())
    }
}

pub struct GrScenario {
    pub g: Graph,
    pub set: DigraphEdgeSet,
    pub kind: u32, // which filtration type
    pub sim: SimFil,
    pub vec: VecDigraphFiltration,
    pub map: MapDigraphFiltration,
}
type Coll = BTreeMap<PathHomCell, Val>;
type Cob<'a, C, F> = phlite::matrices::adaptors::MatrixWithBasis<GrPPHCoboundary<'a, C, F>, PathHomMultiBasis>;
type Bd<'a, C, F> = phlite::matrices::adaptors::MatrixWithBasis<GrPPHBoundary<'a, C, F>, PathHomSingleBasis>;
fn put(f: Fld, v: &mut Coll, k: PathHomCell, c: Val) {
    let s = match v.remove(&k) {
        None => Some(c),
        Some(x) => f.add(x, c),
    };
    if let Some(s) = s {
        v.insert(k, s);
    }
}
impl GrScenario {
    pub fn draw(f: Fld) -> GrScenario {
        let g = Graph::draw(f);
        let kind = [0, 0, 0, 1, 2][draw(5) as usize];
        GrScenario::of(g, kind)
    }
    fn of(g: Graph, kind: u32) -> GrScenario {
        let n = g.n;
        let vec = (0..n).map(|i| (0..n).map(|j| g.time[i * n + j].map(nn)).collect()).collect();
        let mut map = FxHashMap::default();
        for e in 0..n * n {
            if let Some(t) = g.time[e] {
                map.insert(((e / n) as u16, (e % n) as u16), nn(t));
            }
        }
        GrScenario { set: g.edge_set(), sim: SimFil { n, t: g.time.clone() }, g, kind, vec, map }
    }
    pub fn once(&self, mode: u32) -> R {
        self.once_over::<SF>(mode)
    }
    fn once_over<C: Coef>(&self, mode: u32) -> R {
        match self.kind {
            0 => self.with::<C, _>(&self.sim, mode),
            1 => self.with::<C, _>(&self.vec, mode),
            _ => self.with::<C, _>(&self.map, mode),
        }
    }
    fn with<C: Coef, F: DigraphFiltrationRef>(&self, fil: F, mode: u32) -> R {
        let d = GrPPHCoboundary::<C, _>::build(fil, &self.set, self.g.n as u16);
        let b = if mode & 16 != 0 { Some(self.whole_boundary(&d, fil)?) } else { None };
        self.on(&d, b.as_ref(), fil, mode)
    }
    /// The boundary matrix on all cells.
    fn whole_boundary<'s, C: Coef, F: DigraphFiltrationRef>(&'s self, d: &Cob<'_, C, F>, fil: F) -> R<Bd<'s, C, F>> {
        let two = self.cells(d)?;
        let mut cells: Vec<(NotNan<f64>, PathHomCell)> = two.keys().map(|c| (d.filtration_value(*c), *c)).collect();
        let bs = d.basis();
        for i in 0..bs.size() {
            let e = bs.element(i);
            cells.push((d.filtration_value(e), e));
        }
        cells.sort_by_key(|(t, c)| (*t, c.dimension(), *c));
        Ok(GrPPHBoundary::<C, _>::build(fil, &self.set, PathHomSingleBasis(cells)))
    }
    fn on<C: Coef, F: DigraphFiltrationRef>(&self, d: &Cob<'_, C, F>, shared: Option<&Bd<'_, C, F>>, fil: F, mode: u32) -> R {
        let g = &self.g;
        let rev = d.reverse();
        match mode % 8 {
            0 | 1 => {
                let (_, dg) = standard_algo_with_diagram(&rev, mode & 8 != 0);
                muted(|| g.check_bars("coboundary, standard", None, dg.pairings.iter().map(|p| (p.1 .0, p.0 .0)), dg.essential.iter().map(|e| e.0), |c| d.filtration_value(c)))
            }
            2 | 3 => {
                let (_, dg) = ClearedReductionMatrix::build_with_diagram(&rev, 0..=1);
                muted(|| g.check_bars("coboundary, clearing", None, dg.pairings.iter().map(|p| (p.1 .0, p.0 .0)), dg.essential.iter().map(|e| e.0), |c| d.filtration_value(c)))
            }
            4 => {
                // the involution: boundary restricted to the cells that kill cycles
                let (_, dg) = ClearedReductionMatrix::build_with_diagram(&rev, 0..=1);
                let mut cells: Vec<(NotNan<f64>, PathHomCell)> = dg.pairings.iter().filter(|p| p.1 .0.dimension() == 1).map(|p| (d.filtration_value(p.0 .0), p.0 .0)).collect();
                cells.sort();
                let b = GrPPHBoundary::<C, _>::build(fil, &self.set, PathHomSingleBasis(cells));
                let (_, bd) = standard_algo_with_diagram(&b, false);
                muted(|| g.check_bars("involution", Some(1), bd.pairings.iter().copied(), std::iter::empty(), |c| b.filtration_value(c)))
            }
            5 => {
                // the whole boundary matrix
                let own = if shared.is_none() { Some(self.whole_boundary(d, fil)?) } else { None };
                let b = shared.or(own.as_ref()).unwrap();
                let (_, bd) = standard_algo_with_diagram(b, mode & 8 != 0);
                muted(|| {
                    // (2-cycles are essential here and no part of the barcode)
                    g.check_bars("boundary, standard", None, bd.pairings.iter().copied(), bd.essential.iter().copied().filter(|e| e.dimension() < 2), |c| b.filtration_value(c))
                })?;
                let p = product(b, b);
                let bs = b.basis();
                for i in 0..bs.size() {
                    let c = bs.element(i);
                    if c.dimension() == 2 {
                        let mut s = Coll::new();
                        for (x, r) in p.column(c).driven() {
                            put(g.f, &mut s, r, x.val()?);
                        }
                        ensure!(s.is_empty(), "boundary-of-boundary", "of {c:?} is {s:?}");
                    }
                }
                Ok(())
            }
            6 => {
                // transposes, valued as they should be
                let two = self.cells(d)?;
                let own = if shared.is_none() { Some(GrPPHBoundary::<C, _>::build(fil, &self.set, PathHomSingleBasis(vec![]))) } else { None };
                let b = shared.or(own.as_ref()).unwrap();
                for (c, want) in &two {
                    for x in [c, want.keys().next().unwrap_or(c)] {
                        let v = value(b.filtration_value(*x))?;
                        ensure!(g.cell_time(x) == Some(v), "filtration-value", "{x:?} is valued {v} by the boundary matrix");
                    }
                    let mut got = Coll::new();
                    for e in b.column_with_filtration(*c).driven() {
                        let v = value(e.filtration_value)?;
                        ensure!(g.cell_time(&e.row_index) == Some(v), "filtration-of-entry", "{:?} delivered in the boundary of {c:?} with {v}", e.row_index);
                        put(g.f, &mut got, e.row_index, e.coeff.val()?);
                    }
                    ensure!(&got == want, "transpose", "boundary of {c:?} is {got:?}, the coboundaries say {want:?}");
                }
                let cc = product(d, d);
                for v in 0..g.n as u16 {
                    let mut s = Coll::new();
                    for (x, r) in cc.column(PathHomCell::Node(v)).driven() {
                        put(g.f, &mut s, r, x.val()?);
                    }
                    ensure!(s.is_empty(), "coboundary-of-coboundary", "of node {v} is {s:?}");
                }
                Ok(())
            }
            _ => {
                self.basis(d)?;
                self.cursors(d, shared, 12)
            }
        }
    }
    fn basis<C: Coef, F: DigraphFiltrationRef>(&self, d: &Cob<'_, C, F>) -> R {
        let g = &self.g;
        let b = d.basis();
        for k in 0..2 {
            let s = b.in_dimension(k);
            let mut seen = BTreeSet::new();
            let mut last = i64::MIN;
            for i in 0..s.size() {
                let c = s.element(i);
                ensure!(c.dimension() == k && seen.insert(c), "basis", "{c:?} in degree {k} of the basis");
                let v = g.cell_time(&c);
                ensure!(v.is_some_and(|v| v >= last), "basis-order", "degree {k} of the basis is not sorted at {c:?}");
                last = v.unwrap();
            }
            let want = if k == 0 { g.n } else { (0..g.n * g.n).filter(|&e| g.birth(e).is_some()).count() };
            ensure!(seen.len() == want, "basis", "degree {k} of the basis has {} cells, should have {want}", seen.len());
        }
        Ok(())
    }
    /// All 2-cells seen from the edges, with their entries; every delivered value checked.
    fn cells<C: Coef, F: DigraphFiltrationRef>(&self, d: &Cob<'_, C, F>) -> R<BTreeMap<PathHomCell, Coll>> {
        let g = &self.g;
        let mut two: BTreeMap<PathHomCell, Coll> = BTreeMap::new();
        let bs = d.basis();
        for i in 0..bs.size() {
            let e = bs.element(i);
            let mut col = Coll::new();
            for x in d.matrix.column_with_filtration(e).driven() {
                let v = value(x.filtration_value)?;
                ensure!(g.cell_time(&x.row_index) == Some(v), "filtration-of-entry", "{:?} delivered in the coboundary of {e:?} with value {v}, should be {:?}", x.row_index, g.cell_time(&x.row_index));
                put(g.f, &mut col, x.row_index, x.coeff.val()?);
            }
            for (c, x) in col {
                ensure!(c.dimension() == e.dimension() + 1, "column-read", "{c:?} in the coboundary of {e:?}");
                if e.dimension() == 1 {
                    two.entry(c).or_default().insert(e, x);
                } else if let PathHomCell::Edge(s, t) = c {
                    let want = if PathHomCell::Node(t) == e { g.f.one() } else { g.f.neg(g.f.one()) };
                    ensure!((PathHomCell::Node(s) == e || PathHomCell::Node(t) == e) && x == want, "column-read", "{c:?} has coefficient {x:?} in the coboundary of {e:?}");
                }
            }
        }
        // no incident edge is missing
        for v in 0..g.n {
            let k = d.column(PathHomCell::Node(v as u16)).count();
            let want = (0..g.n * g.n).filter(|&e| g.birth(e).is_some() && (e / g.n == v || e % g.n == v)).count();
            ensure!(k == want, "column-read", "node {v} has {k} incident edges, should have {want}");
        }
        Ok(two)
    }
    /// Columns of the coboundary matrix, and of the boundary matrix if there is one, read in turns.
    fn cursors<C: Coef, F: DigraphFiltrationRef>(&self, d: &Cob<'_, C, F>, b: Option<&Bd<'_, C, F>>, ops: u32) -> R {
        let g = &self.g;
        let bs = d.basis();
        let k = bs.size() as u32;
        if k == 0 {
            return Ok(());
        }
        let rev = d.reverse();
        let whole = |c: PathHomCell, lower: bool| -> R<Coll> {
            let mut v = Coll::new();
            match b {
                Some(b) if lower => {
                    for (x, r) in b.column(c).driven() {
                        put(g.f, &mut v, r, x.val()?);
                    }
                }
                _ => {
                    for (x, r) in d.column(c).driven() {
                        put(g.f, &mut v, r, x.val()?);
                    }
                }
            }
            Ok(v)
        };
        type It<'a, C> = Box<dyn Iterator<Item = (C, PathHomCell, Option<NotNan<f64>>)> + 'a>;
        let mut open: Vec<(PathHomCell, Coll, It<C>, bool)> = vec![];
        let step = |c: &mut (PathHomCell, Coll, It<C>, bool), m: u32| -> R<bool> {
            for _ in 0..m {
                let Some((x, r, v)) = c.2.next() else {
                    let want = muted(|| whole(c.0, c.3))?;
                    ensure!(c.1 == want, "column-read", "{} of {:?} read as {:?}, on its own as {want:?}", if c.3 { "boundary" } else { "coboundary" }, c.0, c.1);
                    count("cursor.completed");
                    return Ok(false);
                };
                if let Some(v) = v {
                    let v = value(v)?;
                    ensure!(g.cell_time(&r) == Some(v), "filtration-of-entry", "{r:?} delivered in a column of {:?} with value {v}", c.0);
                }
                put(g.f, &mut c.1, r, x.val()?);
            }
            Ok(true)
        };
        for _ in 0..ops {
            match draw(5) {
                0 if b.is_some() && open.len() < 5 => {
                    let b = b.unwrap();
                    let bs = b.basis();
                    let c = bs.element(draw(bs.size() as u32) as usize);
                    note(|| format!("open boundary of {c:?}"));
                    let it: It<C> = match draw(3) {
                        0 => Box::new(b.column(c).map(|(x, r)| (x, r, None)).driven()),
                        1 => Box::new(b.column_with_filtration(c).map(|e| (e.coeff, e.row_index, Some(e.filtration_value))).driven()),
                        _ => Box::new(b.matrix.column_with_filtration(c).map(|e| (e.coeff, e.row_index, Some(e.filtration_value))).driven()),
                    };
                    open.push((c, Coll::new(), it, true));
                    count("cursor.opened");
                    count("probe.boundary_cursor");
                }
                0 | 1 if open.len() < 5 => {
                    let c = bs.element(draw(k) as usize);
                    note(|| format!("open coboundary of {c:?}"));
                    let it: It<C> = match draw(4) {
                        0 => Box::new(d.column(c).map(|(x, r)| (x, r, None)).driven()),
                        1 => Box::new(d.column_with_filtration(c).map(|e| (e.coeff, e.row_index, Some(e.filtration_value))).driven()),
                        2 => Box::new(d.matrix.column_with_filtration(c).map(|e| (e.coeff, e.row_index, Some(e.filtration_value))).driven()),
                        _ => Box::new(rev.column_with_filtration(Reverse(c)).map(|e| (e.coeff, e.row_index.0, Some(e.filtration_value.0))).driven()),
                    };
                    open.push((c, Coll::new(), it, false));
                    count("cursor.opened");
                    if open.len() > 1 {
                        count("cursor.overlapping");
                    }
                }
                2 if !open.is_empty() && chance(1, 3) => {
                    let i = draw(open.len() as u32) as usize;
                    drop(open.swap_remove(i));
                    count("cursor.abandoned");
                }
                _ if !open.is_empty() => {
                    let i = draw(open.len() as u32) as usize;
                    if !step(&mut open[i], [1, 2, 1000][draw(3) as usize])? {
                        drop(open.swap_remove(i));
                    }
                }
                _ => {}
            }
        }
        for mut c in open {
            while step(&mut c, 100)? {}
        }
        Ok(())
    }
}

pub fn run_c10(w: &World) -> R {
    draw_unit();
    let f = draw_field(true);
    if chance(1, 16) {
        return lifetimes(w, || GrScenario::draw(f), |sc| sc.once(draw(16)));
    }
    if chance(1, 600) {
        let sc = GrScenario::of(Graph::draw_vast(f), [1, 1, 1, 2][draw(4) as usize]);
        let m = draw(16);
        return w.run_clients(vec![Box::new(|| sc.once(m)) as Box<dyn FnOnce() -> R + Send>]).into_iter().collect();
    }
    if draw_native(f) {
        native!(f, C => run_over::<C>(w, f))
    } else {
        run_over::<SF>(w, f)
    }
}
fn run_over<C: Coef>(w: &World, f: Fld) -> R {
    let scs = several(|| GrScenario::draw(f));
    let clients = users(&[1, 1, 2, 3, 4]);
    let modes: Vec<Vec<u32>> = (0..clients).map(|_| (0..1 + draw(3)).map(|_| draw(32)).collect()).collect();
    let shared = chance(1, 2);
    // one matrix for all, or one each, built while the others work
    let one: Vec<_> = if shared { scs.iter().map(|sc| Wrap(GrPPHCoboundary::<C, _>::build(&sc.sim, &sc.set, sc.g.n as u16))).collect() } else { vec![] };
    let mut bds = vec![];
    if shared && chance(1, 2) {
        for (d, sc) in one.iter().zip(&scs) {
            bds.push(Wrap(muted(|| sc.whole_boundary(d.get(), &sc.sim))?));
        }
    }
    let (one, scs, bds) = (&one, &scs, &bds);
    let go = &|m: u32| {
        let k = draw(scs.len() as u32) as usize;
        match one.get(k) {
            Some(d) => scs[k].on(d.get(), bds.get(k).map(|b| b.get()), &scs[k].sim, m),
            None => scs[k].once_over::<C>(m),
        }
    };
    let cs: Vec<Box<dyn FnOnce() -> R + Send>> = modes
        .into_iter()
        .map(|ms| {
            Box::new(move || {
                for m in ms {
                    nested(&|| go(draw(32)), || go(m))?;
                    count("op.grpph");
                }
                Ok(())
            }) as Box<dyn FnOnce() -> R + Send>
        })
        .collect();
    w.run_clients(cs).into_iter().collect()
}
