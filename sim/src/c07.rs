//! C07: the parts a user supplies fail by unwinding, at any of their calls, inside any library operation.
use crate::c01::{reduce_std, ClearScenario, StdScenario};
use crate::c03::RipsScenario;
use crate::c04::draw_pool;
use crate::c05::{draw_rec, linked, with_fault};
use crate::c06::{history, Bwd, Fwd};
use crate::c10::GrScenario;
use crate::checks::*;
use crate::ensure;
use crate::expr::*;
use crate::field::*;
use crate::model::*;
use crate::simmat::*;
use crate::world::*;
use phlite::matrices::*;
use std::sync::Arc;

/// Something several users can do at the same time to things they share.
trait Job: Send + Sync {
    fn once(&self, mode: u32) -> R;
    fn name(&self) -> &'static str;
}
struct Std(StdScenario);
impl Job for Std {
    fn once(&self, mode: u32) -> R {
        self.0.once(mode)
    }
    fn name(&self) -> &'static str {
        "standard reduction"
    }
}
struct Clear(ClearScenario);
impl Job for Clear {
    fn once(&self, mode: u32) -> R {
        self.0.once(mode)
    }
    fn name(&self) -> &'static str {
        "clearing reduction"
    }
}
struct Rips(RipsScenario);
impl Job for Rips {
    fn once(&self, mode: u32) -> R {
        self.0.once(mode)
    }
    fn name(&self) -> &'static str {
        "Vietoris-Rips"
    }
}
struct Gr(GrScenario);
impl Job for Gr {
    fn once(&self, mode: u32) -> R {
        self.0.once(mode)
    }
    fn name(&self) -> &'static str {
        "grounded path homology"
    }
}
/// Reads of composed matrices.
struct Reads {
    f: Fld,
    n: u32,
    pool: Pool,
    other: Vec<Dyn>,
}
impl Job for Reads {
    fn once(&self, mode: u32) -> R {
        let d = if mode & 1 == 0 || self.other.is_empty() { self.pool.items.last().unwrap() } else { &self.other[(mode >> 1) as usize % self.other.len()] };
        if self.n == 0 {
            return Ok(());
        }
        let c = draw(self.n);
        match mode % 3 {
            0 => {
                let got = collect(self.f, d.column(Idx(c)).map(|(x, r)| (x, r.0)))?;
                ensure!(got == d.den.cols[c as usize], "column-read", "column {c} of {} read as {}, should be {}", d.name, show(&got), show(&d.den.cols[c as usize]));
            }
            1 => {
                let mut got = SVec::new();
                for e in d.column_with_filtration(Idx(c)) {
                    ensure!(e.filtration_value == d.den.fil[e.row_index.0 as usize], "filtration-of-entry", "row {} delivered with {}", e.row_index.0, e.filtration_value);
                    add_term(self.f, &mut got, e.row_index.0, e.coeff.val()?);
                }
                ensure!(got == d.den.cols[c as usize], "column-read", "column {c} of {} read as {}, should be {}", d.name, show(&got), show(&d.den.cols[c as usize]));
            }
            _ => {
                let cols: Vec<u32> = (0..self.n).collect();
                interleaved_reads(d, self.f, &cols, |j| d.den.cols[j as usize].clone(), |r, x| *x == d.den.fil[r as usize], 8)?;
            }
        }
        Ok(())
    }
    fn name(&self) -> &'static str {
        "composed reads"
    }
}

fn draw_job(f: Fld) -> Box<dyn Job> {
    match draw(5) {
        0 => Box::new(Std(StdScenario::draw(f))),
        1 => Box::new(Clear(ClearScenario::draw(f))),
        2 => Box::new(Gr(GrScenario::draw(f))),
        3 => Box::new(Rips(RipsScenario::draw(f, false))),
        _ => {
            let n = range(1, 5) as usize;
            let pool = draw_pool(f, n, 4, false);
            let other = pool.items.iter().map(|d| d.clone()).collect();
            Box::new(Reads { f, n: n as u32, pool, other })
        }
    }
}

/// One user: runs the operation, and fails in it somewhere, again and again.
fn unlucky(job: &dyn Job, other: &dyn Job, rounds: u32) -> R {
    let mode = draw(16);
    // how long the operation is, in calls of user-supplied parts
    let c0 = my_calls();
    job.once(mode)?;
    let len = my_calls() - c0;
    count("op.without_fault");
    if len == 0 {
        return Ok(());
    }
    // rarely so many failures that what each leaves behind would add up
    let rounds = if chance(1, 24) {
        count("probe.many_failures");
        ((1_000_000 / len) as u32).clamp(rounds, 40 + draw(260))
    } else {
        rounds
    };
    for _ in 0..rounds {
        let at = 1 + match draw(4) {
            0 => draw(len.min(4) as u32) as u64,
            1 => len - 1 - draw(len.min(4) as u32) as u64,
            _ => draw(len as u32) as u64,
        };
        let inner = || -> R {
            if draw(2) == 0 {
                return other.once(draw(16));
            }
            // one that fails itself, and is contained by the part that started it
            let at = 1 + draw(40) as u64;
            if let Outcome::Failed = with_fault(at, || other.once(draw(16)))? {
                count("op.contained_failure");
            }
            Ok(())
        };
        match with_fault(at, || nested(&inner, || job.once(mode)))? {
            Outcome::Done(()) => count("op.fault_not_reached"),
            Outcome::Failed => {
                count("op.failed");
                if chance(if rounds > 4 { 9 } else { 3 }, 10) {
                    continue; // fail again before the retry
                }
                job.once(mode)?;
                count("op.retry_after_failure");
            }
        }
    }
    job.once(mode)?;
    count("op.retry_after_failure");
    Ok(())
}

/// A cache that outlives the failures of the operations through it.
fn cached_user(rounds: u32) -> R {
    let f = draw_field(true);
    if chance(1, 2) {
        let rec = draw_rec(f);
        let (den, book) = (rec.den.clone(), rec.book.clone());
        let cache = rec.cache_cols();
        linked(&book, &cache, || {
            let n = den.n() as u32;
            let whole = |c: u32| -> R {
                let got = collect(cache_f(&den), cache.column(Idx(c)).map(|(x, r)| (x, r.0)))?;
                ensure!(got == den.cols[c as usize], "partial-retained", "column {c} of the cached matrix is {}, should be {}", show(&got), show(&den.cols[c as usize]));
                Ok(())
            };
            for _ in 0..rounds * 2 {
                let c = draw(n);
                let at = 1 + draw(12) as u64;
                if let Outcome::Failed = with_fault(at, || whole(c))? {
                    count("op.failed");
                    let c2 = if chance(1, 2) { c } else { draw(n) };
                    whole(c2)?;
                    count("op.retry_after_failure");
                }
            }
            for c in 0..n {
                whole(c)?;
            }
            Ok(())
        })
    } else {
        let n = range(1, 6) as usize;
        let den = draw_den(f, n, 2);
        desc(|| show_den(&den));
        let view = View::of(&den, false);
        let leaf = Dyn::leaf(SimMat::new(den, Delivery::draw(), draw(3)));
        let cache = leaf.cache_cols();
        let mode = draw(8);
        for _ in 0..rounds {
            let at = 1 + draw(200) as u64;
            match with_fault(at, || reduce_std(&cache, &view, mode))? {
                Outcome::Failed => {
                    count("op.failed");
                    reduce_std(&cache, &view, mode)?;
                    count("op.retry_after_failure");
                }
                Outcome::Done(()) => count("op.fault_not_reached"),
            }
        }
        reduce_std(&cache, &view, mode)
    }
}
fn cache_f(d: &Arc<Den>) -> Fld {
    d.f
}

pub fn run_c07(w: &World) -> R {
    draw_unit();
    let kind = draw(8);
    if kind == 7 {
        let rounds = range(1, 4);
        return w.run_clients(vec![Box::new(move || cached_user(rounds))]).into_iter().collect();
    }
    if kind == 6 {
        // heap columns whose sources fail
        let f = draw_field(true);
        let n = range(1, 6);
        let fil: Vec<isize> = (0..n).map(|_| draw(4) as isize).collect();
        let fwd = chance(1, 2);
        return w
            .run_clients(vec![Box::new(move || if fwd { history::<Fwd, SF>(f, fil, 20) } else { history::<Bwd, SF>(f, fil, 20) })])
            .into_iter()
            .collect();
    }
    let f = draw_field(true);
    let jobs = several(|| draw_job(f));
    let job = &*jobs[0];
    let other = &*jobs[jobs.len() - 1];
    note(|| job.name().into());
    let clients = users(&[1, 1, 2, 3]);
    // the first user always meets failures; the others may
    let plan: Vec<(bool, u32)> = (0..clients).map(|i| (i == 0 || chance(1, 3), range(1, 4))).collect();
    let cs: Vec<Box<dyn FnOnce() -> R + Send>> = plan
        .into_iter()
        .map(|(bad, rounds)| {
            Box::new(move || {
                if bad {
                    unlucky(job, other, rounds)
                } else {
                    for _ in 0..rounds {
                        if draw(2) == 0 { job } else { other }.once(draw(16))?;
                        count("op.bystander");
                    }
                    Ok(())
                }
            }) as Box<dyn FnOnce() -> R + Send>
        })
        .collect();
    w.run_clients(cs).into_iter().collect()
}
