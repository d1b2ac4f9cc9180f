//! Small independent linear algebra over the model field.
use crate::field::*;
use crate::drive::*;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

pub type SVec = BTreeMap<u32, Val>;

pub fn add_term(f: Fld, v: &mut SVec, row: u32, c: Val) {
    match v.remove(&row) {
        None => {
            v.insert(row, c);
        }
        Some(x) => {
            if let Some(s) = f.add(x, c) {
                v.insert(row, s);
            }
        }
    }
}
pub fn axpy(f: Fld, v: &mut SVec, c: Val, w: &SVec) {
    for (&r, &x) in w {
        add_term(f, v, r, f.mul(c, x));
    }
}
pub fn mat_vec(f: Fld, cols: &[SVec], v: &SVec) -> SVec {
    let mut out = SVec::new();
    for (&j, &c) in v {
        axpy(f, &mut out, c, &cols[j as usize]);
    }
    out
}
/// Largest row of `v` in the order given by `key`.
pub fn pivot<K: Ord>(v: &SVec, key: impl Fn(u32) -> K) -> Option<u32> {
    v.keys().copied().max_by_key(|&r| key(r))
}

/// Standard persistence pairing computed on plain columns: `order` is the column order, `key` the row order.
pub struct Pairing {
    pub pairs: BTreeSet<(u32, u32)>,
    pub zero_cols: BTreeSet<u32>,
}
pub fn reduce<K: Ord>(f: Fld, cols: &[SVec], order: &[u32], key: impl Fn(u32) -> K) -> Pairing {
    let mut low: BTreeMap<u32, (u32, SVec)> = BTreeMap::new();
    let mut out = Pairing { pairs: BTreeSet::new(), zero_cols: BTreeSet::new() };
    for &j in order {
        let mut r = cols[j as usize].clone();
        loop {
            let Some(p) = pivot(&r, &key) else {
                out.zero_cols.insert(j);
                break;
            };
            if let Some((_, w)) = low.get(&p) {
                let c = f.neg(f.mul(r[&p], f.inv(w[&p])));
                axpy(f, &mut r, c, w);
            } else {
                low.insert(p, (j, r));
                out.pairs.insert((p, j));
                break;
            }
        }
    }
    out
}
/// Sum up what a stream delivered.
pub fn collect<C: Coef>(f: Fld, it: impl Iterator<Item = (C, u32)>) -> R<SVec> {
    let mut v = SVec::new();
    for (c, r) in it.driven() {
        let c = c.val()?;
        add_term(f, &mut v, r, c);
    }
    Ok(v)
}
pub fn show(v: &SVec) -> String {
    let s: Vec<String> = v
        .iter()
        .map(|(r, c)| if c.d == 1 { format!("{}*{}", c.n, r) } else { format!("{}/{}*{}", c.n, c.d, r) })
        .collect();
    format!("[{}]", s.join(" "))
}

/// (dimension, birth, death) with multiplicity; bars of no length are left out.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Bars(pub std::collections::BTreeMap<(usize, i64, Option<i64>), u32>);
impl Bars {
    pub fn add(&mut self, dim: usize, b: i64, d: Option<i64>) {
        if d != Some(b) {
            *self.0.entry((dim, b, d)).or_default() += 1;
        }
    }
    pub fn below(&self, dim: usize) -> Bars {
        Bars(self.0.iter().filter(|(k, _)| k.0 < dim).map(|(k, v)| (*k, *v)).collect())
    }
}

