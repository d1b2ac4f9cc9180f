//! The real coefficient types behind one type.  `SF` carries a real value of the run's field together with
//! the value the field axioms give it; the two are compared, and every operation is a seam call.
use crate::world::*;
use phlite::fields::*;
use std::ops::{Add, Mul};
use fine::own::{AtomicBool, AtomicU8};
use std::sync::atomic::Ordering;
use std::sync::OnceLock;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct Val {
    pub n: i64,
    pub d: i64,
}
/// The characteristic (0 for the rationals).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Fld {
    pub p: i64,
}
pub const FIELDS: [i64; 7] = [2, 3, 5, 7, 11, 13, 0];
pub struct Discard;

const LIM: i128 = 1 << 60;
fn fits(x: i128) -> i64 {
    if x.abs() >= LIM {
        std::panic::panic_any(Discard);
    }
    x as i64
}
fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}
impl Fld {
    pub fn int(self, k: i64) -> Option<Val> {
        let n = if self.p > 0 { k.rem_euclid(self.p) } else { k };
        if n == 0 { None } else { Some(Val { n, d: 1 }) }
    }
    pub fn one(self) -> Val {
        Val { n: 1, d: 1 }
    }
    pub fn add(self, a: Val, b: Val) -> Option<Val> {
        if self.p > 0 {
            return self.int(a.n + b.n);
        }
        let x = fits(a.n as i128 * b.d as i128);
        let y = fits(b.n as i128 * a.d as i128);
        let d = fits(a.d as i128 * b.d as i128);
        let n = x + y;
        if n == 0 {
            return None;
        }
        let g = gcd(n, d);
        Some(Val { n: n / g, d: d / g })
    }
    pub fn mul(self, a: Val, b: Val) -> Val {
        if self.p > 0 {
            return Val { n: (a.n * b.n) % self.p, d: 1 };
        }
        let n = fits(a.n as i128 * b.n as i128);
        let d = fits(a.d as i128 * b.d as i128);
        let g = gcd(n, d);
        Val { n: n / g, d: d / g }
    }
    pub fn neg(self, a: Val) -> Val {
        if self.p > 0 { Val { n: self.p - a.n, d: 1 } } else { Val { n: -a.n, d: a.d } }
    }
    pub fn inv(self, a: Val) -> Val {
        if self.p > 0 {
            let mut r = 1;
            for _ in 0..self.p - 2 {
                r = r * a.n % self.p;
            }
            Val { n: r, d: 1 }
        } else {
            Val { n: a.n.signum() * a.d, d: a.n.abs() }
        }
    }
    pub fn name(self) -> String {
        if self.p == 0 { "Q".into() } else { format!("Z{}", self.p) }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum AnyF {
    F2(Z2),
    F3(Z3),
    F5(Z5),
    F7(Z7),
    F11(Z11),
    F13(Z13),
    FQ(Q),
}
use AnyF::*;

macro_rules! bin {
    ($a:expr, $b:expr, $x:ident, $y:ident, $e:expr, $w:expr) => {
        match ($a, $b) {
            (F2($x), F2($y)) => $w(F2 as fn(_) -> _, $e),
            (F3($x), F3($y)) => $w(F3 as fn(_) -> _, $e),
            (F5($x), F5($y)) => $w(F5 as fn(_) -> _, $e),
            (F7($x), F7($y)) => $w(F7 as fn(_) -> _, $e),
            (F11($x), F11($y)) => $w(F11 as fn(_) -> _, $e),
            (F13($x), F13($y)) => $w(F13 as fn(_) -> _, $e),
            (FQ($x), FQ($y)) => $w(FQ as fn(_) -> _, $e),
            _ => panic!("mixed fields"),
        }
    };
}
fn wo<T>(f: fn(T) -> AnyF, x: Option<T>) -> Option<AnyF> {
    x.map(f)
}
fn wv<T>(f: fn(T) -> AnyF, x: T) -> AnyF {
    f(x)
}
impl AnyF {
    fn one(p: i64) -> AnyF {
        match p {
            2 => F2(Z2::one()),
            3 => F3(Z3::one()),
            5 => F5(Z5::one()),
            7 => F7(Z7::one()),
            11 => F11(Z11::one()),
            13 => F13(Z13::one()),
            _ => FQ(Q::one()),
        }
    }
    fn add(self, o: AnyF) -> Option<AnyF> {
        bin!(self, o, x, y, x + y, wo)
    }
    fn mul(self, o: AnyF) -> AnyF {
        bin!(self, o, x, y, x * y, wv)
    }
    fn neg(self) -> AnyF {
        bin!(self, self, x, _y, x.additive_inverse(), wv)
    }
    fn inv(self) -> AnyF {
        bin!(self, self, x, _y, x.mult_inverse(), wv)
    }
    /// `x + Option` is a separate operator of every field.
    fn addo(self, o: Option<AnyF>) -> Option<AnyF> {
        macro_rules! g {
            ($v:ident, $x:expr) => {
                ($x + o.map(|q| match q { $v(y) => y, _ => panic!("mixed fields") })).map($v)
            };
        }
        match self {
            F2(x) => g!(F2, x),
            F3(x) => g!(F3, x),
            F5(x) => g!(F5, x),
            F7(x) => g!(F7, x),
            F11(x) => g!(F11, x),
            F13(x) => g!(F13, x),
            FQ(x) => g!(FQ, x),
        }
    }
}

fn lift_nat(p: i64, k: u64) -> Option<AnyF> {
    let mut acc: Option<AnyF> = None;
    for i in (0..64 - k.leading_zeros()).rev() {
        acc = acc.and_then(|a| a.add(a));
        if k >> i & 1 == 1 {
            acc = match acc {
                None => Some(AnyF::one(p)),
                Some(a) => a.add(AnyF::one(p)),
            };
        }
    }
    acc
}
static TABLES: OnceLock<Vec<Vec<Option<AnyF>>>> = OnceLock::new();
fn table(p: i64) -> &'static [Option<AnyF>] {
    let t = TABLES.get_or_init(|| {
        FIELDS[..6]
            .iter()
            .map(|&p| {
                let mut v: Vec<Option<AnyF>> = vec![None];
                for k in 1..p {
                    let x = match v[k as usize - 1] {
                        None if k > 1 => None,
                        None => Some(AnyF::one(p)),
                        Some(a) => a.add(AnyF::one(p)),
                    };
                    v.push(x);
                }
                v
            })
            .collect()
    });
    &t[FIELDS.iter().position(|&q| q == p).unwrap()]
}
fn lift(p: i64, v: Val) -> Option<AnyF> {
    if p > 0 {
        return table(p)[v.n as usize];
    }
    let n = lift_nat(0, v.n.unsigned_abs())?;
    let n = if v.n < 0 { n.neg() } else { n };
    let d = lift_nat(0, v.d as u64)?;
    Some(if v.d == 1 { n } else { n.mul(d.inv()) })
}

static CUR: AtomicU8 = AtomicU8::new(2);
pub fn set_field(f: Fld) {
    NATIVE.store(false, Ordering::SeqCst);
    CUR.store(f.p as u8, Ordering::SeqCst);
}
pub fn cur_field() -> Fld {
    Fld { p: CUR.load(Ordering::SeqCst) as i64 }
}

pub struct FieldMismatch(pub String);
fn mismatch(op: &str) -> ! {
    std::panic::panic_any(FieldMismatch(format!("{} {op}: zero/non-zero differs from the field", cur_field().name())))
}

#[derive(Clone, Copy)]
pub struct SF {
    real: AnyF,
    sh: Val,
}
impl std::fmt::Debug for SF {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.real)
    }
}
impl PartialEq for SF {
    fn eq(&self, o: &SF) -> bool {
        self.real == o.real
    }
}
impl Eq for SF {}
impl SF {
    pub fn of(v: Val) -> SF {
        match lift(cur_field().p, v) {
            Some(real) => SF { real, sh: v },
            None => mismatch("repeated addition of one"),
        }
    }
    /// The element this coefficient should stand for.
    pub fn sh(&self) -> Val {
        self.sh
    }
    /// The element this coefficient stands for; the real value must be that element.
    pub fn val(&self) -> R<Val> {
        let l = lift(cur_field().p, self.sh);
        if l != Some(self.real) {
            return viol(
                "field-value",
                format!("{}: coefficient is {:?} where the field gives {:?} = {:?}", cur_field().name(), self.real, self.sh, l),
            );
        }
        Ok(self.sh)
    }
}
impl Add<SF> for SF {
    type Output = Option<SF>;
    fn add(self, o: SF) -> Option<SF> {
        yp(Pt::Field);
        let sh = cur_field().add(self.sh, o.sh);
        match (self.real.add(o.real), sh) {
            (Some(real), Some(sh)) => Some(SF { real, sh }),
            (None, None) => None,
            _ => mismatch("sum"),
        }
    }
}
impl Add<Option<SF>> for SF {
    type Output = Option<SF>;
    fn add(self, o: Option<SF>) -> Option<SF> {
        yp(Pt::Field);
        let sh = match o {
            None => Some(self.sh),
            Some(o) => cur_field().add(self.sh, o.sh),
        };
        match (self.real.addo(o.map(|x| x.real)), sh) {
            (Some(real), Some(sh)) => Some(SF { real, sh }),
            (None, None) => None,
            _ => mismatch("sum with option"),
        }
    }
}
impl Mul<SF> for SF {
    type Output = SF;
    fn mul(self, o: SF) -> SF {
        yp(Pt::Field);
        let sh = cur_field().mul(self.sh, o.sh);
        SF { real: self.real.mul(o.real), sh }
    }
}
impl NonZeroCoefficient for SF {
    fn one() -> SF {
        yp(Pt::Field);
        let f = cur_field();
        SF { real: AnyF::one(f.p), sh: f.one() }
    }
    fn additive_inverse(self) -> SF {
        yp(Pt::Field);
        SF { real: self.real.neg(), sh: cur_field().neg(self.sh) }
    }
}
impl Invertible for SF {
    fn mult_inverse(self) -> SF {
        yp(Pt::Field);
        let sh = cur_field().inv(self.sh);
        SF { real: self.real.inv(), sh }
    }
}

/// Coefficients of the model's field: the simulator's own type, or one of the library's as it is.
pub trait Coef: Invertible + 'static {
    fn of(v: Val) -> Self;
    fn val(&self) -> R<Val>;
}
impl Coef for SF {
    fn of(v: Val) -> SF {
        SF::of(v)
    }
    fn val(&self) -> R<Val> {
        SF::val(self)
    }
}
macro_rules! coef {
    ($t:ident, $v:ident, $p:expr) => {
        impl Coef for $t {
            fn of(v: Val) -> $t {
                match lift($p, v) {
                    Some($v(x)) => x,
                    _ => mismatch("repeated addition of one"),
                }
            }
            fn val(&self) -> R<Val> {
                match table($p).iter().position(|x| *x == Some($v(*self))) {
                    Some(n) => Ok(Val { n: n as i64, d: 1 }),
                    None => viol("field-value", format!("{:?} is no element of Z{}", self, $p)),
                }
            }
        }
    };
}
coef!(Z2, F2, 2);
coef!(Z3, F3, 3);
coef!(Z5, F5, 5);
coef!(Z7, F7, 7);
coef!(Z11, F11, 11);
coef!(Z13, F13, 13);
static SMALL: OnceLock<Vec<(Q, Val)>> = OnceLock::new();
impl Coef for Q {
    fn of(v: Val) -> Q {
        match lift(0, v) {
            Some(FQ(x)) => x,
            _ => mismatch("repeated addition of one"),
        }
    }
    fn val(&self) -> R<Val> {
        let small = SMALL.get_or_init(|| {
            let mut t = vec![];
            for d in 1..=12 {
                for n in (-40..=40).filter(|&n| n != 0 && gcd(n, d) == 1) {
                    let v = Val { n, d };
                    t.push((Q::of(v), v));
                }
            }
            t.sort_by_key(|x| (x.1.d + x.1.n.abs(), x.1.n));
            t
        });
        if let Some(x) = small.iter().find(|x| x.0 == *self) {
            return Ok(x.1);
        }
        // the numbers it shows, if it is made of them
        let s = format!("{self:?}");
        let k: Vec<i64> = s.split(|c: char| !c.is_ascii_digit() && c != '-').filter_map(|x| x.parse().ok()).collect();
        if let [n, d] = k[..] {
            if n != 0 && d > 0 && Q::of(Val { n, d }) == *self {
                return Ok(Val { n, d });
            }
        }
        std::panic::panic_any(Discard)
    }
}
/// `$e` with `$c` standing for the library's own type of the field `$f`.
#[macro_export]
macro_rules! native {
    ($f:expr, $c:ident => $e:expr) => {
        match $f.p {
            2 => { type $c = phlite::fields::Z2; $e }
            3 => { type $c = phlite::fields::Z3; $e }
            5 => { type $c = phlite::fields::Z5; $e }
            7 => { type $c = phlite::fields::Z7; $e }
            11 => { type $c = phlite::fields::Z11; $e }
            13 => { type $c = phlite::fields::Z13; $e }
            _ => { type $c = phlite::fields::Q; $e }
        }
    };
}
/// Whether this run uses the library's own coefficient types (no seam in them).
pub fn draw_native(f: Fld) -> bool {
    let n = chance(1, 8);
    NATIVE.store(n, Ordering::SeqCst);
    if n {
        count("probe.native_coefficients");
        desc(|| format!("{} itself", f.name()));
    }
    n
}
pub fn native_rational() -> bool {
    NATIVE.load(Ordering::SeqCst) && cur_field().p == 0
}
static NATIVE: AtomicBool = AtomicBool::new(false);

/// Draw the field of a run and make it current.
pub fn draw_field(allow_q: bool) -> Fld {
    let k = draw(if allow_q { 8 } else { 7 });
    let p = match k {
        0 | 1 => 2,
        2 => 3,
        3 => 5,
        4 => 7,
        5 => 11,
        6 => 13,
        _ => 0,
    };
    let f = Fld { p };
    set_field(f);
    desc(|| format!("field {}", f.name()));
    count(["field.Q", "", "field.Z2", "field.Z3", "", "field.Z5", "", "field.Z7", "", "", "", "field.Z11", "", "field.Z13"][p as usize]);
    f
}
/// A random non-zero element; 0 draws one.
pub fn draw_val(f: Fld) -> Val {
    if f.p > 0 {
        Val { n: 1 + draw((f.p - 1) as u32) as i64, d: 1 }
    } else {
        match draw(10) {
            0..=3 => Val { n: 1, d: 1 },
            4..=6 => Val { n: -1, d: 1 },
            7 => Val { n: 2, d: 1 },
            8 => Val { n: 1, d: 2 },
            _ => Val { n: -3, d: 1 },
        }
    }
}
pub fn rng_val(f: Fld, r: &mut Lrng) -> Val {
    if f.p > 0 {
        Val { n: 1 + r.below((f.p - 1) as u64) as i64, d: 1 }
    } else {
        let n = [1, -1, 2, -2, 3][r.below(5) as usize];
        Val { n, d: if r.below(6) == 0 { 2 - (n % 2 == 0) as i64 } else { 1 } }
    }
}
