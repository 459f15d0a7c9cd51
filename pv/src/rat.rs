//! Exact rational arithmetic and an exact LP oracle (two-phase simplex, Bland's rule).
use std::cmp::Ordering;
use std::ops::{Add, Div, Mul, Neg, Sub};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}
fn gcd(mut a: u128, mut b: u128) -> u128 {
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}
impl Rat {
    pub const ZERO: Rat = Rat { n: 0, d: 1 };
    pub const ONE: Rat = Rat { n: 1, d: 1 };
    pub fn new(n: i128, d: i128) -> Rat {
        assert!(d != 0, "rational with zero denominator");
        let g = gcd(n.unsigned_abs(), d.unsigned_abs()) as i128;
        let g = if g == 0 { 1 } else { g };
        let s = if d < 0 { -1 } else { 1 };
        Rat { n: s * n / g, d: s * d / g }
    }
    pub fn int(n: i64) -> Rat {
        Rat { n: n as i128, d: 1 }
    }
    /// Nearest simple rational of a float (denominator up to 5040 when within 1e-7, else 1e-6 grid).
    pub fn from_f64(x: f64) -> Rat {
        assert!(x.is_finite(), "not finite: {x}");
        if x == x.round() && x.abs() < 1e15 {
            return Rat::int(x as i64);
        }
        // continued fraction
        let (mut h0, mut k0, mut h1, mut k1) = (0i128, 1i128, 1i128, 0i128);
        let mut y = x;
        for _ in 0..20 {
            let a = y.floor();
            let (h, k) = (a as i128 * h1 + h0, a as i128 * k1 + k0);
            if k > 5040 {
                break;
            }
            (h0, k0, h1, k1) = (h1, k1, h, k);
            if (h as f64 / k as f64 - x).abs() < 1e-7 {
                return Rat::new(h, k);
            }
            if y == a {
                break;
            }
            y = 1.0 / (y - a);
        }
        Rat::new((x * 1e6).round() as i128, 1_000_000)
    }
    pub fn f(self) -> f64 {
        self.n as f64 / self.d as f64
    }
    pub fn is_zero(self) -> bool {
        self.n == 0
    }
    pub fn is_neg(self) -> bool {
        self.n < 0
    }
    pub fn is_pos(self) -> bool {
        self.n > 0
    }
    pub fn max(self, o: Rat) -> Rat {
        if self > o { self } else { o }
    }
    pub fn min(self, o: Rat) -> Rat {
        if self < o { self } else { o }
    }
}
impl Add for Rat {
    type Output = Rat;
    fn add(self, o: Rat) -> Rat {
        if self.d == 1 && o.d == 1 {
            return Rat { n: self.n + o.n, d: 1 };
        }
        Rat::new(self.n * o.d + o.n * self.d, self.d * o.d)
    }
}
impl Neg for Rat {
    type Output = Rat;
    fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
}
impl Sub for Rat {
    type Output = Rat;
    fn sub(self, o: Rat) -> Rat {
        self + (-o)
    }
}
impl Mul for Rat {
    type Output = Rat;
    fn mul(self, o: Rat) -> Rat {
        if self.d == 1 && o.d == 1 {
            return Rat { n: self.n * o.n, d: 1 };
        }
        Rat::new(self.n * o.n, self.d * o.d)
    }
}
impl Div for Rat {
    type Output = Rat;
    fn div(self, o: Rat) -> Rat {
        Rat::new(self.n * o.d, self.d * o.n)
    }
}
impl PartialOrd for Rat {
    fn partial_cmp(&self, o: &Rat) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Rat {
    fn cmp(&self, o: &Rat) -> Ordering {
        (self.n * o.d).cmp(&(o.n * self.d))
    }
}

#[derive(Clone, Debug)]
pub struct Row {
    pub a: Vec<Rat>,
    pub lo: Option<Rat>,
    pub hi: Option<Rat>,
    pub what: String,
}
/// minimise c.x subject to rows and x >= 0
#[derive(Clone, Debug, Default)]
pub struct Lp {
    pub c: Vec<Rat>,
    pub rows: Vec<Row>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum LpOut {
    Optimal(Rat, Vec<Rat>),
    Infeasible,
    Unbounded,
}

impl Lp {
    pub fn new(n: usize) -> Lp {
        Lp { c: vec![Rat::ZERO; n], rows: vec![] }
    }
    pub fn row(&mut self, terms: &[(usize, Rat)], lo: Option<Rat>, hi: Option<Rat>, what: impl Into<String>) {
        let mut a = vec![Rat::ZERO; self.c.len()];
        for (i, v) in terms {
            a[*i] = a[*i] + *v;
        }
        if lo.is_none() && hi.is_none() {
            return;
        }
        self.rows.push(Row { a, lo, hi, what: what.into() });
    }
    /// Radius (at most 1) of the strict interior with respect to the inequality rows and the signs.
    pub fn interior(&self) -> f64 {
        let n = self.c.len();
        let mut l = Lp::new(n + 1);
        l.c[n] = Rat::int(-1);
        for r in &self.rows {
            let t: Vec<_> = r.a.iter().cloned().enumerate().filter(|(_, v)| !v.is_zero()).collect();
            if r.lo == r.hi {
                l.row(&t, r.lo, r.hi, "eq");
                continue;
            }
            if let Some(lo) = r.lo {
                let mut u = t.clone();
                u.push((n, Rat::int(-1)));
                l.row(&u, Some(lo), None, "lo");
            }
            if let Some(hi) = r.hi {
                let mut u = t.clone();
                u.push((n, Rat::ONE));
                l.row(&u, None, Some(hi), "hi");
            }
        }
        for j in 0..n {
            l.row(&[(j, Rat::ONE), (n, Rat::int(-1))], Some(Rat::ZERO), None, "sign");
        }
        l.row(&[(n, Rat::ONE)], None, Some(Rat::ONE), "cap");
        match l.solve() {
            LpOut::Optimal(o, _) => -o.f(),
            _ => 0.0,
        }
    }
    /// First violated row (value outside its bounds by more than `tol`), if any.
    pub fn violated(&self, x: &[f64], tol: f64) -> Option<String> {
        for (i, v) in x.iter().enumerate() {
            if *v < -tol || !v.is_finite() {
                return Some(format!("flow {i} is {v}"));
            }
        }
        for r in &self.rows {
            let s: f64 = r.a.iter().zip(x).map(|(a, x)| a.f() * x).sum();
            if let Some(l) = r.lo {
                if s < l.f() - tol {
                    return Some(format!("{}: {} < {}", r.what, s, l.f()));
                }
            }
            if let Some(h) = r.hi {
                if s > h.f() + tol {
                    return Some(format!("{}: {} > {}", r.what, s, h.f()));
                }
            }
        }
        None
    }
    pub fn objective(&self, x: &[f64]) -> f64 {
        self.c.iter().zip(x).map(|(c, x)| c.f() * x).sum()
    }

    pub fn solve(&self) -> LpOut {
        let n = self.c.len();
        // build equality system with slacks
        let mut eqs: Vec<(Vec<Rat>, i8, Rat)> = vec![]; // coefs, slack sign, rhs
        for r in &self.rows {
            match (r.lo, r.hi) {
                (Some(l), Some(h)) if l == h => eqs.push((r.a.clone(), 0, l)),
                (lo, hi) => {
                    if let (Some(l), Some(h)) = (lo, hi) {
                        if l > h {
                            return LpOut::Infeasible;
                        }
                    }
                    if let Some(h) = hi {
                        eqs.push((r.a.clone(), 1, h));
                    }
                    if let Some(l) = lo {
                        // x >= 0: a row with non-negative coefficients and l <= 0 is implied
                        if !(l.n <= 0 && r.a.iter().all(|a| !a.is_neg())) {
                            eqs.push((r.a.clone(), -1, l));
                        }
                    }
                }
            }
        }
        let m = eqs.len();
        let nslack = eqs.iter().filter(|e| e.1 != 0).count();
        let total = n + nslack + m; // plus up to m artificials
        let mut t: Vec<Vec<Rat>> = vec![];
        let mut basis = vec![usize::MAX; m];
        let (mut s, mut art) = (0, 0);
        for (i, (a, sign, b)) in eqs.iter().enumerate() {
            let mut row = vec![Rat::ZERO; total + 1];
            row[..n].copy_from_slice(a);
            row[total] = *b;
            let mut sl = None;
            if *sign != 0 {
                row[n + s] = Rat::int(*sign as i64);
                sl = Some(n + s);
                s += 1;
            }
            if b.is_neg() {
                for v in row.iter_mut() {
                    *v = -*v;
                }
            }
            match sl {
                Some(j) if row[j] == Rat::ONE => basis[i] = j,
                _ => {
                    let j = n + nslack + art;
                    row[j] = Rat::ONE;
                    basis[i] = j;
                    art += 1;
                }
            }
            t.push(row);
        }
        let nart0 = n + nslack;
        // phase 1
        if art > 0 {
            let mut z = vec![Rat::ZERO; total + 1];
            for j in nart0..nart0 + art {
                z[j] = Rat::ONE;
            }
            for i in 0..m {
                if basis[i] >= nart0 {
                    for j in 0..=total {
                        z[j] = z[j] - t[i][j];
                    }
                }
            }
            if !pivot_loop(&mut t, &mut z, &mut basis, nart0 + art, total) {
                unreachable!("phase 1 cannot be unbounded");
            }
            if !z[total].is_zero() {
                return LpOut::Infeasible;
            }
            // drive artificials out
            for i in 0..m {
                if basis[i] >= nart0 {
                    if let Some(j) = (0..nart0).find(|j| !t[i][*j].is_zero()) {
                        pivot(&mut t, &mut z, &mut basis, i, j, total);
                    }
                }
            }
        }
        let mut z = vec![Rat::ZERO; total + 1];
        z[..n].copy_from_slice(&self.c);
        for i in 0..m {
            let b = basis[i];
            if b < n && !self.c[b].is_zero() {
                let k = self.c[b];
                for j in 0..=total {
                    if !t[i][j].is_zero() {
                        z[j] = z[j] - k * t[i][j];
                    }
                }
            }
        }
        if !pivot_loop(&mut t, &mut z, &mut basis, nart0, total) {
            return LpOut::Unbounded;
        }
        let mut x = vec![Rat::ZERO; n];
        for i in 0..m {
            if basis[i] < n {
                x[basis[i]] = t[i][total];
            }
        }
        LpOut::Optimal(-z[total], x)
    }
}
fn pivot(t: &mut [Vec<Rat>], z: &mut [Rat], basis: &mut [usize], r: usize, c: usize, total: usize) {
    let p = t[r][c];
    if p != Rat::ONE {
        for j in 0..=total {
            if !t[r][j].is_zero() {
                t[r][j] = t[r][j] / p;
            }
        }
    }
    let pr = t[r].clone();
    for (i, row) in t.iter_mut().enumerate() {
        if i != r && !row[c].is_zero() {
            let k = row[c];
            for j in 0..=total {
                if !pr[j].is_zero() {
                    row[j] = row[j] - k * pr[j];
                }
            }
        }
    }
    if !z[c].is_zero() {
        let k = z[c];
        for j in 0..=total {
            if !pr[j].is_zero() {
                z[j] = z[j] - k * pr[j];
            }
        }
    }
    basis[r] = c;
}
fn pivot_loop(t: &mut [Vec<Rat>], z: &mut [Rat], basis: &mut [usize], ncols: usize, total: usize) -> bool {
    loop {
        let Some(c) = (0..ncols).find(|j| z[*j].is_neg()) else { return true };
        let mut best: Option<(Rat, usize)> = None;
        for i in 0..t.len() {
            if t[i][c].is_pos() {
                let q = t[i][total] / t[i][c];
                let better = match &best {
                    None => true,
                    Some((b, bi)) => q < *b || (q == *b && basis[i] < basis[*bi]),
                };
                if better {
                    best = Some((q, i));
                }
            }
        }
        let Some((_, r)) = best else { return false };
        pivot(t, z, basis, r, c, total);
    }
}

/// Self-check of the oracle against brute force over the integer lattice (totally unimodular or
/// unit-coefficient problems), used by the checks that rely on it.
pub fn self_check() -> u64 {
    let mut n = 0;
    // min c.x, x in [0,u], x0 + x1 <= k, x0 - x1 >= l : all small integer instances
    for c0 in -2..=2 {
        for c1 in -2..=2 {
            for u in 0..=3 {
                for k in 0..=4 {
                    for l in -2..=2 {
                        let mut lp = Lp::new(2);
                        lp.c = vec![Rat::int(c0), Rat::int(c1)];
                        lp.row(&[(0, Rat::ONE)], None, Some(Rat::int(u)), "u0");
                        lp.row(&[(1, Rat::ONE)], None, Some(Rat::int(u)), "u1");
                        lp.row(&[(0, Rat::ONE), (1, Rat::ONE)], None, Some(Rat::int(k)), "k");
                        lp.row(&[(0, Rat::ONE), (1, Rat::int(-1))], Some(Rat::int(l)), None, "l");
                        let mut best: Option<i64> = None;
                        // half-integer lattice contains every vertex
                        for x in 0..=2 * u {
                            for y in 0..=2 * u {
                                if x + y <= 2 * k && x - y >= 2 * l {
                                    let v = c0 * x + c1 * y;
                                    best = Some(best.map_or(v, |b: i64| b.min(v)));
                                }
                            }
                        }
                        match (lp.solve(), best) {
                            (LpOut::Optimal(o, _), Some(b)) => assert!(o == Rat::new(b as i128, 2), "oracle wrong"),
                            (LpOut::Infeasible, None) => {}
                            (a, b) => panic!("oracle wrong {a:?} {b:?}"),
                        }
                        n += 1;
                    }
                }
            }
        }
    }
    n
}
