//! C24: the interior-point solver's linear algebra.
use crate::harness::*;
use crate::rat::*;
use ipm_common::SparseNormalCholeskyIndices;
use ipm_simd::{PathFollowingDirectSimdSolver, Tolerances};
use nalgebra_sparse::CsrMatrix;
use std::num::NonZeroUsize;
use wide::f64x4;

fn csr(a: &[Vec<f64>]) -> (Vec<usize>, Vec<usize>, Vec<f64>) {
    let (mut p, mut ix, mut v) = (vec![0], vec![], vec![]);
    for r in a {
        for (j, x) in r.iter().enumerate() {
            if *x != 0.0 {
                ix.push(j);
                v.push(*x);
            }
        }
        p.push(ix.len());
    }
    (p, ix, v)
}
/// Dense Cholesky factor of `m`, None if it is not safely positive definite.
fn dense_cholesky(m: &[Vec<f64>]) -> Option<Vec<Vec<f64>>> {
    let n = m.len();
    let mut l = vec![vec![0.0; n]; n];
    for i in 0..n {
        for j in 0..=i {
            let s = m[i][j] - (0..j).map(|k| l[i][k] * l[j][k]).sum::<f64>();
            if i == j {
                if s < 1e-3 {
                    return None;
                }
                l[i][i] = s.sqrt();
            } else {
                l[i][j] = s / l[j][j];
            }
        }
    }
    Some(l)
}

/// A linear programme: maximise c.x with A x + w = b in the first `k` rows, A x = b in the others, x, w >= 0.
struct Prob<'a> {
    a: &'a [Vec<f64>],
    k: usize,
    b: Vec<f64>,
    c: Vec<f64>,
}
impl Prob<'_> {
    fn lp(&self) -> Lp {
        let r = |v: f64| Rat::from_f64(v);
        let mut l = Lp::new(self.c.len());
        l.c = self.c.iter().map(|c| -r(*c)).collect();
        for (i, row) in self.a.iter().enumerate() {
            let t: Vec<_> = row.iter().enumerate().filter(|(_, v)| **v != 0.0).map(|(j, v)| (j, r(*v))).collect();
            l.row(&t, if i < self.k { None } else { Some(r(self.b[i])) }, Some(r(self.b[i])), "row");
        }
        l
    }
    /// The dual: minimise b.y with A'y >= c, y >= 0 in the first `k` rows and free in the others.
    fn dual(&self) -> Lp {
        let r = |v: f64| Rat::from_f64(v);
        let (m, n) = (self.a.len(), self.c.len());
        // free variables as a difference
        let cols: Vec<(usize, i64)> = (0..m).map(|i| (i, 1)).chain((self.k..m).map(|i| (i, -1))).collect();
        let mut l = Lp::new(cols.len());
        l.c = cols.iter().map(|(i, s)| r(self.b[*i]) * Rat::int(*s)).collect();
        for j in 0..n {
            let t: Vec<_> = cols.iter().enumerate().filter(|(_, (i, _))| self.a[*i][j] != 0.0).map(|(x, (i, s))| (x, r(self.a[*i][j]) * Rat::int(*s))).collect();
            l.row(&t, Some(r(self.c[j])), None, "dual");
        }
        l
    }
    /// The optimum, when both the problem and its dual have a strict interior.
    fn optimum(&self) -> Option<f64> {
        let p = self.lp();
        let LpOut::Optimal(o, _) = p.solve() else { return None };
        if p.interior() < 0.05 || self.dual().interior() < 0.05 {
            return None;
        }
        Some(-o.f())
    }
}
fn rank(rows: &[Vec<f64>]) -> usize {
    let mut m: Vec<Vec<Rat>> = rows.iter().map(|r| r.iter().map(|v| Rat::from_f64(*v)).collect()).collect();
    let (mut k, n) = (0, rows.first().map(|r| r.len()).unwrap_or(0));
    for j in 0..n {
        if let Some(p) = (k..m.len()).find(|i| !m[*i][j].is_zero()) {
            m.swap(k, p);
            for i in k + 1..m.len() {
                let f = m[i][j] / m[k][j];
                for x in 0..n {
                    m[i][x] = m[i][x] - f * m[k][x];
                }
            }
            k += 1;
        }
    }
    k
}

/// Solves the problems over one matrix, alone, among others and again.
fn programmes(cx: &Cx, ch: &mut Ch, m: usize, n: usize, a: &[Vec<f64>], k: usize, probs: &[(Prob, f64)]) -> Res {
    let (rp, ci, vals) = csr(a);
    ch.describe(|| format!("A = {a:?}, {k} inequalities, {} problems", probs.len()));
    let run = |lanes: [usize; 4]| -> Result<[Vec<f64>; 4], ImpErr> {
        let (rp, ci, vals) = (rp.clone(), ci.clone(), vals.clone());
        let b: Vec<f64x4> = (0..m).map(|i| f64x4::new(lanes.map(|l| probs[l].0.b[i]))).collect();
        let c: Vec<f64x4> = (0..n).map(|j| f64x4::new(lanes.map(|l| probs[l].0.c[j]))).collect();
        imp(|| {
            let mut s = PathFollowingDirectSimdSolver::from_data(m, n, rp, ci, vals, k);
            let x: Vec<[f64; 4]> = s.solve(&b, &c, &Tolerances::default(), NonZeroUsize::new(200).unwrap()).iter().map(|v| v.to_array()).collect();
            Ok::<_, String>([0, 1, 2, 3].map(|l| x.iter().map(|v| v[l]).collect()))
        })
    };
    let np = probs.len();
    let alone: Vec<[Vec<f64>; 4]> = {
        let mut v = vec![];
        for i in 0..np {
            match run([i; 4]) {
                Ok(x) => v.push(x),
                Err(e) => return fail("solve", format!("b {:?} c {:?}: {}", probs[i].0.b, probs[i].0.c, e.text())),
            }
        }
        v
    };
    for i in 0..np {
        ch.transitions += 1;
        let (p, o) = &probs[i];
        for l in 0..4 {
            let x = &alone[i][l];
            let lp = p.lp();
            let bad = lp.violated(x, 1e-5 * (1.0 + x.iter().fold(0.0f64, |a, v| a.max(v.abs()))));
            chk!(bad.is_none(), "feasible", "b {:?} c {:?} lane {l}: {x:?} {}", p.b, p.c, bad.unwrap_or_default());
            let got = -lp.objective(x);
            chk!((got - o).abs() < 1e-4 * (1.0 + o.abs()), "optimal", "b {:?} c {:?} lane {l}: {got}, the optimum is {o}", p.b, p.c);
        }
    }
    // other problems in the other lanes
    let combos: Vec<[usize; 4]> = (0..np).flat_map(|i| (1..np.min(cx.b(4, 30))).map(move |s| [i, (i + s) % np, (i + 2 * s + 1) % np, (i + 3 * s) % np])).collect();
    for lanes in combos {
        ch.transitions += 1;
        let x = match run(lanes) {
            Ok(x) => x,
            Err(e) => return fail("lanes", format!("{lanes:?}: {}", e.text())),
        };
        for l in 0..4 {
            let y = &alone[lanes[l]][l];
            for j in 0..n {
                chk!((x[l][j] - y[j]).abs() <= 1e-9 * (1.0 + y[j].abs()), "lanes", "lane {l} of problems {lanes:?}: {:?}, alone {y:?}", x[l]);
            }
        }
        ch.state(&(lanes, format!("{a:?}{k}")));
    }
    // the same solver again with other data: nothing is carried over
    let mut s = PathFollowingDirectSimdSolver::from_data(m, n, rp.clone(), ci.clone(), vals.clone(), k);
    for i in [0, np / 2, np - 1, 0] {
        let p = &probs[i].0;
        let b: Vec<f64x4> = p.b.iter().map(|v| f64x4::splat(*v)).collect();
        let c: Vec<f64x4> = p.c.iter().map(|v| f64x4::splat(*v)).collect();
        let x = imp(|| Ok::<_, String>(s.solve(&b, &c, &Tolerances::default(), NonZeroUsize::new(200).unwrap()).iter().map(|v| v.to_array()[0]).collect::<Vec<_>>()));
        match x {
            Ok(x) => chk!(x.iter().zip(&alone[i][0]).all(|(a, b)| (a - b).abs() <= 1e-9 * (1.0 + b.abs())), "again", "{x:?}, alone {:?}", alone[i][0]),
            Err(e) => return fail("again", e.text()),
        }
    }
    Ok(())
}

pub fn c24(cx: &Cx) {
    cx.assume("matrices have no empty row (a network constraint always has a flow in it), and equality rows are independent");
    cx.assume("convergence is claimed where the problem and its dual both have a strict interior; the rest is the known finding of C03");
    // every sparsity pattern: the index lists drive an exact factorisation
    let dims: Vec<(usize, usize)> = cx.b(
        vec![(1, 1), (1, 3), (2, 2), (2, 3), (3, 1), (3, 3), (3, 4), (4, 3), (4, 4), (2, 7), (5, 3)],
        vec![(1, 1), (1, 3), (2, 2), (2, 3), (3, 1), (3, 3), (3, 4), (4, 3), (4, 4), (2, 7), (5, 3), (3, 6), (6, 3), (4, 5), (5, 4), (10, 2)],
    );
    cx.explore("factorisation", |ch| {
        let (m, n) = ch.of(&dims);
        let mut a = vec![vec![0.0; n]; m];
        let vals = [1.0, -1.0, 2.0, -3.0, 0.5, 1.5, -2.0];
        let twist = ch.pick(2);
        for i in 0..m {
            let bits = 1 + ch.pick((1 << n) - 1);
            for j in 0..n {
                if bits >> j & 1 == 1 {
                    a[i][j] = if twist == 0 { vals[(3 * i + 5 * j) % 7] } else { 1.0 };
                }
            }
        }
        let diag = ch.pick(2) == 0; // slack terms for every row, or for none
        let d: Vec<f64> = (0..n).map(|j| [1.0, 4.0, 0.25, 2.0][j % 4]).collect();
        let (p, ix, v) = csr(&a);
        ch.describe(|| format!("{a:?} diag {diag}"));
        let mut norm = vec![vec![0.0; m]; m];
        for i in 0..m {
            for j in 0..m {
                norm[i][j] = (0..n).map(|k| a[i][k] * a[j][k] * d[k]).sum::<f64>() + if i == j && diag { 0.5 + i as f64 } else { 0.0 };
            }
        }
        let Some(l) = dense_cholesky(&norm) else { return ch.skip() };
        let mat = CsrMatrix::try_from_csr_data(m, n, p, ix, v.clone()).unwrap();
        let s = match imp(|| Ok::<_, String>(SparseNormalCholeskyIndices::from_matrix(&mat))) {
            Ok(s) => s,
            Err(e) => return fail("panic", e.text()),
        };
        ch.state(&(&s.lindices, &s.anorm_indices, &s.ldecomp_indptr_i));
        let u = |x: u32| x as usize;
        chk!(s.lindptr.len() == m + 1 && u(s.lindptr[m]) == s.lindices.len() && s.ltindptr.len() == m + 1 && s.ldiag_indptr.len() == m, "shape", "{s:?}");
        chk!(s.anorm_indptr.len() == s.lindices.len() + 1 && s.ldecomp_indptr.len() == s.lindices.len() + 1, "shape", "{s:?}");
        // factorise through the index lists
        let mut ld = vec![0.0; s.lindices.len()];
        for row in 0..m {
            for e in u(s.lindptr[row])..u(s.lindptr[row + 1]) {
                let col = u(s.lindices[e]);
                let mut val = if row == col && diag { 0.5 + row as f64 } else { 0.0 };
                for i in u(s.anorm_indptr[e])..u(s.anorm_indptr[e + 1]) {
                    val += v[u(s.anorm_indptr_i[i])] * v[u(s.anorm_indptr_j[i])] * d[u(s.anorm_indices[i])];
                }
                for i in u(s.ldecomp_indptr[e])..u(s.ldecomp_indptr[e + 1]) {
                    val -= ld[u(s.ldecomp_indptr_i[i])] * ld[u(s.ldecomp_indptr_j[i])];
                }
                ld[e] = if row == col { val.abs().sqrt() } else { val / ld[u(s.ldiag_indptr[col])] };
                chk!((ld[e] - l[row][col]).abs() < 1e-9 * (1.0 + l[row][col].abs()), "factor", "L[{row},{col}] = {}, expected {}", ld[e], l[row][col]);
            }
            let cols: Vec<usize> = (u(s.lindptr[row])..u(s.lindptr[row + 1])).map(|e| u(s.lindices[e])).collect();
            chk!(cols.last() == Some(&row) && cols.windows(2).all(|w| w[0] < w[1]), "order", "row {row} of L has columns {cols:?}");
            chk!((0..row).all(|c| cols.contains(&c) || l[row][c].abs() < 1e-9), "pattern", "row {row} of L lacks an entry: {cols:?}");
            chk!(u(s.ldiag_indptr[row]) == u(s.lindptr[row + 1]) - 1, "diagonal", "{:?}", s.ldiag_indptr);
        }
        // the transposed factor
        for col in 0..m {
            let r: Vec<usize> = (u(s.ltindptr[col])..u(s.ltindptr[col + 1])).map(|e| u(s.ltindices[e])).collect();
            chk!(r.first() == Some(&col) && r.windows(2).all(|w| w[0] < w[1]), "transpose", "column {col} of L has rows {r:?}");
            for e in u(s.ltindptr[col])..u(s.ltindptr[col + 1]) {
                let row = u(s.ltindices[e]);
                let x = ld[u(s.ltmap[e])];
                chk!((x - l[row][col]).abs() < 1e-9 * (1.0 + x.abs()), "transpose", "L'[{col},{row}] = {x}, expected {}", l[row][col]);
            }
            chk!((col..m).all(|row| r.contains(&row) || l[row][col].abs() < 1e-9), "transpose", "column {col} of L lacks an entry: {r:?}");
        }
        Ok(())
    });

    // the whole solver, four different problems over one matrix in its lanes
    let shapes: Vec<(usize, usize)> = cx.b(vec![(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)], vec![(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (1, 4)]);
    let coef = [0.0, 1.0, -1.0];
    cx.explore("programmes", |ch| {
        let (m, n) = ch.of(&shapes);
        let a: Vec<Vec<f64>> = (0..m).map(|_| ch.seq(&coef, n)).collect();
        if a.iter().any(|r| r.iter().all(|v| *v == 0.0)) {
            return ch.skip();
        }
        let k = ch.pick(m + 1);
        if rank(&a[k..]) < m - k {
            return ch.skip();
        }
        // every problem with these right-hand sides and costs that has a strict interior
        let bs = [1.0, 2.0, 0.0, -1.0, 40.0];
        let cs = [1.0, -1.0, 3.0, 0.0];
        let (nb, nc) = (cx.b(if m == 3 { 3 } else { 4 }, 5), cx.b(if n == 3 { 3 } else { 4 }, 4));
        let mut probs: Vec<(Prob, f64)> = vec![];
        for i in 0..(nb as usize).pow(m as u32) * (nc as usize).pow(n as u32) {
            let mut x = i;
            let mut next = |base: usize| {
                let d = x % base;
                x /= base;
                d
            };
            let b: Vec<f64> = (0..m).map(|_| bs[next(nb)]).collect();
            let c: Vec<f64> = (0..n).map(|_| cs[next(nc)]).collect();
            let p = Prob { a: &a, k, b, c };
            if let Some(o) = p.optimum() {
                probs.push((p, o));
            }
        }
        if probs.is_empty() {
            return ch.skip();
        }
        programmes(cx, ch, m, n, &a, k, &probs)
    });

    // the programmes of networks: capacities at the ends, a balance at every link, limits and ratios on top
    cx.explore("networks", |ch| {
        let (ns, nl, no) = ch.of(cx.b(&[(1usize, 1usize, 1usize), (1, 1, 2), (2, 1, 1), (2, 1, 2), (1, 2, 2), (2, 2, 1), (2, 2, 2)][..], &[(1, 1, 1), (1, 1, 2), (2, 1, 1), (2, 1, 2), (1, 2, 2), (2, 2, 1), (2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3)][..]));
        // edges from sources to links, between successive links, and from links to outputs
        let mut edges: Vec<(usize, usize)> = vec![];
        for s in 0..ns {
            let bits = 1 + ch.pick((1 << nl) - 1);
            edges.extend((0..nl).filter(|l| bits >> l & 1 == 1).map(|l| (s, ns + l)));
        }
        for l in 1..nl {
            if ch.flag() {
                edges.push((ns + l - 1, ns + l));
            }
        }
        for o in 0..no {
            let bits = 1 + ch.pick((1 << nl) - 1);
            edges.extend((0..nl).filter(|l| bits >> l & 1 == 1).map(|l| (ns + l, ns + nl + o)));
        }
        let n = edges.len();
        if (0..nl).any(|l| !edges.iter().any(|e| e.0 == ns + l) || !edges.iter().any(|e| e.1 == ns + l)) {
            return ch.skip();
        }
        let row = |f: &dyn Fn(&(usize, usize)) -> f64| edges.iter().map(f).collect::<Vec<f64>>();
        let flow = |x: usize| row(&|e| (e.0 == x || e.1 == x && x >= ns + nl) as i32 as f64);
        let mut a: Vec<Vec<f64>> = (0..ns).chain(ns + nl..ns + nl + no).map(&flow).collect();
        let limited = ch.flag();
        if limited {
            a.push(flow(ns)); // a limit on the first link
        }
        let k = a.len();
        for l in 0..nl {
            a.push(row(&|e| (e.1 == ns + l) as i32 as f64 - (e.0 == ns + l) as i32 as f64));
        }
        if ch.flag() {
            // the first source and the last output in proportion
            let (x, y) = (flow(0), flow(ns + nl + no - 1));
            a.push(x.iter().zip(&y).map(|(x, y)| x - 2.0 * y).collect());
        }
        if rank(&a[k..]) < a.len() - k || a[k..].iter().any(|r| r.iter().all(|v| *v == 0.0)) {
            return ch.skip();
        }
        let m = a.len();
        let mut probs = vec![];
        for i in 0..cx.b(8usize, 24) {
            let b: Vec<f64> = (0..m).map(|r| if r < k { [4.0, 1.0, 9.0, 2.5, 30.0][(r * 2 + i) % 5] } else { 0.0 }).collect();
            let c: Vec<f64> = (0..n).map(|e| [-1.0, 3.0, 10.0, -4.0, 0.5, 2.0][(e * (1 + i % 4) + i) % 6]).collect();
            let p = Prob { a: &a, k, b, c };
            if let Some(o) = p.optimum() {
                probs.push((p, o));
            }
        }
        if probs.is_empty() {
            return ch.skip();
        }
        programmes(cx, ch, m, n, &a, k, &probs)
    });
}
