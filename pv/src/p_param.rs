//! C10-C15: parameters.
use crate::core::*;
use crate::harness::*;
use crate::p_time::cal;
use jiff::civil::{DateTime, date};
use ndarray::{Array1, Array2};
use pywr_core::agg_funcs::{AggFuncF64, AggFuncU64};
use pywr_core::metric::{UnresolvedMetricF64, UnresolvedMetricU64};
use pywr_core::models::{ModelDomain, ModelDomainBuilder};
use pywr_core::network::NetworkBuilder;
use pywr_core::node::NodeBuilder;
use pywr_core::parameters::*;
use pywr_core::scenario::{ScenarioDomainBuilder, ScenarioGroupBuilder};
use pywr_core::solvers::MicroLpSolver;
use pywr_core::timestep::TimeDomainBuilder;

pub type Out = Vec<Vec<Vec<f64>>>;

pub fn run(dom: ModelDomain, nb: NetworkBuilder, metrics: Vec<UnresolvedMetricF64>) -> Result<Out, ImpErr> {
    run_probe::<MicroLpSolver>(dom, nb, metrics)
}
pub fn f64p(nb: &mut NetworkBuilder, b: impl ParameterBuilder<f64> + 'static) {
    nb.parameters().f64(Box::new(b));
}
pub fn u64p(nb: &mut NetworkBuilder, b: impl ParameterBuilder<u64> + 'static) {
    nb.parameters().u64(Box::new(b));
}
pub fn um(name: &str) -> UnresolvedMetricU64 {
    UnresolvedMetricU64::new_parameter_before(name)
}

/// The ways in which a value can reach a parameter.
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum Src {
    Lit,
    Const,
    Simple,
    General,
}
pub const SRCS: [Src; 4] = [Src::Lit, Src::Const, Src::Simple, Src::General];

/// Supply a series (per scenario and timestep) to a parameter; literals and constants must not vary.
pub fn supply(nb: &mut NetworkBuilder, name: &str, src: Src, v: &[f64]) -> UnresolvedMetricF64 {
    match src {
        Src::Lit => v[0].into(),
        Src::Const => {
            f64p(nb, ConstantParameterBuilder::new(name.into(), v[0]));
            pm(name)
        }
        Src::Simple => {
            let mut b = Array1ParameterBuilder::new(name.into(), Array1::from(v.to_vec()));
            b.timestep_offset(0);
            f64p(nb, b);
            pm(name)
        }
        Src::General => {
            f64p(nb, GenSeriesBuilder::new(name, vec![v.to_vec()]));
            pm(name)
        }
    }
}
pub fn supply_u(nb: &mut NetworkBuilder, name: &str, src: Src, v: &[u64]) -> UnresolvedMetricU64 {
    match src {
        Src::Lit => v[0].into(),
        Src::Const => {
            // an index parameter of constants only is itself constant
            let mut b = AggregatedIndexParameterBuilder::before(name.into(), AggFuncU64::Sum);
            b.metric(v[0].into());
            u64p(nb, b);
            um(name)
        }
        Src::Simple => {
            let mut b = Array1ParameterBuilder::<u64>::new(name.into(), Array1::from(v.to_vec()));
            b.timestep_offset(0);
            u64p(nb, b);
            um(name)
        }
        Src::General => {
            u64p(nb, GenSeriesBuilder::new(name, vec![v.iter().map(|x| *x as f64).collect()]));
            um(name)
        }
    }
}
pub fn same(a: f64, b: f64) -> bool {
    close(a, b)
}

/// Compare a column of results with expected values.
pub fn column(out: &Out, s: usize, m: usize) -> Vec<f64> {
    out.iter().map(|t| t[s][m]).collect()
}
pub fn check_col(key: &str, what: &str, got: &[f64], want: &[f64]) -> Res {
    chk!(got.len() == want.len(), format!("{key}:len"), "{what}: {} values, expected {}", got.len(), want.len());
    for (t, (g, w)) in got.iter().zip(want).enumerate() {
        chk!(same(*g, *w), key.to_string(), "{what}: step {t}: got {g}, expected {w} (all got {got:?}, expected {want:?})");
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C10
// ---------------------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
enum PK {
    Const(f64),
    Arr,
    Gen,
    GenU,
    AggF(Vec<usize>),
    AggU(Vec<usize>),
    Off(usize),
    Delay(usize),
    AppLow(usize),
    Undefined,
}
const PN: [&str; 5] = ["pa", "pb", "pc", "pd", "pe"];

struct PRef {
    u: bool,
}
fn pk_deps(k: &PK) -> Vec<usize> {
    match k {
        PK::AggF(d) | PK::AggU(d) => d.clone(),
        PK::Off(d) | PK::Delay(d) | PK::AppLow(d) => vec![*d],
        _ => vec![],
    }
}
fn pk_is_u(k: &PK) -> bool {
    matches!(k, PK::GenU | PK::AggU(_))
}
fn pk_is_multi(k: &PK) -> bool {
    matches!(k, PK::AppLow(_))
}
fn pk_metric(ks: &[PK], d: usize) -> UnresolvedMetricF64 {
    if d < ks.len() && pk_is_multi(&ks[d]) { UnresolvedMetricF64::new_parameter_before_key(PN[d], "lower") } else { pm(PN[d]) }
}
fn pk_value(ks: &[PK], i: usize, t: usize) -> f64 {
    match &ks[i] {
        PK::Const(v) => *v,
        PK::Arr => [3.0, 5.0, 11.0][t],
        PK::Gen => [7.0, 2.0, 13.0][t],
        PK::GenU => [4.0, 9.0, 6.0][t],
        PK::AggF(d) => d.iter().map(|d| pk_value(ks, *d, t)).sum::<f64>(),
        PK::AggU(d) => d.iter().map(|d| pk_value(ks, *d, t)).sum::<f64>(),
        PK::Off(d) => pk_value(ks, *d, t) + 100.0,
        PK::Delay(d) => {
            if t == 0 {
                1000.0
            } else {
                pk_value(ks, *d, t - 1)
            }
        }
        PK::AppLow(d) => 0.25 * pk_value(ks, *d, t),
        PK::Undefined => unreachable!(),
    }
}
/// None: the graph is invalid.
fn pk_valid(ks: &[PK]) -> bool {
    let n = ks.len();
    // references to something undefined or of a wrong type
    for k in ks {
        for d in pk_deps(k) {
            if d >= n || ks[d] == PK::Undefined {
                return false;
            }
            if matches!(k, PK::AggU(_)) && !pk_is_u(&ks[d]) {
                return false;
            }
        }
    }
    // cycles
    let mut done = vec![false; n];
    loop {
        let mut changed = false;
        for i in 0..n {
            if !done[i] && pk_deps(&ks[i]).iter().all(|d| done[*d]) {
                done[i] = true;
                changed = true;
            }
        }
        if !changed {
            break;
        }
    }
    done.iter().zip(ks).all(|(d, k)| *d || *k == PK::Undefined)
}
fn pk_add(nb: &mut NetworkBuilder, ks: &[PK], i: usize) {
    let n = PN[i];
    match &ks[i] {
        PK::Const(v) => f64p(nb, ConstantParameterBuilder::new(n.into(), *v)),
        PK::Arr => f64p(nb, Array1ParameterBuilder::new(n.into(), Array1::from(vec![3.0, 5.0, 11.0]))),
        PK::Gen => f64p(nb, GenSeriesBuilder::new(n, vec![vec![7.0, 2.0, 13.0]])),
        PK::GenU => u64p(nb, GenSeriesBuilder::new(n, vec![vec![4.0, 9.0, 6.0]])),
        PK::AggF(d) => {
            let mut b = AggregatedParameterBuilder::before(n.into(), AggFuncF64::Sum);
            for d in d {
                b.metric(pk_metric(ks, *d));
            }
            f64p(nb, b)
        }
        PK::AggU(d) => {
            let mut b = AggregatedIndexParameterBuilder::before(n.into(), AggFuncU64::Sum);
            for d in d {
                b.metric(um(PN[*d]));
            }
            u64p(nb, b)
        }
        PK::Off(d) => f64p(nb, OffsetParameterBuilder::new(n.into(), pk_metric(ks, *d), 100.0)),
        PK::Delay(d) => f64p(nb, DelayParameterBuilder::<UnresolvedMetricF64, f64>::new(n.into(), pk_metric(ks, *d), 1, 1000.0)),
        PK::AppLow(d) => {
            nb.parameters().multi(Box::new(ApportionParameterBuilder::before(n.into(), pk_metric(ks, *d), 0.25.into())));
        }
        PK::Undefined => {}
    }
}
fn pk_choose(ch: &mut Ch, n: usize, i: usize, rich: bool) -> PK {
    let leafs = 5;
    let c = ch.pick(if rich { 12 } else { 9 });
    match c {
        0 => PK::Const(1.0 + i as f64),
        1 => PK::Arr,
        2 => PK::Gen,
        3 => PK::GenU,
        4 => PK::AggF(ch.subset(n)),
        5 => PK::AggU(ch.subset(n)),
        6 => PK::Off(ch.pick(n)),
        7 => PK::Delay(ch.pick(n)),
        8 => PK::AppLow(ch.pick(n)),
        9 => PK::Undefined,
        10 => PK::Off(n + 1),
        _ => {
            let _ = leafs;
            PK::AggF(vec![ch.pick(n), n + 1])
        }
    }
}
fn c10_case(ch: &mut Ch, n: usize, rich: bool) -> Res {
    let ks: Vec<PK> = (0..n).map(|i| pk_choose(ch, n, i, rich)).collect();
    let order = ch.perm(n);
    ch.describe(|| format!("{ks:?} defined in order {order:?}"));
    let valid = pk_valid(&ks);
    let mut nb = trivial_network();
    for i in &order {
        pk_add(&mut nb, &ks, *i);
    }
    let metrics: Vec<_> = (0..n).filter(|i| ks[*i] != PK::Undefined).map(|i| pk_metric(&ks, i)).collect();
    let defined: Vec<usize> = (0..n).filter(|i| ks[*i] != PK::Undefined).collect();
    // build first so that building errors are told from run errors
    let r = run(domain(time_days(dt0(), 1, 3)), nb, metrics);
    ch.state(&format!("{ks:?}"));
    match (valid, r) {
        (true, Ok(out)) => {
            for (m, i) in defined.iter().enumerate() {
                let want: Vec<f64> = (0..3).map(|t| pk_value(&ks, *i, t)).collect();
                check_col("order:value", &format!("parameter {}", PN[*i]), &column(&out, 0, m), &want)?;
                ch.out(&want.iter().map(|v| v.to_bits()).collect::<Vec<_>>());
            }
            Ok(())
        }
        (true, Err(e)) => fail("order:rejected", format!("a valid set of parameters is rejected: {}", e.text())),
        (false, Ok(_)) => fail("order:accepted", "a cyclic, undefined or wrongly typed reference is accepted"),
        (false, Err(e)) => {
            chk!(!e.is_panic(), "order:panic", "{}", e.text());
            Ok(())
        }
    }
}

pub fn c10(cx: &Cx) {
    cx.assume("parameter values are compared to 1e-7 relative");
    cx.explore("graphs-2", |ch| c10_case(ch, 2, true));
    cx.explore("graphs-3", |ch| c10_case(ch, 3, cx.thorough));
    // longer chains through every kind of link, in every definition order
    let n = cx.b(4, 5);
    cx.explore("chains", |ch| {
        let leaf = ch.pick(4);
        let mut ks = vec![match leaf {
            0 => PK::Const(2.0),
            1 => PK::Arr,
            2 => PK::Gen,
            _ => PK::GenU,
        }];
        for i in 1..n {
            ks.push(match ch.pick(5) {
                0 => PK::AggF(vec![i - 1]),
                1 => PK::AggF(vec![i - 1, 0]),
                2 => PK::Off(i - 1),
                3 => PK::Delay(i - 1),
                _ => PK::AppLow(i - 1),
            });
        }
        let order = ch.perm(n);
        ch.describe(|| format!("{ks:?} defined in order {order:?}"));
        let mut nb = trivial_network();
        for i in &order {
            pk_add(&mut nb, &ks, *i);
        }
        let out = run(domain(time_days(dt0(), 1, 3)), nb, (0..n).map(|i| pk_metric(&ks, i)).collect());
        let out = match out {
            Ok(o) => o,
            Err(e) => return fail("chain:rejected", e.text()),
        };
        for i in 0..n {
            let want: Vec<f64> = (0..3).map(|t| pk_value(&ks, i, t)).collect();
            check_col("chain:value", &format!("parameter {}", PN[i]), &column(&out, 0, i), &want)?;
        }
        ch.state(&format!("{ks:?}"));
        Ok(())
    });
    // values computed after the solve, and their use in the next timestep
    cx.explore("phases", |ch| {
        // pa: both/after/before aggregate of the input's flow and a series; pb, pc read it
        let phase_a = ch.pick(3);
        let ret_b = ch.pick(3);
        let phase_b = ch.pick(3);
        let order = ch.perm(2);
        ch.describe(|| format!("pa phase {phase_a}, pb phase {phase_b} reads {ret_b}, order {order:?}"));
        let series = vec![7.0, 2.0, 13.0];
        let mut nb = trivial_network();
        f64p(&mut nb, GenSeriesBuilder::new("g", vec![series.clone()]));
        let mk = |n: &str, ph: usize| match ph {
            0 => AggregatedParameterBuilder::before(n.into(), AggFuncF64::Sum),
            1 => AggregatedParameterBuilder::after(n.into(), AggFuncF64::Sum),
            _ => AggregatedParameterBuilder::both(n.into(), AggFuncF64::Sum),
        };
        for i in &order {
            if *i == 0 {
                let mut b = mk("pa", phase_a);
                b.metric(pm("g")).metric(UnresolvedMetricF64::NodeOutFlow("in".into()));
                f64p(&mut nb, b);
            } else {
                let mut b = mk("pb", phase_b);
                b.metric(match ret_b {
                    0 => UnresolvedMetricF64::new_parameter_before("pa"),
                    1 => UnresolvedMetricF64::new_parameter_after("pa"),
                    _ => UnresolvedMetricF64::new_parameter_after_else_initial("pa"),
                });
                b.metric(0.5.into());
                f64p(&mut nb, b);
            }
        }
        // the flow is g (so that it differs in every step)
        let mut nb2 = nb;
        {
            let mut i = NodeBuilder::input("in2");
            i.max_flow(pm("g")).cost((-1.0).into());
            nb2.node(i);
            nb2.connect("in2", "out");
        }
        let avail = match (ret_b, phase_b) {
            (0, _) => phase_a != 1,
            (1, 1) => phase_a != 0,
            (1, _) => false,
            (_, _) => phase_a != 0,
        };
        let mut metrics = vec![];
        if phase_b != 1 {
            metrics.push(UnresolvedMetricF64::new_parameter_before("pb"));
        }
        if phase_b != 0 {
            metrics.push(UnresolvedMetricF64::new_parameter_after("pb"));
        }
        let r = run(domain(time_days(dt0(), 1, 3)), nb2, metrics);
        ch.state(&(phase_a, phase_b, ret_b));
        // flow through "in" is zero or more; read it back from pa itself is not needed: the
        // value of pa before the solve uses the flow of the previous step
        match r {
            Ok(out) => {
                chk!(avail, "phase:accepted", "a value that is not available in that phase is accepted");
                // flow of node "in" is 0 in every step: only in2 earns a benefit
                let a: Vec<f64> = series.clone();
                let mut m = 0;
                let before: Vec<f64> = (0..3)
                    .map(|t| {
                        0.5 + match ret_b {
                            0 => a[t],
                            _ => {
                                if t == 0 {
                                    0.0
                                } else {
                                    a[t - 1]
                                }
                            }
                        }
                    })
                    .collect();
                let after: Vec<f64> = (0..3).map(|t| 0.5 + a[t]).collect();
                if phase_b != 1 {
                    check_col("phase:before", "pb before", &column(&out, 0, m), &before)?;
                    m += 1;
                }
                if phase_b != 0 {
                    check_col("phase:after", "pb after", &column(&out, 0, m), &after)?;
                }
                Ok(())
            }
            Err(e) => {
                chk!(!avail, "phase:rejected", "an available value is rejected: {}", e.text());
                chk!(!e.is_panic(), "phase:panic", "{}", e.text());
                Ok(())
            }
        }
    });
    cx.explore("duplicates", |ch| {
        let kinds = [PK::Const(1.0), PK::Arr, PK::GenU, PK::AppLow(2)];
        let a = ch.of(&kinds);
        let b = ch.of(&kinds);
        let same_name = ch.flag();
        let resolvable = ch.flag();
        ch.describe(|| format!("{a:?} and {b:?}, same name {same_name}, resolvable {resolvable}"));
        let ks = vec![a.clone(), b.clone(), PK::Const(4.0)];
        let mut nb = trivial_network();
        if resolvable {
            pk_add(&mut nb, &ks, 2);
        }
        pk_add(&mut nb, &ks, 0);
        if same_name {
            // add the second one under the first one's name
            let ks2 = vec![b.clone(), PK::Undefined, PK::Const(4.0)];
            pk_add(&mut nb, &ks2, 0);
        } else {
            pk_add(&mut nb, &ks, 1);
        }
        let needs = !resolvable && (pk_is_multi(&a) || pk_is_multi(&b));
        let r = run(domain(time_days(dt0(), 1, 3)), nb, vec![]);
        ch.state(&format!("{a:?}{b:?}{same_name}{resolvable}"));
        match r {
            Ok(_) => chk!(!same_name && !needs, "dup:accepted", "duplicate or unresolvable definitions accepted"),
            Err(e) => {
                chk!(same_name || needs, "dup:rejected", "{}", e.text());
                chk!(!e.is_panic(), "dup:panic", "{}", e.text());
            }
        }
        Ok(())
    });
    let _ = PRef { u: false }.u;
}

// ---------------------------------------------------------------------------------------------
// C11
// ---------------------------------------------------------------------------------------------
fn secs_of_day(d: &DateTime) -> f64 {
    d.hour() as f64 * 3600.0 + d.minute() as f64 * 60.0 + d.second() as f64
}
/// zero-based day of year in a leap-year numbering (29 Feb is always slot 59)
fn slot(d: &DateTime) -> usize {
    let (y, m, dd) = (d.year() as i64, d.month() as i64, d.day() as i64);
    let mut s = 0;
    for k in 1..m {
        s += if k == 2 { 29 } else { cal::mdays(y, k) };
    }
    (s + dd - 1) as usize
}
fn ordinal(d: &DateTime) -> i64 {
    cal::ordinal(d.year() as i64, d.month() as i64, d.day() as i64)
}
/// seconds since some epoch
fn tsec(d: &DateTime) -> f64 {
    ordinal(d) as f64 * 86400.0 + secs_of_day(d)
}
/// Run parameter `add`ed to an otherwise trivial network over the given times.
fn profile_run(start: DateTime, step_h: u64, n: usize, add: &dyn Fn(&mut NetworkBuilder)) -> Result<Vec<f64>, ImpErr> {
    let mut nb = trivial_network();
    add(&mut nb);
    let out = run(domain(time_hours(start, step_h, n)), nb, vec![pm("p")])?;
    Ok(column(&out, 0, 0))
}
fn times(start: DateTime, step_h: u64, n: usize) -> Vec<DateTime> {
    (0..n).map(|i| start.checked_add(jiff::Span::new().hours((i as u64 * step_h) as i64)).unwrap()).collect()
}
fn weekly_ref(vals: &[f64], d: &DateTime, mode: usize) -> f64 {
    let n = vals.len();
    let w = (slot(d) / 7).min(n - 1);
    let pos = (slot(d) as f64 + secs_of_day(d) / 86400.0) / 7.0;
    let fr = pos - pos.floor();
    match mode {
        0 => vals[w],
        1 => vals[w] + (vals[(w + 1) % n] - vals[w]) * fr,
        _ => {
            let p = vals[(w + n - 1) % n];
            p + (vals[w] - p) * fr
        }
    }
}
fn month_first(y: i64, m: i64) -> f64 {
    cal::ordinal(y, m, 1) as f64 * 86400.0
}
fn month_last(y: i64, m: i64) -> f64 {
    cal::ordinal(y, m, cal::mdays(y, m)) as f64 * 86400.0
}
fn next_month(y: i64, m: i64) -> (i64, i64) {
    if m == 12 { (y + 1, 1) } else { (y, m + 1) }
}
fn prev_month(y: i64, m: i64) -> (i64, i64) {
    if m == 1 { (y - 1, 12) } else { (y, m - 1) }
}
fn monthly_ref(v: &[f64], d: &DateTime, mode: usize) -> f64 {
    let (y, m) = (d.year() as i64, d.month() as i64);
    let t = tsec(d);
    let at = |m: i64| v[(m - 1) as usize];
    let lin = |t0: f64, v0: f64, t1: f64, v1: f64| v0 + (v1 - v0) * (t - t0) / (t1 - t0);
    match mode {
        0 => at(m),
        1 => {
            let (ny, nm) = next_month(y, m);
            lin(month_first(y, m), at(m), month_first(ny, nm), at(nm))
        }
        _ => {
            if t >= month_last(y, m) {
                let (ny, nm) = next_month(y, m);
                lin(month_last(y, m), at(m), month_last(ny, nm), at(nm))
            } else {
                let (py, pm) = prev_month(y, m);
                lin(month_last(py, pm), at(pm), month_last(y, m), at(m))
            }
        }
    }
}
fn reset_ordinal(y: i64, m: i64, d: i64) -> i64 {
    if d > cal::mdays(y, m) { cal::ordinal(y, m + 1, 1) } else { cal::ordinal(y, m, d) }
}
fn drawdown_ref(d: &DateTime, day: i64, month: i64, residual: f64) -> f64 {
    let o = ordinal(d);
    let y = d.year() as i64;
    let this = reset_ordinal(y, month, day);
    let (a, b) = if o < this { (reset_ordinal(y - 1, month, day), this) } else { (this, reset_ordinal(y + 1, month, day)) };
    let total = (b - a) as f64;
    1.0 + (residual / total - 1.0) / total * (o - a) as f64
}
/// Dense solve by Gaussian elimination with full pivoting.
fn solve_dense(mut a: Vec<Vec<f64>>, mut b: Vec<f64>) -> Vec<f64> {
    let n = b.len();
    let mut perm: Vec<usize> = (0..n).collect();
    for k in 0..n {
        let (mut pi, mut pj, mut best) = (k, k, -1.0);
        for i in k..n {
            for j in k..n {
                if a[i][j].abs() > best {
                    best = a[i][j].abs();
                    pi = i;
                    pj = j;
                }
            }
        }
        a.swap(k, pi);
        b.swap(k, pi);
        for r in a.iter_mut() {
            r.swap(k, pj);
        }
        perm.swap(k, pj);
        for i in k + 1..n {
            let f = a[i][k] / a[k][k];
            for j in k..n {
                a[i][j] -= f * a[k][j];
            }
            b[i] -= f * b[k];
        }
    }
    let mut x = vec![0.0; n];
    for k in (0..n).rev() {
        let s: f64 = (k + 1..n).map(|j| a[k][j] * x[j]).sum();
        x[k] = (b[k] - s) / a[k][k];
    }
    let mut out = vec![0.0; n];
    for k in 0..n {
        out[perm[k]] = x[k];
    }
    out
}
fn rbf_ref(points: &[(u32, f64)], f: &dyn Fn(f64) -> f64) -> Vec<f64> {
    let mut pts = vec![];
    for off in [-365.0, 0.0, 365.0] {
        for p in points {
            pts.push((p.0 as f64 + off, p.1));
        }
    }
    let a = pts.iter().map(|p| pts.iter().map(|q| f((p.0 - q.0 as f64).abs())).collect()).collect();
    let w = solve_dense(a, pts.iter().map(|p| p.1).collect());
    let short: Vec<f64> = (0..365).map(|x| pts.iter().zip(&w).map(|(p, w)| w * f((x as f64 - p.0).abs())).sum()).collect();
    let mut out = short[..58].to_vec();
    out.push(short[58]);
    out.extend_from_slice(&short[58..]);
    out
}

pub fn c11(cx: &Cx) {
    cx.assume("radial basis profiles are compared to 1e-5 relative (they come from an ill-conditioned linear solve)");
    // (start, step in hours, number of steps): whole years daily, then sub-daily around month and leap boundaries
    let mut spans: Vec<(DateTime, u64, usize)> = vec![];
    for y in [2019i16, 2020, 2021, 2023, 2024] {
        spans.push((date(y, 1, 1).at(0, 0, 0, 0), 24, if y % 4 == 0 { 366 } else { 365 }));
    }
    for y in [1899i16, 1900, 2000, 2099, 2100] {
        spans.push((date(y, 2, 20).at(0, 0, 0, 0), 24, 20));
        spans.push((date(y, 12, 20).at(0, 0, 0, 0), 24, 20));
    }
    for y in [2020i16, 2021] {
        for m in 1..=12i8 {
            spans.push((date(y, m, 25).at(0, 0, 0, 0), 1, 24 * 9));
            spans.push((date(y, m, 26).at(5, 0, 0, 0), 7, 30));
        }
    }
    if cx.thorough {
        for y in 2018i16..2030 {
            spans.push((date(y, 1, 1).at(0, 0, 0, 0), 1, if y % 4 == 0 { 366 * 24 } else { 365 * 24 }));
        }
    }
    let profs: &[(&str, usize)] = &[("daily", 1), ("diurnal", 1), ("monthly", 3), ("weekly52", 3), ("weekly53", 3)];
    let v366: Vec<f64> = (0..366).map(|i| ((i * i + 7 * i) % 911) as f64).collect();
    let v24: Vec<f64> = (0..24).map(|i| ((i * i * 3 + 5 * i) % 101) as f64).collect();
    let v12: Vec<f64> = (0..12).map(|i| ((i * i * 5 + 3 * i) % 37) as f64).collect();
    let v53: Vec<f64> = (0..53).map(|i| ((i * i * 7 + 3 * i) % 211) as f64).collect();
    cx.explore("calendar", |ch| {
        let (start, h, n) = ch.of(&spans);
        let (p, modes) = ch.of(profs);
        let mode = ch.pick(modes);
        ch.describe(|| format!("{p} interpolation {mode} from {start} every {h} h for {n} steps"));
        let got = profile_run(start, h, n, &|nb| match p {
            "daily" => f64p(nb, DailyProfileParameterBuilder::new("p".into(), v366.clone().try_into().unwrap())),
            "diurnal" => f64p(nb, DiurnalProfileParameterBuilder::new("p".into(), v24.clone().try_into().unwrap())),
            "monthly" => {
                let mut b = MonthlyProfileParameterBuilder::new("p".into(), v12.clone().try_into().unwrap());
                match mode {
                    1 => {
                        b.interp_day(MonthlyInterpDay::First);
                    }
                    2 => {
                        b.interp_day(MonthlyInterpDay::Last);
                    }
                    _ => {}
                }
                f64p(nb, b)
            }
            w => {
                let k = if w == "weekly52" { 52 } else { 53 };
                let mut b = WeeklyProfileParameterBuilder::new("p".into(), WeeklyProfileValues::try_from(&v53[..k]).unwrap());
                match mode {
                    1 => {
                        b.interp_day(WeeklyInterpDay::First);
                    }
                    2 => {
                        b.interp_day(WeeklyInterpDay::Last);
                    }
                    _ => {}
                }
                f64p(nb, b)
            }
        });
        let got = got.map_err(|e| Fail { key: format!("{p}:error"), msg: e.text() })?;
        for (d, g) in times(start, h, n).iter().zip(&got) {
            let w = match p {
                "daily" => v366[slot(d)],
                "diurnal" => v24[d.hour() as usize],
                "monthly" => monthly_ref(&v12, d, mode),
                "weekly52" => weekly_ref(&v53[..52], d, mode),
                _ => weekly_ref(&v53, d, mode),
            };
            chk!(same(*g, w), format!("{p}:{mode}"), "at {d} the value is {g}, expected {w}");
            ch.state(&(p, mode, d.to_string()));
        }
        Ok(())
    });
    cx.explore("drawdown", |ch| {
        let month = 1 + ch.pick(12) as i64;
        let days: Vec<i64> = if cx.thorough { (1..=cal::mdays(2020, month)).collect() } else { vec![1, 15, cal::mdays(2020, month) - 1, cal::mdays(2020, month)] };
        let day = ch.of(&days);
        let residual = ch.of(&[0u8, 1, 30, 255]);
        let y = ch.of(&[2019i16, 2020, 2021, 2023, 2024, 1900, 2000]);
        let n = if y % 4 == 0 && y != 1900 { 366 } else { 365 };
        ch.describe(|| format!("uniform drawdown reset {day}/{month} residual {residual} year {y}"));
        let start = date(y, 1, 1).at(0, 0, 0, 0);
        let got = profile_run(start, 24, n, &|nb| {
            let mut b = UniformDrawdownProfileParameterBuilder::new("p".into(), day as i8, month as i8);
            b.residual_days(residual);
            f64p(nb, b)
        })
        .map_err(|e| Fail { key: "drawdown:error".into(), msg: e.text() })?;
        for (d, g) in times(start, 24, n).iter().zip(&got) {
            let w = drawdown_ref(d, day, month, residual as f64);
            chk!(same(*g, w), "drawdown", "at {d} the value is {g}, expected {w}");
        }
        ch.state(&(day, month, residual, y));
        Ok(())
    });
    cx.explore("drawdown-subdaily", |ch| {
        let (start, h, n) = ch.of(&spans);
        let (day, month) = ch.of(&[(1i64, 1i64), (29, 2), (1, 3), (28, 2), (31, 12), (30, 6)]);
        ch.describe(|| format!("uniform drawdown reset {day}/{month} from {start} every {h} h"));
        let got = profile_run(start, h, n, &|nb| f64p(nb, UniformDrawdownProfileParameterBuilder::new("p".into(), day as i8, month as i8)))
            .map_err(|e| Fail { key: "drawdown:error".into(), msg: e.text() })?;
        for (d, g) in times(start, h, n).iter().zip(&got) {
            let w = drawdown_ref(d, day, month, 0.0);
            chk!(same(*g, w), "drawdown", "at {d} the value is {g}, expected {w}");
        }
        ch.state(&(day, month, start.to_string(), h));
        Ok(())
    });
    cx.explore("invalid-reset", |ch| {
        let day = ch.of(&[-1i8, 0, 1, 28, 29, 30, 31, 32, 127]);
        let month = ch.of(&[-1i8, 0, 1, 2, 4, 6, 9, 11, 12, 13, 127]);
        ch.describe(|| format!("uniform drawdown reset {day}/{month}"));
        let ok = (1..=12).contains(&month) && day >= 1 && (day as i64) <= cal::mdays(2020, month as i64);
        let r = profile_run(dt0(), 24, 2, &|nb| f64p(nb, UniformDrawdownProfileParameterBuilder::new("p".into(), day, month)));
        ch.state(&(day, month));
        match r {
            Ok(_) => chk!(ok, "reset:accepted", "an invalid reset day is accepted"),
            Err(e) => chk!(!ok && !e.is_panic(), "reset:rejected", "{}", e.text()),
        }
        Ok(())
    });
    let fns: &[(&str, f64)] = &[("linear", 0.0), ("cubic", 0.0), ("quintic", 0.0), ("tps", 0.0), ("gauss", 0.02), ("mq", 0.05), ("imq", 0.05)];
    cx.explore("rbf", |ch| {
        let (f, eps) = ch.of(fns);
        let xs = ch.of(&[vec![1u32, 365], vec![90, 180], vec![1, 90, 180, 270], vec![60, 59, 120], vec![200], vec![365, 1, 100], vec![30, 60, 90, 150, 300]]);
        let ys: Vec<f64> = xs.iter().map(|_| ch.of(&[0.0, 1.0, 3.5])).collect();
        let y = ch.of(&[2020i16, 2021]);
        if f == "linear" && xs.len() == 1 { /* fine */ }
        ch.describe(|| format!("rbf {f} {xs:?} {ys:?} in {y}"));
        let pts: Vec<(u32, f64)> = xs.iter().copied().zip(ys.iter().copied()).collect();
        let n = if y == 2020 { 366 } else { 365 };
        let start = date(y, 1, 1).at(0, 0, 0, 0);
        let func = || match f {
            "linear" => RadialBasisFunction::Linear,
            "cubic" => RadialBasisFunction::Cubic,
            "quintic" => RadialBasisFunction::Quintic,
            "tps" => RadialBasisFunction::ThinPlateSpline,
            "gauss" => RadialBasisFunction::Gaussian { epsilon: eps },
            "mq" => RadialBasisFunction::MultiQuadric { epsilon: eps },
            _ => RadialBasisFunction::InverseMultiQuadric { epsilon: eps },
        };
        let got = profile_run(start, 24, n, &|nb| f64p(nb, RbfProfileParameterBuilder::new("p".into(), pts.clone(), func())))
            .map_err(|e| Fail { key: format!("rbf:{f}:error"), msg: e.text() })?;
        let phi = |r: f64| -> f64 {
            match f {
                "linear" => r,
                "cubic" => r * r * r,
                "quintic" => r.powi(5),
                "tps" => {
                    if r == 0.0 {
                        0.0
                    } else {
                        r * r * r.ln()
                    }
                }
                "gauss" => (-(eps * r) * (eps * r)).exp(),
                "mq" => (1.0 + eps * r * eps * r).sqrt(),
                _ => 1.0 / (1.0 + eps * r * eps * r).sqrt(),
            }
        };
        let want = rbf_ref(&pts, &phi);
        let scale = want.iter().fold(1.0f64, |a, b| a.max(b.abs()));
        for (d, g) in times(start, 24, n).iter().zip(&got) {
            let w = want[slot(d)];
            chk!((g - w).abs() < 1e-5 * scale, format!("rbf:{f}"), "at {d} the value is {g}, expected {w}");
        }
        // the points themselves are reproduced (position x is the x-th day after 1 January)
        if y == 2021 {
            for (x, v) in &pts {
                if *x < 365 {
                    chk!((got[*x as usize] - v).abs() < 1e-4 * scale, format!("rbf:{f}:point"), "the value at point {x} is {}, expected {v}", got[*x as usize]);
                }
            }
        }
        ch.state(&(f, xs, y));
        Ok(())
    });
}
