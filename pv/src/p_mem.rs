//! C13: parameters with memory.
use crate::core::*;
use crate::harness::*;
use crate::p_param::*;
use ndarray::Array2;
use pywr_core::agg_funcs::{AggFuncF64, AggFuncU64};
use pywr_core::metric::{UnresolvedMetricF64, UnresolvedMetricU64};
use pywr_core::models::ModelBuilder;
use pywr_core::network::NetworkBuilder;
use pywr_core::node::NodeBuilder;
use pywr_core::parameters::*;
use pywr_core::solvers::MicroLpSolver;

/// All sequences over `a` of length `n`.
fn histories(a: &[f64], n: usize) -> Vec<Vec<f64>> {
    let mut v: Vec<Vec<f64>> = vec![vec![]];
    for _ in 0..n {
        v = v.iter().flat_map(|h| a.iter().map(move |x| [h.clone(), vec![*x]].concat())).collect();
    }
    v
}
/// Supply one history per scenario.
fn supply_h(nb: &mut NetworkBuilder, name: &str, simple: bool, h: &[Vec<f64>]) -> UnresolvedMetricF64 {
    if simple {
        let a = Array2::from_shape_fn((h[0].len(), h.len()), |(t, s)| h[s][t]);
        f64p(nb, Array2ParameterBuilder::new(name.into(), a, "h"));
    } else {
        f64p(nb, GenSeriesBuilder::new(name, h.to_vec()));
    }
    pm(name)
}
fn supply_hu(nb: &mut NetworkBuilder, name: &str, simple: bool, h: &[Vec<f64>]) -> UnresolvedMetricU64 {
    if simple {
        let a = Array2::from_shape_fn((h[0].len(), h.len()), |(t, s)| h[s][t] as u64);
        u64p(nb, Array2ParameterBuilder::new(name.into(), a, "h"));
    } else {
        u64p(nb, GenSeriesBuilder::new(name, h.to_vec()));
    }
    um(name)
}

/// Run the model twice from the same built model and return both outputs as [timestep][scenario][metric].
fn run_twice(nb: NetworkBuilder, ns: usize, nt: usize, metrics: Vec<UnresolvedMetricF64>) -> Result<[Out; 2], ImpErr> {
    let mut nb = nb;
    let (p, sink) = ProbeBuilder::new("probe", metrics);
    nb.recorder(Box::new(p));
    let dom = domain_scen(time_days(dt0(), 1, nt), &[("h", ns)]);
    let mut r = Run::<MicroLpSolver>::build(ModelBuilder::new(dom, nb))?;
    for _ in 0..nt {
        r.step()?;
    }
    let mut r = Run::<MicroLpSolver>::new(r.model)?;
    for _ in 0..nt {
        r.step()?;
    }
    let v = sink.lock().unwrap().clone();
    Ok([v[..nt].to_vec(), v[nt..].to_vec()])
}
fn judge(ch: &mut Ch, key: &str, outs: &[Out; 2], h: &[Vec<f64>], m: usize, want: impl Fn(usize, usize) -> f64) -> Res {
    for (k, out) in outs.iter().enumerate() {
        let nt = out.len();
        for s in 0..h.len() {
            for t in 0..nt {
                let (g, w) = (out[t][s][m], want(s, t));
                chk!(close(g, w), key.to_string(), "run {}: scenario {s} with history {:?}: step {t}: got {g}, expected {w}", k + 1, h[s]);
            }
        }
    }
    for hh in h {
        for t in 0..hh.len() {
            ch.state(&(key.to_string(), hh[..=t].iter().map(|v| v.to_bits()).collect::<Vec<_>>()));
        }
    }
    Ok(())
}

fn agg(f: &AggFuncF64, v: &[f64]) -> f64 {
    match f {
        AggFuncF64::Sum => v.iter().sum(),
        AggFuncF64::Mean => v.iter().sum::<f64>() / v.len() as f64,
        AggFuncF64::Product => v.iter().product(),
        AggFuncF64::Min => v.iter().cloned().fold(f64::INFINITY, f64::min),
        AggFuncF64::Max => v.iter().cloned().fold(f64::NEG_INFINITY, f64::max),
        AggFuncF64::CountNonZero => v.iter().filter(|x| **x != 0.0).count() as f64,
        AggFuncF64::CountFunc { func } => v.iter().filter(|x| func(**x)).count() as f64,
        AggFuncF64::AnyNonZero { tolerance } => v.iter().any(|x| x.abs() > *tolerance) as u8 as f64,
    }
}
fn aggu(f: &AggFuncU64, v: &[u64]) -> u64 {
    match f {
        AggFuncU64::Sum => v.iter().sum(),
        AggFuncU64::Product => v.iter().product(),
        AggFuncU64::Min => *v.iter().min().unwrap(),
        AggFuncU64::Max => *v.iter().max().unwrap(),
        AggFuncU64::Any => v.iter().any(|x| *x > 0) as u64,
        AggFuncU64::All => v.iter().all(|x| *x > 0) as u64,
    }
}
fn above_one(x: f64) -> bool {
    x > 1.0
}
fn pred(i: usize) -> Predicate {
    match i {
        0 => Predicate::LessThan,
        1 => Predicate::GreaterThan,
        2 => Predicate::EqualTo,
        3 => Predicate::LessThanOrEqualTo,
        _ => Predicate::GreaterThanOrEqualTo,
    }
}
fn holds(i: usize, x: f64, y: f64) -> bool {
    match i {
        0 => x < y,
        1 => x > y,
        2 => x == y,
        3 => x <= y,
        _ => x >= y,
    }
}

pub fn c13(cx: &Cx) {
    cx.assume("parameter values are compared to 1e-7 relative");
    cx.assume("each run simulates every history over the alphabet as a scenario of its own, and is repeated from the same built model");
    let depth = cx.b(5, 7);
    let nt = depth;

    cx.explore("delay", |ch| {
        let simple = ch.flag();
        let int = ch.flag();
        let delay = ch.pick(depth + 2) as u64;
        let init = ch.of(&[0.0, 9.0, 4.0]);
        if delay == 0 && !simple {
            return ch.skip();
        }
        ch.describe(|| format!("delay of {delay} steps, initial {init}, integer {int}, simple input {simple}"));
        let h = histories(if int { &[0.0, 1.0, 3.0] } else { &[0.0, 1.5, -3.0] }, depth);
        let mut nb = trivial_network();
        if int {
            let x = supply_hu(&mut nb, "x", simple, &h);
            u64p(&mut nb, DelayParameterBuilder::<UnresolvedMetricU64, u64>::new("p".into(), x, delay, init as u64));
        } else {
            let x = supply_h(&mut nb, "x", simple, &h);
            f64p(&mut nb, DelayParameterBuilder::<UnresolvedMetricF64, f64>::new("p".into(), x, delay, init));
        }
        let outs = match run_twice(nb, h.len(), nt, vec![pm("p")]) {
            Ok(o) => o,
            Err(e) => return fail("delay:error", e.text()),
        };
        judge(ch, "delay:value", &outs, &h, 0, |s, t| if (t as u64) < delay { init } else { h[s][t - delay as usize] })
    });

    cx.explore("rolling", |ch| {
        let simple = ch.flag();
        let int = ch.flag();
        let window = 1 + ch.pick(depth);
        let min_values = 1 + ch.pick(window + 1);
        let init = ch.of(&[0.0, 9.0]);
        let f = ch.pick(if int { 6 } else { 8 });
        ch.describe(|| format!("rolling window {window}, at least {min_values}, initial {init}, function {f}, integer {int}, simple input {simple}"));
        let fu = || [AggFuncU64::Sum, AggFuncU64::Product, AggFuncU64::Min, AggFuncU64::Max, AggFuncU64::Any, AggFuncU64::All][f].clone();
        let ff = || {
            [
                AggFuncF64::Sum,
                AggFuncF64::Mean,
                AggFuncF64::Product,
                AggFuncF64::Min,
                AggFuncF64::Max,
                AggFuncF64::CountNonZero,
                AggFuncF64::CountFunc { func: above_one },
                AggFuncF64::AnyNonZero { tolerance: 1.6 },
            ][f]
                .clone()
        };
        let h = histories(if int { &[0.0, 1.0, 3.0] } else { &[0.0, 1.5, -3.0] }, depth);
        let mut nb = trivial_network();
        if int {
            let x = supply_hu(&mut nb, "x", simple, &h);
            u64p(&mut nb, RollingParameterBuilder::<UnresolvedMetricU64, u64, AggFuncU64>::new("p".into(), x, window, init as u64, min_values, fu()));
        } else {
            let x = supply_h(&mut nb, "x", simple, &h);
            f64p(&mut nb, RollingParameterBuilder::<UnresolvedMetricF64, f64, AggFuncF64>::new("p".into(), x, window, init, min_values, ff()));
        }
        let outs = match run_twice(nb, h.len(), nt, vec![pm("p")]) {
            Ok(o) => o,
            Err(e) => return fail("rolling:error", e.text()),
        };
        judge(ch, "rolling:value", &outs, &h, 0, |s, t| {
            let past = &h[s][t.saturating_sub(window)..t];
            if past.len() < min_values {
                init
            } else if int {
                aggu(&fu(), &past.iter().map(|x| *x as u64).collect::<Vec<_>>()) as f64
            } else {
                agg(&ff(), past)
            }
        })
    });

    cx.explore("threshold", |ch| {
        let p = ch.pick(5);
        let ratchet = ch.flag();
        let simple = ch.flag();
        // the threshold: literal, constant, or itself a history
        let tk = ch.pick(5);
        ch.describe(|| format!("threshold predicate {p} ratchet {ratchet} simple metric {simple} threshold kind {tk}"));
        let d = depth - 1;
        let h = histories(&[1.0, 2.0, 3.0], d);
        let thr = |s: usize, t: usize| -> f64 {
            match tk {
                0 | 1 => 2.0,
                2 => [2.0, 1.0, 3.0, 2.0, 1.0, 3.0, 2.0][t],
                // depends on the scenario
                _ => [1.0, 2.0, 3.0][(s + t * t) % 3],
            }
        };
        let th: Vec<Vec<f64>> = (0..h.len()).map(|s| (0..d).map(|t| thr(s, t)).collect()).collect();
        let mut nb = trivial_network();
        let x = supply_h(&mut nb, "x", simple, &h);
        let tm = match tk {
            0 => 2.0.into(),
            1 => supply(&mut nb, "th", Src::Const, &[2.0]),
            2 => supply(&mut nb, "th", Src::Simple, &th[0]),
            3 => supply_h(&mut nb, "th", true, &th),
            _ => supply_h(&mut nb, "th", false, &th),
        };
        let mut b = ThresholdParameterBuilder::new("p".into(), x, tm, pred(p));
        if ratchet {
            b.ratchet();
        }
        u64p(&mut nb, b);
        let outs = match run_twice(nb, h.len(), d, vec![pm("p")]) {
            Ok(o) => o,
            Err(e) => return fail("threshold:error", e.text()),
        };
        judge(ch, "threshold:value", &outs, &h, 0, |s, t| {
            let on = |k: usize| holds(p, h[s][k], thr(s, k));
            (if ratchet { (0..=t).any(on) } else { on(t) }) as u8 as f64
        })
    });

    cx.explore("multi-threshold", |ch| {
        let p = ch.pick(5);
        let ratchet = ch.flag();
        let n = ch.pick(4);
        let th: Vec<f64> = ch.seq(&[1.0, 2.0, 3.0], n);
        let vary = ch.flag();
        ch.describe(|| format!("multi-threshold predicate {p} ratchet {ratchet} thresholds {th:?} varying {vary}"));
        let d = depth - 1;
        let h = histories(&[0.5, 1.0, 2.0, 3.0], d);
        let thr = |i: usize, t: usize| -> f64 { if vary { th[(i + t) % n.max(1)] } else { th[i] } };
        let mut nb = trivial_network();
        let x = supply_h(&mut nb, "x", true, &h);
        let mut b = MultiThresholdParameterBuilder::new("p".into(), x, pred(p));
        for i in 0..n {
            let m = if vary {
                supply(&mut nb, &format!("t{i}"), if i == 0 { Src::General } else { Src::Simple }, &(0..d).map(|t| thr(i, t)).collect::<Vec<_>>())
            } else {
                th[i].into()
            };
            b.threshold(m);
        }
        if ratchet {
            b.ratchet();
        }
        u64p(&mut nb, b);
        let outs = match run_twice(nb, h.len(), d, vec![pm("p")]) {
            Ok(o) => o,
            Err(e) => return fail("multi:error", e.text()),
        };
        judge(ch, "multi:value", &outs, &h, 0, |s, t| {
            let pos = |k: usize| (0..n).position(|i| holds(p, h[s][k], thr(i, k))).unwrap_or(n);
            (if ratchet { (0..=t).map(pos).max().unwrap() } else { pos(t) }) as f64
        })
    });

    cx.explore("switch", |ch| {
        let simple_on = ch.flag();
        let simple_off = ch.flag();
        let d = cx.b(4, 5);
        // every pair of on/off histories
        let pairs = histories(&[0.0, 1.0, 2.0, 3.0], d);
        let on: Vec<Vec<f64>> = pairs.iter().map(|p| p.iter().map(|v| if *v >= 2.0 { *v - 1.0 } else { 0.0 }).collect()).collect();
        let off: Vec<Vec<f64>> = pairs.iter().map(|p| p.iter().map(|v| if *v as u64 % 2 == 1 { 2.0 } else { 0.0 }).collect()).collect();
        ch.describe(|| format!("asymmetric switch, on from simple {simple_on}, off from simple {simple_off}, all histories of {d} pairs"));
        let mut nb = trivial_network();
        let a = supply_hu(&mut nb, "on", simple_on, &on);
        let b = supply_hu(&mut nb, "off", simple_off, &off);
        u64p(&mut nb, AsymmetricSwitchIndexParameterBuilder::before("p".into(), a, b));
        let outs = match run_twice(nb, pairs.len(), d, vec![pm("p")]) {
            Ok(o) => o,
            Err(e) => return fail("switch:error", e.text()),
        };
        // state: 0 off, 1 on
        let want: Vec<Vec<f64>> = (0..pairs.len())
            .map(|s| {
                let mut st = false;
                (0..d)
                    .map(|t| {
                        let (n, f) = (on[s][t] > 0.0, off[s][t] > 0.0);
                        st = if st { n || f } else { n };
                        st as u8 as f64
                    })
                    .collect()
            })
            .collect();
        judge(ch, "switch:value", &outs, &pairs, 0, |s, t| want[s][t])
    });

    // deficits of a demand that a limited input cannot always meet, and the routing coefficients, which depend on
    // the flows of the previous timestep
    let d = cx.b(3, 4);
    cx.explore("flows", |ch| {
        let cond = ch.pick(3);
        let (k, w) = ch.of(&[(1.3, 0.25), (0.5, 0.0), (2.0, 0.5), (1.0, 0.1), (0.25, 0.0), (0.4, 0.5)]);
        let supply_limit = ch.of(&[2.0, 5.0]);
        let kv = ch.flag();
        ch.describe(|| format!("initial condition {cond}, travel time {k} weight {w}, varying {kv}, inflow limited to {supply_limit}"));
        let h = histories(&[0.0, 3.0, 6.0], d);
        let mut nb = NetworkBuilder::default();
        let dem = supply_h(&mut nb, "demand", false, &h);
        let mut i = NodeBuilder::input("in");
        i.max_flow(supply_limit.into());
        let mut o = NodeBuilder::output("out");
        o.max_flow(dem.clone()).cost((-1.0).into());
        let mut o2 = NodeBuilder::output("out2");
        o2.max_flow(1.0.into()).cost((-0.5).into());
        nb.node(i);
        nb.node(o);
        nb.node(o2);
        nb.connect("in", "out");
        nb.connect("in", "out2");
        f64p(&mut nb, DeficitParameterBuilder::new("def".into(), UnresolvedMetricF64::NodeInFlow("out".into()), dem));
        let ic = match cond {
            0 => MuskingumInitialCondition::SteadyState,
            1 => MuskingumInitialCondition::Specified { inflow: 0.0, outflow: 0.0 },
            _ => MuskingumInitialCondition::Specified { inflow: 4.0, outflow: 7.0 },
        };
        let kk: Vec<f64> = (0..d).map(|t| if kv { k + t as f64 * 0.5 } else { k }).collect();
        let km = supply(&mut nb, "k", if kv { Src::Simple } else { Src::Lit }, &kk);
        nb.parameters().multi(Box::new(MuskingumParameterBuilder::new(
            "mk".into(),
            UnresolvedMetricF64::NodeOutFlow("in".into()),
            UnresolvedMetricF64::NodeInFlow("out2".into()),
            km,
            w.into(),
            ic,
        )));
        let ms = vec![
            UnresolvedMetricF64::new_parameter_after("def"),
            UnresolvedMetricF64::new_parameter_before_key("mk", "inflow_factor"),
            UnresolvedMetricF64::new_parameter_before_key("mk", "rhs"),
            UnresolvedMetricF64::NodeInFlow("out".into()),
            UnresolvedMetricF64::NodeInFlow("out2".into()),
        ];
        let outs = match run_twice(nb, h.len(), d, ms) {
            Ok(o) => o,
            Err(e) => return fail("flows:error", e.text()),
        };
        let want_flow = |s: usize, t: usize| {
            let a = h[s][t].min(supply_limit);
            (a, (supply_limit - a).min(1.0))
        };
        judge(ch, "flows:out", &outs, &h, 3, |s, t| want_flow(s, t).0)?;
        judge(ch, "flows:out2", &outs, &h, 4, |s, t| want_flow(s, t).1)?;
        judge(ch, "deficit:value", &outs, &h, 0, |s, t| h[s][t] - want_flow(s, t).0)?;
        // outflow O, inflow I: O_t = c0 I_t + c1 I_(t-1) + c2 O_(t-1)
        let coef = |s: usize, t: usize| -> (f64, f64) {
            let k = kk[t];
            let den = 2.0 * k * (1.0 - w) + 1.0;
            let (c0, c1, c2) = ((1.0 - 2.0 * k * w) / den, (1.0 + 2.0 * k * w) / den, (2.0 * k * (1.0 - w) - 1.0) / den);
            if t == 0 {
                match cond {
                    // in steady state all flows are equal: O = I
                    0 => (-1.0, 0.0),
                    1 => (-c0, 0.0),
                    _ => (-c0, c1 * 4.0 + c2 * 7.0),
                }
            } else {
                let (a, b) = want_flow(s, t - 1);
                (-c0, c1 * (a + b) + c2 * b)
            }
        };
        judge(ch, "routing:factor", &outs, &h, 1, |s, t| coef(s, t).0)?;
        judge(ch, "routing:rhs", &outs, &h, 2, |s, t| coef(s, t).1)
    });

    // memory of a metric that is only known after the solve
    cx.explore("flow-memory", |ch| {
        let delay = 1 + ch.pick(3);
        let window = 1 + ch.pick(3);
        ch.describe(|| format!("delay {delay} and rolling mean over {window} of a node's flow"));
        let d = cx.b(4, 6);
        let h = histories(&[0.0, 3.0, 5.0], d);
        let mut nb = NetworkBuilder::default();
        let x = supply_h(&mut nb, "x", false, &h);
        let mut i = NodeBuilder::input("in");
        i.max_flow(x).cost((-1.0).into());
        nb.node(i);
        nb.node(NodeBuilder::output("out"));
        nb.connect("in", "out");
        f64p(&mut nb, DelayParameterBuilder::<UnresolvedMetricF64, f64>::new("dl".into(), UnresolvedMetricF64::NodeOutFlow("in".into()), delay as u64, 7.0));
        f64p(
            &mut nb,
            RollingParameterBuilder::<UnresolvedMetricF64, f64, AggFuncF64>::new("rl".into(), UnresolvedMetricF64::NodeOutFlow("in".into()), window, 8.0, 1, AggFuncF64::Mean),
        );
        let outs = match run_twice(nb, h.len(), d, vec![pm("dl"), pm("rl")]) {
            Ok(o) => o,
            Err(e) => return fail("flow-memory:error", e.text()),
        };
        judge(ch, "flow-delay:value", &outs, &h, 0, |s, t| if t < delay { 7.0 } else { h[s][t - delay] })?;
        judge(ch, "flow-rolling:value", &outs, &h, 1, |s, t| {
            let p = &h[s][t.saturating_sub(window)..t];
            if p.is_empty() { 8.0 } else { p.iter().sum::<f64>() / p.len() as f64 }
        })
    });
}
