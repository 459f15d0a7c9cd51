//! C27: variable values.
use crate::core::*;
use crate::harness::*;
use crate::p_param::*;
use pywr_core::agg_funcs::AggFuncF64;
use pywr_core::models::ModelBuilder;
use pywr_core::network::{NetworkBuilder};
use pywr_core::parameters::*;
use pywr_core::scenario::ScenarioIndex;
use pywr_core::solvers::MicroLpSolver;

/// What the activation function gives for a value set from outside.
fn activate(f: usize, v: f64) -> f64 {
    match f {
        0 => v.max(0.0).min(10.0),
        1 => {
            let x = v.max(-1.0).min(1.0);
            if x > 0.0 { 2.0 + x * 6.0 } else { -5.0 }
        }
        // (the value for negative inputs lies within the range of the positive ones)
        4 => {
            let x = v.max(-1.0).min(1.0);
            if x > 0.0 { -9.0 + x * 12.0 } else { -5.0 }
        }
        2 => if v > 0.0 { 4.0 } else { -2.0 },
        _ => 8.0 / (1.0 + (-0.7 * v.max(-6.0).min(6.0)).exp()),
    }
}
fn activation(f: usize) -> ActivationFunction {
    match f {
        0 => ActivationFunction::Unit { min: 0.0, max: 10.0 },
        1 => ActivationFunction::Rectifier { min: 2.0, max: 8.0, neg_value: -5.0 },
        4 => ActivationFunction::Rectifier { min: -9.0, max: 3.0, neg_value: -5.0 },
        2 => ActivationFunction::BinaryStep { pos_value: 4.0, neg_value: -2.0 },
        _ => ActivationFunction::Logistic { growth_rate: 0.7, max: 8.0 },
    }
}
fn bounds(f: usize) -> (f64, f64) {
    match f {
        0 => (0.0, 10.0),
        1 | 2 | 4 => (-1.0, 1.0),
        _ => (-6.0, 6.0),
    }
}

#[derive(Clone, Debug)]
enum Op {
    Step,
    Set { p: usize, who: usize, v: f64 },
    Short { p: usize },
    Long { p: usize },
    NotVariable,
    NotInteger { p: usize },
}
const P: [&str; 3] = ["const", "off", "off2"];
const NS: usize = 3;

fn scen(r: &Run<MicroLpSolver>, s: usize) -> ScenarioIndex {
    r.model.domain().scenarios().indices()[s].clone()
}

pub fn c27(cx: &Cx) {
    cx.assume("parameter values are compared to 1e-7 relative");
    let depth = cx.b(3, 4);
    let vals = [0.3, -7.0, 40.0];
    cx.explore("operations", |ch| {
        let f = ch.pick(5);
        let mut ops = vec![];
        for _ in 0..depth {
            // 1 step, 2 parameters x (all, each scenario) x values, invalid operations
            let k = ch.pick(1 + 24 + 7);
            ops.push(match k {
                0 => Op::Step,
                1..=24 => {
                    let k = k - 1;
                    Op::Set { p: k % 2, who: (k / 2) % (NS + 1), v: vals[k / 8] }
                }
                25 | 26 => Op::Short { p: k - 25 },
                27 | 28 => Op::Long { p: k - 27 },
                29 => Op::NotVariable,
                _ => Op::NotInteger { p: k - 30 },
            });
        }
        ops.push(Op::Step);
        ch.describe(|| format!("activation {f}: {ops:?}"));
        let af = activation(f);
        let n = ops.len();
        let g: Vec<Vec<f64>> = (0..NS).map(|s| (0..n).map(|t| 100.0 * (s + 1) as f64 + t as f64).collect()).collect();
        let mut nb = trivial_network();
        f64p(&mut nb, ConstantParameterBuilder::new("const".into(), 1.0));
        f64p(&mut nb, ConstantParameterBuilder::new("const2".into(), 6.0));
        f64p(&mut nb, GenSeriesBuilder::new("g", g.clone()));
        f64p(&mut nb, OffsetParameterBuilder::new("off".into(), pm("g"), 2.0));
        f64p(&mut nb, OffsetParameterBuilder::new("off2".into(), pm("g"), 3.0));
        let mut a = AggregatedParameterBuilder::before("sum".into(), AggFuncF64::Sum);
        a.metric(pm("const")).metric(pm("off"));
        f64p(&mut nb, a);
        let (p, sink) = ProbeBuilder::new("probe", vec![pm("const"), pm("off"), pm("off2"), pm("const2"), pm("sum")]);
        nb.recorder(Box::new(p));
        let mut r = match Run::<MicroLpSolver>::build(ModelBuilder::new(domain_scen(time_days(dt0(), 1, n), &[("s", NS)]), nb)) {
            Ok(r) => r,
            Err(e) => return fail("ops:error", e.text()),
        };
        let idx = |r: &Run<MicroLpSolver>, name: &str| r.model.network().get_parameter_index_by_name(&name.into()).unwrap();
        // the values set so far
        let mut set: [[Option<f64>; NS]; 2] = [[None; NS]; 2];
        let mut t = 0;
        let mut stale = None;
        for (k, op) in ops.iter().enumerate() {
            match op {
                Op::Step => {
                    if let Err(e) = r.step() {
                        return fail("ops:step", e.text());
                    }
                    let rows = sink.lock().unwrap()[t].clone();
                    for s in 0..NS {
                        let gt = g[s][t];
                        let c = set[0][s].unwrap_or(1.0);
                        let o = gt + set[1][s].unwrap_or(2.0);
                        chk!(close(rows[s][1], o), "ops:offset", "operation {k}: scenario {s}: the offset parameter is {}, expected {o}", rows[s][1]);
                        chk!(close(rows[s][2], gt + 3.0) && close(rows[s][3], 6.0), "ops:other", "operation {k}: scenario {s}: parameters that were never set are {} and {}", rows[s][2], rows[s][3]);
                        chk!(close(rows[s][4], rows[s][0] + rows[s][1]), "ops:dependent", "operation {k}: scenario {s}: sum of {} and {} is {}", rows[s][0], rows[s][1], rows[s][4]);
                        if !close(rows[s][0], c) {
                            // the value it had before anything was set
                            if close(rows[s][0], 1.0) {
                                stale.get_or_insert((k, s, c));
                            } else {
                                return fail("ops:const", format!("operation {k}: scenario {s}: the constant parameter is {}, expected {c}", rows[s][0]));
                            }
                        }
                    }
                    t += 1;
                }
                Op::Set { p, who, v } => {
                    let i = idx(&r, P[*p]);
                    let net = r.model.network();
                    let (si, whom): (Option<ScenarioIndex>, Vec<usize>) = if *who == 0 { (None, (0..NS).collect()) } else { (Some(scen(&r, who - 1)), vec![who - 1]) };
                    let st = r.state.network_state_mut();
                    let res = imp(|| match &si {
                        None => net.set_f64_parameter_variable_values(i, &[*v], &af, st),
                        Some(si) => net.set_f64_parameter_variable_values_for_scenario(i, si.clone(), &[*v], &af, st),
                    });
                    if let Err(e) = res {
                        return fail("ops:set", format!("operation {k}: {}", e.text()));
                    }
                    for s in whom {
                        set[*p][s] = Some(activate(f, *v));
                    }
                }
                bad => {
                    let net = r.model.network();
                    let (ip, ig) = (|p: usize| idx(&r, P[p]), idx(&r, "g"));
                    let i = match bad {
                        Op::Short { p } | Op::Long { p } | Op::NotInteger { p } => ip(*p),
                        _ => ig,
                    };
                    let si = scen(&r, 1);
                    let st = r.state.network_state_mut();
                    for each in [false, true] {
                        let res = imp(|| match bad {
                            Op::Short { .. } if each => net.set_f64_parameter_variable_values_for_scenario(i, si.clone(), &[], &af, st),
                            Op::Short { .. } => net.set_f64_parameter_variable_values(i, &[], &af, st),
                            Op::Long { .. } if each => net.set_f64_parameter_variable_values_for_scenario(i, si.clone(), &[1.0, 2.0], &af, st),
                            Op::Long { .. } => net.set_f64_parameter_variable_values(i, &[1.0, 2.0], &af, st),
                            Op::NotVariable if each => net.set_f64_parameter_variable_values_for_scenario(i, si.clone(), &[1.0], &af, st),
                            Op::NotVariable => net.set_f64_parameter_variable_values(i, &[1.0], &af, st),
                            _ if each => net.set_u32_parameter_variable_values_for_scenario(i, si.clone(), &[1], &af, st),
                            _ => net.set_u32_parameter_variable_values(i, &[1], &af, st),
                        });
                        match res {
                            Ok(_) => return fail("ops:accepted", format!("operation {k}: {bad:?} is accepted")),
                            Err(e) => chk!(!e.is_panic(), "ops:panic", "operation {k}: {}", e.text()),
                        }
                    }
                }
            }
            // reading back
            let net = r.model.network();
            for p in 0..3 {
                let i = idx(&r, P[p]);
                let all = match imp(|| net.get_f64_parameter_variable_values(i, r.state.network_state())) {
                    Ok(a) => a,
                    Err(e) => return fail("ops:get", e.text()),
                };
                for s in 0..NS {
                    let want = if p < 2 { set[p][s].map(|v| vec![v]) } else { None };
                    let one = match imp(|| net.get_f64_parameter_variable_values_for_scenario(i, scen(&r, s), r.state.network_state())) {
                        Ok(a) => a,
                        Err(e) => return fail("ops:get", e.text()),
                    };
                    for got in [&all[s], &one] {
                        let same = match (got, &want) {
                            (None, None) => true,
                            (Some(a), Some(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y)),
                            _ => false,
                        };
                        chk!(same, "ops:readback", "operation {k}: reading {} of scenario {s} gives {got:?}, expected {want:?}", P[p]);
                    }
                }
                let (lo, hi) = bounds(f);
                let v = net.get_parameter(i).unwrap().as_f64_variable().unwrap();
                chk!(v.size(&af) == 1 && v.get_lower_bounds(&af) == Some(vec![lo]) && v.get_upper_bounds(&af) == Some(vec![hi]), "ops:bounds", "size {} bounds {:?} to {:?}", v.size(&af), v.get_lower_bounds(&af), v.get_upper_bounds(&af));
            }
            ch.state(&format!("{f} {set:?} {t}"));
        }
        if let Some((k, s, c)) = stale {
            return fail("const:no-effect", format!("operation {k}: scenario {s}: the value {c} set on a constant parameter has no effect on the run"));
        }
        Ok(())
    });

    // profiles: values and days of the points
    cx.explore("profile", |ch| {
        let func = ch.pick(3);
        let mk = || match func {
            0 => RadialBasisFunction::Linear,
            1 => RadialBasisFunction::MultiQuadric { epsilon: 0.02 },
            _ => RadialBasisFunction::Gaussian { epsilon: 0.02 },
        };
        let base: Vec<(u32, f64)> = vec![(20, 1.0), (150, 3.0), (300, 2.0)];
        let nops = cx.b(2, 3);
        let ys = [[5.0, 0.0, 1.0], [2.0, 2.0, 8.0]];
        let xs = [[10u32, 100, 200], [60, 61, 364]];
        let range = ch.pick(3);
        let cfg = RbfProfileVariableConfig::new([None, Some(30), Some(200)][range], 9.0, -1.0);
        let mut ops = vec![];
        for _ in 0..nops {
            ops.push((ch.pick(8), ch.pick(NS + 1), ch.pick(2)));
        }
        let early = ch.flag();
        ch.describe(|| format!("profile function {func}, range {range}, operations (kind, scenario, values) {ops:?}, step first {early}"));
        let nt = 4;
        let time = || time_days(jiff::civil::date(2023, 2, 27).at(0, 0, 0, 0), 91, nt);
        let build = |pts: Vec<(u32, f64)>| -> Result<(Run<MicroLpSolver>, Sink), ImpErr> {
            let mut nb = trivial_network();
            f64p(&mut nb, RbfProfileParameterBuilder::new("p".into(), pts, mk()));
            f64p(&mut nb, RbfProfileParameterBuilder::new("q".into(), vec![(20, 1.0), (150, 3.0), (300, 2.0)], mk()));
            let (p, sink) = ProbeBuilder::new("probe", vec![pm("p"), pm("q")]);
            nb.recorder(Box::new(p));
            Ok((Run::build(ModelBuilder::new(domain_scen(time(), &[("s", NS)]), nb))?, sink))
        };
        let (mut r, sink) = match build(base.clone()) {
            Ok(r) => r,
            Err(e) => return fail("profile:error", e.text()),
        };
        let start = if early { 1 } else { 0 };
        if early {
            if let Err(e) = r.step() {
                return fail("profile:step", e.text());
            }
        }
        let mut pts = vec![base.clone(); NS];
        let mut setx: Vec<Option<Vec<u32>>> = vec![None; NS];
        let mut sety: Vec<Option<Vec<f64>>> = vec![None; NS];
        for (kind, who, v) in &ops {
            let i = r.model.network().get_parameter_index_by_name(&"p".into()).unwrap();
            let si = if *who == 0 { None } else { Some(scen(&r, who - 1)) };
            let whom: Vec<usize> = if *who == 0 { (0..NS).collect() } else { vec![who - 1] };
            let net = r.model.network();
            let st = r.state.network_state_mut();
            let fv: Vec<f64> = match kind {
                0 => ys[*v].to_vec(),
                1 => ys[*v][..2].to_vec(),
                2 => [ys[*v].to_vec(), vec![1.0]].concat(),
                _ => vec![],
            };
            let uv: Vec<u32> = match kind {
                3 => xs[*v].to_vec(),
                4 => xs[*v][..2].to_vec(),
                5 => [xs[*v].to_vec(), vec![1]].concat(),
                6 => vec![40, 90, 40],
                7 => vec![0, 365, 100],
                _ => vec![],
            };
            let res = imp(|| match (&si, *kind <= 2) {
                (None, true) => net.set_f64_parameter_variable_values(i, &fv, &cfg, st),
                (Some(s), true) => net.set_f64_parameter_variable_values_for_scenario(i, s.clone(), &fv, &cfg, st),
                (None, false) => net.set_u32_parameter_variable_values(i, &uv, &cfg, st),
                (Some(s), false) => net.set_u32_parameter_variable_values_for_scenario(i, s.clone(), &uv, &cfg, st),
            });
            let ok = *kind == 0 || *kind == 3;
            match res {
                Ok(_) => chk!(ok, "profile:accepted", "kind {kind}: values {fv:?} days {uv:?} are accepted for three points"),
                Err(e) => {
                    chk!(!e.is_panic(), "profile:panic", "{}", e.text());
                    chk!(!ok, "profile:set", "{}", e.text());
                }
            }
            for s in whom {
                if *kind == 0 {
                    sety[s] = Some(fv.clone());
                    for (p, y) in pts[s].iter_mut().zip(&fv) {
                        p.1 = *y;
                    }
                }
                if *kind == 3 {
                    setx[s] = Some(uv.clone());
                    for (p, x) in pts[s].iter_mut().zip(&uv) {
                        p.0 = *x;
                    }
                }
            }
            let net = r.model.network();
            for s in 0..NS {
                let y = imp(|| net.get_f64_parameter_variable_values_for_scenario(i, scen(&r, s), r.state.network_state()));
                let x = imp(|| net.get_u32_parameter_variable_values_for_scenario(i, scen(&r, s), r.state.network_state()));
                match (x, y) {
                    (Ok(x), Ok(y)) => chk!(x == setx[s] && y == sety[s], "profile:readback", "scenario {s}: days {x:?} values {y:?}, expected {:?} and {:?}", setx[s], sety[s]),
                    (x, y) => return fail("profile:get", format!("{:?} {:?}", x.map_err(|e| e.text()), y.map_err(|e| e.text()))),
                }
            }
        }
        // bounds of the variables
        let i = r.model.network().get_parameter_index_by_name(&"p".into()).unwrap();
        let p = r.model.network().get_parameter(i).unwrap();
        let (fv, uv) = (p.as_f64_variable().unwrap(), p.as_u32_variable().unwrap());
        chk!(fv.get_lower_bounds(&cfg) == Some(vec![-1.0; 3]) && fv.get_upper_bounds(&cfg) == Some(vec![9.0; 3]) && fv.size(&cfg) == 3, "profile:bounds", "value bounds {:?} {:?}", fv.get_lower_bounds(&cfg), fv.get_upper_bounds(&cfg));
        let want = [None, Some((vec![1u32, 120, 270], vec![50u32, 180, 330])), Some((vec![1, 1, 100], vec![220, 350, 365]))][range].clone();
        let got = (uv.get_lower_bounds(&cfg), uv.get_upper_bounds(&cfg));
        chk!(got == (want.clone().map(|w| w.0), want.clone().map(|w| w.1)) && uv.size(&cfg) == if range == 0 { 0 } else { 3 }, "profile:day-bounds", "day bounds {got:?}, expected {want:?}");
        for _ in start..nt {
            if let Err(e) = r.step() {
                return fail("profile:step", e.text());
            }
        }
        let out = sink.lock().unwrap().clone();
        for s in 0..NS {
            // a model built with these points
            let (mut q, qsink) = match build(pts[s].clone()) {
                Ok(r) => r,
                Err(e) => return fail("profile:error", e.text()),
            };
            for _ in 0..nt {
                if let Err(e) = q.step() {
                    return fail("profile:step", e.text());
                }
            }
            let want = qsink.lock().unwrap().clone();
            for t in start..nt {
                chk!(close(out[t][s][0], want[t][s][0]), "profile:value", "scenario {s} step {t}: got {}, a model built with points {:?} gives {}", out[t][s][0], pts[s], want[t][s][0]);
                chk!(close(out[t][s][1], want[t][s][1]), "profile:other", "scenario {s} step {t}: another profile changed to {}", out[t][s][1]);
            }
        }
        ch.state(&format!("{func} {pts:?}"));
        Ok(())
    });
}
