//! C06, C07: every argument of every parameter type and node attribute, varied between scenarios one at a time.
//! A value that is remembered, shared or normalised across scenarios (or timesteps) shows up as a difference from
//! the run that holds the one scenario alone.
use crate::core::*;
use crate::harness::*;
use crate::p_param::*;
use ndarray::Array2;
use pywr_core::agg_funcs::*;
use pywr_core::aggregated_node::*;
use pywr_core::metric::{UnresolvedMetricF64 as M, UnresolvedMetricU64 as MU};
use pywr_core::models::*;
use pywr_core::network::*;
use pywr_core::node::*;
use pywr_core::parameters::*;
use pywr_core::solvers::*;
use pywr_core::virtual_storage::*;
use pywr_core::{AggregatedNodeBuilder, AggregatedStorageNodeBuilder};

/// name, arguments as (base, other), whether general sources are possible
pub const KINDS: &[(&str, &[(f64, f64)], bool)] = &[
    ("agg-sum", &[(1.0, 2.0), (5.0, 3.0)], true),
    ("agg-min", &[(1.0, 2.0), (1.5, 3.0), (7.0, 0.5)], true),
    ("agg-product", &[(1.0, 2.0), (5.0, 3.0)], true),
    ("agg-index", &[(0.0, 1.0), (1.0, 0.0)], true),
    ("switch", &[(0.0, 1.0), (1.0, 0.0)], true),
    ("curve", &[(0.5, 0.9), (0.7, 0.4), (0.3, 0.2), (10.0, 11.0), (20.0, 21.0), (30.0, 31.0)], true),
    ("curve-index", &[(0.5, 0.9), (0.7, 0.4), (0.3, 0.2)], true),
    ("curve-interp", &[(0.5, 0.9), (0.7, 0.6), (0.3, 0.2), (10.0, 11.0), (20.0, 21.0), (30.0, 31.0), (40.0, 41.0)], true),
    ("curve-piecewise", &[(0.5, 0.9), (0.7, 0.6), (0.3, 0.2)], true),
    ("apportion", &[(0.5, 0.9), (0.4, 0.6)], true),
    ("between", &[(10.0, 20.0), (0.8, 0.9), (0.2, 0.1)], false),
    ("deficit", &[(2.0, 3.0), (5.0, 6.0)], true),
    ("delay", &[(2.0, 3.0)], true),
    ("difference", &[(7.0, 9.0), (2.0, 3.0), (1.0, 5.5), (5.0, 6.0)], true),
    ("discount", &[(0.02, 0.05)], true),
    ("division", &[(7.0, 9.0), (2.0, 3.0)], true),
    ("hydropower", &[(100.0, 120.0), (50.0, 60.0), (500.0, 1.0), (0.5, 30.0)], true),
    ("indexed", &[(0.0, 1.0), (5.0, 6.0), (7.0, 8.0)], true),
    ("interpolated", &[(0.5, 0.7), (0.0, 0.1), (1.0, 2.0), (1.0, 1.5), (3.0, 4.0)], true),
    ("max", &[(2.0, 4.0)], true),
    ("min", &[(2.0, 4.0)], true),
    ("negative", &[(2.0, 4.0)], true),
    ("negative-max", &[(2.0, -4.0)], true),
    ("negative-min", &[(2.0, -4.0)], true),
    ("offset", &[(2.0, 4.0)], true),
    ("polynomial", &[(2.0, 4.0)], true),
    ("multi-threshold", &[(2.0, 4.0), (1.0, 2.5), (3.0, 4.5)], true),
    ("multi-threshold-ratchet", &[(2.0, 4.0), (1.0, 2.5), (3.0, 4.5)], true),
    ("threshold", &[(2.0, 4.0), (3.0, 1.0)], true),
    ("threshold-ratchet", &[(2.0, 4.0), (3.0, 1.0)], true),
    ("muskingum", &[(2.0, 4.0), (3.0, 1.0), (1.5, 2.0), (0.25, 0.1)], true),
    ("muskingum-steady", &[(2.0, 4.0), (3.0, 1.0), (1.5, 2.0), (0.25, 0.1)], true),
    ("rolling", &[(2.0, 4.0)], true),
    ("node-limits", &[(1.0, 2.0), (6.0, 4.0), (3.0, 3.5)], true),
    ("node-costs", &[(1.0, -7.0), (2.0, 5.0), (3.0, -9.0)], true),
    ("storage", &[(20.0, 12.0), (2.0, 5.0), (6.0, 3.0)], false),
    ("storage-costs", &[(1.0, -7.0), (2.0, -5.0)], true),
    ("agg-limits", &[(6.0, 4.0), (3.0, 5.0)], true),
    ("ratio", &[(1.0, 2.0), (3.0, 5.0)], true),
    ("proportion", &[(0.25, 0.5), (0.3, 0.4)], true),
    ("coefficient", &[(1.0, 2.0), (3.0, 5.0), (0.0, 1.0)], true),
    ("exclusive", &[(6.0, 4.0), (3.0, 5.0)], true),
    ("virtual", &[(20.0, 12.0), (2.0, 5.0)], false),
    ("virtual-cost", &[(1.0, -7.0), (2.0, 5.0)], true),
    ("agg-storage", &[(20.0, 12.0), (30.0, 25.0)], false),
];

/// A u64 source of an argument that is 0 or 1.
fn as_u(nb: &mut NetworkBuilder, name: &str, a: &M) -> MU {
    u64p(nb, ThresholdParameterBuilder::new(name.into(), a.clone(), 0.5.into(), Predicate::GreaterThan));
    um(name)
}
fn p_f(nb: &mut NetworkBuilder, b: impl ParameterBuilder<f64> + 'static) -> Vec<M> {
    f64p(nb, b);
    vec![pm("p")]
}
fn p_u(nb: &mut NetworkBuilder, b: impl ParameterBuilder<u64> + 'static) -> Vec<M> {
    u64p(nb, b);
    vec![pm("p")]
}
/// Adds the parameter or network part of this kind with the given arguments; what shows its result.
fn add(kind: &str, nb: &mut NetworkBuilder, a: &[M]) -> Vec<M> {
    let p = || ParameterName::from("p");
    match kind {
        "agg-sum" | "agg-min" | "agg-product" => {
            let mut b = AggregatedParameterBuilder::before(
                p(),
                match kind {
                    "agg-sum" => AggFuncF64::Sum,
                    "agg-min" => AggFuncF64::Min,
                    _ => AggFuncF64::Product,
                },
            );
            for m in a {
                b.metric(m.clone());
            }
            p_f(nb, b)
        }
        "agg-index" => {
            let u: Vec<MU> = a.iter().enumerate().map(|(i, m)| as_u(nb, &format!("u{i}"), m)).collect();
            let mut b = AggregatedIndexParameterBuilder::before(p(), AggFuncU64::Sum);
            for m in u {
                b.metric(m);
            }
            p_u(nb, b)
        }
        "switch" => {
            let (x, y) = (as_u(nb, "u0", &a[0]), as_u(nb, "u1", &a[1]));
            p_u(nb, AsymmetricSwitchIndexParameterBuilder::before(p(), x, y))
        }
        "curve" => {
            let mut b = ControlCurveParameterBuilder::before(p(), a[0].clone());
            b.control_curve(a[1].clone());
            b.control_curve(a[2].clone());
            for m in &a[3..] {
                b.value(m.clone());
            }
            p_f(nb, b)
        }
        "curve-index" => {
            let mut b = ControlCurveIndexParameterBuilder::before(p(), a[0].clone());
            b.control_curve(a[1].clone());
            b.control_curve(a[2].clone());
            p_u(nb, b)
        }
        "curve-interp" => {
            let mut b = ControlCurveInterpolatedParameterBuilder::before(p(), a[0].clone());
            b.control_curve(a[1].clone());
            b.control_curve(a[2].clone());
            for m in &a[3..] {
                b.value(m.clone());
            }
            p_f(nb, b)
        }
        "curve-piecewise" => {
            let mut b = PiecewiseInterpolatedParameterBuilder::before(p(), a[0].clone(), 1.0, 0.0);
            b.control_curve(a[1].clone());
            b.control_curve(a[2].clone());
            for v in [[10.0, 9.0], [8.0, 6.0], [5.0, 1.0]] {
                b.value(v);
            }
            p_f(nb, b)
        }
        "apportion" => {
            nb.parameters().multi(Box::new(ApportionParameterBuilder::before(p(), a[0].clone(), a[1].clone())));
            vec![M::new_parameter_before_key("p", "upper"), M::new_parameter_before_key("p", "lower")]
        }
        "between" => {
            let mut b = VolumeBetweenControlCurvesParameterBuilder::new(p(), a[0].clone());
            b.upper(a[1].clone());
            b.lower(a[2].clone());
            p_f(nb, b)
        }
        "deficit" => {
            f64p(nb, DeficitParameterBuilder::new(p(), a[0].clone(), a[1].clone()));
            vec![M::new_parameter_after("p")]
        }
        "delay" => p_f(nb, DelayParameterBuilder::<M, f64>::new(p(), a[0].clone(), 1, 7.0)),
        "rolling" => p_f(nb, RollingParameterBuilder::<M, f64, AggFuncF64>::new(p(), a[0].clone(), 2, 1.5, 1, AggFuncF64::Mean)),
        "difference" => {
            let mut b = DifferenceParameterBuilder::new(p(), a[0].clone(), a[1].clone());
            b.min(a[2].clone());
            b.max(a[3].clone());
            p_f(nb, b)
        }
        "discount" => p_f(nb, DiscountFactorParameterBuilder::new(p(), a[0].clone(), 2015)),
        "division" => p_f(nb, DivisionParameterBuilder::before(p(), a[0].clone(), a[1].clone())),
        "hydropower" => p_f(
            nb,
            HydropowerTargetParameterBuilder::new(
                p(),
                HydropowerTargetData {
                    actual_flow: None,
                    target: Some(a[0].clone()),
                    elevation: Some(5.0),
                    min_head: None,
                    max_flow: Some(a[2].clone()),
                    min_flow: Some(a[3].clone()),
                    efficiency: Some(0.9),
                    water_elevation: Some(a[1].clone()),
                    water_density: None,
                    flow_unit_conversion: None,
                    energy_unit_conversion: Some(1e-4),
                },
            ),
        ),
        "indexed" => {
            let u = as_u(nb, "u0", &a[0]);
            let mut b = IndexedArrayParameterBuilder::new(p(), u);
            b.metric(a[1].clone());
            b.metric(a[2].clone());
            p_f(nb, b)
        }
        "interpolated" => p_f(nb, InterpolatedParameterBuilder::new(p(), a[0].clone(), vec![(a[1].clone(), a[2].clone()), (a[3].clone(), a[4].clone())])),
        "max" => p_f(nb, MaxParameterBuilder::new(p(), a[0].clone(), 3.0)),
        "min" => p_f(nb, MinParameterBuilder::new(p(), a[0].clone(), 3.0)),
        "negative" => p_f(nb, NegativeParameterBuilder::new(p(), a[0].clone())),
        "negative-max" => p_f(nb, NegativeMaxParameterBuilder::new(p(), a[0].clone(), -1.0)),
        "negative-min" => p_f(nb, NegativeMinParameterBuilder::new(p(), a[0].clone(), -1.0)),
        "offset" => p_f(nb, OffsetParameterBuilder::new(p(), a[0].clone(), 0.5)),
        "polynomial" => p_f(nb, Polynomial1DParameterBuilder::new(p(), a[0].clone(), vec![1.0, 2.0, 0.5])),
        "multi-threshold" | "multi-threshold-ratchet" => {
            let mut b = MultiThresholdParameterBuilder::new(p(), a[0].clone(), Predicate::GreaterThan);
            b.threshold(a[2].clone());
            b.threshold(a[1].clone());
            if kind.ends_with("ratchet") {
                b.ratchet();
            }
            p_u(nb, b)
        }
        "threshold" | "threshold-ratchet" => {
            let mut b = ThresholdParameterBuilder::new(p(), a[0].clone(), a[1].clone(), Predicate::GreaterThan);
            if kind.ends_with("ratchet") {
                b.ratchet();
            }
            p_u(nb, b)
        }
        "muskingum" | "muskingum-steady" => {
            let init = if kind == "muskingum" { MuskingumInitialCondition::Specified { inflow: 2.0, outflow: 1.0 } } else { MuskingumInitialCondition::SteadyState };
            nb.parameters().multi(Box::new(MuskingumParameterBuilder::new(p(), a[0].clone(), a[1].clone(), a[2].clone(), a[3].clone(), init)));
            vec![M::new_parameter_before_key("p", "inflow_factor"), M::new_parameter_before_key("p", "rhs")]
        }
        // parts of the network, in a fixed frame: two sources, a link, a storage, two demands
        _ => network(kind, nb, a),
    }
}
fn network(kind: &str, nb: &mut NetworkBuilder, a: &[M]) -> Vec<M> {
    let mut s1 = NodeBuilder::input("s1");
    let mut s2 = NodeBuilder::input("s2");
    let mut l = NodeBuilder::link("l");
    let mut st = NodeBuilder::storage("st");
    let mut d1 = NodeBuilder::output("d1");
    let mut d2 = NodeBuilder::output("d2");
    s1.max_flow(7.0.into()).cost(1.0.into());
    s2.max_flow(5.0.into()).cost(1.5.into());
    st.initial_volume(UnresolvedStorageInitialVolume::absolute(8.0));
    d2.max_flow(6.0.into()).cost((-6.0).into());
    match kind {
        "storage" => {
            st.max_volume(a[0].clone()).min_volume(a[1].clone()).cost((-2.0).into());
            d1.max_flow(a[2].clone()).cost((-10.0).into());
        }
        _ => {
            st.max_volume(40.0.into());
            d1.max_flow(9.0.into()).cost((-10.0).into());
        }
    }
    match kind {
        "node-limits" => {
            s1.min_flow(a[0].clone()).max_flow(a[1].clone());
            d2.max_flow(a[2].clone());
        }
        "node-costs" => {
            s1.cost(a[0].clone());
            s2.cost(a[1].clone());
            l.cost(a[2].clone());
        }
        "storage-costs" => {
            st.cost(a[0].clone());
            d2.cost(a[1].clone());
        }
        _ => (),
    }
    for n in [s1, s2, l, st, d1, d2] {
        nb.node(n);
    }
    for (x, y) in [("s1", "l"), ("s2", "l"), ("l", "st"), ("st", "d1"), ("l", "d2")] {
        nb.connect(x, y);
    }
    let mut agg = AggregatedNodeBuilder::new("agg");
    agg.nodes(vec!["s1".into()]);
    agg.nodes(vec!["s2".into()]);
    match kind {
        "agg-limits" => {
            let mut up = AggregatedNodeBuilder::new("up");
            up.nodes(vec!["s1".into(), "s2".into()]);
            up.max_flow(a[0].clone());
            nb.agg_node(up);
            let mut lo = AggregatedNodeBuilder::new("lo");
            lo.nodes(vec!["d1".into(), "d2".into()]);
            lo.max_flow(a[1].clone());
            nb.agg_node(lo);
        }
        "ratio" => {
            let mut f = RatioFactorsBuilder::default();
            f.factor(a[0].clone()).factor(a[1].clone());
            agg.relationship(Box::new(f));
            nb.agg_node(agg);
        }
        "proportion" => {
            let mut f = ProportionalFactorsBuilder::default();
            f.factor(a[0].clone());
            agg.relationship(Box::new(f));
            nb.agg_node(agg);
            let mut f = ProportionalFactorsBuilder::default();
            f.factor(a[1].clone());
            let mut agg = AggregatedNodeBuilder::new("agg2");
            agg.nodes(vec!["d1".into()]);
            agg.nodes(vec!["d2".into()]);
            agg.relationship(Box::new(f));
            nb.agg_node(agg);
        }
        "coefficient" => {
            let mut f = CoefficientFactorsBuilder::default();
            f.factor(a[0].clone()).factor(a[1].clone()).rhs(a[2].clone());
            agg.relationship(Box::new(f));
            nb.agg_node(agg);
        }
        "exclusive" => {
            let mut e = ExclusivityBuilder::default();
            e.min_active(0).max_active(1);
            let mut agg = AggregatedNodeBuilder::new("agg2");
            agg.nodes(vec!["x1".into()]);
            agg.nodes(vec!["x2".into()]);
            agg.relationship(Box::new(e));
            for (n, m, c) in [("x1", &a[0], -1.0), ("x2", &a[1], -1.25)] {
                let mut b = NodeBuilder::input(n);
                b.max_flow(m.clone()).cost(c.into());
                nb.node(b);
                nb.connect(n, "sea");
            }
            nb.node(NodeBuilder::output("sea"));
            nb.agg_node(agg);
        }
        "virtual" | "virtual-cost" => {
            let mut v = VirtualStorageNodeBuilder::new("v", &["s1".into(), "d2".into()]);
            v.factors(&[1.0, 0.5]).initial_volume(UnresolvedStorageInitialVolume::proportional(0.75)).reset(VirtualStorageReset::DayOfYear { day: 3, month: 1 });
            if kind == "virtual" {
                v.max_volume(a[0].clone()).min_volume(a[1].clone());
            } else {
                v.max_volume(30.0.into()).cost(a[0].clone());
            }
            nb.virtual_storage_node(v);
            if kind == "virtual-cost" {
                let mut v = VirtualStorageNodeBuilder::new("v2", &["s2".into()]);
                v.factors(&[1.0]).initial_volume(UnresolvedStorageInitialVolume::proportional(1.0)).max_volume(30.0.into()).cost(a[1].clone());
                nb.virtual_storage_node(v);
            }
        }
        "agg-storage" => {
            for (n, m) in [("t1", &a[0]), ("t2", &a[1])] {
                let mut b = NodeBuilder::storage(n);
                b.max_volume(m.clone()).initial_volume(UnresolvedStorageInitialVolume::proportional(0.5));
                nb.node(b);
                nb.connect(n, "d1");
            }
            let mut b = AggregatedStorageNodeBuilder::new("as");
            b.node("t1".into());
            b.node("t2".into());
            nb.agg_storage_node(b);
        }
        _ => (),
    }
    let mut m: Vec<M> = ["s1", "s2", "l", "d1", "d2"].iter().map(|n| M::NodeInFlow((*n).into())).collect();
    m.push(M::NodeVolume("st".into()));
    m.push(M::NodeProportionalVolume("st".into()));
    match kind {
        "exclusive" => m.extend([M::NodeOutFlow("x1".into()), M::NodeOutFlow("x2".into())]),
        "virtual" | "virtual-cost" => m.extend([M::VirtualStorageVolume("v".into()), M::VirtualStorageProportionalVolume("v".into())]),
        "agg-storage" => m.extend([M::AggregatedStorageNodeVolume("as".into()), M::AggregatedStorageNodeProportionalVolume("as".into())]),
        _ => (),
    }
    m
}

/// [argument][scenario][timestep]
type Args = Vec<Vec<Vec<f64>>>;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Via {
    Table,
    General,
}
fn model(kind: &str, args: &Args, via: Via, lit: bool, nt: usize, metrics: &mut Vec<M>) -> (ModelDomain, NetworkBuilder) {
    let ns = args[0].len();
    let mut nb = NetworkBuilder::default();
    let a: Vec<M> = args
        .iter()
        .enumerate()
        .map(|(i, v)| {
            let first = v[0][0];
            if lit && v.iter().flatten().all(|x| *x == first) {
                return first.into();
            }
            let n = format!("a{i}");
            match via {
                Via::Table => f64p(&mut nb, Array2ParameterBuilder::new(n.as_str().into(), Array2::from_shape_fn((nt, ns), |(t, s)| v[s][t]), "g")),
                Via::General => f64p(&mut nb, GenSeriesBuilder::new(&n, v.clone())),
            }
            pm(&n)
        })
        .collect();
    let m = add(kind, &mut nb, &a);
    if nb_is_empty(kind) {
        let mut i = NodeBuilder::input("in");
        i.max_flow(1.0.into());
        nb.node(i);
        nb.node(NodeBuilder::output("out"));
        nb.connect("in", "out");
    }
    metrics.extend(m);
    (domain_scen(time_days(dt0(), 1, nt), &[("g", ns)]), nb)
}
/// Whether this kind brings no nodes of its own.
fn nb_is_empty(kind: &str) -> bool {
    let i = KINDS.iter().position(|k| k.0 == kind).unwrap();
    i < KINDS.iter().position(|k| k.0 == "node-limits").unwrap()
}
fn run(kind: &str, args: &Args, via: Via, lit: bool, nt: usize) -> Result<Vec<Vec<Vec<f64>>>, ImpErr> {
    let mut m = vec![];
    let (d, nb) = model(kind, args, via, lit, nt, &mut m);
    run_probe::<MicroLpSolver>(d, nb, m)
}

pub fn arguments(cx: &Cx) {
    cx.explore("arguments", |ch| {
        let (kind, vals, general) = ch.of(KINDS);
        let k = vals.len();
        let s0 = ch.pick(1 << k);
        let flip = ch.pick(k);
        let order = ch.pick(cx.b(2, 3));
        let via = if general { ch.of(&[Via::Table, Via::General]) } else { Via::Table };
        let lit = ch.flag();
        let s1 = s0 ^ (1 << flip);
        // which assignment each scenario has at each timestep
        let plan: &[&[usize]] = match order {
            0 => &[&[s0, s0, s0], &[s1, s1, s1], &[s0, s1, s0]],
            1 => &[&[s1, s0, s1], &[s0, s0, s1], &[s1, s1, s0], &[s0, s1, s1]],
            _ => &[&[s0, s1, s0, s0], &[s0, s1, s0, s1], &[s0, s0, s0, s0], &[s1, s1, s0, s0], &[s0, s1, s1, s0]],
        };
        let nt = plan[0].len();
        let args: Args = (0..k).map(|i| plan.iter().map(|p| p.iter().map(|b| if b >> i & 1 == 0 { vals[i].0 } else { vals[i].1 }).collect()).collect()).collect();
        ch.describe(|| format!("{kind} with arguments [argument][scenario][timestep] {args:?} via {via:?}, equal ones {}", if lit { "literal" } else { "as parameters" }));
        let all = run(kind, &args, via, lit, nt);
        let mut failed = false;
        for s in 0..plan.len() {
            let alone: Args = args.iter().map(|a| vec![a[s].clone()]).collect();
            // literals only where they are literals in the run of all scenarios
            let one = run(kind, &alone, via, false, nt);
            match (&all, &one) {
                (Ok(a), Ok(o)) => {
                    for t in 0..nt {
                        for m in 0..a[t][s].len() {
                            let (x, y) = (a[t][s][m], o[t][0][m]);
                            chk!(
                                x.to_bits() == y.to_bits() || (x - y).abs() <= 1e-9 * (1.0 + y.abs()),
                                format!("arg:{kind}"),
                                "scenario {s} timestep {t} result {m}: {x} together with the others, {y} alone"
                            );
                        }
                    }
                    ch.state(&(kind, s0, flip, s, order));
                    ch.out(&format!("{:?}", o));
                }
                // one scenario that cannot be run (a minimum volume above the contents) fails the whole run
                (Err(_), Err(_)) => failed = true,
                (Ok(_), Err(e)) => return fail(format!("arg:{kind}:error"), format!("scenario {s} fails alone, but not with the others: {}", e.text())),
                (Err(_), Ok(_)) => (),
            }
        }
        if let Err(e) = &all {
            chk!(failed && kind == "virtual", format!("arg:{kind}:error"), "{}", e.text());
            ch.note(|| "a scenario that cannot be run".into());
        }
        Ok(())
    });
}
