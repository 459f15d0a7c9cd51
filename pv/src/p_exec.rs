//! C06 scenario independence, C07 execution modes and schedules, C18 inter-network transfers.
use crate::core::*;
use crate::harness::*;
use crate::p_param::{f64p, u64p, um};
use crate::schema::{MsProbeBuilder, MsRow, MsSink};
use ndarray::Array2;
use pywr_core::agg_funcs::AggFuncF64;
use pywr_core::aggregated_node::{CoefficientFactorsBuilder, RatioFactorsBuilder};
use pywr_core::metric::{UnresolvedMetricF64 as M, UnresolvedMetricU64};
use pywr_core::models::{Model, ModelBuilder, ModelDomain, ModelDomainBuilder};
use pywr_core::network::{NetworkBuilder, NetworkTimings, ResolutionMaps};
use pywr_core::node::{NodeBuilder, UnresolvedStorageInitialVolume};
use pywr_core::parameters::*;
use pywr_core::recorders::*;
use pywr_core::scenario::{ScenarioDomainBuilder, ScenarioGroupBuilder};
use pywr_core::solvers::*;
use pywr_core::virtual_storage::{VirtualStorageNodeBuilder, VirtualStorageReset, VirtualStorageResetVolume};
use pywr_core::{AggregatedNodeBuilder, AggregatedStorageNodeBuilder};
use rayon::ThreadPool;
use std::collections::{BTreeMap, BTreeSet};
use std::num::{NonZeroI64, NonZeroUsize};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub fn pool(n: usize) -> Arc<ThreadPool> {
    thread_local! {
        static P: std::cell::RefCell<BTreeMap<usize, Arc<ThreadPool>>> = const { std::cell::RefCell::new(BTreeMap::new()) };
    }
    P.with(|p| p.borrow_mut().entry(n).or_insert_with(|| Arc::new(rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap())).clone())
}

// ---------------------------------------------------------------------------------------------
// The zoo: one network holding every kind of component that keeps state between timesteps
// ---------------------------------------------------------------------------------------------

/// Inflow by member of group "a" and demand by member of group "b", each [member][timestep].
#[derive(Clone, Debug)]
pub struct Inputs {
    pub a: Vec<Vec<f64>>,
    pub b: Vec<Vec<f64>>,
    /// per member of group "a": size of the main storage, which starts half full
    pub size: Vec<f64>,
}

fn table(v: &[Vec<f64>]) -> Array2<f64> {
    Array2::from_shape_fn((v[0].len(), v.len()), |(t, s)| v[s][t])
}

/// The zoo network, and the metrics that observe all of it. `lp` limits it to what the
/// interior-point solver supports.
pub fn zoo(inp: &Inputs, simple_only: bool) -> (NetworkBuilder, Vec<M>) {
    let mut nb = NetworkBuilder::default();
    f64p(&mut nb, Array2ParameterBuilder::new("inflow".into(), table(&inp.a), "a"));
    f64p(&mut nb, Array2ParameterBuilder::new("demand".into(), table(&inp.b), "b"));
    f64p(&mut nb, ConstantScenarioParameterBuilder::new("size".into(), inp.size.clone(), "a"));
    let mut i = NodeBuilder::input("in");
    i.max_flow(pm("inflow")).cost((-5.0).into());
    let mut l = NodeBuilder::link("link");
    l.max_flow(9.0.into());
    let mut s = NodeBuilder::storage("store");
    s.max_volume(pm("size")).initial_volume(UnresolvedStorageInitialVolume::proportional(0.5)).cost((-1.0).into());
    let mut s2 = NodeBuilder::storage("store2");
    s2.max_volume(6.0.into()).initial_volume(UnresolvedStorageInitialVolume::absolute(4.0)).cost((-0.5).into());
    let mut o = NodeBuilder::output("out");
    o.max_flow(pm("demand")).cost((-10.0).into());
    let mut o2 = NodeBuilder::output("out2");
    o2.max_flow(pm("release")).cost((-3.0).into());
    for n in [i, l, s, s2, o, o2] {
        nb.node(n);
    }
    nb.node(NodeBuilder::output("spill"));
    for (x, y) in [("in", "link"), ("link", "store"), ("store", "out"), ("store", "store2"), ("store2", "out2"), ("store", "spill"), ("store2", "spill")] {
        nb.connect(x, y);
    }
    let mut asn = AggregatedStorageNodeBuilder::new("stores");
    asn.node("store".into());
    asn.node("store2".into());
    nb.agg_storage_node(asn);
    // parameters with memory
    f64p(&mut nb, DelayParameterBuilder::<M, f64>::new("delay".into(), pm("inflow"), 1, 7.0));
    f64p(&mut nb, DelayParameterBuilder::<M, f64>::new("delay2".into(), M::NodeInFlow("out".into()), 2, 3.0));
    f64p(&mut nb, RollingParameterBuilder::<M, f64, AggFuncF64>::new("rolling".into(), M::NodeOutFlow("in".into()), 2, 1.5, 1, AggFuncF64::Mean));
    let mut th = ThresholdParameterBuilder::new("ratchet".into(), pm("inflow"), 4.0.into(), Predicate::GreaterThan);
    th.ratchet();
    u64p(&mut nb, th);
    let mut mt = MultiThresholdParameterBuilder::new("multi-ratchet".into(), pm("demand"), Predicate::GreaterThan);
    mt.threshold(5.0.into());
    mt.threshold(2.0.into());
    mt.ratchet();
    u64p(&mut nb, mt);
    u64p(&mut nb, ThresholdParameterBuilder::new("on".into(), M::NodeVolume("store".into()), 6.0.into(), Predicate::LessThan));
    u64p(&mut nb, ThresholdParameterBuilder::new("off".into(), M::NodeVolume("store".into()), 9.0.into(), Predicate::LessThan));
    u64p(&mut nb, AsymmetricSwitchIndexParameterBuilder::before("switch".into(), um("on"), um("off")));
    u64p(&mut nb, DelayParameterBuilder::<UnresolvedMetricU64, u64>::new("delay-u".into(), um("switch"), 1, 5));
    let mut cc = ControlCurveParameterBuilder::before("curve".into(), M::NodeProportionalVolume("store".into()));
    cc.control_curve(0.75.into());
    cc.control_curve(0.25.into());
    for v in [5.0, 2.0, 0.5] {
        cc.value(v.into());
    }
    f64p(&mut nb, cc);
    let mut rel = AggregatedParameterBuilder::before("release".into(), AggFuncF64::Sum);
    rel.metric(pm("curve"));
    rel.metric(pm("ratchet"));
    rel.metric(pm("switch"));
    f64p(&mut nb, rel);
    f64p(&mut nb, DeficitParameterBuilder::new("deficit".into(), M::NodeInFlow("out".into()), pm("demand")));
    f64p(&mut nb, DiscountFactorParameterBuilder::new("discount".into(), 0.1.into(), 2020));
    f64p(&mut nb, OffsetParameterBuilder::new("offset".into(), pm("rolling"), 0.25));
    let mut metrics = vec![
        M::NodeVolume("store".into()),
        M::NodeVolume("store2".into()),
        M::NodeProportionalVolume("store".into()),
        M::NodeMaxVolume("store".into()),
        M::NodeInFlow("in".into()),
        M::NodeOutFlow("link".into()),
        M::NodeInFlow("out".into()),
        M::NodeInFlow("out2".into()),
        M::NodeInFlow("spill".into()),
        M::AggregatedStorageNodeVolume("stores".into()),
        M::AggregatedStorageNodeProportionalVolume("stores".into()),
    ];
    for p in ["inflow", "demand", "size", "delay", "delay2", "rolling", "ratchet", "multi-ratchet", "on", "off", "switch", "delay-u", "curve", "release", "discount", "offset"] {
        metrics.push(pm(p));
    }
    metrics.push(M::new_parameter_after("deficit"));
    if !simple_only {
        // a licence with a rolling window, one that resets monthly
        let mut v = VirtualStorageNodeBuilder::new("lic", &["out2".into()]);
        v.factors(&[1.0]).initial_volume(UnresolvedStorageInitialVolume::absolute(9.0)).max_volume(9.0.into()).rolling_window(NonZeroUsize::new(2).unwrap());
        nb.virtual_storage_node(v);
        let mut v = VirtualStorageNodeBuilder::new("annual", &["out".into(), "spill".into()]);
        v.factors(&[1.0, 0.5])
            .initial_volume(UnresolvedStorageInitialVolume::proportional(0.75))
            .max_volume(30.0.into())
            .reset(VirtualStorageReset::DayOfYear { day: 3, month: 1 })
            .reset_volume(VirtualStorageResetVolume::Max);
        nb.virtual_storage_node(v);
        // a routed side stream and a ratio between two abstractions
        let mut ri = NodeBuilder::input("side");
        ri.max_flow(pm("demand")).cost((-1.0).into());
        nb.node(ri);
        nb.node(NodeBuilder::output("reach-in"));
        nb.node(NodeBuilder::input("reach-out"));
        nb.node(NodeBuilder::output("sea"));
        nb.connect("side", "reach-in").connect("reach-out", "sea");
        nb.parameters().multi(Box::new(MuskingumParameterBuilder::new(
            "mk".into(),
            M::NodeInFlow("reach-in".into()),
            M::NodeOutFlow("reach-out".into()),
            1.5.into(),
            0.25.into(),
            MuskingumInitialCondition::Specified { inflow: 2.0, outflow: 1.0 },
        )));
        let mut f = CoefficientFactorsBuilder::default();
        f.factor(1.0.into()).factor(M::new_parameter_before_key("mk", "inflow_factor")).rhs(M::new_parameter_before_key("mk", "rhs"));
        let mut agg = AggregatedNodeBuilder::new("routing");
        agg.nodes(vec!["reach-out".into()]);
        agg.nodes(vec!["reach-in".into()]);
        agg.relationship(Box::new(f));
        nb.agg_node(agg);
        for n in ["ra", "rb"] {
            let mut x = NodeBuilder::input(n);
            x.max_flow(pm("rolling")).cost((-0.25).into());
            nb.node(x);
            nb.connect(n, "sea");
        }
        let mut f = RatioFactorsBuilder::default();
        f.factor(pm("size")).factor(10.0.into());
        let mut agg = AggregatedNodeBuilder::new("ratio");
        agg.nodes(vec!["ra".into()]);
        agg.nodes(vec!["rb".into()]);
        agg.relationship(Box::new(f));
        nb.agg_node(agg);
        metrics.extend([
            M::VirtualStorageVolume("lic".into()),
            M::VirtualStorageProportionalVolume("annual".into()),
            M::NodeInFlow("sea".into()),
            M::NodeOutFlow("reach-out".into()),
            M::NodeInFlow("reach-in".into()),
            M::new_parameter_before_key("mk", "rhs"),
            M::NodeOutFlow("ra".into()),
            M::NodeOutFlow("rb".into()),
        ]);
    }
    let mut ms = MetricSetBuilder::new("plain");
    ms.metric(UnresolvedOutputMetric::new("store", "Volume", "Storage", None, M::NodeVolume("store".into())));
    ms.metric(UnresolvedOutputMetric::new("rolling", "value", "Parameter", None, pm("rolling")));
    nb.metric_set(ms);
    let mut ms = MetricSetBuilder::new("two-daily");
    ms.metric(UnresolvedOutputMetric::new("out", "Inflow", "Output", None, M::NodeInFlow("out".into())));
    ms.metric(UnresolvedOutputMetric::new("in", "Outflow", "Input", None, M::NodeOutFlow("in".into())));
    ms.aggregator(Aggregator::new(Some(AggregationFrequency::Days(NonZeroI64::new(2).unwrap())), AggFuncF64::Mean, None));
    nb.metric_set(ms);
    (nb, metrics)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Obs {
    /// [timestep][scenario][metric], as bits
    pub probe: Vec<Vec<Vec<u64>>>,
    pub ms: Vec<Vec<Vec<MsRow>>>,
    pub mem: Option<u64>,
}
impl Obs {
    /// Everything observed of one scenario.
    fn of(&self, s: usize) -> (Vec<Vec<u64>>, Vec<Vec<MsRow>>) {
        (self.probe.iter().map(|t| t[s].clone()).collect(), self.ms.iter().map(|t| t[s].clone()).collect())
    }
}
struct Taps {
    probe: Sink,
    ms: MsSink,
}
impl Taps {
    fn take(&self) -> Obs {
        let p = std::mem::take(&mut *self.probe.lock().unwrap());
        let m = std::mem::take(&mut *self.ms.lock().unwrap());
        Obs { probe: p.iter().map(|t| t.iter().map(|s| s.iter().map(|v| v.to_bits()).collect()).collect()).collect(), ms: m, mem: None }
    }
}
fn tap(nb: &mut NetworkBuilder, metrics: Vec<M>) -> Taps {
    let (p, probe) = ProbeBuilder::new("probe", metrics);
    nb.recorder(Box::new(p));
    let ms: MsSink = Default::default();
    nb.recorder(Box::new(MsProbeBuilder(ms.clone())));
    Taps { probe, ms }
}
fn f(bits: u64) -> f64 {
    f64::from_bits(bits)
}
fn differ(a: &[Vec<u64>], b: &[Vec<u64>]) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} timesteps recorded, expected {}", a.len(), b.len()));
    }
    for (t, (x, y)) in a.iter().zip(b).enumerate() {
        for (m, (u, v)) in x.iter().zip(y).enumerate() {
            if u != v {
                return Some(format!("timestep {t} metric {m}: {} instead of {}", f(*u), f(*v)));
            }
        }
    }
    None
}

fn zoo_domain(nt: usize, combos: Option<&[Vec<usize>]>, subset: Option<(&[usize], &[usize])>) -> ModelDomain {
    let mut sb = ScenarioDomainBuilder::default();
    for (k, g) in ["a", "b"].iter().enumerate() {
        let mut gb = ScenarioGroupBuilder::new(g, 2);
        if let Some(s) = subset {
            gb = gb.with_subset_indices([s.0, s.1][k].to_vec());
        }
        sb = sb.with_group(gb.build().unwrap()).unwrap();
    }
    if let Some(c) = combos {
        sb = sb.with_combinations(c.to_vec());
    }
    let mut d = ModelDomainBuilder::new(time_days(dt0(), 1, nt));
    d.scenario(sb);
    d.build().unwrap()
}
fn memory() -> MemoryRecorderBuilder {
    MemoryRecorderBuilder::new("mem", "plain", Aggregation::new(Some(AggFuncF64::Sum), Some(AggFuncF64::Sum), Some(AggFuncF64::Sum)), AggregationOrder::MetricTimeScenario)
}
fn zoo_model(inp: &Inputs, dom: ModelDomain, simple_only: bool) -> Result<(Model, Taps), ImpErr> {
    let (mut nb, metrics) = zoo(inp, simple_only);
    let taps = tap(&mut nb, metrics);
    nb.recorder(Box::new(memory()));
    let model = imp(|| ModelBuilder::new(dom, nb).build().map_err(|e| chain(&e)))?;
    Ok((model, taps))
}
fn run_serial<S: Solver>(m: &(Model, Taps)) -> Result<Obs, ImpErr>
where
    <S as Solver>::Settings: SolverSettings + Default,
{
    let r = imp(|| m.0.run::<S>(&Default::default()).map_err(|e| chain(&e)))?;
    let mut o = m.1.take();
    o.mem = r.network_result.get_aggregated_value("mem").map(|v| v.to_bits());
    Ok(o)
}
fn run_ipm(m: &(Model, Taps), threads: Option<usize>) -> Result<Obs, ImpErr> {
    let mut b = SimdIpmSolverSettings::builder();
    if let Some(n) = threads {
        b = b.parallel().threads(n);
    }
    let set = b.build();
    let r = imp(|| m.0.run_multi_scenario::<SimdIpmF64Solver>(&set).map_err(|e| chain(&e)))?;
    let mut o = m.1.take();
    o.mem = r.network_result.get_aggregated_value("mem").map(|v| v.to_bits());
    Ok(o)
}

/// All sequences of length `n` over `letters`.
fn words(letters: &[f64], n: usize) -> Vec<Vec<f64>> {
    let mut v: Vec<Vec<f64>> = vec![vec![]];
    for _ in 0..n {
        v = v.iter().flat_map(|w| letters.iter().map(move |l| [w.clone(), vec![*l]].concat())).collect();
    }
    v
}

const SIZES: [f64; 3] = [10.0, 16.0, 12.0];

pub fn c06(cx: &Cx) {
    cx.assume("networks: one network holding every stateful kind of node and parameter; scenario values from a small alphabet; timesteps of one day");
    let nt = cx.b(3, 4);
    // The single-scenario reference of every pair of inputs, computed once
    type Key = (Vec<u64>, Vec<u64>, u64, bool);
    let singles: Mutex<BTreeMap<Key, Arc<Result<Obs, String>>>> = Default::default();
    let single = |a: &[f64], b: &[f64], size: f64, highs: bool| -> Arc<Result<Obs, String>> {
        let k: Key = (a.iter().map(|v| v.to_bits()).collect(), b.iter().map(|v| v.to_bits()).collect(), size.to_bits(), highs);
        if let Some(r) = singles.lock().unwrap().get(&k) {
            return r.clone();
        }
        // a model that holds only this scenario's inputs
        let inp = Inputs { a: vec![a.to_vec()], b: vec![b.to_vec()], size: vec![size] };
        let dom = domain_scen(time_days(dt0(), 1, a.len()), &[("a", 1), ("b", 1)]);
        let r = zoo_model(&inp, dom, false).and_then(|m| if highs { run_serial::<HighsSolver>(&m) } else { run_serial::<MicroLpSolver>(&m) });
        let r = Arc::new(r.map_err(|e| e.text()));
        singles.lock().unwrap().insert(k, r.clone());
        r
    };
    let judge = |ch: &mut Ch, key: &str, inp: &Inputs, list: &[Vec<usize>], highs: bool, got: Result<Obs, ImpErr>| -> Res {
        let got = match got {
            Ok(g) => g,
            Err(e) => return fail(format!("{key}:error"), e.text()),
        };
        for (s, c) in list.iter().enumerate() {
            let one = single(&inp.a[c[0]], &inp.b[c[1]], inp.size[c[0]], highs);
            let one = match &*one {
                Ok(o) => o,
                Err(e) => return fail(format!("{key}:alone"), e.clone()),
            };
            chk!(got.probe[0].len() == list.len(), format!("{key}:count"), "{} scenarios simulated, expected {}", got.probe[0].len(), list.len());
            let (p, m) = got.of(s);
            let (p1, m1) = one.of(0);
            if let Some(w) = differ(&p, &p1) {
                return fail(format!("{key}:differs"), format!("scenario {s} {c:?}: {w} when simulated alone"));
            }
            chk!(m == m1, format!("{key}:metric-set"), "scenario {s} {c:?}: metric sets {m:?}, alone {m1:?}");
            ch.state(&(inp.a[c[0]].iter().map(|v| v.to_bits()).collect::<Vec<_>>(), inp.b[c[1]].iter().map(|v| v.to_bits()).collect::<Vec<_>>(), c.clone(), s));
            ch.out(&p);
        }
        Ok(())
    };
    crate::p_iso::arguments(cx);
    // every ordered selection of scenarios
    let all = [vec![0usize, 0], vec![0, 1], vec![1, 0], vec![1, 1]];
    let hist = words(&[0.0, 8.0], nt);
    let lists = {
        let mut v: Vec<Vec<Vec<usize>>> = vec![];
        let mut cur: Vec<Vec<Vec<usize>>> = vec![vec![]];
        for _ in 0..4 {
            cur = cur.iter().flat_map(|l| all.iter().filter(|c| !l.contains(c)).map(|c| [l.clone(), vec![c.clone()]].concat()).collect::<Vec<_>>()).collect();
            v.extend(cur.clone());
        }
        v
    };
    let zoo_run = |inp: &Inputs, dom: ModelDomain, highs: bool| zoo_model(inp, dom, false).and_then(|m| if highs { run_serial::<HighsSolver>(&m) } else { run_serial::<MicroLpSolver>(&m) });
    cx.explore("ordered-selections", |ch| {
        let list = ch.of(&lists);
        let swap = ch.flag();
        let h = ch.of(&hist);
        let d = words(&[1.0, 6.0], nt);
        let g = ch.of(&d);
        let inp = Inputs {
            a: vec![h.clone(), h.iter().rev().map(|v| 8.0 - v).collect()],
            b: vec![g.clone(), g.iter().map(|v| 7.0 - v).collect()],
            size: if swap { vec![SIZES[1], SIZES[0]] } else { SIZES[..2].to_vec() },
        };
        let highs = cx.b(false, false);
        ch.describe(|| format!("scenarios {list:?} of inflow {:?}, demand {:?}, sizes {:?}", inp.a, inp.b, inp.size));
        let r = zoo_run(&inp, zoo_domain(nt, Some(&list), None), highs);
        judge(ch, "selection", &inp, &list, highs, r)
    });
    cx.explore("all-histories", |ch| {
        // every assignment of histories to scenarios
        let solver = ch.flag();
        let few = words(&[0.0, 8.0], 2);
        let pickh = |ch: &mut Ch, long: bool| if long { ch.of(&hist) } else { let mut w = ch.of(&few); w.push(3.0); w.truncate(nt.max(3)); w.resize(nt, 5.0); w };
        let long = !solver;
        let a = vec![pickh(ch, !solver), pickh(ch, long)];
        let b: Vec<Vec<f64>> = (0..2).map(|_| pickh(ch, false).iter().map(|v| 1.0 + v * 0.75).collect()).collect();
        let inp = Inputs { a, b, size: SIZES[..2].to_vec() };
        ch.describe(|| format!("inflow {:?}, demand {:?}, {}", inp.a, inp.b, if solver { "HiGHS" } else { "MicroLP" }));
        let r = zoo_run(&inp, zoo_domain(nt, None, None), solver);
        judge(ch, "joint", &inp, &all, solver, r)
    });
    cx.explore("group-subsets", |ch| {
        let subs: [&[usize]; 4] = [&[0, 1], &[0], &[1], &[1, 0]];
        let (x, y) = (ch.of(&subs), ch.of(&subs));
        let h = ch.of(&hist);
        let g: Vec<f64> = ch.of(&words(&[1.0, 6.0], 2)).iter().cycle().take(nt).copied().collect();
        let inp = Inputs { a: vec![h.clone(), h.iter().map(|v| 9.0 - v).collect()], b: vec![g.clone(), g.iter().map(|v| 8.0 - v).collect()], size: SIZES[..2].to_vec() };
        let list: Vec<Vec<usize>> = x.iter().flat_map(|i| y.iter().map(move |j| vec![*i, *j])).collect();
        ch.describe(|| format!("subsets {x:?} x {y:?}, inflow {:?}, demand {:?}", inp.a, inp.b));
        let r = zoo_run(&inp, zoo_domain(nt, None, Some((x, y))), false);
        // the order within a subset is the implementation's; find it from the inputs
        let r = match r {
            Ok(r) => r,
            Err(e) => return fail("subset:error", e.text()),
        };
        let mut left = list.clone();
        let mut order = vec![];
        for s in 0..r.probe[0].len() {
            let seen = |c: &Vec<usize>| (0..nt).all(|t| f(r.probe[t][s][11]) == inp.a[c[0]][t] && f(r.probe[t][s][12]) == inp.b[c[1]][t]);
            let Some(k) = left.iter().position(seen) else { return fail("subset:inputs", format!("scenario {s} has the inputs of none of the selected combinations")) };
            order.push(left.remove(k));
        }
        chk!(left.is_empty(), "subset:missing", "{left:?} not simulated");
        judge(ch, "subset", &inp, &order, false, Ok(r))
    });
    // more scenarios than any machine word or lane has bits
    cx.explore("many", |ch| {
        let n = ch.of(&[cx.b(67, 131), 16, 33]);
        let (k, j) = (ch.of(&[1usize, 3, 5]), ch.pick(hist.len()));
        let highs = ch.flag();
        let d = words(&[1.0, 6.0], nt);
        let g = ch.of(&d);
        let inp = Inputs { a: (0..n).map(|i| hist[(i * k + j) % hist.len()].clone()).collect(), b: vec![g.clone()], size: (0..n).map(|i| SIZES[i % 3]).collect() };
        let list: Vec<Vec<usize>> = (0..n).map(|i| vec![i, 0]).collect();
        let threads = ch.of(&[None, Some(3usize)]);
        ch.describe(|| format!("{n} scenarios of inflow {:?}, demand {g:?}, {}, threads {threads:?}", inp.a, if highs { "HiGHS" } else { "MicroLP" }));
        let r = zoo_model(&inp, domain_scen(time_days(dt0(), 1, nt), &[("a", n), ("b", 1)]), false).and_then(|(m, taps)| {
            let mode = threads.map_or(Mode::Run, Mode::RunPar);
            if highs { exec::<HighsSolver>(&m, &taps, &mode) } else { exec::<MicroLpSolver>(&m, &taps, &mode) }
        });
        judge(ch, "many", &inp, &list, highs, r)
    });
    // lanes of the multi-scenario solver
    cx.explore("ipm-lanes", |ch| {
        let nt = 2;
        let n = ch.of(&[2usize, 3, 5]);
        let h = words(&[1.0, 8.0], nt);
        let a: Vec<Vec<f64>> = (0..n).map(|i| if i < cx.b(2, 3) { ch.of(&h) } else { vec![2.0 + i as f64, 5.0] }).collect();
        let dm = ch.of(&[vec![2.0, 3.0], vec![6.0, 1.0]]);
        ch.describe(|| format!("interior point, inflows {a:?}, demand {dm:?}"));
        let mk = |a: Vec<Vec<f64>>| {
            let n = a.len();
            let inp = Inputs { size: (0..n).map(|i| 20.0 + 2.0 * (i % 3) as f64).collect(), a, b: vec![dm.clone()] };
            zoo_model(&inp, domain_scen(time_days(dt0(), 1, nt), &[("a", n), ("b", 1)]), true)
        };
        let run = |a: Vec<Vec<f64>>, size_of: Option<usize>| {
            let m = match size_of {
                None => mk(a),
                Some(i) => {
                    let inp = Inputs { size: vec![20.0 + 2.0 * (i % 3) as f64], a, b: vec![dm.clone()] };
                    zoo_model(&inp, domain_scen(time_days(dt0(), 1, nt), &[("a", 1), ("b", 1)]), true)
                }
            };
            m.and_then(|m| run_ipm(&m, None))
        };
        let all = match run(a.clone(), None) {
            Ok(r) => r,
            Err(e) => return fail("ipm:error", e.text()),
        };
        for s in 0..n {
            let one = match run(vec![a[s].clone()], Some(s)) {
                Ok(r) => r,
                Err(e) => return fail("ipm:alone", e.text()),
            };
            for t in 0..nt {
                for (m, (x, y)) in all.probe[t][s].iter().zip(&one.probe[t][0]).enumerate() {
                    let (x, y) = (f(*x), f(*y));
                    chk!((x - y).abs() <= 2e-3 * (1.0 + y.abs()), "ipm:differs", "scenario {s} timestep {t} metric {m}: {x}, alone {y}");
                }
                ch.state(&(s, t, a[s].iter().map(|v| *v as i64).collect::<Vec<_>>()));
            }
        }
        Ok(())
    });
    // everything that may differ between the lanes: costs, limits and volumes
    cx.explore("ipm-arguments", |ch| {
        use crate::core::Kind::*;
        use crate::core::Val::*;
        let n = ch.of(&[2usize, 3, 4, 5, 7]);
        let rot = ch.pick(3);
        let nt = cx.b(3, 5);
        let menu = |v: &[i64]| Gen((0..n).map(|s| (0..nt).map(|t| v[(s + t * rot + s * s) % v.len()]).collect()).collect());
        let c1 = ch.of(&[Lit(-3), menu(&[-3, 4, 0, 7])]);
        let c2 = ch.of(&[Lit(2), menu(&[2, -5, 6, 1])]);
        let m1 = ch.of(&[Lit(7), menu(&[7, 3, 5])]);
        let m2 = ch.of(&[Lit(9), menu(&[2, 9, 6, 4])]);
        let kind = ch.pick(3);
        let nodes = vec![
            node(In).max(menu(&[6, 2, 8, 5])).cost(c1),
            match kind {
                0 => node(Link).max(m1).cost(Lit(1)),
                1 => node(Sto).vol(400, None, Some(Lit(1000))).cost(c2.clone()),
                _ => node(Sto).vol(500, Some(Lit(100)), Some(Ser(vec![900, 1200, 1000, 1100, 900]))).cost(Lit(-1)),
            },
            node(Link).max(m2).cost(c2),
            node(Out).max(Lit(8)).cost(Lit(-12)),
            node(Out).max(menu(&[3, 1, 4])).cost(Lit(-9)),
        ];
        let edges = [(0, 1), (1, 3), (0, 2), (2, 4), (2, 3)];
        let mut spec = NetSpec::new(nodes, &edges);
        spec.steps = nt;
        spec.scen = n;
        spec.dth = ch.of(&[24u64, 36, 168]);
        ch.describe(|| spec.text());
        let go = |spec: &NetSpec| -> Result<Vec<Vec<Vec<f64>>>, ImpErr> {
            let model = imp(|| spec.model().build().map_err(|e| chain(&e)))?;
            imp(|| -> Result<_, String> {
                let set = SimdIpmSolverSettings::default();
                let p = pool(2);
                let mut st = model.setup_multi_scenario::<SimdIpmF64Solver>(&set).map_err(|e| chain(&e))?;
                let mut tim = NetworkTimings::new_without_component_timings();
                let mut out = vec![];
                for _ in 0..spec.steps {
                    model.step_multi_scenario(&mut st, &p, &mut tim).map_err(|e| chain(&e))?;
                    out.push(
                        model
                            .domain()
                            .scenarios()
                            .indices()
                            .iter()
                            .map(|si| {
                                let s = st.network_state().state(si).get_network_state();
                                model.network().edges().iter().map(|e| s.get_edge_flow(&e.index()).unwrap()).collect()
                            })
                            .collect(),
                    );
                }
                Ok(out)
            })
        };
        let all = match go(&spec) {
            Ok(r) => r,
            Err(e) => return fail("ipm-arguments:error", e.text()),
        };
        for s in 0..n {
            let one = match go(&spec.only(s)) {
                Ok(r) => r,
                Err(e) => return fail("ipm-arguments:alone", e.text()),
            };
            for t in 0..nt {
                for (e, (x, y)) in all[t][s].iter().zip(&one[t][0]).enumerate() {
                    chk!((x - y).abs() <= 1e-4 * (1.0 + y.abs()), "ipm-arguments:differs", "scenario {s} of {n} timestep {t}: flow {x} over {:?}, alone {y}", edges[e]);
                }
                ch.state(&(s, t, all[t][s].iter().map(|v| (*v * 1e3).round() as i64).collect::<Vec<_>>()));
            }
        }
        ch.out(&all.iter().flatten().flatten().map(|v| (*v * 1e3).round() as i64).collect::<Vec<_>>());
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------
// C07
// ---------------------------------------------------------------------------------------------

#[derive(Default)]
struct CtlState {
    free: bool,
    waiting: BTreeSet<usize>,
    release: Option<usize>,
    /// (scenario, timestep, gate) that returns an error
    fail: Vec<(usize, usize, usize)>,
    trace: Vec<(usize, usize)>,
}
/// Controlled scheduler: every scenario's computation stops at each gate until it is released.
#[derive(Default)]
struct Ctl {
    m: Mutex<CtlState>,
    cv: Condvar,
}
impl Ctl {
    fn visit(&self, sid: usize, t: usize, gate: usize) -> Result<(), GeneralCalculationError> {
        let mut s = self.m.lock().unwrap();
        if !s.free {
            s.waiting.insert(sid);
            self.cv.notify_all();
            while !s.free && s.release != Some(sid) {
                s = self.cv.wait(s).unwrap();
            }
            if s.release == Some(sid) {
                s.release = None;
            }
            s.waiting.remove(&sid);
            self.cv.notify_all();
        }
        s.trace.push((sid, gate));
        if s.fail.contains(&(sid, t, gate)) {
            return Err(GeneralCalculationError::Internal { message: format!("failure of scenario {sid} at timestep {t}") });
        }
        Ok(())
    }
    /// Drive `n` scenarios through `gates` gates each in an order chosen by `ch`. False if the
    /// implementation does not run them concurrently.
    fn drive(&self, ch: &mut Ch, n: usize, stops: &[usize]) -> bool {
        let mut left: Vec<usize> = stops.to_vec();
        let limit = Duration::from_secs(20);
        while left.iter().any(|l| *l > 0) {
            let live: Vec<usize> = (0..n).filter(|s| left[*s] > 0).collect();
            let t0 = Instant::now();
            let mut s = self.m.lock().unwrap();
            while s.release.is_some() || !live.iter().all(|x| s.waiting.contains(x)) {
                let (g, _) = self.cv.wait_timeout(s, Duration::from_millis(200)).unwrap();
                s = g;
                if t0.elapsed() > limit {
                    s.free = true;
                    self.cv.notify_all();
                    return false;
                }
            }
            let k = live[ch.pick(live.len())];
            left[k] -= 1;
            s.release = Some(k);
            self.cv.notify_all();
            // wait for it to leave the gate and come to rest at its next one (or to be done)
            while s.release.is_some() {
                s = self.cv.wait(s).unwrap();
            }
        }
        true
    }
}
impl std::fmt::Debug for Ctl {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Ctl")
    }
}
#[derive(Debug)]
struct Gate {
    meta: ParameterMeta,
    ctl: Arc<Ctl>,
    gate: usize,
}
impl Parameter for Gate {
    fn meta(&self) -> &ParameterMeta {
        &self.meta
    }
}
impl GeneralParameter for Gate {
    fn as_parameter(&self) -> &dyn Parameter {
        self
    }
}
impl GeneralBeforeParameter<f64> for Gate {
    fn before(&self, c: GeneralParameterContext<'_>, _s: &mut Option<Box<dyn ParameterState>>) -> Result<f64, GeneralCalculationError> {
        self.ctl.visit(c.scenario_index.simulation_id(), c.timestep.index, self.gate)?;
        Ok(c.scenario_index.simulation_id() as f64)
    }
}
impl GeneralAfterParameter<f64> for Gate {
    fn after(&self, c: GeneralParameterContext<'_>, _s: &mut Option<Box<dyn ParameterState>>) -> Result<f64, GeneralCalculationError> {
        self.ctl.visit(c.scenario_index.simulation_id(), c.timestep.index, self.gate)?;
        Ok(c.scenario_index.simulation_id() as f64)
    }
}
#[derive(Debug)]
struct GateBuilder(ParameterName, Arc<Ctl>, usize, bool);
impl ParameterBuilder<f64> for GateBuilder {
    fn name(&self) -> &ParameterName {
        &self.0
    }
    fn build(self: Box<Self>, _r: &ResolutionMaps) -> Result<MaybeBuiltParameter<f64>, ParameterBuildError> {
        let g = Gate { meta: ParameterMeta::new(self.0), ctl: self.1, gate: self.2 };
        Ok(BuiltParameter::General(if self.3 { GeneralParameterEntry::after(g) } else { GeneralParameterEntry::before(g) }).into())
    }
}
/// Zoo with scheduling gates: the first and the last parameter computed before the solve, and one after.
fn gated(inp: &Inputs, dom: ModelDomain, simple_only: bool, gates: &[usize]) -> Result<(Model, Taps, Arc<Ctl>), ImpErr> {
    let ctl: Arc<Ctl> = Default::default();
    let (mut nb, mut metrics) = zoo(inp, simple_only);
    for g in gates {
        let name = ["gate-first", "gate-last", "gate-after"][*g];
        f64p(&mut nb, GateBuilder(name.into(), ctl.clone(), *g, *g == 2));
        metrics.push(if *g == 2 { M::new_parameter_after(name) } else { pm(name) });
    }
    let taps = tap(&mut nb, metrics);
    nb.recorder(Box::new(memory()));
    let model = imp(|| ModelBuilder::new(dom, nb).build().map_err(|e| chain(&e)))?;
    Ok((model, taps, ctl))
}

/// Scenario i of n has its own inflow; demand by group "b" of one.
fn flat(n: usize, nt: usize, variant: usize) -> (Inputs, ModelDomain) {
    let a: Vec<Vec<f64>> = (0..n).map(|i| (0..nt).map(|t| [8.0, 0.0, 3.0, 5.5, 1.0, 7.0, 4.0][(i * 2 + t * (1 + variant) + variant) % 7]).collect()).collect();
    let b: Vec<f64> = (0..nt).map(|t| [6.0, 1.0, 4.0][(t + variant) % 3]).collect();
    let inp = Inputs { size: (0..n).map(|i| [10.0, 16.0, 12.0][i % 3]).collect(), a, b: vec![b] };
    let dom = domain_scen(time_days(dt0(), 1, nt), &[("a", n), ("b", 1)]);
    (inp, dom)
}

#[derive(Clone, Debug, PartialEq)]
enum Mode {
    Step,
    StepPool(usize),
    Run,
    RunPar(usize),
    /// a number of single steps, then the rest in one call
    Mixed(usize, Option<usize>),
}
fn modes(nt: usize, ns: usize) -> Vec<Mode> {
    let mut v = vec![Mode::Step, Mode::Run];
    for k in 1..=4 {
        v.push(Mode::StepPool(k));
        v.push(Mode::RunPar(k));
    }
    v.push(Mode::StepPool(ns + 4));
    for k in 0..=nt {
        v.push(Mode::Mixed(k, None));
        v.push(Mode::Mixed(k, Some(2)));
    }
    v
}
trait Set: Solver {
    fn settings(par: Option<usize>) -> Self::Settings;
}
impl Set for MicroLpSolver {
    fn settings(par: Option<usize>) -> MicroLpSolverSettings {
        let mut b = MicroLpSolverSettingsBuilder::default();
        if let Some(n) = par {
            b = b.parallel().threads(n);
        }
        b.build()
    }
}
impl Set for HighsSolver {
    fn settings(par: Option<usize>) -> HighsSolverSettings {
        let mut b = HighsSolverSettingsBuilder::default();
        if let Some(n) = par {
            b = b.parallel().threads(n);
        }
        b.build()
    }
}
fn exec<S: Set>(m: &Model, taps: &Taps, mode: &Mode) -> Result<Obs, ImpErr>
where
    S::Settings: SolverSettings,
{
    taps.take();
    let r = match mode {
        Mode::Run => imp(|| m.run::<S>(&S::settings(None)).map_err(|e| chain(&e)))?.network_result,
        Mode::RunPar(k) => imp(|| m.run::<S>(&S::settings(Some(*k))).map_err(|e| chain(&e)))?.network_result,
        Mode::Step | Mode::StepPool(_) | Mode::Mixed(..) => {
            let p = if let Mode::StepPool(k) = mode { Some(pool(*k)) } else { None };
            let par = if let Mode::Mixed(_, p) = mode { *p } else { None };
            imp(|| -> Result<_, String> {
                let set = S::settings(par);
                let mut st = m.setup::<S>(&set).map_err(|e| chain(&e))?;
                let mut tim = pywr_core::models::ModelTimings::new_with_component_timings(m.network());
                let mut nt_tim = NetworkTimings::new_with_component_timings(m.network());
                let n = m.domain().time().len();
                let k = if let Mode::Mixed(k, _) = mode { *k } else { n };
                for _ in 0..k {
                    m.step::<S>(&mut st, p.as_deref(), &mut nt_tim).map_err(|e| chain(&e))?;
                }
                if let Mode::Mixed(..) = mode {
                    m.run_with_state::<S>(&mut st, &set, &mut tim).map_err(|e| chain(&e))?;
                }
                match m.step::<S>(&mut st, p.as_deref(), &mut nt_tim) {
                    Ok(()) => return Err("a step beyond the last timestep succeeds".into()),
                    Err(e) if matches!(e, pywr_core::models::ModelStepError::EndOfTimesteps) => {}
                    Err(e) => return Err(format!("after the last timestep: {}", chain(&e))),
                }
                m.finalise(st, tim).map(|r| r.network_result).map_err(|e| chain(&e))
            })?
        }
    };
    let mut o = taps.take();
    o.mem = r.get_aggregated_value("mem").map(|v| v.to_bits());
    Ok(o)
}
fn same(ch: &mut Ch, key: &str, got: &Obs, want: &Obs) -> Res {
    chk!(got.probe.len() == want.probe.len(), format!("{key}:steps"), "{} timesteps recorded, expected {}", got.probe.len(), want.probe.len());
    for t in 0..want.probe.len() {
        for s in 0..want.probe[t].len() {
            if let Some(w) = differ(&[got.probe[t][s].clone()], &[want.probe[t][s].clone()]) {
                return fail(format!("{key}:values"), format!("timestep {t} scenario {s}: {w} of the serial run"));
            }
            ch.state(&(t, s, want.probe[t][s].clone()));
        }
    }
    chk!(got.ms == want.ms, format!("{key}:metric-sets"), "metric sets differ: {:?} vs {:?}", got.ms, want.ms);
    chk!(got.mem == want.mem, format!("{key}:recorder"), "aggregated output {:?}, expected {:?}", got.mem.map(f), want.mem.map(f));
    ch.out(&want.mem);
    Ok(())
}

pub fn c07(cx: &Cx) {
    cx.assume("interleavings are controlled at the first and last parameter computed before the solve and at a parameter computed after it; code between two gates of a scenario shares nothing mutable with the others except through the components of the zoo network");
    cx.explore("modes", |ch| {
        let ns = ch.of(cx.b(&[1usize, 2, 3, 5, 7, 67][..], &[1, 2, 3, 5, 7, 20, 67, 131][..]));
        let nt = cx.b(3, 5);
        let variant = ch.pick(cx.b(2, 4));
        let highs = ch.flag();
        let mode = ch.of(&modes(nt, ns));
        ch.describe(|| format!("{ns} scenarios, {nt} timesteps, inputs {variant}, {} {mode:?}", if highs { "HiGHS" } else { "MicroLP" }));
        let (inp, dom) = flat(ns, nt, variant);
        let (m, taps) = match zoo_model(&inp, dom, false) {
            Ok(m) => m,
            Err(e) => return fail("modes:build", e.text()),
        };
        let go = |mode: &Mode| if highs { exec::<HighsSolver>(&m, &taps, mode) } else { exec::<MicroLpSolver>(&m, &taps, mode) };
        let want = match go(&Mode::Step) {
            Ok(o) => o,
            Err(e) => return fail("modes:serial", e.text()),
        };
        let got = match go(&mode) {
            Ok(o) => o,
            Err(e) => return fail("modes:error", e.text()),
        };
        same(ch, "modes", &got, &want)?;
        // and once more on the same model
        match go(&mode) {
            Ok(o) => same(ch, "repeat", &o, &want),
            Err(e) => fail("repeat:error", e.text()),
        }
    });
    cx.explore("ipm-modes", |ch| {
        let ns = ch.of(&[1usize, 3, 4, 5, 9, 66]);
        let variant = ch.pick(2);
        let th = ch.of(&[None, Some(1usize), Some(2), Some(3), Some(4)]);
        let step = ch.flag();
        ch.describe(|| format!("interior point, {ns} scenarios, inputs {variant}, threads {th:?}, {}", if step { "step by step" } else { "one call" }));
        let (mut inp, dom) = flat(ns, 2, variant);
        for r in inp.a.iter_mut().flatten() {
            *r += 1.0;
        }
        for s in &mut inp.size {
            *s += 10.0;
        }
        let m = match zoo_model(&inp, dom, true) {
            Ok(m) => m,
            Err(e) => return fail("ipm:build", e.text()),
        };
        let want = match run_ipm(&m, None) {
            Ok(o) => o,
            Err(e) => return fail("ipm:serial", e.text()),
        };
        let got = if step {
            imp(|| -> Result<Obs, String> {
                let p = pool(th.unwrap_or(1));
                let set = SimdIpmSolverSettings::default();
                let mut st = m.0.setup_multi_scenario::<SimdIpmF64Solver>(&set).map_err(|e| chain(&e))?;
                let tim = pywr_core::models::ModelTimings::new_with_component_timings(m.0.network());
                let mut nt_tim = NetworkTimings::new_with_component_timings(m.0.network());
                for _ in 0..2 {
                    m.0.step_multi_scenario(&mut st, &p, &mut nt_tim).map_err(|e| chain(&e))?;
                }
                let r = m.0.finalise_multi_scenario(st, tim).map_err(|e| chain(&e))?;
                let mut o = m.1.take();
                o.mem = r.network_result.get_aggregated_value("mem").map(|v| v.to_bits());
                Ok(o)
            })
        } else {
            run_ipm(&m, th)
        };
        match got {
            Ok(o) => same(ch, "ipm", &o, &want)?,
            Err(e) => return fail("ipm:error", e.text()),
        }
        // and the same (within the interior-point tolerance) as one scenario after the other
        let serial = match run_serial::<MicroLpSolver>(&m) {
            Ok(o) => o,
            Err(e) => return fail("ipm:lp", e.text()),
        };
        // (flows and volumes of the first timestep: later ones depend on thresholds of approximate volumes)
        for (t, (x, y)) in want.probe.iter().zip(&serial.probe).take(1).enumerate() {
            for (s, (x, y)) in x.iter().zip(y).enumerate() {
                for (m, (x, y)) in x.iter().zip(y).take(11).enumerate() {
                    let (x, y) = (f(*x), f(*y));
                    chk!((x - y).abs() <= 5e-3 * (1.0 + y.abs()), "ipm:serial-differs", "scenario {s} timestep {t} metric {m}: {x} with the multi-scenario solver, {y} serially");
                }
            }
        }
        Ok(())
    });
    // all interleavings of the scenarios' computations
    for (name, ns, gates, nt) in cx.b(
        vec![("interleave-2", 2usize, vec![0usize, 1, 2], 2usize), ("interleave-3", 3, vec![0, 2], 2)],
        vec![("interleave-2", 2, vec![0, 1, 2], 3), ("interleave-3", 3, vec![0, 2], 2), ("interleave-3b", 3, vec![0, 1, 2], 1), ("interleave-4", 4, vec![0, 2], 1)],
    ) {
        cx.explore(name, |ch| {
            let variant = ch.pick(cx.b(1, 2));
            let (inp, dom) = flat(ns, nt, variant);
            let (m, taps, ctl) = match gated(&inp, dom, false, &gates) {
                Ok(m) => m,
                Err(e) => return fail("interleave:build", e.text()),
            };
            ctl.m.lock().unwrap().free = true;
            let want = match exec::<MicroLpSolver>(&m, &taps, &Mode::Step) {
                Ok(o) => o,
                Err(e) => return fail("interleave:serial", e.text()),
            };
            *ctl.m.lock().unwrap() = CtlState::default();
            let p = pool(4);
            let mut st = match imp(|| m.setup::<MicroLpSolver>(&Default::default()).map_err(|e| chain(&e))) {
                Ok(s) => s,
                Err(e) => return fail("interleave:setup", e.text()),
            };
            let mut tim = NetworkTimings::new_without_component_timings();
            let mut controlled = true;
            for t in 0..nt {
                ctl.m.lock().unwrap().waiting.clear();
                let r = std::thread::scope(|sc| {
                    let (ctl, ch, controlled) = (&ctl, &mut *ch, &mut controlled);
                    let stops = vec![gates.len(); ns];
                    let h = sc.spawn(move || *controlled = *controlled && ctl.drive(ch, ns, &stops));
                    let r = imp(|| m.step::<MicroLpSolver>(&mut st, Some(&p), &mut tim).map_err(|e| chain(&e)));
                    h.join().unwrap();
                    r
                });
                if let Err(e) = r {
                    return fail("interleave:error", format!("timestep {t}: {}", e.text()));
                }
            }
            let tr = ctl.m.lock().unwrap().trace.clone();
            ch.describe(|| format!("{ns} scenarios, {nt} timesteps, inputs {variant}, (scenario, gate) order {tr:?}"));
            if !controlled {
                return ch.skip();
            }
            let mut o = taps.take();
            o.ms.truncate(nt);
            let mut w = want.clone();
            w.ms.truncate(nt);
            w.mem = None;
            ch.state(&tr);
            same(ch, "interleave", &o, &w)
        });
    }
    // two runs of the same model, stepped alternately
    cx.explore("two-runs", |ch| {
        let nt = cx.b(3, 5);
        let ns = 2;
        let par = ch.flag();
        let (inp, dom) = flat(ns, nt, ch.pick(2));
        let (m, taps) = match zoo_model(&inp, dom, false) {
            Ok(m) => m,
            Err(e) => return fail("two:build", e.text()),
        };
        let want = match exec::<MicroLpSolver>(&m, &taps, &Mode::Step) {
            Ok(o) => o,
            Err(e) => return fail("two:serial", e.text()),
        };
        let r = imp(|| -> Result<Vec<usize>, String> {
            let set = MicroLpSolverSettings::default();
            let mut st: Vec<_> = (0..2).map(|_| m.setup::<MicroLpSolver>(&set).map_err(|e| chain(&e))).collect::<Result<_, _>>()?;
            let mut left = [nt, nt];
            let mut tim = NetworkTimings::new_without_component_timings();
            let mut order = vec![];
            while left != [0, 0] {
                let live: Vec<usize> = (0..2).filter(|k| left[*k] > 0).collect();
                let k = live[ch.pick(live.len())];
                left[k] -= 1;
                order.push(k);
                m.step::<MicroLpSolver>(&mut st[k], if par { Some(pool(2)) } else { None }.as_deref(), &mut tim).map_err(|e| chain(&e))?;
            }
            Ok(order)
        });
        let order = match r {
            Ok(o) => o,
            Err(e) => return fail("two:error", e.text()),
        };
        ch.describe(|| format!("two runs of one model, order of steps {order:?}, parallel {par}"));
        let o = taps.take();
        let mut seen = [0, 0];
        for (i, k) in order.iter().enumerate() {
            let t = seen[*k];
            seen[*k] += 1;
            for s in 0..ns {
                if let Some(w) = differ(&[o.probe[i][s].clone()], &[want.probe[t][s].clone()]) {
                    return fail("two:values", format!("run {k} timestep {t} scenario {s}: {w}"));
                }
                chk!(o.ms[i][s] == want.ms[t][s], "two:metric-sets", "run {k} timestep {t} scenario {s}: {:?} vs {:?}", o.ms[i][s], want.ms[t][s]);
                ch.state(&(seen, s));
            }
        }
        Ok(())
    });
    // errors
    cx.explore("errors", |ch| {
        let ns = ch.of(&[1usize, 3, 5]);
        let nt = 2;
        let t = ch.pick(nt);
        let who: Vec<usize> = match ch.pick(3) {
            0 => vec![0],
            1 => vec![ns - 1],
            _ => (0..ns).filter(|s| s % 2 == 1 || ns == 1).collect(),
        };
        // where the failure happens: a parameter before or after the solve, or the solve itself
        let place = ch.pick(3);
        let solver = ch.pick(3);
        let mode = ch.of(&[Mode::Step, Mode::StepPool(1), Mode::StepPool(3), Mode::Run, Mode::RunPar(1), Mode::RunPar(4)]);
        ch.describe(|| format!("{ns} scenarios, failure of {who:?} at timestep {t} {}, solver {} {mode:?}", ["before the solve", "after the solve", "in the solve"][place], ["MicroLP", "HiGHS", "interior point"][solver]));
        let (mut inp, dom) = flat(ns, nt, 0);
        for s in &mut inp.size {
            *s += 10.0;
        }
        for r in inp.a.iter_mut().flatten() {
            *r += 1.0;
        }
        if place == 2 {
            if solver == 2 {
                return ch.skip(); // infeasibility is the subject of C03
            }
        }
        let ctl: Arc<Ctl> = Default::default();
        ctl.m.lock().unwrap().free = true;
        let (mut nb, metrics) = zoo(&inp, solver == 2);
        if place == 2 {
            // an input that must exceed what its only outlet takes
            let req: Vec<Vec<f64>> = (0..ns).map(|s| (0..nt).map(|k| if k == t && who.contains(&s) { 5.0 } else { 1.0 }).collect()).collect();
            f64p(&mut nb, Array2ParameterBuilder::new("req".into(), table(&req), "a"));
            let mut i = NodeBuilder::input("bad");
            i.min_flow(pm("req"));
            let mut o = NodeBuilder::output("bad-out");
            o.max_flow(2.0.into());
            nb.node(i);
            nb.node(o);
            nb.connect("bad", "bad-out");
        } else {
            ctl.m.lock().unwrap().fail = who.iter().map(|s| (*s, t, 2 * place)).collect();
            f64p(&mut nb, GateBuilder("gate".into(), ctl.clone(), 2 * place, place == 1));
        }
        let taps = tap(&mut nb, metrics);
        let m = match imp(|| ModelBuilder::new(dom, nb).build().map_err(|e| chain(&e))) {
            Ok(m) => m,
            Err(e) => return fail("errors:build", e.text()),
        };
        let r = match solver {
            0 => exec::<MicroLpSolver>(&m, &taps, &mode).map(|_| ()),
            1 => exec::<HighsSolver>(&m, &taps, &mode).map(|_| ()),
            _ => match mode {
                Mode::Step | Mode::StepPool(_) => imp(|| -> Result<(), String> {
                    let p = pool(if let Mode::StepPool(k) = mode { k } else { 1 });
                    let mut st = m.setup_multi_scenario::<SimdIpmF64Solver>(&Default::default()).map_err(|e| chain(&e))?;
                    let mut tim = NetworkTimings::new_without_component_timings();
                    for _ in 0..nt {
                        m.step_multi_scenario(&mut st, &p, &mut tim).map_err(|e| chain(&e))?;
                    }
                    Ok(())
                }),
                Mode::RunPar(k) => imp(|| m.run_multi_scenario::<SimdIpmF64Solver>(&SimdIpmSolverSettings::builder().parallel().threads(k).build()).map(|_| ()).map_err(|e| chain(&e))),
                _ => imp(|| m.run_multi_scenario::<SimdIpmF64Solver>(&Default::default()).map(|_| ()).map_err(|e| chain(&e))),
            },
        };
        let o = taps.take();
        match r {
            Ok(()) => fail("errors:lost", "the run succeeds"),
            Err(ImpErr::Panic(e)) => fail("errors:panic", e),
            Err(ImpErr::Err(e)) => {
                if place != 2 {
                    chk!(who.iter().any(|s| e.contains(&format!("failure of scenario {s} at timestep {t}"))), "errors:text", "the error does not name the failing computation: {e}");
                }
                // nothing is recorded for the failed timestep
                chk!(o.probe.len() == t, "errors:recorded", "{} timesteps recorded before a failure at timestep {t}", o.probe.len());
                ch.state(&(ns, t, who, place, solver, format!("{mode:?}")));
                Ok(())
            }
        }
    });
    // errors under every interleaving
    cx.explore("errors-interleave", |ch| {
        let ns = cx.b(2, 3);
        let who = ch.pick(ns + 1);
        let gate = ch.of(&[0usize, 2]);
        let fails: Vec<usize> = if who == ns { (0..ns).collect() } else { vec![who] };
        let (inp, dom) = flat(ns, 1, 0);
        let (m, _taps, ctl) = match gated(&inp, dom, false, &[0, 2]) {
            Ok(m) => m,
            Err(e) => return fail("errors:build", e.text()),
        };
        ctl.m.lock().unwrap().fail = fails.iter().map(|s| (*s, 0, gate)).collect();
        let p = pool(4);
        let mut st = match imp(|| m.setup::<MicroLpSolver>(&Default::default()).map_err(|e| chain(&e))) {
            Ok(s) => s,
            Err(e) => return fail("errors:setup", e.text()),
        };
        let mut tim = NetworkTimings::new_without_component_timings();
        let stops: Vec<usize> = (0..ns).map(|s| if gate == 0 && fails.contains(&s) { 1 } else { 2 }).collect();
        let mut controlled = true;
        let r = std::thread::scope(|sc| {
            let (ctl, ch, controlled) = (&ctl, &mut *ch, &mut controlled);
            let h = sc.spawn(move || *controlled = ctl.drive(ch, ns, &stops));
            let r = imp(|| m.step::<MicroLpSolver>(&mut st, Some(&p), &mut tim).map_err(|e| chain(&e)));
            h.join().unwrap();
            r
        });
        let tr = ctl.m.lock().unwrap().trace.clone();
        ch.describe(|| format!("{ns} scenarios, {fails:?} fail at gate {gate}, order {tr:?}"));
        if !controlled {
            return ch.skip();
        }
        ch.state(&tr);
        match r {
            Ok(()) => fail("errors:lost", "the step succeeds"),
            Err(ImpErr::Panic(e)) => fail("errors:panic", e),
            Err(ImpErr::Err(e)) => {
                chk!(fails.iter().any(|s| e.contains(&format!("failure of scenario {s} "))), "errors:text", "{e}");
                Ok(())
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------
// C18
// ---------------------------------------------------------------------------------------------
use pywr_core::models::{MultiNetworkEntryBuilder, MultiNetworkModelBuilder, MultiNetworkTransferBuilder};

/// What a transfer reads in the other network.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum TK {
    Flow,
    Volume,
    Before,
    After,
    /// the value another transfer brought there
    Pass,
}
#[derive(Clone, Debug)]
struct Tr {
    from: usize,
    kind: TK,
    init: Option<f64>,
}
/// Reference state of one network in one scenario.
#[derive(Clone, Debug, Default)]
struct NetState {
    flow: f64,
    vol: f64,
    total: f64,
    out: f64,
    tr: Vec<f64>,
}
impl NetState {
    fn get(&self, k: TK) -> f64 {
        match k {
            TK::Flow => self.flow,
            TK::Volume => self.vol,
            TK::Before => self.total,
            TK::After => self.out * 2.0,
            TK::Pass => self.tr.first().copied().unwrap_or(0.0),
        }
    }
}
fn tr_metric(k: TK) -> M {
    match k {
        TK::Flow => M::NodeOutFlow("in".into()),
        TK::Volume => M::NodeVolume("store".into()),
        TK::Before => pm("total"),
        TK::After => M::new_parameter_after("after"),
        TK::Pass => M::InterNetworkTransfer("t0".into()),
    }
}
/// own[net][scenario][timestep]
fn transfer_reference(order: &[usize], tr: &[Vec<Tr>], own: &[Vec<Vec<f64>>], s: usize, nt: usize) -> Vec<Vec<NetState>> {
    let n = order.len();
    let mut st: Vec<NetState> = (0..n).map(|i| NetState { tr: vec![0.0; tr[i].len()], ..Default::default() }).collect();
    let mut started = vec![false; n];
    let mut out = vec![];
    for t in 0..nt {
        for &i in order {
            let vals: Vec<f64> = tr[i].iter().map(|x| if t == 0 && x.init.is_some() { x.init.unwrap() } else { st[x.from].get(x.kind) }).collect();
            let me = &mut st[i];
            if !started[i] {
                started[i] = true;
                me.vol = 5.0 + i as f64;
            }
            me.total = (own[i][s][t] + vals.iter().sum::<f64>()) / (1 + vals.len()) as f64;
            me.tr = vals;
            me.flow = me.total;
            me.out = (3.0 + i as f64).min(me.vol + me.flow);
            me.vol += me.flow - me.out;
        }
        out.push(st.clone());
    }
    out
}
fn transfer_network(i: usize, tr: &[Tr], own: &[Vec<f64>], ns: usize) -> (NetworkBuilder, Sink) {
    let mut nb = NetworkBuilder::default();
    let a = Array2::from_shape_fn((own[0].len(), ns), |(t, s)| own[s][t]);
    f64p(&mut nb, Array2ParameterBuilder::new("own".into(), a, "scenario"));
    let mut agg = AggregatedParameterBuilder::before("total".into(), AggFuncF64::Mean);
    agg.metric(pm("own"));
    for k in 0..tr.len() {
        agg.metric(M::InterNetworkTransfer(format!("t{k}")));
    }
    f64p(&mut nb, agg);
    let mut inp = NodeBuilder::input("in");
    inp.max_flow(pm("total")).cost((-10.0).into());
    let mut s = NodeBuilder::storage("store");
    s.max_volume(500.0.into()).initial_volume(UnresolvedStorageInitialVolume::absolute(5.0 + i as f64));
    let mut o = NodeBuilder::output("out");
    o.max_flow((3.0 + i as f64).into()).cost((-1.0).into());
    nb.node(inp);
    nb.node(s);
    nb.node(o);
    nb.connect("in", "store").connect("store", "out");
    let mut agg = AggregatedParameterBuilder::after("after".into(), AggFuncF64::Sum);
    agg.metric(M::NodeInFlow("out".into()));
    agg.metric(M::NodeInFlow("out".into()));
    f64p(&mut nb, agg);
    let mut ms = vec![M::NodeOutFlow("in".into()), M::NodeVolume("store".into()), pm("total"), M::NodeInFlow("out".into())];
    ms.extend((0..tr.len()).map(|k| M::InterNetworkTransfer(format!("t{k}"))));
    let (p, sink) = ProbeBuilder::new("probe", ms);
    nb.recorder(Box::new(p));
    (nb, sink)
}

/// Run the networks with their transfers and compare with the reference. `order[k]` is the network solved k-th.
fn transfers(ch: &mut Ch, order: &[usize], tr: &[Vec<Tr>], own: &[Vec<Vec<f64>>], nt: usize, mode: usize) -> Res {
    let ns = own[0].len();
    let dom = domain_scen(time_days(dt0(), 1, nt), &[("scenario", ns)]);
    let mut mb = MultiNetworkModelBuilder::new(dom);
    let mut sinks: Vec<Sink> = vec![Default::default(); order.len()];
    for &i in order {
        let (nb, sink) = transfer_network(i, &tr[i], &own[i], ns);
        sinks[i] = sink;
        let mut e = MultiNetworkEntryBuilder::new(&format!("net{i}"), nb);
        for (k, x) in tr[i].iter().enumerate() {
            let mut b = MultiNetworkTransferBuilder::new(&format!("t{k}"), &format!("net{}", x.from), tr_metric(x.kind));
            if let Some(v) = x.init {
                b.initial_value(v);
            }
            e.transfer(b);
        }
        mb.network(e);
    }
    let model = match imp(|| mb.build().map_err(|e| chain(&e))) {
        Ok(m) => m,
        Err(e) => return fail("transfer:build", e.text()),
    };
    let r = match mode {
        0 => imp(|| model.run::<MicroLpSolver>(&Default::default()).map(|_| ()).map_err(|e| chain(&e))),
        1 => imp(|| model.run::<MicroLpSolver>(&<MicroLpSolver as Set>::settings(Some(3))).map(|_| ()).map_err(|e| chain(&e))),
        2 => imp(|| model.run::<HighsSolver>(&Default::default()).map(|_| ()).map_err(|e| chain(&e))),
        3 => imp(|| model.run_multi_scenario::<SimdIpmF64Solver>(&Default::default()).map(|_| ()).map_err(|e| chain(&e))),
        _ => imp(|| model.run_multi_scenario::<SimdIpmF64Solver>(&SimdIpmSolverSettings::builder().parallel().threads(2).build()).map(|_| ()).map_err(|e| chain(&e))),
    };
    if let Err(e) = r {
        return fail("transfer:run", e.text());
    }
    let tol = if mode >= 3 { 5e-3 } else { 1e-6 };
    for s in 0..ns {
        let want = transfer_reference(order, tr, own, s, nt);
        for i in 0..order.len() {
            let got = sinks[i].lock().unwrap().clone();
            chk!(got.len() == nt, "transfer:steps", "{} timesteps recorded", got.len());
            for t in 0..nt {
                let w = &want[t][i];
                let g = &got[t][s];
                for (k, x) in w.tr.iter().enumerate() {
                    chk!((g[4 + k] - x).abs() <= tol * (1.0 + x.abs()), "transfer:value", "timestep {t} scenario {s} network {i} transfer {k} {:?}: {} instead of {x}", tr[i][k], g[4 + k]);
                }
                for (k, (x, name)) in [(w.flow, "inflow"), (w.vol, "volume"), (w.total, "total"), (w.out, "outflow")].iter().enumerate() {
                    chk!((g[k] - x).abs() <= tol * (1.0 + x.abs()), "transfer:network", "timestep {t} scenario {s} network {i}: {name} {} instead of {x}", g[k]);
                }
                ch.state(&(order.to_vec(), i, t, format!("{:?}{:?}", tr[i], w)));
                ch.out(&w.vol.to_bits());
            }
        }
    }
    Ok(())
}
const KINDS: [TK; 5] = [TK::Flow, TK::Volume, TK::Before, TK::After, TK::Pass];

fn pick_tr(ch: &mut Ch, from: usize, kinds: &[TK], later: bool) -> Tr {
    let kind = ch.of(kinds);
    // before its first timestep a volume is not defined: an initial value is then required
    let init = if kind == TK::Volume && later { Some(ch.of(&[2.5, 0.0])) } else { ch.of(&[None, Some(2.5), Some(0.0)]) };
    Tr { from, kind, init }
}

pub fn c18(cx: &Cx) {
    cx.assume("on the first timestep a configured initial value is used whichever way the transfer goes; without one, a network that has not been solved yet has zero flows and parameter values");
    let nt = cx.b(3, 4);
    cx.explore("two-networks", |ch| {
        let order = ch.of(&[vec![0usize, 1], vec![1, 0]]);
        let mut tr: Vec<Vec<Tr>> = vec![vec![], vec![]];
        for i in 0..2 {
            let later = order[0] == i;
            for _ in 0..ch.pick(if i == 0 { 3 } else { 2 }) {
                tr[i].push(pick_tr(ch, 1 - i, &KINDS, later));
            }
        }
        let h = ch.of(&words(&[1.0, 4.0], nt));
        let ns = ch.of(&[1usize, 2]);
        let mode = 0;
        // passing a value on needs a transfer to pass on, and must not refer to itself
        for i in 0..2 {
            if tr[i].iter().any(|t| t.kind == TK::Pass && (tr[1 - i].is_empty() || tr[1 - i][0].kind == TK::Pass)) {
                return ch.skip();
            }
        }
        let own: Vec<Vec<Vec<f64>>> = vec![
            (0..ns).map(|s| h.iter().map(|v| v + 0.5 * s as f64).collect()).collect(),
            (0..ns).map(|s| (0..nt).map(|t| 2.0 + t as f64 - s as f64).collect()).collect(),
        ];
        ch.describe(|| format!("order {order:?}, transfers {tr:?}, own {own:?}, mode {mode}"));
        transfers(ch, &order, &tr, &own, nt, mode)
    });
    cx.explore("three-networks", |ch| {
        let order = ch.perm(3);
        let rot = ch.pick(cx.b(2, 4));
        let mut tr: Vec<Vec<Tr>> = vec![vec![]; 3];
        for i in 0..3 {
            for f in 0..3 {
                if f != i && ch.flag() {
                    let later = order.iter().position(|x| *x == f) > order.iter().position(|x| *x == i);
                    let kind = KINDS[(i + 2 * f + rot) % 4];
                    let init = if (i + f + rot) % 2 == 0 || (later && kind == TK::Volume) { Some(1.5 + i as f64 + 2.0 * f as f64) } else { None };
                    tr[i].push(Tr { from: f, kind, init });
                }
            }
        }
        let mode = ch.pick(5);
        let ns = if mode >= 3 { 5 } else { 3 };
        let own: Vec<Vec<Vec<f64>>> = (0..3).map(|i| (0..ns).map(|s| (0..nt).map(|t| 1.0 + ((i * 3 + s * 2 + t * 5) % 4) as f64).collect()).collect()).collect();
        ch.describe(|| format!("order {order:?}, transfers {tr:?}, {ns} scenarios, mode {mode}"));
        transfers(ch, &order, &tr, &own, nt, mode)
    });
    cx.explore("four-networks", |ch| {
        // distances between networks: one source, one target, every order
        let order = ch.perm(4);
        let (f, i) = (ch.pick(4), ch.pick(4));
        if f == i {
            return ch.skip();
        }
        let mut tr: Vec<Vec<Tr>> = vec![vec![]; 4];
        let later = order.iter().position(|x| *x == f) > order.iter().position(|x| *x == i);
        tr[i].push(pick_tr(ch, f, &KINDS[..4], later));
        // another network between them receives something else
        let k = (0..4).find(|k| *k != f && *k != i).unwrap();
        tr[k].push(Tr { from: i, kind: TK::Flow, init: Some(0.25) });
        let own: Vec<Vec<Vec<f64>>> = (0..4).map(|i| (0..2).map(|s| (0..nt).map(|t| 1.0 + ((i * 3 + s * 2 + t * 5) % 7) as f64).collect()).collect()).collect();
        ch.describe(|| format!("order {order:?}, transfers {tr:?}"));
        transfers(ch, &order, &tr, &own, nt, 0)
    });
    // networks full of state behave as they would alone, given the transferred values
    cx.explore("zoo-networks", |ch| {
        let order = ch.of(&[vec![0usize, 1], vec![1, 0]]);
        let init = ch.of(&[None, Some(4.5)]);
        let h = ch.of(&words(&[0.0, 8.0], nt));
        let par = ch.flag();
        let inp = |i: usize| Inputs { a: vec![h.clone(), h.iter().rev().map(|v| v * 0.5 + 1.0 + i as f64).collect()], b: vec![vec![2.0 + i as f64; nt], vec![5.0; nt]], size: vec![10.0, 16.0] };
        ch.describe(|| format!("order {order:?}, initial {init:?}, inflow {h:?}, parallel {par}"));
        let dom = || zoo_domain(nt, None, None);
        let mut mb = MultiNetworkModelBuilder::new(dom());
        let mut taps: Vec<Option<Taps>> = vec![None, None];
        let mut sink = None;
        for &i in &order {
            let (mut nb, metrics) = zoo(&inp(i), false);
            if i == 1 {
                // an extra demand on the store set by the transfer
                let mut o = NodeBuilder::output("export");
                o.max_flow(M::InterNetworkTransfer("x".into())).cost((-20.0).into());
                nb.node(o);
                nb.connect("store", "export");
                let (p, s) = ProbeBuilder::new("transfer", vec![M::InterNetworkTransfer("x".into())]);
                nb.recorder(Box::new(p));
                sink = Some(s);
            }
            taps[i] = Some(tap(&mut nb, metrics));
            let mut e = MultiNetworkEntryBuilder::new(&format!("net{i}"), nb);
            if i == 1 {
                let mut b = MultiNetworkTransferBuilder::new("x", "net0", M::NodeInFlow("out2".into()));
                if let Some(v) = init {
                    b.initial_value(v);
                }
                e.transfer(b);
            }
            mb.network(e);
        }
        let model = match imp(|| mb.build().map_err(|e| chain(&e))) {
            Ok(m) => m,
            Err(e) => return fail("zoo:build", e.text()),
        };
        if let Err(e) = imp(|| model.run::<MicroLpSolver>(&<MicroLpSolver as Set>::settings(par.then_some(2))).map(|_| ()).map_err(|e| chain(&e))) {
            return fail("zoo:run", e.text());
        }
        let got: Vec<Obs> = taps.iter().map(|t| t.as_ref().unwrap().take()).collect();
        let x = sink.unwrap().lock().unwrap().clone();
        // the transferred value is the flow of the other network, this timestep's or the last one's
        for t in 0..nt {
            for s in 0..4 {
                let at = if order[0] == 0 { Some(t) } else { t.checked_sub(1) };
                let want = match (t, init) {
                    (0, Some(v)) => v,
                    _ => at.map_or(0.0, |k| f(got[0].probe[k][s][7])),
                };
                chk!(x[t][s][0] == want, "zoo:value", "timestep {t} scenario {s}: transferred {} instead of {want}", x[t][s][0]);
            }
        }
        for i in 0..2 {
            let (mut nb, metrics) = zoo(&inp(i), false);
            if i == 1 {
                let mut o = NodeBuilder::output("export");
                f64p(&mut nb, GenSeriesBuilder::new("x", (0..4).map(|s| (0..nt).map(|t| x[t][s][0]).collect()).collect()));
                o.max_flow(pm("x")).cost((-20.0).into());
                nb.node(o);
                nb.connect("store", "export");
            }
            let tp = tap(&mut nb, metrics);
            let m = match imp(|| ModelBuilder::new(dom(), nb).build().map_err(|e| chain(&e))) {
                Ok(m) => m,
                Err(e) => return fail("zoo:alone", e.text()),
            };
            if let Err(e) = imp(|| m.run::<MicroLpSolver>(&Default::default()).map(|_| ()).map_err(|e| chain(&e))) {
                return fail("zoo:alone", e.text());
            }
            same(ch, "zoo", &got[i], &tp.take())?;
        }
        Ok(())
    });
    cx.explore("schema", |ch| schema_transfers(ch, nt));
}

/// The same, from documents.
fn schema_transfers(ch: &mut Ch, nt: usize) -> Res {
    use crate::schema::*;
    use serde_json::json;
    let order = ch.of(&[vec![0usize, 1], vec![1, 0]]);
    let kind = ch.of(&[TK::Flow, TK::Volume, TK::Before]);
    let back = ch.of(&[None, Some(TK::Flow), Some(TK::Before)]);
    let later = order[0] == 1;
    // a constant has its value before its network is solved
    let i0 = if kind == TK::Volume && later || kind == TK::Before && later && back.is_none() { Some(1.5) } else { ch.of(&[None, Some(1.5)]) };
    let i1 = ch.of(&[None, Some(2.5)]);
    let file = ch.flag();
    let ns = ch.of(&[1usize, 2]);
    let mut tr: Vec<Vec<Tr>> = vec![vec![], vec![Tr { from: 0, kind, init: i0 }]];
    if let Some(k) = back {
        tr[0].push(Tr { from: 1, kind: k, init: i1 });
    } else if i1.is_some() {
        return ch.skip();
    }
    let own: Vec<Vec<Vec<f64>>> = (0..2).map(|i| (0..ns).map(|s| vec![1.0 + 2.0 * i as f64 + 0.5 * s as f64; nt]).collect()).collect();
    ch.describe(|| format!("documents, order {order:?}, transfers {tr:?}, {ns} scenarios, networks in files {file}"));
    let net = |i: usize| {
        let mut terms = vec![par("own")];
        for k in 0..tr[i].len() {
            terms.push(json!({"type": "InterNetworkTransfer", "name": format!("t{k}")}));
        }
        json!({
            "nodes": [
                {"meta": {"name": "in"}, "type": "Input", "max_flow": par("total"), "cost": lit(-10.0)},
                {"meta": {"name": "store"}, "type": "Storage", "max_volume": lit(500.0), "initial_volume": {"type": "Absolute", "volume": 5.0 + i as f64}},
                {"meta": {"name": "out"}, "type": "Output", "max_flow": lit(3.0 + i as f64), "cost": lit(-1.0)},
            ],
            "edges": [{"from_node": "in", "to_node": "store"}, {"from_node": "store", "to_node": "out"}],
            "parameters": [
                {"meta": {"name": "own"}, "type": "ConstantScenario", "scenario_group": "scenario", "values": {"type": "Literal", "values": own[i].iter().map(|s| s[0]).collect::<Vec<_>>()}},
                {"meta": {"name": "total"}, "type": "Aggregated", "agg_func": {"type": "Mean"}, "metrics": terms, "phase": "Before"},
            ],
            "metric_sets": [{"name": "m", "metrics": [nattr("in", "Outflow"), nattr("store", "Volume"), par("total"), nattr("out", "Inflow")]}],
        })
    };
    let metric = |k: TK| match k {
        TK::Flow => nattr("in", "Outflow"),
        TK::Volume => nattr("store", "Volume"),
        _ => par("total"),
    };
    let dir = std::env::current_dir().unwrap().join(format!("c18-{:?}", std::thread::current().id()).replace(['(', ')'], "-"));
    if file {
        std::fs::create_dir_all(&dir).unwrap();
        for i in 0..2 {
            std::fs::write(dir.join(format!("net{i}.json")), net(i).to_string()).unwrap();
        }
    }
    let nets: Vec<_> = order
        .iter()
        .map(|&i| {
            let ts: Vec<_> = tr[i]
                .iter()
                .enumerate()
                .map(|(k, t)| {
                    let mut v = json!({"from_network": format!("net{}", t.from), "metric": metric(t.kind), "name": format!("t{k}")});
                    if let Some(x) = t.init {
                        v["initial_value"] = json!(x);
                    }
                    v
                })
                .collect();
            json!({"name": format!("net{i}"), "network": if file { json!(format!("net{i}.json")) } else { net(i) }, "transfers": ts})
        })
        .collect();
    let mut d = json!({"metadata": {"title": "t"}, "time": days_json(nt), "networks": nets});
    d["scenarios"] = json!({"groups": [{"name": "scenario", "size": ns}]});
    let text = d.to_string();
    let s = match imp(|| text.parse::<pywr_schema::model::MultiNetworkModelSchema>().map_err(|e| chain(&e))) {
        Ok(s) => s,
        Err(e) => return fail("schema:parse", e.text()),
    };
    let built = imp(|| s.create_model_builder(Some(&dir), None).map_err(|e| chain(&e)));
    if file {
        let _ = std::fs::remove_dir_all(&dir);
    }
    let mut mb = match built {
        Ok(m) => m,
        Err(e) => return fail("schema:build", e.text()),
    };
    let mut sinks: Vec<MsSink> = vec![];
    for i in 0..2 {
        let sink: MsSink = Default::default();
        mb.entry_builder(&format!("net{i}")).unwrap().network_builder().recorder(Box::new(MsProbeBuilder(sink.clone())));
        sinks.push(sink);
    }
    let model = match imp(|| mb.build().map_err(|e| chain(&e))) {
        Ok(m) => m,
        Err(e) => return fail("schema:model", e.text()),
    };
    if let Err(e) = imp(|| model.run::<MicroLpSolver>(&Default::default()).map(|_| ()).map_err(|e| chain(&e))) {
        return fail("schema:run", e.text());
    }
    for s in 0..ns {
        let want = transfer_reference(&order, &tr, &own, s, nt);
        for i in 0..2 {
            let got = sinks[i].lock().unwrap().clone();
            for t in 0..nt {
                let w = &want[t][i];
                let g = got[t][s][0].as_ref().unwrap();
                for (k, (x, name)) in [(w.flow, "inflow"), (w.vol, "volume"), (w.total, "total"), (w.out, "outflow")].iter().enumerate() {
                    chk!((g[k].2 - x).abs() <= 1e-6 * (1.0 + x.abs()), "schema:network", "timestep {t} scenario {s} network {i}: {name} {} instead of {x}", g[k].2);
                }
                ch.state(&(order.clone(), i, t, format!("{w:?}")));
            }
        }
    }
    Ok(())
}
