//! Helpers for building and stepping pywr-core models, and the network reference model.
use crate::harness::*;
use crate::rat::*;
use jiff::civil::{DateTime, date};
use ndarray::Array1;
use pywr_core::metric::{MetricConsumerPhase, MetricF64, UnresolvedMetricF64};
use pywr_core::models::{Model, ModelBuilder, ModelDomain, ModelDomainBuilder, ModelState};
use pywr_core::network::{Network, NetworkBuilder, NetworkTimings, ResolutionMaps};
use pywr_core::node::{CostAggFunc, NodeBuilder, UnresolvedStorageInitialVolume};
use pywr_core::parameters::*;
use pywr_core::recorders::*;
use pywr_core::scenario::{ScenarioDomainBuilder, ScenarioGroupBuilder, ScenarioIndex};
use pywr_core::solvers::{Solver, SolverSettings};
use pywr_core::state::State;
use pywr_core::timestep::{TimeDomainBuilder, Timestep, TimestepDuration};
use pywr_core::virtual_storage::VirtualStorageNodeBuilder;
use std::num::NonZeroU64;
use std::sync::{Arc, Mutex};

pub const TOL: f64 = 1e-6;

pub fn close(a: f64, b: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return false;
    }
    if a == b {
        return true;
    }
    (a - b).abs() <= 1e-7 * (1.0f64).max(a.abs()).max(b.abs())
}

pub fn days(n: u64) -> TimestepDuration {
    TimestepDuration::Days(NonZeroU64::new(n).unwrap())
}
/// The last day of a leap year, so that every run of two steps or more crosses a month and a year.
pub fn dt0() -> DateTime {
    date(2020, 12, 31).at(0, 0, 0, 0)
}
/// A time domain of `n` steps of `step` days starting at `start`.
pub fn time_days(start: DateTime, step: u64, n: usize) -> TimeDomainBuilder {
    let end = start.checked_add(jiff::Span::new().days((step as i64) * (n as i64 - 1))).unwrap();
    TimeDomainBuilder::new(start, end, days(step))
}
pub fn time_hours(start: DateTime, step: u64, n: usize) -> TimeDomainBuilder {
    let end = start.checked_add(jiff::Span::new().hours((step as i64) * (n as i64 - 1))).unwrap();
    TimeDomainBuilder::new(start, end, TimestepDuration::Hours(NonZeroU64::new(step).unwrap()))
}
pub fn domain(time: TimeDomainBuilder) -> ModelDomain {
    ModelDomainBuilder::new(time).build().unwrap()
}
pub fn domain_scen(time: TimeDomainBuilder, groups: &[(&str, usize)]) -> ModelDomain {
    let mut sb = ScenarioDomainBuilder::default();
    for (g, n) in groups {
        sb = sb.with_group(ScenarioGroupBuilder::new(g, *n).build().unwrap()).unwrap();
    }
    let mut d = ModelDomainBuilder::new(time);
    d.scenario(sb);
    d.build().unwrap()
}

pub fn pm(name: &str) -> UnresolvedMetricF64 {
    UnresolvedMetricF64::new_parameter_before(name)
}

/// Harness parameter: general parameter returning `values[simulation id][timestep]`.
#[derive(Debug)]
pub struct GenSeries {
    meta: ParameterMeta,
    values: Vec<Vec<f64>>,
}
impl Parameter for GenSeries {
    fn meta(&self) -> &ParameterMeta {
        &self.meta
    }
}
impl GeneralParameter for GenSeries {
    fn as_parameter(&self) -> &dyn Parameter {
        self
    }
}
impl GeneralBeforeParameter<f64> for GenSeries {
    fn before(&self, c: GeneralParameterContext<'_>, _s: &mut Option<Box<dyn ParameterState>>) -> Result<f64, pywr_core::parameters::GeneralCalculationError> {
        let sid = c.scenario_index.simulation_id().min(self.values.len() - 1);
        Ok(self.values[sid][c.timestep.index.min(self.values[sid].len() - 1)])
    }
}
impl GeneralBeforeParameter<u64> for GenSeries {
    fn before(&self, c: GeneralParameterContext<'_>, _s: &mut Option<Box<dyn ParameterState>>) -> Result<u64, pywr_core::parameters::GeneralCalculationError> {
        let sid = c.scenario_index.simulation_id().min(self.values.len() - 1);
        Ok(self.values[sid][c.timestep.index.min(self.values[sid].len() - 1)] as u64)
    }
}
#[derive(Debug)]
pub struct GenSeriesBuilder(ParameterName, Vec<Vec<f64>>);
impl GenSeriesBuilder {
    pub fn new(name: &str, values: Vec<Vec<f64>>) -> Self {
        GenSeriesBuilder(name.into(), values)
    }
}
impl ParameterBuilder<f64> for GenSeriesBuilder {
    fn name(&self) -> &ParameterName {
        &self.0
    }
    fn build(self: Box<Self>, _r: &ResolutionMaps) -> Result<MaybeBuiltParameter<f64>, ParameterBuildError> {
        Ok(BuiltParameter::General(GeneralParameterEntry::before(GenSeries { meta: ParameterMeta::new(self.0), values: self.1 })).into())
    }
}
impl ParameterBuilder<u64> for GenSeriesBuilder {
    fn name(&self) -> &ParameterName {
        &self.0
    }
    fn build(self: Box<Self>, _r: &ResolutionMaps) -> Result<MaybeBuiltParameter<u64>, ParameterBuildError> {
        Ok(BuiltParameter::General(GeneralParameterEntry::before(GenSeries { meta: ParameterMeta::new(self.0), values: self.1 })).into())
    }
}

pub type Sink = Arc<Mutex<Vec<Vec<Vec<f64>>>>>;

/// Harness recorder: saves `metrics` of every scenario at every timestep.
/// Layout of the sink: [timestep][scenario][metric].
#[derive(Debug)]
pub struct Probe {
    meta: RecorderMeta,
    metrics: Vec<MetricF64>,
    sink: Sink,
}
impl Recorder for Probe {
    fn meta(&self) -> &RecorderMeta {
        &self.meta
    }
    fn save(
        &self,
        _t: &Timestep,
        scen: &[ScenarioIndex],
        model: &Network,
        state: &[State],
        _m: &[Vec<MetricSetState>],
        _i: &mut Option<Box<dyn RecorderInternalState>>,
    ) -> Result<(), RecorderSaveError> {
        let mut rows = vec![];
        for s in scen {
            let st = &state[s.simulation_id()];
            let mut row = vec![];
            for m in &self.metrics {
                row.push(m.get_value(model, st)?);
            }
            rows.push(row);
        }
        self.sink.lock().unwrap().push(rows);
        Ok(())
    }
}
#[derive(Debug)]
pub struct ProbeBuilder {
    pub name: String,
    pub metrics: Vec<UnresolvedMetricF64>,
    pub sink: Sink,
}
impl ProbeBuilder {
    pub fn new(name: &str, metrics: Vec<UnresolvedMetricF64>) -> (Self, Sink) {
        let sink: Sink = Default::default();
        (ProbeBuilder { name: name.into(), metrics, sink: sink.clone() }, sink)
    }
}
impl RecorderBuilder for ProbeBuilder {
    fn name(&self) -> &str {
        &self.name
    }
    fn build(self: Box<Self>, maps: &ResolutionMaps) -> Result<Box<dyn Recorder>, RecorderBuilderError> {
        let mut metrics = vec![];
        for m in &self.metrics {
            metrics.push(
                m.resolve(maps, MetricConsumerPhase::After)
                    .map_err(|source| RecorderBuilderError::ResolveMetricF64Error { attr: "probe".into(), source })?,
            );
        }
        Ok(Box::new(Probe { meta: RecorderMeta { name: self.name.clone(), comment: String::new() }, metrics, sink: self.sink }))
    }
}

/// Harness parameter computed before the solve: keeps the values of `metrics` at that moment.
/// Layout of the sink: [timestep][scenario][metric].
#[derive(Debug)]
pub struct Watch {
    meta: ParameterMeta,
    metrics: Vec<MetricF64>,
    sink: Sink,
}
impl Parameter for Watch {
    fn meta(&self) -> &ParameterMeta {
        &self.meta
    }
}
impl GeneralParameter for Watch {
    fn as_parameter(&self) -> &dyn Parameter {
        self
    }
}
impl GeneralBeforeParameter<f64> for Watch {
    fn before(&self, c: GeneralParameterContext<'_>, _s: &mut Option<Box<dyn ParameterState>>) -> Result<f64, pywr_core::parameters::GeneralCalculationError> {
        let row = self.metrics.iter().map(|m| m.get_value(c.network, c.state)).collect::<Result<Vec<_>, _>>()?;
        let (t, s) = (c.timestep.index, c.scenario_index.simulation_id());
        let mut sink = self.sink.lock().unwrap();
        if sink.len() <= t {
            sink.resize(t + 1, vec![]);
        }
        if sink[t].len() <= s {
            sink[t].resize(s + 1, vec![]);
        }
        sink[t][s] = row;
        Ok(0.0)
    }
}
#[derive(Debug)]
pub struct WatchBuilder(ParameterName, Vec<UnresolvedMetricF64>, Sink);
impl WatchBuilder {
    pub fn new(name: &str, metrics: Vec<UnresolvedMetricF64>) -> (Self, Sink) {
        let sink: Sink = Default::default();
        (WatchBuilder(name.into(), metrics, sink.clone()), sink)
    }
}
impl ParameterBuilder<f64> for WatchBuilder {
    fn name(&self) -> &ParameterName {
        &self.0
    }
    fn build(self: Box<Self>, maps: &ResolutionMaps) -> Result<MaybeBuiltParameter<f64>, ParameterBuildError> {
        let metrics = self.1.iter().map(|m| m.resolve(maps, MetricConsumerPhase::Before).expect("metric of a node")).collect();
        Ok(BuiltParameter::General(GeneralParameterEntry::before(Watch { meta: ParameterMeta::new(self.0), metrics, sink: self.2 })).into())
    }
}

/// A model being stepped.
pub struct Run<S: Solver> {
    pub model: Model,
    pub state: ModelState<Vec<Box<S>>>,
    pub tim: NetworkTimings,
}
impl<S: Solver> Run<S>
where
    <S as Solver>::Settings: SolverSettings + Default,
{
    pub fn build(b: ModelBuilder) -> Result<Self, ImpErr> {
        let model = imp(|| b.build().map_err(|e| chain(&e)))?;
        Self::new(model)
    }
    pub fn new(model: Model) -> Result<Self, ImpErr> {
        let state = imp(|| model.setup::<S>(&S::Settings::default()).map_err(|e| chain(&e)))?;
        Ok(Run { model, state, tim: NetworkTimings::new_without_component_timings() })
    }
    pub fn step(&mut self) -> Result<(), ImpErr> {
        let (m, s, t) = (&self.model, &mut self.state, &mut self.tim);
        imp(|| m.step::<S>(s, None, t).map_err(|e| chain(&e)))
    }
    pub fn st(&self, sid: usize) -> &State {
        let si = &self.model.domain().scenarios().indices()[sid];
        self.state.network_state().state(si)
    }
    pub fn edge_flows(&self, sid: usize) -> Vec<f64> {
        let n = self.st(sid).get_network_state();
        self.model.network().edges().iter().map(|e| n.get_edge_flow(&e.index()).unwrap()).collect()
    }
    pub fn node_volume(&self, name: &str, sid: usize) -> f64 {
        let i = self.model.network().get_node_index_by_name(name, None).unwrap();
        self.st(sid).get_network_state().get_node_volume(&i).unwrap()
    }
    pub fn vs_volume(&self, name: &str, sid: usize) -> f64 {
        let i = self.model.network().get_virtual_storage_node_index_by_name(name, None).unwrap();
        self.st(sid).get_network_state().get_virtual_storage_volume(&i).unwrap()
    }
}

/// Build a model with a trivial network plus whatever `f` adds, run it over `time`, and return the
/// probed metric values as [timestep][scenario][metric].
pub fn run_probe<S: Solver>(dom: ModelDomain, nb: NetworkBuilder, metrics: Vec<UnresolvedMetricF64>) -> Result<Vec<Vec<Vec<f64>>>, ImpErr>
where
    <S as Solver>::Settings: SolverSettings + Default,
{
    let mut nb = nb;
    let (p, sink) = ProbeBuilder::new("probe", metrics);
    nb.recorder(Box::new(p));
    let n = dom.time().len();
    let mut r = Run::<S>::build(ModelBuilder::new(dom, nb))?;
    for _ in 0..n {
        r.step()?;
    }
    let v = sink.lock().unwrap().clone();
    Ok(v)
}

/// input -> output network in which nothing is constrained to flow.
pub fn trivial_network() -> NetworkBuilder {
    let mut nb = NetworkBuilder::default();
    let mut i = NodeBuilder::input("in");
    i.max_flow(1.0.into());
    nb.node(i);
    nb.node(NodeBuilder::output("out"));
    nb.connect("in", "out");
    nb
}

// ---------------------------------------------------------------------------------------------
// Network reference model
// ---------------------------------------------------------------------------------------------

/// How a value is supplied to the implementation.
#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Val {
    /// literal constant
    Lit(i64),
    /// constant parameter
    Par(i64),
    /// time-varying array parameter (one value per timestep)
    Ser(Vec<i64>),
    /// time-varying general parameter, per scenario and timestep
    Gen(Vec<Vec<i64>>),
}
/// All values in the reference are integers divided by this.
pub const SCALE: i64 = 1;

impl Val {
    pub fn at(&self, t: usize, s: usize) -> Rat {
        match self {
            Val::Lit(v) | Val::Par(v) => Rat::int(*v),
            Val::Ser(v) => Rat::int(v[t.min(v.len() - 1)]),
            Val::Gen(v) => {
                let r = &v[s.min(v.len() - 1)];
                Rat::int(r[t.min(r.len() - 1)])
            }
        }
    }
    pub fn metric(&self, nb: &mut NetworkBuilder, name: &str) -> UnresolvedMetricF64 {
        match self {
            Val::Lit(v) => (*v as f64).into(),
            Val::Par(v) => {
                nb.parameters().f64(Box::new(ConstantParameterBuilder::new(name.into(), *v as f64)));
                pm(name)
            }
            Val::Ser(v) => {
                let a = Array1::from(v.iter().map(|x| *x as f64).collect::<Vec<_>>());
                let mut b = Array1ParameterBuilder::new(name.into(), a);
                b.timestep_offset(0);
                nb.parameters().f64(Box::new(b));
                pm(name)
            }
            Val::Gen(v) => {
                let vv = v.iter().map(|r| r.iter().map(|x| *x as f64).collect()).collect();
                let b: Box<dyn ParameterBuilder<f64>> = Box::new(GenSeriesBuilder::new(name, vv));
                nb.parameters().f64(b);
                pm(name)
            }
        }
    }
    /// All ways of supplying a value that is `a` now and `b` later.
    pub fn kinds(v: i64) -> Vec<Val> {
        vec![Val::Lit(v), Val::Par(v), Val::Ser(vec![v]), Val::Gen(vec![vec![v]])]
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    In,
    Link,
    Out,
    Sto,
}
#[derive(Clone, Debug)]
pub struct NodeSpec {
    pub kind: Kind,
    pub min: Option<Val>,
    pub max: Option<Val>,
    pub cost: Option<Val>,
    /// storage: initial, minimum and maximum volume
    pub init: Init,
    pub vmin: Option<Val>,
    pub vmax: Option<Val>,
    pub agg_cost: Option<u8>, // 0 sum 1 max 2 min
}
#[derive(Clone, Debug)]
pub enum Init {
    Abs(i64),
    /// percent of maximum
    Pct(i64),
}
pub fn node(kind: Kind) -> NodeSpec {
    NodeSpec { kind, min: None, max: None, cost: None, init: Init::Abs(0), vmin: None, vmax: None, agg_cost: None }
}
impl NodeSpec {
    pub fn max(mut self, v: impl Into<Option<Val>>) -> Self {
        self.max = v.into();
        self
    }
    pub fn min(mut self, v: impl Into<Option<Val>>) -> Self {
        self.min = v.into();
        self
    }
    pub fn cost(mut self, v: impl Into<Option<Val>>) -> Self {
        self.cost = v.into();
        self
    }
    pub fn vol(mut self, init: i64, vmin: impl Into<Option<Val>>, vmax: impl Into<Option<Val>>) -> Self {
        self.init = Init::Abs(init);
        self.vmin = vmin.into();
        self.vmax = vmax.into();
        self
    }
}
#[derive(Clone, Debug)]
pub enum Rel {
    /// percent per node after the first
    Prop(Vec<Val>),
    Ratio(Vec<Val>),
    Coef(Vec<Val>, Option<Val>),
    Excl(u64, u64),
}
#[derive(Clone, Debug)]
pub struct AggSpec {
    pub members: Vec<Vec<usize>>,
    pub min: Option<Val>,
    pub max: Option<Val>,
    pub rel: Option<Rel>,
}
#[derive(Clone, Debug)]
pub struct VsSpec {
    pub members: Vec<(usize, i64)>,
    pub init: i64,
    pub vmin: i64,
    pub vmax: i64,
    pub cost: Option<Val>,
}
#[derive(Clone, Debug)]
pub struct NetSpec {
    pub nodes: Vec<NodeSpec>,
    pub edges: Vec<(usize, usize)>,
    pub aggs: Vec<AggSpec>,
    pub vs: Vec<VsSpec>,
    /// timestep length in hours
    pub dth: u64,
    pub steps: usize,
    pub scen: usize,
    /// ratio factors are multiplied by this (their meaning is the same at any scale)
    pub ratio_scale: f64,
}
impl NetSpec {
    pub fn new(nodes: Vec<NodeSpec>, edges: &[(usize, usize)]) -> Self {
        NetSpec { nodes, edges: edges.to_vec(), aggs: vec![], vs: vec![], dth: 24, steps: 1, scen: 1, ratio_scale: 1.0 }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for (i, n) in self.nodes.iter().enumerate() {
            s += &format!("n{i}:{:?}", n.kind);
            for (k, v) in [("min", &n.min), ("max", &n.max), ("cost", &n.cost), ("vmin", &n.vmin), ("vmax", &n.vmax)] {
                if let Some(v) = v {
                    s += &format!(" {k}={v:?}");
                }
            }
            if n.kind == Kind::Sto {
                s += &format!(" init={:?}", n.init);
            }
            if let Some(a) = n.agg_cost {
                s += &format!(" costagg={a}");
            }
            s += "; ";
        }
        s += &format!("edges {:?}", self.edges);
        for a in &self.aggs {
            s += &format!("; agg {:?} min={:?} max={:?} rel={:?}", a.members, a.min, a.max, a.rel);
        }
        for v in &self.vs {
            s += &format!("; vs {v:?}");
        }
        if self.ratio_scale != 1.0 {
            s += &format!("; ratio factors times {}", self.ratio_scale);
        }
        s += &format!("; dt={}h steps={} scen={}", self.dth, self.steps, self.scen);
        s
    }
    pub fn builder(&self) -> NetworkBuilder {
        let mut nb = NetworkBuilder::default();
        for (i, n) in self.nodes.iter().enumerate() {
            let name = format!("n{i}");
            let mut b = match n.kind {
                Kind::In => NodeBuilder::input(name.as_str()),
                Kind::Link => NodeBuilder::link(name.as_str()),
                Kind::Out => NodeBuilder::output(name.as_str()),
                Kind::Sto => NodeBuilder::storage(name.as_str()),
            };
            if let Some(v) = &n.min {
                b.min_flow(v.metric(&mut nb, &format!("{name}-min")));
            }
            if let Some(v) = &n.max {
                b.max_flow(v.metric(&mut nb, &format!("{name}-max")));
            }
            if let Some(v) = &n.cost {
                b.cost(v.metric(&mut nb, &format!("{name}-cost")));
            }
            if let Some(a) = n.agg_cost {
                b.cost_agg_func([CostAggFunc::Sum, CostAggFunc::Max, CostAggFunc::Min][a as usize]);
            }
            if n.kind == Kind::Sto {
                b.initial_volume(match n.init {
                    Init::Abs(v) => UnresolvedStorageInitialVolume::absolute(v as f64),
                    Init::Pct(v) => UnresolvedStorageInitialVolume::proportional(v as f64 / 100.0),
                });
                if let Some(v) = &n.vmin {
                    b.min_volume(v.metric(&mut nb, &format!("{name}-vmin")));
                }
                if let Some(v) = &n.vmax {
                    b.max_volume(v.metric(&mut nb, &format!("{name}-vmax")));
                }
            }
            nb.node(b);
        }
        for (a, b) in &self.edges {
            nb.connect(format!("n{a}").as_str(), format!("n{b}").as_str());
        }
        for (i, a) in self.aggs.iter().enumerate() {
            let name = format!("agg{i}");
            let mut b = AggregatedNodeBuilder::new(name.as_str());
            for m in &a.members {
                b.nodes(m.iter().map(|x| format!("n{x}").as_str().into()).collect());
            }
            if let Some(v) = &a.min {
                b.min_flow(v.metric(&mut nb, &format!("{name}-min")));
            }
            if let Some(v) = &a.max {
                b.max_flow(v.metric(&mut nb, &format!("{name}-max")));
            }
            use pywr_core::aggregated_node::*;
            match &a.rel {
                None => {}
                Some(Rel::Prop(f)) => {
                    let mut r = ProportionalFactorsBuilder::default();
                    for (k, v) in f.iter().enumerate() {
                        // percent: divide by 100 through a general parameter when it varies
                        r.factor(pct_metric(&mut nb, v, &format!("{name}-f{k}")));
                    }
                    b.relationship(Box::new(r));
                }
                Some(Rel::Ratio(f)) => {
                    let mut r = RatioFactorsBuilder::default();
                    for (k, v) in f.iter().enumerate() {
                        r.factor(if self.ratio_scale == 1.0 { v.metric(&mut nb, &format!("{name}-f{k}")) } else { scaled_metric(&mut nb, v, &format!("{name}-f{k}"), self.ratio_scale) });
                    }
                    b.relationship(Box::new(r));
                }
                Some(Rel::Coef(f, rhs)) => {
                    let mut r = CoefficientFactorsBuilder::default();
                    for (k, v) in f.iter().enumerate() {
                        r.factor(v.metric(&mut nb, &format!("{name}-f{k}")));
                    }
                    if let Some(v) = rhs {
                        r.rhs(v.metric(&mut nb, &format!("{name}-rhs")));
                    }
                    b.relationship(Box::new(r));
                }
                Some(Rel::Excl(lo, hi)) => {
                    let mut r = ExclusivityBuilder::default();
                    r.min_active(*lo).max_active(*hi);
                    b.relationship(Box::new(r));
                }
            }
            nb.agg_node(b);
        }
        for (i, v) in self.vs.iter().enumerate() {
            let name = format!("vs{i}");
            let nodes: Vec<_> = v.members.iter().map(|(n, _)| format!("n{n}").as_str().into()).collect();
            let mut b = VirtualStorageNodeBuilder::new(&name, &nodes);
            b.factors(&v.members.iter().map(|(_, f)| *f as f64).collect::<Vec<_>>());
            b.initial_volume(UnresolvedStorageInitialVolume::absolute(v.init as f64));
            b.reset_volume(pywr_core::virtual_storage::VirtualStorageResetVolume::Initial);
            b.min_volume((v.vmin as f64).into());
            b.max_volume((v.vmax as f64).into());
            if let Some(c) = &v.cost {
                b.cost(c.metric(&mut nb, &format!("{name}-cost")));
            }
            nb.virtual_storage_node(b);
        }
        nb
    }
    pub fn model_domain(&self) -> ModelDomain {
        let time = if self.dth % 24 == 0 { time_days(dt0(), self.dth / 24, self.steps) } else { time_hours(dt0(), self.dth, self.steps) };
        if self.scen > 1 { domain_scen(time, &[("scen", self.scen)]) } else { domain(time) }
    }
    /// The same network with only scenario `s`.
    pub fn only(&self, s: usize) -> NetSpec {
        let mut n = self.clone();
        n.scen = 1;
        let fix = |v: &mut Option<Val>| {
            if let Some(Val::Gen(g)) = v {
                *g = vec![g[s].clone()];
            }
        };
        for x in &mut n.nodes {
            for v in [&mut x.min, &mut x.max, &mut x.cost, &mut x.vmin, &mut x.vmax] {
                fix(v);
            }
        }
        n
    }
    pub fn model(&self) -> ModelBuilder {
        ModelBuilder::new(self.model_domain(), self.builder())
    }
    pub fn dtr(&self) -> Rat {
        Rat::new(self.dth as i128, 24)
    }
    pub fn ins(&self, n: usize) -> Vec<usize> {
        (0..self.edges.len()).filter(|e| self.edges[*e].1 == n).collect()
    }
    pub fn outs(&self, n: usize) -> Vec<usize> {
        (0..self.edges.len()).filter(|e| self.edges[*e].0 == n).collect()
    }
    /// Edges whose sum is the flow of a node, with signs.
    pub fn flow_terms(&self, n: usize) -> Vec<(usize, Rat)> {
        match self.nodes[n].kind {
            Kind::In | Kind::Link => self.outs(n).into_iter().map(|e| (e, Rat::ONE)).collect(),
            Kind::Out => self.ins(n).into_iter().map(|e| (e, Rat::ONE)).collect(),
            Kind::Sto => {
                let mut v: Vec<_> = self.ins(n).into_iter().map(|e| (e, Rat::ONE)).collect();
                v.extend(self.outs(n).into_iter().map(|e| (e, Rat::int(-1))));
                v
            }
        }
    }
    pub fn node_flow(&self, n: usize, x: &[f64]) -> f64 {
        self.flow_terms(n).iter().map(|(e, c)| c.f() * x[*e]).sum()
    }
    pub fn init_vol(&self, n: usize) -> Rat {
        match self.nodes[n].init {
            Init::Abs(v) => Rat::int(v),
            Init::Pct(p) => self.nodes[n].vmax.as_ref().unwrap().at(0, 0) * Rat::new(p as i128, 100),
        }
    }
    pub fn node_cost(&self, n: usize, t: usize, s: usize) -> Rat {
        let nd = &self.nodes[n];
        let mut c = nd.cost.as_ref().map_or(Rat::ZERO, |v| v.at(t, s));
        if let Some(a) = nd.agg_cost {
            for v in self.vs.iter().filter(|v| v.members.iter().any(|m| m.0 == n)) {
                let vc = v.cost.as_ref().map_or(Rat::ZERO, |x| x.at(t, s));
                c = match a {
                    0 => c + vc,
                    1 => c.max(vc),
                    _ => c.min(vc),
                };
            }
        }
        c
    }
    /// The allocation problem of timestep `t`, scenario `s`, given storage and virtual storage
    /// volumes; `active` is the set of enabled members per exclusive aggregate (in order).
    pub fn lp(&self, t: usize, s: usize, vol: &[Rat], vsvol: &[Rat], active: &[Vec<bool>]) -> Lp {
        let mut lp = Lp::new(self.edges.len());
        let dt = self.dtr();
        for (e, (a, b)) in self.edges.iter().enumerate() {
            let half = Rat::new(1, 2);
            let out = match self.nodes[*a].kind {
                Kind::Link => self.node_cost(*a, t, s) * half,
                Kind::Sto => -self.node_cost(*a, t, s),
                _ => self.node_cost(*a, t, s),
            };
            let inc = match self.nodes[*b].kind {
                Kind::Link => self.node_cost(*b, t, s) * half,
                _ => self.node_cost(*b, t, s),
            };
            lp.c[e] = out + inc;
        }
        // disabled members may not carry flow and have no minimum
        let mut disabled = vec![false; self.nodes.len()];
        let mut k = 0;
        for a in &self.aggs {
            if let Some(Rel::Excl(..)) = a.rel {
                for (mi, m) in a.members.iter().enumerate() {
                    if !active[k][mi] {
                        for n in m {
                            disabled[*n] = true;
                        }
                    }
                }
                k += 1;
            }
        }
        for (n, nd) in self.nodes.iter().enumerate() {
            match nd.kind {
                Kind::Sto => {
                    let lo = nd.vmin.as_ref().map_or(Rat::ZERO, |v| v.at(t, s));
                    let lo_b = Some(-(vol[n] - lo) / dt);
                    let hi_b = nd.vmax.as_ref().map(|v| (v.at(t, s) - vol[n]) / dt);
                    lp.row(&self.flow_terms(n), lo_b, hi_b, format!("volume of n{n}"));
                }
                _ => {
                    if nd.kind == Kind::Link {
                        let mut v: Vec<_> = self.ins(n).into_iter().map(|e| (e, Rat::ONE)).collect();
                        v.extend(self.outs(n).into_iter().map(|e| (e, Rat::int(-1))));
                        lp.row(&v, Some(Rat::ZERO), Some(Rat::ZERO), format!("mass balance of n{n}"));
                    }
                    let (lo, hi) = if disabled[n] {
                        (Some(Rat::ZERO), Some(Rat::ZERO))
                    } else {
                        (nd.min.as_ref().map(|v| v.at(t, s)), nd.max.as_ref().map(|v| v.at(t, s)))
                    };
                    lp.row(&self.flow_terms(n), lo, hi, format!("flow of n{n}"));
                }
            }
        }
        for (i, a) in self.aggs.iter().enumerate() {
            let all: Vec<_> = a.members.iter().flatten().flat_map(|n| self.flow_terms(*n)).collect();
            lp.row(&all, a.min.as_ref().map(|v| v.at(t, s)), a.max.as_ref().map(|v| v.at(t, s)), format!("flow of agg{i}"));
            let mem = |k: usize| -> Vec<(usize, Rat)> { a.members[k].iter().flat_map(|n| self.flow_terms(*n)).collect() };
            match &a.rel {
                Some(Rel::Prop(f)) => {
                    let fs: Vec<Rat> = f.iter().map(|v| v.at(t, s) / Rat::int(100)).collect();
                    let f0 = fs.iter().fold(Rat::ONE, |a, b| a - *b);
                    for (k, fk) in fs.iter().enumerate() {
                        // flow_0 : flow_k = f0 : fk
                        let mut r: Vec<_> = mem(0).into_iter().map(|(e, c)| (e, c * *fk)).collect();
                        r.extend(mem(k + 1).into_iter().map(|(e, c)| (e, -(c * f0))));
                        lp.row(&r, Some(Rat::ZERO), Some(Rat::ZERO), format!("proportion {k} of agg{i}"));
                    }
                }
                Some(Rel::Ratio(f)) => {
                    let f0 = f[0].at(t, s);
                    for k in 1..f.len() {
                        let fk = f[k].at(t, s);
                        let mut r: Vec<_> = mem(0).into_iter().map(|(e, c)| (e, c * fk)).collect();
                        r.extend(mem(k).into_iter().map(|(e, c)| (e, -(c * f0))));
                        lp.row(&r, Some(Rat::ZERO), Some(Rat::ZERO), format!("ratio {k} of agg{i}"));
                    }
                }
                Some(Rel::Coef(f, rhs)) => {
                    let mut r: Vec<(usize, Rat)> = vec![];
                    for (k, v) in f.iter().enumerate() {
                        let c0 = v.at(t, s);
                        r.extend(mem(k).into_iter().map(|(e, c)| (e, c * c0)));
                    }
                    let b = rhs.as_ref().map_or(Rat::ZERO, |v| v.at(t, s));
                    lp.row(&r, Some(b), Some(b), format!("coefficients of agg{i}"));
                }
                _ => {}
            }
        }
        for (i, v) in self.vs.iter().enumerate() {
            let r: Vec<_> = v
                .members
                .iter()
                .flat_map(|(n, f)| self.flow_terms(*n).into_iter().map(move |(e, c)| (e, c * Rat::int(*f))))
                .collect();
            let avail = (vsvol[i] - Rat::int(v.vmin)).max(Rat::ZERO) / dt;
            let missing = (Rat::int(v.vmax) - vsvol[i]).max(Rat::ZERO) / dt;
            lp.row(&r, Some(-missing), Some(avail), format!("virtual storage vs{i}"));
        }
        lp
    }
    /// All admissible combinations of enabled members.
    pub fn active_sets(&self) -> Vec<Vec<Vec<bool>>> {
        let mut out: Vec<Vec<Vec<bool>>> = vec![vec![]];
        for a in &self.aggs {
            if let Some(Rel::Excl(lo, hi)) = a.rel {
                let n = a.members.len();
                let mut next = vec![];
                for m in 0..1u32 << n {
                    let c = m.count_ones() as u64;
                    if c >= lo && c <= hi {
                        for o in &out {
                            let mut o2 = o.clone();
                            o2.push((0..n).map(|i| m >> i & 1 == 1).collect());
                            next.push(o2);
                        }
                    }
                }
                out = next;
            }
        }
        out
    }
    /// Exact optimum over all admissible active sets.
    pub fn optimum(&self, t: usize, s: usize, vol: &[Rat], vsvol: &[Rat]) -> LpOut {
        let mut best = LpOut::Infeasible;
        for act in self.active_sets() {
            match self.lp(t, s, vol, vsvol, &act).solve() {
                LpOut::Unbounded => return LpOut::Unbounded,
                LpOut::Infeasible => {}
                LpOut::Optimal(o, x) => {
                    if match &best {
                        LpOut::Optimal(b, _) => o < *b,
                        _ => true,
                    } {
                        best = LpOut::Optimal(o, x);
                    }
                }
            }
        }
        best
    }
    /// Feasibility of `x` (within tolerance) for some admissible active set.
    pub fn infeasibility(&self, t: usize, s: usize, vol: &[Rat], vsvol: &[Rat], x: &[f64], tol: f64) -> Option<String> {
        let mut why = None;
        for act in self.active_sets() {
            match self.lp(t, s, vol, vsvol, &act).violated(x, tol) {
                None => return None,
                Some(w) => why = Some(w),
            }
        }
        Some(why.unwrap_or_else(|| "no admissible active set".into()))
    }
}
pub fn pct_metric(nb: &mut NetworkBuilder, v: &Val, name: &str) -> UnresolvedMetricF64 {
    scaled_metric(nb, v, name, 0.01)
}
pub fn scaled_metric(nb: &mut NetworkBuilder, v: &Val, name: &str, scale: f64) -> UnresolvedMetricF64 {
    let f = |x: i64| if scale < 1.0 { x as f64 / (1.0 / scale).round() } else { x as f64 * scale };
    match v {
        Val::Lit(v) => f(*v).into(),
        Val::Par(v) => {
            nb.parameters().f64(Box::new(ConstantParameterBuilder::new(name.into(), f(*v))));
            pm(name)
        }
        Val::Ser(v) => {
            let mut b = Array1ParameterBuilder::new(name.into(), Array1::from(v.iter().map(|x| f(*x)).collect::<Vec<_>>()));
            b.timestep_offset(0);
            nb.parameters().f64(Box::new(b));
            pm(name)
        }
        Val::Gen(v) => {
            let vv = v.iter().map(|r| r.iter().map(|x| f(*x)).collect()).collect();
            let b: Box<dyn ParameterBuilder<f64>> = Box::new(GenSeriesBuilder::new(name, vv));
            nb.parameters().f64(b);
            pm(name)
        }
    }
}

/// What the lock-step comparison decides.
#[derive(Clone, Copy, PartialEq)]
pub struct Judge {
    pub feasible: bool,
    pub optimal: bool,
    pub infeasible_is_err: bool,
}
pub const ALL: Judge = Judge { feasible: true, optimal: true, infeasible_is_err: true };

/// Run `spec` on the implementation in lock step with the reference model.
pub fn lockstep<S: Solver>(ch: &mut Ch, spec: &NetSpec, j: Judge, tag: &str) -> Res
where
    <S as Solver>::Settings: SolverSettings + Default,
{
    let mut run = match Run::<S>::build(spec.model()) {
        Ok(r) => r,
        Err(e) => return fail(format!("{tag}:build"), format!("model with valid structure did not build: {}", e.text())),
    };
    let ns = spec.scen.max(1);
    let mut vol: Vec<Vec<Rat>> = (0..ns).map(|_| (0..spec.nodes.len()).map(|n| if spec.nodes[n].kind == Kind::Sto { spec.init_vol(n) } else { Rat::ZERO }).collect()).collect();
    let mut vsv: Vec<Vec<Rat>> = (0..ns).map(|_| spec.vs.iter().map(|v| Rat::int(v.init)).collect()).collect();
    let dt = spec.dtr().f();
    for t in 0..spec.steps {
        let opts: Vec<LpOut> = (0..ns).map(|s| spec.optimum(t, s, &vol[s], &vsv[s])).collect();
        let any_inf = opts.iter().any(|o| *o == LpOut::Infeasible);
        if opts.iter().any(|o| *o == LpOut::Unbounded) {
            // outside every property: the problem has no optimum
            ch.out(&"unbounded");
            return Ok(());
        }
        let r = run.step();
        match (&r, any_inf) {
            (Ok(()), true) => {
                for s in 0..ns {
                    if opts[s] == LpOut::Infeasible {
                        let x = run.edge_flows(s);
                        if let Some(w) = spec.infeasibility(t, s, &vol[s], &vsv[s], &x, 1e-5) {
                            if j.infeasible_is_err || j.feasible {
                                return fail(format!("{tag}:infeasible-accepted"), format!("step {t} scenario {s}: no allocation satisfies the constraints but the run continued with flows {x:?} ({w})"));
                            }
                        }
                    }
                }
                ch.out(&"inf-ok");
                return Ok(());
            }
            (Err(e), true) => {
                if j.infeasible_is_err {
                    chk!(!e.is_panic(), format!("{tag}:infeasible-panic"), "step {t}: infeasible problem crashed instead of returning an error: {}", e.text());
                }
                ch.out(&("infeasible", t));
                ch.state(&(spec.text(), t, "err"));
                return Ok(());
            }
            (Err(e), false) => {
                return fail(format!("{tag}:feasible-rejected"), format!("step {t}: an allocation exists ({opts:?}) but the step failed: {}", e.text()));
            }
            (Ok(()), false) => {}
        }
        for s in 0..ns {
            let x = run.edge_flows(s);
            if j.feasible {
                if let Some(w) = spec.infeasibility(t, s, &vol[s], &vsv[s], &x, TOL) {
                    return fail(format!("{tag}:constraint"), format!("step {t} scenario {s}: flows {x:?} violate {w}"));
                }
            }
            let LpOut::Optimal(best, bx) = &opts[s] else { unreachable!() };
            if j.optimal {
                let lp = spec.lp(t, s, &vol[s], &vsv[s], &spec.active_sets()[0]);
                let o = lp.objective(&x);
                chk!((o - best.f()).abs() <= 1e-5 * (1.0 + best.f().abs()), format!("{tag}:cost"), "step {t} scenario {s}: cost {o} of flows {x:?}, optimum {} at {:?}", best.f(), bx.iter().map(|r| r.f()).collect::<Vec<_>>());
            }
            // accounting
            for n in 0..spec.nodes.len() {
                if spec.nodes[n].kind == Kind::Sto {
                    let want = vol[s][n].f() + spec.node_flow(n, &x) * dt;
                    let got = run.node_volume(&format!("n{n}"), s);
                    chk!((want - got).abs() < 1e-5, format!("{tag}:volume"), "step {t} scenario {s}: volume of n{n} is {got}, expected {want}");
                    vol[s][n] = Rat::from_f64(got);
                }
            }
            for (i, v) in spec.vs.iter().enumerate() {
                let used: f64 = v.members.iter().map(|(n, f)| spec.node_flow(*n, &x) * *f as f64).sum();
                let want = vsv[s][i].f() - used * dt;
                let got = run.vs_volume(&format!("vs{i}"), s);
                chk!((want - got).abs() < 1e-5, format!("{tag}:vsvolume"), "step {t} scenario {s}: virtual volume vs{i} is {got}, expected {want}");
                vsv[s][i] = Rat::from_f64(got);
            }
            ch.out(&x.iter().map(|f| (f * 1e6).round() as i64).collect::<Vec<_>>());
        }
        ch.state(&(hash_of(&spec.text()), t, vol.clone(), vsv.clone()));
    }
    Ok(())
}
