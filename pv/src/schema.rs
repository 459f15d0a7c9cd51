//! Building and running models from schema documents.
use crate::core::*;
use crate::harness::*;
use pywr_core::metric::UnresolvedMetricF64;
use pywr_core::models::ModelBuilder;
use pywr_core::network::{Network, ResolutionMaps};
use pywr_core::recorders::*;
use pywr_core::scenario::ScenarioIndex;
use pywr_core::solvers::MicroLpSolver;
use pywr_core::state::State;
use pywr_core::timestep::Timestep;
use pywr_schema::ModelSchema;
use serde_json::{Value, json};
use std::path::Path;
use std::sync::{Arc, Mutex};

/// Saved metric set values: [timestep][scenario][set] -> (start, days, value) per metric.
pub type MsRow = Option<Vec<(jiff::civil::DateTime, f64, f64)>>;
pub type MsSink = Arc<Mutex<Vec<Vec<Vec<MsRow>>>>>;
#[derive(Debug)]
struct MsProbe(RecorderMeta, MsSink);
/// Everything the sets yielded in this step: usually one row, more when several periods were completed at once.
fn rows(states: &[Vec<MetricSetState>]) -> Vec<Vec<Vec<MsRow>>> {
    let k = states.iter().flatten().map(|s| s.all_values().count()).max().unwrap_or(0).max(1);
    (0..k)
        .map(|i| {
            states
                .iter()
                .map(|sets| sets.iter().map(|s| s.all_values().nth(i).map(|v| v.iter().map(|p| (p.start, p.duration.fractional_days(), p.value)).collect())).collect())
                .collect()
        })
        .collect()
}
impl Recorder for MsProbe {
    fn meta(&self) -> &RecorderMeta {
        &self.0
    }
    fn save(
        &self,
        _t: &Timestep,
        _scen: &[ScenarioIndex],
        _model: &Network,
        _state: &[State],
        m: &[Vec<MetricSetState>],
        _i: &mut Option<Box<dyn RecorderInternalState>>,
    ) -> Result<(), RecorderSaveError> {
        self.1.lock().unwrap().extend(rows(m));
        Ok(())
    }
    fn finalise(
        &self,
        _network: &Network,
        _scen: &[ScenarioIndex],
        m: &[Vec<MetricSetState>],
        _i: Option<Box<dyn RecorderInternalState>>,
    ) -> Result<Option<Box<dyn RecorderFinalResult>>, RecorderFinaliseError> {
        self.1.lock().unwrap().extend(rows(m));
        Ok(None)
    }
}
#[derive(Debug)]
pub struct MsProbeBuilder(pub MsSink);
impl RecorderBuilder for MsProbeBuilder {
    fn name(&self) -> &str {
        "ms-probe"
    }
    fn build(self: Box<Self>, _maps: &ResolutionMaps) -> Result<Box<dyn Recorder>, RecorderBuilderError> {
        Ok(Box::new(MsProbe(RecorderMeta { name: "ms-probe".into(), comment: String::new() }, self.0)))
    }
}

pub fn lit(v: f64) -> Value {
    json!({"type": "Literal", "value": v})
}
pub fn par(name: &str) -> Value {
    json!({"type": "Parameter", "name": name})
}
pub fn nattr(node: &str, attr: &str) -> Value {
    json!({"type": "Node", "name": node, "attribute": attr})
}
pub fn time_json(start: &str, end: &str, step: Value) -> Value {
    json!({"start": start, "end": end, "timestep": step})
}
pub fn days_json(n: usize) -> Value {
    days_json_from(jiff::civil::date(2021, 1, 1).at(0, 0, 0, 0), n)
}
pub fn days_json_from(start: jiff::civil::DateTime, n: usize) -> Value {
    let end = start.checked_add(jiff::Span::new().days(n as i64 - 1)).unwrap();
    time_json(&start.date().to_string(), &end.date().to_string(), json!({"type": "Days", "days": 1}))
}
/// A whole model document.
pub fn doc(time: Value, network: Value) -> Value {
    json!({"metadata": {"title": "t"}, "time": time, "network": network})
}
/// A parameter giving `v` at timestep 0, 1, 2, ... through a (core) parameter the schema can name.
pub fn series_metrics(list: &[Value]) -> Value {
    json!([{"name": "m", "metrics": list}])
}
pub fn parse(d: &Value) -> Result<ModelSchema, ImpErr> {
    let text = d.to_string();
    imp(|| serde_json::from_str::<ModelSchema>(&text).map_err(|e| format!("parse: {e}")))
}
pub fn build(d: &Value, data: Option<&Path>) -> Result<ModelBuilder, ImpErr> {
    let s = parse(d)?;
    build_schema(&s, data, None)
}
pub fn build_schema(s: &ModelSchema, data: Option<&Path>, out: Option<&Path>) -> Result<ModelBuilder, ImpErr> {
    imp(|| s.create_model_builder(data, out).map_err(|e| chain(&e)))
}
/// Build and run; the values of the first metric set as [timestep][scenario][metric].
pub fn run_doc(d: &Value, data: Option<&Path>) -> Result<Vec<Vec<Vec<f64>>>, ImpErr> {
    run_built(build(d, data)?)
}
/// Run a model; everything its metric sets yielded, and the probed core metrics.
pub fn run_full(mut mb: ModelBuilder, metrics: Vec<UnresolvedMetricF64>) -> Result<(Vec<Vec<Vec<MsRow>>>, Vec<Vec<Vec<f64>>>), ImpErr> {
    let sink: MsSink = Default::default();
    mb.network_builder().recorder(Box::new(MsProbeBuilder(sink.clone())));
    let (p, s2) = ProbeBuilder::new("probe", metrics);
    mb.network_builder().recorder(Box::new(p));
    let model = imp(|| mb.build().map_err(|e| chain(&e)))?;
    imp(|| model.run::<MicroLpSolver>(&Default::default()).map(|_| ()).map_err(|e| chain(&e)))?;
    let a = sink.lock().unwrap().clone();
    let b = s2.lock().unwrap().clone();
    Ok((a, b))
}
pub fn run_built(mb: ModelBuilder) -> Result<Vec<Vec<Vec<f64>>>, ImpErr> {
    let (mut v, _) = run_full(mb, vec![])?;
    v.pop(); // finalisation
    Ok(v.iter().map(|t| t.iter().map(|s| s[0].as_ref().unwrap().iter().map(|p| p.2).collect()).collect()).collect())
}
/// Build, add a probe over core metrics, and run.
pub fn run_doc_core(d: &Value, data: Option<&Path>, metrics: Vec<UnresolvedMetricF64>) -> Result<Vec<Vec<Vec<f64>>>, ImpErr> {
    Ok(run_full(build(d, data)?, metrics)?.1)
}
