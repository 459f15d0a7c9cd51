#![allow(dead_code, unused_imports)]
use pywr_core::network::NetworkTimings;
use pywr_core::solvers::*;
use pywr_schema::ModelSchema;
use serde_json::{Value, json};
use std::path::Path;

/// A model of `days` days from 1 January 2021.
fn doc(days: i64, network: Value) -> Value {
    let s = jiff::civil::date(2021, 1, 1);
    let e = s.checked_add(jiff::Span::new().days(days - 1)).unwrap();
    json!({"metadata": {"title": "t"}, "time": {"start": s.to_string(), "end": e.to_string(), "timestep": {"type": "Days", "days": 1}}, "network": network})
}
fn lit(v: f64) -> Value {
    json!({"type": "Literal", "value": v})
}
fn par(n: &str) -> Value {
    json!({"type": "Parameter", "name": n})
}
/// Nodes and edges giving an output that takes exactly what `m` says from an unlimited source.
fn show(nodes: &mut Vec<Value>, edges: &mut Vec<Value>, name: &str, m: Value) {
    let src = format!("{name}-src");
    nodes.push(json!({"meta": {"name": src}, "type": "Input"}));
    nodes.push(json!({"meta": {"name": name}, "type": "Output", "max_flow": m, "cost": lit(-10.0)}));
    edges.push(json!({"from_node": src, "to_node": name}));
}
/// Flows into the named (sub-)nodes, volumes of storage nodes: [timestep][scenario][node].
fn run(doc: &Value, data: Option<&Path>, nodes: &[(&str, Option<&str>)]) -> Result<Vec<Vec<Vec<f64>>>, String> {
    let s: ModelSchema = serde_json::from_str(&doc.to_string()).map_err(|e| e.to_string())?;
    let model = s.create_model_builder(data, None).map_err(|e| format!("{e:?}"))?.build().map_err(|e| format!("{e:?}"))?;
    let mut st = model.setup::<MicroLpSolver>(&Default::default()).map_err(|e| format!("{e:?}"))?;
    let mut tim = NetworkTimings::new_without_component_timings();
    let mut out = vec![];
    for _ in 0..model.domain().time().len() {
        model.step::<MicroLpSolver>(&mut st, None, &mut tim).map_err(|e| format!("{e:?}"))?;
        out.push(
            model
                .domain()
                .scenarios()
                .indices()
                .iter()
                .map(|si| {
                    let s = st.network_state().state(si).get_network_state();
                    nodes
                        .iter()
                        .map(|(n, sub)| {
                            let i = model.network().get_node_index_by_name(n, *sub).unwrap_or_else(|| panic!("no node {n} {sub:?}"));
                            s.get_node_volume(&i).or_else(|_| s.get_node_in_flow(&i)).unwrap()
                        })
                        .collect()
                })
                .collect(),
        );
    }
    Ok(out)
}
#[track_caller]
fn near(a: f64, b: f64) {
    if (a - b).abs() > 1e-6 * (1.0 + b.abs()) {
        panic!("{a} instead of {b}");
    }
}
