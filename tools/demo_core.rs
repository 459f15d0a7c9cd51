#![allow(dead_code, unused_imports)]
use pywr_core::agg_funcs::*;
use pywr_core::aggregated_node::*;
use pywr_core::metric::UnresolvedMetricF64 as M;
use pywr_core::models::*;
use pywr_core::network::*;
use pywr_core::node::*;
use pywr_core::parameters::*;
use pywr_core::recorders::*;
use pywr_core::scenario::*;
use pywr_core::solvers::*;
use pywr_core::timestep::*;
use pywr_core::virtual_storage::*;
use pywr_core::{AggregatedNodeBuilder, AggregatedStorageNodeBuilder};
use std::num::*;

fn domain(start: jiff::civil::Date, step: u64, n: u64, groups: &[(&str, usize)]) -> ModelDomain {
    let s = start.at(0, 0, 0, 0);
    let e = s.checked_add(jiff::Span::new().days((step * (n - 1)) as i64)).unwrap();
    let mut d = ModelDomainBuilder::new(TimeDomainBuilder::new(s, e, TimestepDuration::Days(NonZeroU64::new(step).unwrap())));
    let mut sb = ScenarioDomainBuilder::default();
    for (g, n) in groups {
        sb = sb.with_group(ScenarioGroupBuilder::new(g, *n).build().unwrap()).unwrap();
    }
    if !groups.is_empty() {
        d.scenario(sb);
    }
    d.build().unwrap()
}
/// Flows into the named nodes (volumes of storage nodes): [timestep][scenario][node].
fn run(dom: ModelDomain, nb: NetworkBuilder, nodes: &[&str]) -> Vec<Vec<Vec<f64>>> {
    let model = ModelBuilder::new(dom, nb).build().unwrap();
    let mut st = model.setup::<MicroLpSolver>(&Default::default()).unwrap();
    let mut tim = NetworkTimings::new_without_component_timings();
    let mut out = vec![];
    for _ in 0..model.domain().time().len() {
        model.step::<MicroLpSolver>(&mut st, None, &mut tim).unwrap();
        out.push(observe(&model, st.network_state(), nodes));
    }
    out
}
fn observe(model: &Model, st: &NetworkState, nodes: &[&str]) -> Vec<Vec<f64>> {
    model
        .domain()
        .scenarios()
        .indices()
        .iter()
        .map(|si| {
            let s = st.state(si).get_network_state();
            nodes
                .iter()
                .map(|n| {
                    if let Some(i) = model.network().get_node_index_by_name(n, None) {
                        s.get_node_volume(&i).or_else(|_| s.get_node_in_flow(&i)).unwrap()
                    } else {
                        let i = model.network().get_virtual_storage_node_index_by_name(n, None).unwrap();
                        s.get_virtual_storage_volume(&i).unwrap()
                    }
                })
                .collect()
        })
        .collect()
}
fn p(name: &str) -> M {
    M::new_parameter_before(name)
}
/// An output that takes exactly what `m` says, from an unlimited source.
fn show(nb: &mut NetworkBuilder, name: &str, m: M) {
    let src = format!("{name}-src");
    nb.node(NodeBuilder::input(src.as_str()));
    let mut o = NodeBuilder::output(name);
    o.max_flow(m).cost((-10.0).into());
    nb.node(o);
    nb.connect(src.as_str(), name);
}
fn series(nb: &mut NetworkBuilder, name: &str, v: &[f64]) {
    nb.parameters().f64(Box::new(Array1ParameterBuilder::new(name.into(), ndarray::Array1::from(v.to_vec()))));
}
#[track_caller]
fn near(a: f64, b: f64) {
    if (a - b).abs() > 1e-6 * (1.0 + b.abs()) {
        panic!("{a} instead of {b}");
    }
}
