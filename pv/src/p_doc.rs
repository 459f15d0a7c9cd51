//! C20: model documents survive a round trip; references and file paths are all found.
//!
//! The document types are walked by a committed catalogue of them (catalogue.json): it says which attributes each
//! component has, which are optional, and of what kind their values are. Every document within a number of deviations of a
//! plain one is made from it, and a second, separate walk by the catalogue says where in a document metrics, file paths,
//! and names of nodes and other things are.
use crate::harness::*;
use crate::p_out::Scratch;
use crate::schema::*;
use pywr_schema::metric::Metric;
use pywr_schema::{VisitMetrics, VisitNodeReferences, VisitPaths};
use serde_json::{Map, Value, json};
use std::collections::BTreeMap;
use std::sync::OnceLock;

pub fn catalogue() -> &'static Value {
    static C: OnceLock<Value> = OnceLock::new();
    C.get_or_init(|| serde_json::from_str(include_str!("catalogue.json")).unwrap())
}
pub fn def(name: &str) -> &'static Value {
    &catalogue()["$defs"][name]
}
pub fn ref_name(s: &'static Value) -> Option<&'static str> {
    s["$ref"].as_str().map(|r| r.rsplit('/').next().unwrap())
}
fn is_null(s: &Value) -> bool {
    s["type"] == "null"
}
/// The tag of a variant: the value of its constant property.
pub fn tag(s: &'static Value) -> Option<(&'static str, &'static str)> {
    s["properties"].as_object()?.iter().find_map(|(k, v)| v["const"].as_str().map(|c| (k.as_str(), c)))
}
pub fn alternatives(s: &'static Value) -> Option<Vec<&'static Value>> {
    let a = s["oneOf"].as_array().or(s["anyOf"].as_array())?;
    Some(a.iter().filter(|x| !is_null(x)).collect())
}

// ---------------------------------------------------------------------------------------------------------------------
// what a value in a document is

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Role {
    Metric,
    Path,
    Node,
    Param,
    Local,
    Series,
    Table,
    Group,
    Set,
    Transfer,
    Column,
    Key,
}
#[derive(Clone, Debug)]
pub struct Mark {
    pub ptr: String,
    pub role: Role,
}
fn role(def: &str, variant: &str, prop: &str) -> Option<Role> {
    Some(match (def, variant, prop) {
        ("CsvDataTable" | "Timeseries", _, "url") | ("Parameter", "TablesArray", "url") => Role::Path,
        ("PythonSource", _, "path") => Role::Path,
        ("CsvOutput" | "Hdf5Output", _, "filename") => Role::Path,
        ("Metric" | "IndexMetric", "Node" | "VirtualNode", "name") => Role::Node,
        ("Edge", _, "from_node" | "to_node") => Role::Node,
        ("NodeComponentReference", _, "name") => Role::Node,
        ("Metric" | "IndexMetric", "Parameter", "name") => Role::Param,
        ("Metric" | "IndexMetric", "LocalParameter", "name") => Role::Local,
        ("Metric" | "IndexMetric", "Timeseries", "name") => Role::Series,
        ("Metric" | "IndexMetric", "InterNetworkTransfer", "name") => Role::Transfer,
        ("TimeseriesColumns", _, "name") => Role::Column,
        (_, "Table", "table") => Role::Table,
        ("TableIndex", _, _) => Role::Key,
        ("Parameter", "ConstantScenario", "scenario_group") | ("Parameter", "TablesArray", "scenario") => Role::Group,
        ("CsvMetricSet", _, _) | ("Hdf5Output" | "MemoryOutput", _, "metric_set") => Role::Set,
        _ => return None,
    })
}
fn fits(s: &'static Value, v: &Value) -> bool {
    if let Some(r) = ref_name(s) {
        return fits(def(r), v) && tag(s).is_none_or(|(k, c)| v[k] == c);
    }
    if let Some(a) = alternatives(s) {
        return a.iter().any(|x| fits(x, v));
    }
    if let Some(c) = s.get("const") {
        return c == v;
    }
    if let Some(e) = s["enum"].as_array() {
        return e.contains(v);
    }
    if let Some((k, c)) = tag(s) {
        return v[k] == c;
    }
    let is = |t: &str| match t {
        "object" => v.is_object(),
        "array" => v.is_array(),
        "string" => v.is_string(),
        "number" | "integer" => v.is_number(),
        "boolean" => v.is_boolean(),
        "null" => v.is_null(),
        _ => true,
    };
    let ty = match &s["type"] {
        Value::String(t) => is(t),
        Value::Array(ts) => ts.iter().any(|t| is(t.as_str().unwrap())),
        _ => true,
    };
    ty && s["required"].as_array().is_none_or(|r| r.iter().all(|k| v.get(k.as_str().unwrap()).is_some()))
}
pub fn esc(k: &str) -> String {
    k.replace('~', "~0").replace('/', "~1")
}
/// Where in a document the metrics, file paths and references are, from the catalogue.
pub fn marks(s: &'static Value, v: &Value, ptr: &str, at: (&'static str, &'static str, &'static str), out: &mut Vec<Mark>) {
    if v.is_null() {
        return;
    }
    if let Some(r) = ref_name(s) {
        if r == "Metric" {
            out.push(Mark { ptr: ptr.to_string(), role: Role::Metric });
        }
        return marks(def(r), v, ptr, (r, "", if r == "CsvMetricSet" || r == "TableIndex" { r } else { "" }), out);
    }
    if let Some(a) = alternatives(s) {
        let b = a.into_iter().find(|x| fits(x, v)).unwrap_or_else(|| panic!("ENGINE no alternative of the catalogue fits {v} at {ptr}"));
        let variant = tag(b).map(|t| t.1).unwrap_or("");
        return marks(b, v, ptr, (at.0, variant, at.2), out);
    }
    match v {
        Value::Object(o) => {
            for (k, x) in o {
                let p = format!("{ptr}/{}", esc(k));
                if let Some((name, ps)) = s["properties"].as_object().and_then(|ps| ps.get_key_value(k)) {
                    marks(ps, x, &p, (at.0, at.1, name), out);
                } else if s["additionalProperties"].is_object() {
                    marks(&s["additionalProperties"], x, &p, (at.0, at.1, ""), out);
                }
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                let p = format!("{ptr}/{i}");
                match s["prefixItems"].as_array() {
                    Some(ps) => marks(&ps[i], x, &p, at, out),
                    None if s["items"].is_object() => marks(&s["items"], x, &p, at, out),
                    None => {}
                }
            }
        }
        Value::String(_) => {
            if let Some(role) = role(at.0, at.1, at.2) {
                out.push(Mark { ptr: ptr.to_string(), role });
            }
        }
        _ => {}
    }
}
pub fn doc_marks(d: &Value) -> Vec<Mark> {
    let mut out = vec![];
    marks(catalogue(), d, "", ("Model", "", ""), &mut out);
    out
}

// ---------------------------------------------------------------------------------------------------------------------
// making documents

/// A plain value for an attribute, where the general rule (1 of everything) does not give a model that builds.
fn plain(at: (&str, &str, &str)) -> Option<Value> {
    let f = |n: usize| json!((0..n).map(|i| 1.0 + i as f64 * 0.5).collect::<Vec<_>>());
    let fv = |n: usize| json!({"type": "Literal", "values": f(n)});
    Some(match at {
        ("Parameter", "ConstantScenario", "values") => fv(2),
        ("Parameter", "ConstantScenario", "scenario_group") => json!("sg"),
        ("Parameter", "DailyProfile", "values") => fv(366),
        ("Parameter", "MonthlyProfile", "values") => fv(12),
        ("Parameter", "WeeklyProfile", "values") => fv(53),
        ("Parameter", "DiurnalProfile", "values") => fv(24),
        ("Parameter", "ControlCurvePiecewiseInterpolated", "values") => json!([[1.0, 0.5], [0.5, 0.25]]),
        ("Parameter", _, "control_curves") => json!([{"type": "Literal", "value": 0.5}]),
        ("Parameter", "ControlCurve" | "ControlCurveIndex", "values") => json!([{"type": "Literal", "value": 1.0}, {"type": "Literal", "value": 2.0}]),
        ("Parameter", "ControlCurveInterpolated", "values") => json!([{"type": "Literal", "value": 1.0}, {"type": "Literal", "value": 2.0}, {"type": "Literal", "value": 3.0}]),
        ("Parameter", "ControlCurve" | "ControlCurveIndex" | "ControlCurveInterpolated" | "ControlCurvePiecewiseInterpolated", "storage_metric") => json!({"type": "Node", "name": "sto1", "attribute": "ProportionalVolume"}),
        ("Parameter", "IndexedArray", "metrics") => json!([{"type": "Literal", "value": 3.0}, {"type": "Literal", "value": 4.0}]),
        ("Parameter", "MultiThreshold", "returned_metrics") => json!([{"type": "Literal", "value": 3.0}, {"type": "Literal", "value": 4.0}]),
        ("Parameter", "Interpolated", "xp") => json!([{"type": "Literal", "value": 0.5}, {"type": "Literal", "value": 4.0}]),
        ("Parameter", "Interpolated", "fp") => json!([{"type": "Literal", "value": 3.0}, {"type": "Literal", "value": 5.0}]),
        ("Parameter", "RbfProfile", "points") => json!([[1, 1.0], [100, 2.0], [300, 1.5]]),
        ("Parameter", "TablesArray", "url") => json!("a.h5"),
        ("Parameter", "TablesArray", "node") => json!("flow"),
        ("Parameter", "TablesArray", "where") => json!("/"),
        ("Parameter", "TablesArray", "scenario") => json!("sg"),
        ("Parameter", "DiscountFactor", "discount_rate") => json!({"type": "Literal", "value": 0.05}),
        ("Parameter", "UniformDrawdownProfile", p @ ("reset_day" | "reset_month" | "residual_days")) => json!({"type": "Literal", "value": if p == "residual_days" { 0 } else { 3 }}),
        ("CsvDataTable", _, "url") => json!("new.csv"),
        ("CsvDataTable", _, "lookup") => json!({"type": "Row", "cols": 1}),
        ("CsvDataTable", _, "checksum") => json!({"type": "MD5", "hash": "484a1a665e5aa9a14e8a212bf29b4012"}),
        ("Timeseries", _, "checksum") => json!({"type": "MD5", "hash": "ed4a1134737131415f9dd6ec86df5d81"}),
        ("Timeseries", _, "url") => json!("ts.csv"),
        ("Timeseries", _, "time_col") => json!("date"),
        ("Metric" | "IndexMetric", "Table", "table") => json!("t1"),
        ("ConstantValue", "Table", "table") => json!("t1"),
        ("ConstantValue2", "Table", "table") => json!("t1"),
        ("ConstantFloatVec", "Table", "table") => json!("t12"),
        ("ConstantFloatVec" | "ConstantValue" | "ConstantValue2" | "Metric" | "IndexMetric", "Table", "row") => json!("k"),
        ("Metric", "Timeseries", "columns") => json!({"type": "Column", "name": "c1"}),
        ("IndexMetric", "Timeseries", "columns") => json!({"type": "Column", "name": "c1"}),
        ("Metric" | "IndexMetric", "Timeseries", "name") => json!("ts1"),
        ("TimeseriesColumns", "Column", "name") => json!("c1"),
        ("TimeseriesColumns", "Scenario", "name") => json!("sg"),
        ("Metric", "Parameter", "name") => json!("p1"),
        ("IndexMetric", "Parameter", "name") => json!("i1"),
        ("Metric", "LocalParameter", "name") => json!("lp"),
        ("IndexMetric", "LocalParameter", "name") => json!("li"),
        ("Metric" | "IndexMetric", "Parameter" | "LocalParameter", "key") => return None,
        ("Metric", "Node", "name") => json!("link1"),
        ("IndexMetric", "Node", "name") => json!("link1"),
        ("Metric", "VirtualNode", "name") => json!("vs1"),
        ("Metric", "VirtualNode", "attribute") => json!("Volume"),
        ("Metric", "Node", "attribute") => json!("Outflow"),
        ("IndexMetric", "Node", "attribute") => json!("Outflow"),
        ("Metric", "InterNetworkTransfer", "name") => json!("tr"),
        ("Edge", _, "from_node") => json!("in1"),
        ("Edge", _, "to_node") => json!("link1"),
        ("Edge", _, "from_slot" | "to_slot") => return None,
        ("NodeComponentReference", _, "name") => json!("link1"),
        ("NodeComponentReference", _, "component") => json!("Outflow"),
        ("VirtualNode", "AggregatedStorage", "storage_nodes") => json!([{"name": "sto1"}]),
        ("VirtualNode", "Aggregated", "nodes") => json!([{"name": "link1"}, {"name": "out2"}]),
        ("Relationship", "Proportion", "factors") => json!([{"type": "Literal", "value": 0.5}]),
        ("Relationship", "Ratio" | "Coefficients", "factors") => json!([{"type": "Literal", "value": 0.5}, {"type": "Literal", "value": 1.0}]),
        ("Node" | "VirtualNode", _, "initial_volume") => json!({"type": "Absolute", "volume": 2.0}),
        ("Node" | "VirtualNode", _, "max_volume") => json!({"type": "Literal", "value": 10.0}),
        ("Node" | "VirtualNode", _, "min_volume" | "min_flow" | "min_net_flow" | "abs_min_flow") => json!({"type": "Literal", "value": 0.0}),
        ("PiecewiseLinkStep", _, "min_flow") => json!({"type": "Literal", "value": 0.0}),
        ("Node", "PiecewiseStorage", "steps") => json!([{"control_curve": {"type": "Literal", "value": 0.5}}]),
        ("PiecewiseStore", _, "control_curve") => json!({"type": "Literal", "value": 0.5}),
        ("Node", "RiverSplitWithGauge", "splits") => json!([{"factor": {"type": "Literal", "value": 0.5}, "slot_name": "s"}]),
        ("LossFactor", _, "factor") => json!({"type": "Literal", "value": 0.25}),
        ("RoutingMethod", "Muskingum", "weight") => json!({"type": "Literal", "value": 0.25}),
        ("RoutingMethod", "Muskingum", "travel_time") => json!({"type": "Literal", "value": 1.25}),
        ("BathymetryType", _, "Interpolated") => json!({"storage": {"type": "Literal", "values": [0.0, 20.0]}, "area": fv(2)}),
        ("Rainfall" | "Evaporation" | "Leakage", _, "data" | "loss") => json!({"type": "Literal", "value": 0.25}),
        ("MetricSet", _, "metrics") => json!([{"type": "Node", "name": "link1", "attribute": "Outflow"}]),
        ("CsvOutput" | "Hdf5Output" | "MemoryOutput", _, "metric_set") => json!("obs"),
        ("CsvOutput", _, "filename") => json!("o.csv"),
        ("Hdf5Output", _, "filename") => json!("o.h5"),
        ("VirtualStorageReset", "Annual", "day") => json!(3),
        ("VirtualStorageReset", "Seasonal", "start_day") => json!(2),
        ("VirtualStorageReset", "Seasonal", "end_day") => json!(4),
        ("TimeDomain", _, "start") => json!("2021-01-01"),
        ("TimeDomain", _, "end") => json!("2021-01-03"),
        ("Timestep", "Frequency", "freq") => json!("1d"),
        ("Timestep", "Hours", "hours") => json!(24),
        ("ScenarioGroup", _, "name") => json!("sg"),
        ("ScenarioGroup", _, "size") => json!(2),
        ("ScenarioGroup", _, "labels") => json!(["x", "y"]),
        ("ScenarioGroupSubset", "Slice", "start") => json!(0),
        ("ScenarioGroupSubset", "Slice", "end") => json!(1),
        ("ScenarioGroupSubset", "Indices", "indices") => json!([1]),
        ("ScenarioGroupSubset", "Labels", "labels") => json!(["y"]),
        ("ScenarioDomain", _, "combinations") => json!([[1]]),
        _ => return None,
    })
}
fn default_variant(def: &str) -> &'static str {
    match def {
        "Parameter" => "Constant",
        "VirtualStorageReset" => "Never",
        "AggFunc" | "IndexAggFunc" => "Sum",
        "Timestep" => "Days",
        _ => "",
    }
}
/// Attributes that a document is only made with when it is about them.
fn rare(at: (&str, &str, &str)) -> bool {
    matches!(at.2, "parameters" | "child" | "combinations" | "filters" | "key" | "from_slot" | "to_slot")
        || matches!(at, ("Metric" | "IndexMetric" | "ConstantValue" | "ConstantValue2" | "ConstantFloatVec", "Table", "column"))
        || matches!(at, ("Parameter", "TablesArray", "checksum"))
}

pub struct Gen<'a> {
    ch: &'a mut Ch,
    /// deviations from the plain document left
    budget: usize,
    /// whether the plain document has its optional attributes
    full: bool,
    pub local: bool,
    names: usize,
    depth: usize,
}
impl<'a> Gen<'a> {
    pub fn new(ch: &'a mut Ch, budget: usize, full: bool) -> Self {
        Gen { ch, budget, full, local: false, names: 0, depth: 0 }
    }
    /// The plain choice (0), or another as long as deviations are left.
    fn alt(&mut self, n: usize) -> usize {
        if self.budget == 0 || n <= 1 {
            return 0;
        }
        let k = self.ch.pick(n);
        self.budget -= (k > 0) as usize;
        k
    }
    /// A value of catalogue type `s`; `given` is the plain value prescribed for it.
    pub fn make(&mut self, s: &'static Value, at: (&'static str, &'static str, &'static str), given: Option<Value>) -> Value {
        if let Some(r) = ref_name(s) {
            let mut v = self.make(def(r), (r, "", ""), given);
            if let (Some((k, c)), Some(o)) = (tag(s), v.as_object_mut()) {
                o.insert(k.into(), json!(c)); // a tag beside the referenced attributes
            }
            return v;
        }
        if let Some(a) = alternatives(s) {
            if a.len() == 1 {
                return self.make(a[0], at, given);
            }
            // the plain alternative first
            let first = match &given {
                Some(g) => a.iter().position(|x| fits(x, g)).unwrap_or_else(|| panic!("ENGINE {g} does not fit {at:?}")),
                None => a.iter().position(|x| tag(x).is_some_and(|t| t.1 == default_variant(at.0))).unwrap_or(0),
            };
            // nested components do not nest any further than this
            let n = if self.depth > 2 && at.0 == "Parameter" { 1 } else { a.len() };
            let k = self.alt(n);
            let i = if k == 0 { first } else if k <= first { k - 1 } else { k };
            let variant = tag(a[i]).map(|t| t.1).unwrap_or("");
            return self.make(a[i], (at.0, variant, at.2), given.filter(|_| i == first));
        }
        if let Some(c) = s.get("const") {
            return c.clone();
        }
        if let Some(e) = s["enum"].as_array() {
            let first = given.as_ref().and_then(|g| e.iter().position(|x| x == g)).unwrap_or(0);
            let k = self.alt(e.len());
            return e[if k == 0 { first } else if k <= first { k - 1 } else { k }].clone();
        }
        let ty = match &s["type"] {
            Value::String(t) => t.as_str(),
            Value::Array(ts) => ts.iter().map(|t| t.as_str().unwrap()).find(|t| *t != "null").unwrap(),
            _ => "any",
        };
        match ty {
            "object" => self.object(s, at, given),
            "array" => {
                let fixed = s["prefixItems"].as_array();
                if let Some(p) = fixed {
                    return Value::Array(p.iter().enumerate().map(|(i, x)| self.make(x, at, given.as_ref().map(|g| g[i].clone()))).collect());
                }
                if !s["items"].is_object() {
                    return json!([1, "two"]);
                }
                let min = s["minItems"].as_u64();
                let plain = given.as_ref().map_or(min.unwrap_or(1) as usize, |g| g.as_array().unwrap().len());
                // a long list of numbers is one thing, not hundreds of choices
                if plain > 12 {
                    return given.unwrap();
                }
                let n = if min.is_some() { plain } else { [plain, plain + 1, plain.saturating_sub(1)][self.alt(3)] };
                (0..n).map(|i| {
                    let g = given.as_ref().and_then(|g| g.get(i).or(g.get(0)).cloned());
                    self.make(&s["items"], at, g)
                }).collect()
            }
            "number" => json!([given.as_ref().and_then(|g| g.as_f64()).unwrap_or(1.0), 2.5, -1.0e-3][self.alt(3)]),
            "integer" => {
                let p = given.as_ref().and_then(|g| g.as_i64()).unwrap_or(1);
                json!([p, p + 1][self.alt(2)])
            }
            "boolean" => json!(given.is_some_and(|g| g == true) != (self.alt(2) == 1)),
            "string" => {
                if let Some(g) = given.or_else(|| plain(at)) {
                    return g;
                }
                if at.2 == "name" && matches!(at.0, "ParameterMeta" | "NodeMeta" | "TableMeta" | "MetricSet" | "CsvOutput" | "Hdf5Output" | "MemoryOutput") {
                    self.names += 1;
                    return json!(if self.names == 1 { "new".to_string() } else { format!("new{}", self.names) });
                }
                json!(["x", "ü \"q\"\\/\n"][self.alt(2)])
            }
            _ => json!(1),
        }
    }
    fn object(&mut self, s: &'static Value, at: (&'static str, &'static str, &'static str), given: Option<Value>) -> Value {
        let mut o = Map::new();
        self.depth += 1;
        let required: Vec<&str> = s["required"].as_array().map(|r| r.iter().map(|k| k.as_str().unwrap()).collect()).unwrap_or_default();
        if at.1 == "LocalParameter" {
            self.local = true;
        }
        if let Some(ps) = s["properties"].as_object() {
            for (k, p) in ps {
                let here = (at.0, at.1, k.as_str());
                let wanted = given.as_ref().map(|g| g.get(k).cloned());
                if !required.contains(&k.as_str()) {
                    let nullable = p["anyOf"].as_array().is_some_and(|a| a.iter().any(is_null)) || p["type"].as_array().is_some_and(|a| a.contains(&json!("null")));
                    let always = matches!(here, ("Parameter", "ControlCurvePiecewiseInterpolated", "values") | ("Parameter", "HydropowerTarget", "target" | "water_elevation") | ("Metric" | "IndexMetric", "Timeseries", "columns") | ("Metric" | "IndexMetric", "Table", "row") | ("ConstantValue" | "ConstantValue2" | "ConstantFloatVec", "Table", "row"));
                    let has = match &wanted {
                        Some(w) => w.is_some(),
                        None => always || (self.full && self.depth <= 3 && !rare(here)),
                    };
                    match self.alt(if nullable { 3 } else { 2 }) {
                        0 if !has => continue,
                        1 if has => continue,
                        2 => {
                            o.insert(k.clone(), Value::Null);
                            continue;
                        }
                        _ => {}
                    }
                }
                let g = wanted.flatten().or_else(|| plain(here));
                let v = self.make(p, here, g);
                o.insert(k.clone(), v);
            }
        } else if s["additionalProperties"].is_object() {
            let n = [1, 2, 0][self.alt(3)];
            for i in 0..n {
                let v = self.make(&s["additionalProperties"], at, None);
                o.insert(format!("k{i}"), v);
            }
        } else {
            o.insert("k".into(), json!(1));
        }
        self.depth -= 1;
        Value::Object(o)
    }
}

// ---------------------------------------------------------------------------------------------------------------------

/// A small model that has one of everything that can be referred to.
pub fn world() -> Value {
    json!({
        "metadata": {"title": "t"},
        "time": {"start": "2021-01-01", "end": "2021-01-03", "timestep": {"type": "Days", "days": 1}},
        "scenarios": {"groups": [{"name": "sg", "size": 2}]},
        "network": {
            "nodes": [
                {"meta": {"name": "in1"}, "type": "Input", "max_flow": {"type": "Literal", "value": 4.0}},
                {"meta": {"name": "link1"}, "type": "Link"},
                {"meta": {"name": "out1"}, "type": "Output", "max_flow": {"type": "Literal", "value": 3.0}, "cost": {"type": "Literal", "value": -1.0}},
                {"meta": {"name": "sto1"}, "type": "Storage", "max_volume": {"type": "Literal", "value": 10.0}, "initial_volume": {"type": "Absolute", "volume": 6.0}},
                {"meta": {"name": "out2"}, "type": "Output", "max_flow": {"type": "Literal", "value": 1.0}, "cost": {"type": "Literal", "value": -2.0}},
                {"meta": {"name": "in2"}, "type": "Input", "max_flow": {"type": "Literal", "value": 1.5}},
            ],
            "edges": [
                {"from_node": "in1", "to_node": "link1"},
                {"from_node": "link1", "to_node": "out1"},
                {"from_node": "in2", "to_node": "sto1"},
                {"from_node": "sto1", "to_node": "out2"},
            ],
            "virtual_nodes": [
                {"meta": {"name": "vs1"}, "type": "VirtualStorage", "nodes": [{"name": "link1"}], "max_volume": {"type": "Literal", "value": 100.0}, "initial_volume": {"type": "Absolute", "volume": 90.0}},
            ],
            "parameters": [
                {"meta": {"name": "p1"}, "type": "Constant", "value": {"type": "Literal", "value": 1.5}},
                {"meta": {"name": "i1"}, "type": "AggregatedIndex", "phase": "Before", "agg_func": {"type": "Sum"}, "metrics": [{"type": "Constant", "value": 1}]},
            ],
            "tables": [
                {"meta": {"name": "t1"}, "type": "Scalar", "format": "CSV", "lookup": {"type": "Row", "cols": 1}, "url": "t1.csv"},
                {"meta": {"name": "t12"}, "type": "Array", "format": "CSV", "lookup": {"type": "Row", "cols": 1}, "url": "t12.csv"},
            ],
            "timeseries": [
                {"meta": {"name": "ts1"}, "type": "Polars", "url": "ts.csv", "time_col": "date"},
            ],
            "metric_sets": [
                {"name": "obs", "metrics": [
                    {"type": "Node", "name": "link1", "attribute": "Outflow"},
                    {"type": "Node", "name": "sto1", "attribute": "Volume"},
                    {"type": "Node", "name": "out2"},
                ]},
            ],
            "outputs": [],
        },
    })
}
/// Values that a table and a time series can give, too.
const VALUES: [f64; 15] = [0.0, 0.05, 0.25, 0.5, 1.0, 1.25, 1.5, 2.0, 2.5, 3.0, 4.0, 5.0, 10.0, 100.0, -1e-3];
pub fn files(dir: &std::path::Path) {
    let w = |n: &str, t: &str| std::fs::write(dir.join(n), t).unwrap();
    let vs = || VALUES.iter();
    w("t1.csv", &format!("key,value\nk,2\n{}", vs().map(|v| format!("v{v},{v}\n")).collect::<String>()));
    w("new.csv", "key,value\nk,2\n");
    w("t12.csv", &format!("key,{}\nk,{}\n", (0..12).map(|i| format!("v{i}")).collect::<Vec<_>>().join(","), (0..12).map(|i| format!("{}", i + 1)).collect::<Vec<_>>().join(",")));
    let f = hdf5_metno::File::create(dir.join("a.h5")).unwrap();
    let data = ndarray::arr2(&[[1.0, 10.0], [2.0, 20.0], [3.0, 30.0], [4.0, 40.0]]);
    f.new_dataset_builder().with_data(&data).create("flow").unwrap();
    let day = |d: usize| format!("2021-01-{:02},{d},{}{}\n", d, d + 1, vs().map(|v| format!(",{v:?}")).collect::<String>());
    w("ts.csv", &format!("date,c1,c2{}\n{}", vs().map(|v| format!(",v{v}")).collect::<String>(), (1..=3).map(day).collect::<String>()));
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Node(usize),
    Virtual(usize),
    Parameter(usize),
    Table,
    Series(usize),
    Output(usize),
    Set,
    Edge,
    Meta,
    Time,
    Scenarios,
}
fn variants(d: &str) -> Vec<&'static Value> {
    alternatives(def(d)).unwrap()
}
pub fn kinds() -> Vec<Kind> {
    let n = |d: &str| 0..variants(d).len();
    let mut k = vec![Kind::Meta, Kind::Time, Kind::Scenarios, Kind::Edge, Kind::Set, Kind::Table];
    k.extend(n("Output").map(Kind::Output));
    k.extend(n("Timeseries").map(Kind::Series));
    k.extend(n("VirtualNode").map(Kind::Virtual));
    k.extend(n("Node").map(Kind::Node));
    k.extend(n("Parameter").map(Kind::Parameter));
    k
}
pub fn kind_name(k: Kind) -> String {
    let v = |d: &str, i: usize| format!("{d} {}", tag(variants(d)[i]).unwrap().1);
    match k {
        Kind::Node(i) => v("Node", i),
        Kind::Virtual(i) => v("VirtualNode", i),
        Kind::Parameter(i) => v("Parameter", i),
        Kind::Output(i) => v("Output", i),
        Kind::Series(i) => v("Timeseries", i),
        k => format!("{k:?}"),
    }
}
/// The world with one more component of the kind, within `budget` deviations of a plain one.
pub fn document(ch: &mut Ch, k: Kind, budget: usize, full: bool) -> Value {
    let mut d = world();
    let mut g = Gen::new(ch, budget, full);
    let mut one = |g: &mut Gen, name: &'static str, i: usize| {
        let s = variants(name)[i];
        g.make(s, (name, tag(s).unwrap().1, ""), None)
    };
    let n = &mut d["network"];
    let push = |n: &mut Value, list: &str, v: Value| n[list].as_array_mut().unwrap().push(v);
    match k {
        Kind::Meta => d["metadata"] = g.make(def("Metadata"), ("Metadata", "", ""), None),
        Kind::Time => d["time"] = g.make(def("TimeDomain"), ("TimeDomain", "", ""), None),
        Kind::Scenarios => d["scenarios"] = g.make(def("ScenarioDomain"), ("ScenarioDomain", "", ""), None),
        Kind::Edge => {
            let mut v = g.make(def("Edge"), ("Edge", "", ""), None);
            if v["to_node"] == "link1" {
                v["to_node"] = json!("out1");
            }
            push(n, "edges", v)
        }
        Kind::Set => {
            let v = g.make(def("MetricSet"), ("MetricSet", "", ""), None);
            push(n, "metric_sets", v)
        }
        Kind::Table => {
            let v = g.make(variants("DataTable")[0], ("DataTable", "", ""), None);
            push(n, "tables", v)
        }
        Kind::Output(i) => {
            let v = one(&mut g, "Output", i);
            push(n, "outputs", v)
        }
        Kind::Series(i) => {
            let v = one(&mut g, "Timeseries", i);
            push(n, "timeseries", v)
        }
        Kind::Parameter(i) => {
            let v = one(&mut g, "Parameter", i);
            push(n, "parameters", v)
        }
        Kind::Node(i) | Kind::Virtual(i) => {
            let real = matches!(k, Kind::Node(_));
            let mut v = one(&mut g, if real { "Node" } else { "VirtualNode" }, i);
            if g.local && v.get("parameters").is_none() {
                v["parameters"] = json!([
                    {"meta": {"name": "lp"}, "type": "Constant", "value": {"type": "Literal", "value": 1.5}},
                    {"meta": {"name": "li"}, "type": "AggregatedIndex", "phase": "Before", "agg_func": {"type": "Sum"}, "metrics": [{"type": "Constant", "value": 1}]},
                ]);
            }
            let ty = v["type"].as_str().unwrap().to_string();
            let has_compensation = ty == "Reservoir" && !v["compensation"].is_null();
            push(n, if real { "nodes" } else { "virtual_nodes" }, v);
            if real {
                if !matches!(ty.as_str(), "Input" | "Catchment") {
                    push(n, "edges", json!({"from_node": "in1", "to_node": "new"}));
                }
                if ty != "Output" {
                    push(n, "edges", json!({"from_node": "new", "to_node": "out1"}));
                }
                if matches!(ty.as_str(), "RiverSplitWithGauge") {
                    push(n, "edges", json!({"from_node": "new", "from_slot": {"type": "User", "name": "s"}, "to_node": "out2"}));
                }
                if has_compensation {
                    push(n, "edges", json!({"from_node": "new", "from_slot": {"type": "Compensation"}, "to_node": "out2"}));
                }
                if matches!(ty.as_str(), "Abstraction") {
                    push(n, "edges", json!({"from_node": "new", "from_slot": {"type": "Abstraction"}, "to_node": "out1"}));
                }
            }
        }
    }
    d
}
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => x.as_f64() == y.as_f64(),
        // a date is the midnight it begins with
        (Value::String(x), Value::String(y)) => x == y || *y == format!("{x}T00:00:00"),
        _ => a == b,
    }
}
/// Everything `a` says, `b` says too.
fn within(a: &Value, b: &Value, ptr: &str) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => x.iter().find_map(|(k, v)| {
            let p = format!("{ptr}/{}", esc(k));
            match y.get(k) {
                Some(w) => within(v, w, &p),
                None if v.is_null() || v.as_object().is_some_and(|o| o.is_empty()) => None,
                None => Some(format!("{p} was {v} and is gone")),
            }
        }),
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => x.iter().zip(y).enumerate().find_map(|(i, (v, w))| within(v, w, &format!("{ptr}/{i}"))),
        (x, y) if same(x, y) => None,
        (x, y) => Some(format!("{ptr} was {x} and is {y}")),
    }
}
pub fn generic(ptr: &str) -> String {
    // component and attribute, without positions and names of map entries
    ptr.split('/').filter(|s| s.parse::<usize>().is_err()).collect::<Vec<_>>().join("/")
}
fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}
fn chars(v: &str) -> BTreeMap<char, usize> {
    let mut m = BTreeMap::new();
    v.chars().for_each(|c| *m.entry(c).or_default() += 1);
    m
}

/// What a document says when it is written.
fn text(s: &pywr_schema::ModelSchema) -> Value {
    serde_json::from_str(&serde_json::to_string(s).unwrap()).unwrap()
}
fn round_trip(what: &str, d: &Value) -> Res<(pywr_schema::ModelSchema, Value)> {
    let s = parse(d).map_err(|e| Fail { key: format!("parse:{what}"), msg: format!("a valid document is not read: {}: {d}", e.text()) })?;
    let out = imp(|| serde_json::to_string(&s)).map_err(|e| Fail { key: format!("write:{what}"), msg: e.text() })?;
    let out: Value = serde_json::from_str(&out).map_err(|e| Fail { key: format!("write:{what}"), msg: e.to_string() })?;
    if let Some(m) = within(d, &out, "") {
        return fail(format!("round-trip:{what}"), format!("written back, {m} in {d}"));
    }
    let s2 = parse(&out).map_err(|e| Fail { key: format!("reparse:{what}"), msg: format!("a written document is not read back: {}: {out}", e.text()) })?;
    let out2 = text(&s2);
    chk!(out == out2, format!("rewrite:{what}"), "written twice, {out} becomes {out2}");
    Ok((s, out))
}
fn visits(what: &str, s: &pywr_schema::ModelSchema, out: &Value) -> Res {
    let ms = doc_marks(out);
    let at = |r: Role| -> Vec<String> { ms.iter().filter(|m| m.role == r).map(|m| m.ptr.clone()).collect() };
    // metrics
    let want = at(Role::Metric);
    let mut got = vec![];
    s.visit_metrics(&mut |m: &Metric| got.push(serde_json::to_value(m).unwrap().to_string()));
    let should: Vec<String> = want.iter().map(|p| out.pointer(p).unwrap().to_string()).collect();
    chk!(sorted(got.clone()) == sorted(should.clone()), format!("metrics:{what}"), "visiting the metrics gives {got:?} and not {should:?}: {out}");
    let mut s2 = s.clone();
    let mut i = 0;
    s2.visit_metrics_mut(&mut |m: &mut Metric| {
        *m = Metric::Literal { value: 1000.0 + i as f64 };
        i += 1;
    });
    let mut after = text(&s2);
    let mut seen = vec![];
    for p in &want {
        let v = after.pointer_mut(p);
        seen.push(v.as_ref().map(|v| v["value"].to_string()).unwrap_or_default());
        if let Some(v) = v {
            *v = out.pointer(p).unwrap().clone();
        }
    }
    let new: Vec<String> = (0..want.len()).map(|i| json!(1000.0 + i as f64).to_string()).collect();
    chk!(i == want.len() && sorted(seen.clone()) == sorted(new) && after == *out, format!("metrics-mut:{what}"), "changing every metric changed {seen:?} of {want:?}: {out}");
    // paths
    let want = at(Role::Path);
    let mut got = vec![];
    s.visit_paths(&mut |p: &std::path::Path| got.push(p.to_string_lossy().to_string()));
    let should: Vec<String> = want.iter().map(|p| out.pointer(p).unwrap().as_str().unwrap().to_string()).collect();
    chk!(sorted(got.clone()) == sorted(should.clone()), format!("paths:{what}"), "visiting the paths gives {got:?} and not {should:?}: {out}");
    let mut s2 = s.clone();
    let mut i = 0;
    s2.visit_paths_mut(&mut |p: &mut std::path::PathBuf| {
        *p = format!("path{i}").into();
        i += 1;
    });
    let mut after = text(&s2);
    let mut seen = vec![];
    for p in &want {
        let v = after.pointer_mut(p).unwrap();
        seen.push(v.as_str().unwrap().to_string());
        *v = out.pointer(p).unwrap().clone();
    }
    let new: Vec<String> = (0..want.len()).map(|i| format!("path{i}")).collect();
    chk!(i == want.len() && sorted(seen.clone()) == sorted(new) && after == *out, format!("paths-mut:{what}"), "changing every path changed {seen:?} of {want:?}: {out}");
    // references to nodes
    let want = at(Role::Node);
    let mut got = vec![];
    s.network.visit_node_references(&mut |p: &str| got.push(p.to_string()));
    let should: Vec<String> = want.iter().map(|p| out.pointer(p).unwrap().as_str().unwrap().to_string()).collect();
    chk!(sorted(got.clone()) == sorted(should.clone()), format!("references:{what}"), "visiting the node references gives {got:?} and not {should:?}: {out}");
    let mut s2 = s.clone();
    let mut i = 0;
    s2.network.visit_node_references_mut(&mut |p: &mut String| {
        *p = format!("node{i}");
        i += 1;
    });
    let mut after = text(&s2);
    let mut seen = vec![];
    for p in &want {
        let v = after.pointer_mut(p).unwrap();
        seen.push(v.as_str().unwrap().to_string());
        *v = out.pointer(p).unwrap().clone();
    }
    let new: Vec<String> = (0..want.len()).map(|i| format!("node{i}")).collect();
    chk!(i == want.len() && sorted(seen.clone()) == sorted(new) && after == *out, format!("references-mut:{what}"), "changing every node reference changed {seen:?} of {want:?}: {out}");
    Ok(())
}


/// The document, with everything that can be observed in its first metric set.
pub fn observed(d: &Value) -> Value {
    let mut d = d.clone();
    d["network"]["metric_sets"][0]["filters"] = json!({"all_nodes": true, "all_virtual_nodes": true, "all_edges": true});
    let new: Vec<Value> = d["network"]["parameters"].as_array().unwrap().iter().map(|p| p["meta"]["name"].clone()).filter(|n| n == "new").collect();
    for n in new {
        d["network"]["metric_sets"][0]["metrics"].as_array_mut().unwrap().push(json!({"type": "Parameter", "name": n}));
    }
    d
}
/// A document with everything it is built with; relative files are in `dir`.
pub fn outcome(d: &Value, dir: &std::path::Path) -> Result<Vec<Vec<Vec<f64>>>, ImpErr> {
    let s = parse(d)?;
    let out = Scratch::new();
    run_built(build_schema(&s, Some(dir), Some(&out.0))?)
}
pub fn built(d: &Value, dir: &std::path::Path) -> Result<(), ImpErr> {
    let s = parse(d)?;
    let b = build_schema(&s, Some(dir), Some(dir))?;
    imp(|| b.build().map(|_| ()).map_err(|e| chain(&e)))
}
/// Names of other things, none of which is what a reference of the role refers to.
fn wrong(role: Role) -> Vec<&'static str> {
    match role {
        Role::Node => vec!["missing", "p1", "ts1", "Link1", "link", "link11", ""],
        Role::Param => vec!["missing", "link1", "t1", "P1", "p", "p11", ""],
        Role::Local => vec!["missing", "p1", "l", "lpp"],
        Role::Series => vec!["missing", "t1", "c1", "ts"],
        Role::Table => vec!["missing", "ts1", "new.csv", "T1"],
        Role::Group => vec!["missing", "sG", "obs"],
        Role::Set => vec!["missing", "sg", "Obs"],
        Role::Column => vec!["missing", "date", "C1"],
        Role::Key => vec!["missing", "value"],
        Role::Transfer => vec!["missing"],
        Role::Path => vec![],
        Role::Metric => vec![],
    }
}

pub fn c20(cx: &Cx) {
    cx.assume("the committed catalogue of document types (pv/src/catalogue.json) is the documented format");
    cx.explore("round-trip", |ch| {
        let k = ch.of(&kinds());
        let full = ch.flag();
        let d = document(ch, k, cx.b(2, 3), full);
        let what = kind_name(k);
        ch.describe(|| format!("{what} {d}"));
        ch.state(&d.to_string());
        let (s, out) = round_trip(&what, &d)?;
        ch.out(&out.to_string());
        visits(&what, &s, &out)
    });
    let dir = Scratch::new();
    files(&dir.0);
    cx.explore("references", |ch| {
        let k = ch.of(&kinds());
        let full = ch.flag();
        let d = document(ch, k, cx.b(1, 2), full);
        let what = kind_name(k);
        ch.describe(|| format!("{what} {d}"));
        ch.state(&d.to_string());
        let (_, out) = round_trip(&what, &d)?;
        let a = outcome(&d, &dir.0);
        let b = outcome(&out, &dir.0);
        match (&a, &b) {
            (Ok(x), Ok(y)) => chk!(x == y, format!("results:{what}"), "the document gives {x:?}, written back {y:?}: {d}"),
            (Err(_), Err(_)) => {}
            (x, y) => return fail(format!("results:{what}"), format!("the document gives {:?}, written back {:?}: {d}", x.as_ref().map_err(|e| e.text()), y.as_ref().map_err(|e| e.text()))),
        }
        if let Err(e) = a {
            if std::env::var("PV_SHOW").is_ok() {
                eprintln!("NOBUILD {what} full={full} {}", e.text());
            }
            let never = what.ends_with("Placeholder") || matches!(what.as_str(), "Parameter Python" | "Timeseries Pandas") || (what == "Set" && !full);
            chk!(never || !ch.plain(), format!("plain:{what}"), "a plain document is refused: {}: {d}", e.text());
            return ch.skip();
        }
        let usual = if matches!(k, Kind::Time) { vec![] } else { doc_marks(&world()) };
        for m in doc_marks(&d).iter().filter(|m| usual.iter().all(|u| u.ptr != m.ptr)) {
            for w in wrong(m.role) {
                let mut d2 = d.clone();
                *d2.pointer_mut(&m.ptr).unwrap() = json!(w);
                ch.transitions += 1;
                if let Ok(()) = built(&d2, &dir.0) {
                    let g = generic(&m.ptr);
                    return fail(format!("unresolved:{what}:{g}"), format!("{} says {w:?}, which does not exist, and the model is built: {d2}", m.ptr));
                }
            }
        }
        Ok(())
    });
    // a value is the same value wherever it comes from
    cx.explore("sources", |ch| {
        let k = ch.of(&kinds().into_iter().filter(|k| matches!(k, Kind::Node(_) | Kind::Virtual(_) | Kind::Parameter(_))).collect::<Vec<_>>());
        let full = ch.flag();
        let d = document(ch, k, cx.b(1, 2), full);
        let what = kind_name(k);
        ch.describe(|| format!("{what} {d}"));
        ch.state(&d.to_string());
        let Ok(a) = outcome(&observed(&d), &dir.0) else { return ch.skip() };
        let usual = doc_marks(&world());
        for m in doc_marks(&d).iter().filter(|m| m.role == Role::Metric && usual.iter().all(|u| u.ptr != m.ptr)) {
            let v = d.pointer(&m.ptr).unwrap();
            if v["type"] != "Literal" || m.ptr.contains("/factors/") {
                continue;
            }
            let c = v["value"].as_f64().unwrap();
            if !VALUES.contains(&c) {
                continue;
            }
            let local = matches!(k, Kind::Node(_) | Kind::Virtual(_));
            for w in [
                json!({"type": "Parameter", "name": "source"}),
                json!({"type": "LocalParameter", "name": "source"}),
                json!({"type": "Table", "table": "t1", "row": format!("v{c}")}),
                json!({"type": "Timeseries", "name": "ts1", "columns": {"type": "Column", "name": format!("v{c}")}}),
            ] {
                if w["type"] == "LocalParameter" && !local {
                    continue;
                }
                let mut d2 = d.clone();
                *d2.pointer_mut(&m.ptr).unwrap() = w.clone();
                let p = |v: f64| json!({"meta": {"name": "source"}, "type": "Constant", "value": {"type": "Literal", "value": v}});
                let n = &mut d2["network"];
                if w["type"] == "Parameter" {
                    n["parameters"].as_array_mut().unwrap().push(p(c));
                }
                if w["type"] == "LocalParameter" {
                    // a parameter, and one of another node, of that name
                    n["parameters"].as_array_mut().unwrap().push(p(77.0));
                    n["nodes"][0]["parameters"] = json!([p(78.0)]);
                    let list = if matches!(k, Kind::Node(_)) { "nodes" } else { "virtual_nodes" };
                    let me = n[list].as_array_mut().unwrap().last_mut().unwrap();
                    match me.get_mut("parameters").and_then(|p| p.as_array_mut()) {
                        Some(ps) => ps.push(p(c)),
                        None => me["parameters"] = json!([p(c)]),
                    }
                }
                ch.transitions += 1;
                match outcome(&observed(&d2), &dir.0) {
                    Ok(b) => {
                        ch.out(&format!("{b:?}"));
                        let near = a.iter().flatten().flatten().zip(b.iter().flatten().flatten()).all(|(x, y)| x == y || (x - y).abs() < 1e-9 || (x.is_nan() && y.is_nan()));
                        chk!(near && a.len() == b.len(), format!("source:{what}:{}:{}", generic(&m.ptr), w["type"]), "{c} as a literal gives {a:?}, as {w} {b:?}: {d2}");
                    }
                    Err(e) => {
                        if std::env::var("PV_SHOW").is_ok() {
                            eprintln!("NOSOURCE {what} {} {} {}", generic(&m.ptr), w["type"], e.text());
                        }
                        chk!(!e.is_panic(), format!("source-panic:{what}:{}", generic(&m.ptr)), "{}: {d2}", e.text());
                    }
                }
            }
        }
        Ok(())
    });
    // each of the things with like names is found by its own
    let names = ["a", "A", "a ", "aa", "n1.a", "n1/a"];
    for (i, n) in names.iter().enumerate() {
        std::fs::write(dir.0.join(format!("tab{i}.csv")), format!("key,value\n{}", names.iter().enumerate().map(|(j, r)| format!("\"{r}\",{}\n", 100 * (i + 1) + j)).collect::<String>())).unwrap();
        let row = |d: usize| format!("2021-01-0{d}{}\n", (0..names.len()).map(|j| format!(",{}", 100 * (i + 1) + j)).collect::<String>());
        std::fs::write(dir.0.join(format!("ser{i}.csv")), format!("date{}\n{}{}", names.iter().map(|r| format!(",{r}")).collect::<String>(), row(1), row(2))).unwrap();
        let _ = n;
    }
    cx.explore("names", |ch| {
        let m = cx.b(3, 4);
        let first = ch.pick(names.len());
        let order: Vec<usize> = ch.perm(m).into_iter().map(|i| (i + first) % names.len()).collect();
        let kind = ch.pick(5);
        let gone = ch.pick(m + 1);
        let order: Vec<usize> = order.into_iter().enumerate().filter(|(i, _)| *i + 1 != gone).map(|x| x.1).collect();
        let target = ch.pick(names.len());
        let second = if kind == 1 || kind == 2 { ch.pick(names.len()) } else { 0 };
        let (name, has) = (names[target], order.contains(&target));
        let cons = |n: &str, v: f64| json!({"meta": {"name": n}, "type": "Constant", "value": lit(v)});
        let mut nodes = vec![json!({"meta": {"name": "in"}, "type": "Input"}), json!({"meta": {"name": "out"}, "type": "Output"})];
        let mut edges = vec![json!({"from_node": "in", "to_node": "out"})];
        let mut params: Vec<Value> = vec![];
        let (mut tables, mut series, mut virt): (Vec<Value>, Vec<Value>, Vec<Value>) = (vec![], vec![], vec![]);
        // all names, of other kinds of thing than the one referred to
        if kind != 0 && kind != 4 {
            params.extend(names.iter().enumerate().map(|(i, n)| cons(n, 9000.0 + i as f64)));
        }
        let metric = match kind {
            0 => {
                params.extend(order.iter().map(|&i| cons(names[i], 100.0 * (i + 1) as f64)));
                par(name)
            }
            1 => {
                tables.extend(order.iter().map(|&i| json!({"meta": {"name": names[i]}, "type": "Scalar", "format": "CSV", "lookup": {"type": "Row", "cols": 1}, "url": format!("tab{i}.csv")})));
                json!({"type": "Table", "table": name, "row": names[second]})
            }
            2 => {
                series.extend(order.iter().map(|&i| json!({"meta": {"name": names[i]}, "type": "Polars", "url": format!("ser{i}.csv"), "time_col": "date"})));
                json!({"type": "Timeseries", "name": name, "columns": {"type": "Column", "name": names[second]}})
            }
            3 => {
                for &i in &order {
                    nodes.push(json!({"meta": {"name": names[i]}, "type": "Storage", "max_volume": lit(1e4), "initial_volume": {"type": "Absolute", "volume": 100.0 * (i + 1) as f64}}));
                    edges.push(json!({"from_node": "in", "to_node": names[i]}));
                }
                nattr(name, "Volume")
            }
            _ => {
                for &i in &order {
                    virt.push(json!({"meta": {"name": names[i]}, "type": "VirtualStorage", "nodes": [{"name": "out"}], "max_volume": lit(1e4), "initial_volume": {"type": "Absolute", "volume": 100.0 * (i + 1) as f64}}));
                }
                json!({"type": "VirtualNode", "name": name, "attribute": "Volume"})
            }
        };
        nodes[0]["max_flow"] = lit(0.0);
        params.push(json!({"meta": {"name": "result"}, "type": "Aggregated", "phase": "Before", "agg_func": {"type": "Sum"}, "metrics": [metric]}));
        let d = doc(days_json(2), json!({"nodes": nodes, "virtual_nodes": virt, "edges": edges, "parameters": params, "tables": tables, "timeseries": series, "metric_sets": series_metrics(&[par("result")])}));
        ch.describe(|| format!("{d}"));
        ch.state(&(kind, &order, target, second));
        let got = outcome(&d, &dir.0);
        let want = 100.0 * (target + 1) as f64 + second as f64;
        match got {
            Ok(g) => {
                chk!(has, format!("names:{kind}:missing"), "{name:?} does not exist and gives {g:?}: {d}");
                chk!(g.iter().flatten().flatten().all(|x| *x == want), format!("names:{kind}"), "{name:?} is {want}, and gives {g:?}: {d}");
                ch.out(&format!("{g:?}"));
            }
            Err(e) => chk!(!has, format!("names:{kind}:refused"), "{}: {d}", e.text()),
        }
        Ok(())
    });
    cx.explore("local-names", |ch| {
        // who has a parameter "a", in which order, and whose is meant
        let order = ch.perm(3);
        let owners = ch.subset(4); // global, n1, n2, v
        let others = ch.flag();
        let user = ch.pick(4); // global reference in n1, local reference in n1, in n2, in v
        let cons = |n: &str, v: f64| json!({"meta": {"name": n}, "type": "Constant", "value": lit(v)});
        let mut globals = vec![];
        if owners.contains(&0) {
            globals.push(cons("a", 1.0));
        }
        if others {
            for (i, n) in ["n1.a", "n1/a", "n1", "n1_a", "A", "aa"].iter().enumerate() {
                globals.push(cons(n, 50.0 + i as f64));
            }
        }
        let local = json!({"type": "LocalParameter", "name": "a"});
        let lp = |i: usize| if owners.contains(&i) { json!([cons("b", 60.0), cons("a", 1.0 + i as f64)]) } else { json!([cons("b", 61.0)]) };
        let mf = |i: usize| if user == i { local.clone() } else if user == 0 && i == 1 { par("a") } else { lit(40.0) };
        let all = [
            json!({"meta": {"name": "n1"}, "type": "Input", "max_flow": mf(1), "parameters": lp(1)}),
            json!({"meta": {"name": "n2"}, "type": "Link", "max_flow": mf(2), "parameters": lp(2)}),
            json!({"meta": {"name": "o"}, "type": "Output", "cost": lit(-1.0)}),
        ];
        let nodes: Vec<Value> = order.iter().map(|&i| all[i].clone()).collect();
        let v = json!({"meta": {"name": "v"}, "type": "Aggregated", "nodes": [{"name": "o"}], "max_flow": if user == 3 { local } else { lit(40.0) }, "parameters": lp(3)});
        let d = doc(days_json(2), json!({"nodes": nodes, "virtual_nodes": [v], "edges": [{"from_node": "n1", "to_node": "n2"}, {"from_node": "n2", "to_node": "o"}], "parameters": globals, "metric_sets": series_metrics(&[nattr("o", "Inflow")])}));
        ch.describe(|| format!("{d}"));
        ch.state(&(&order, &owners, others, user));
        let has = owners.contains(&user);
        match outcome(&d, &dir.0) {
            Ok(g) => {
                chk!(has, "local:missing", "the parameter does not exist and the flow is {g:?}: {d}");
                let want = 1.0 + user as f64;
                chk!(g.iter().flatten().flatten().all(|x| (x - want).abs() < 1e-9), format!("local:{user}"), "the parameter is {want} and the flow {g:?}: {d}");
            }
            Err(e) => chk!(!has, format!("local:{user}:refused"), "{}: {d}", e.text()),
        }
        Ok(())
    });
    cx.explore("duplicates", |ch| {
        let mut d = world();
        let cons = |n: &str| json!({"meta": {"name": n}, "type": "Constant", "value": lit(3.0)});
        let k = ch.pick(13);
        let front = ch.flag();
        d["network"]["nodes"][0]["parameters"] = json!([cons("lp")]);
        d["network"]["outputs"] = json!([{"name": "out", "type": "CSV", "format": "Long", "filename": "dup.csv", "metric_set": "obs"}]);
        d["scenarios"] = json!({"groups": [{"name": "sg", "size": 2, "labels": ["x", "y"]}]});
        let mut put = |p: &str, v: Value| {
            let a = d.pointer_mut(p).unwrap().as_array_mut().unwrap();
            a.insert(if front { 0 } else { a.len() }, v);
        };
        // the same name as one there is; once more with a name of its own
        let own = ch.flag();
        let n = |s: &str| if own { format!("{s}-2") } else { s.to_string() };
        let what = match k {
            0 => { put("/network/nodes", json!({"meta": {"name": n("in1")}, "type": "Input"})); put("/network/edges", json!({"from_node": n("in1"), "to_node": "out1"})); "node" }
            1 => { put("/network/virtual_nodes", json!({"meta": {"name": n("vs1")}, "type": "Aggregated", "nodes": [{"name": "in1"}], "max_flow": lit(9.0)})); "virtual node" }
            2 => { put("/network/virtual_nodes", json!({"meta": {"name": n("in1")}, "type": "Aggregated", "nodes": [{"name": "in1"}], "max_flow": lit(9.0)})); "virtual node and node" }
            3 => { put("/network/parameters", cons(&n("p1"))); "parameter" }
            4 => { put("/network/parameters", cons(&n("i1"))); "parameter and index parameter" }
            5 => { put("/network/nodes/0/parameters", cons(&n("lp"))); "local parameter" }
            6 => { put("/network/tables", json!({"meta": {"name": n("t1")}, "type": "Scalar", "format": "CSV", "lookup": {"type": "Row", "cols": 1}, "url": "new.csv"})); "table" }
            7 => { put("/network/timeseries", json!({"meta": {"name": n("ts1")}, "type": "Polars", "url": "ts.csv", "time_col": "date"})); "time series" }
            8 => { put("/network/metric_sets", json!({"name": n("obs"), "metrics": [{"type": "Node", "name": "out1"}]})); "metric set" }
            // (Outputs are referred to by nothing; documents of the repository use a name twice.)
            9 => return ch.skip(),
            10 => { put("/scenarios/groups", json!({"name": n("sg"), "size": 2})); "scenario group" }
            11 => { d["scenarios"]["groups"][0]["labels"] = if own { json!(["x", "y"]) } else { json!(["x", "x"]) }; "scenario label" }
            _ => { put("/network/edges", if own { json!({"from_node": "in1", "to_node": "out1"}) } else { json!({"from_node": "in1", "to_node": "link1"}) }); "edge" }
        };
        ch.describe(|| format!("{what} own={own} {d}"));
        ch.state(&(k, front, own));
        let r = built(&d, &dir.0);
        match r {
            Ok(()) => chk!(own, format!("duplicate:{what}"), "there are two of a {what} of one name, and the model is built: {d}"),
            Err(e) => chk!(!own && !e.is_panic(), format!("duplicate:{what}:refused"), "own={own} {}: {d}", e.text()),
        }
        Ok(())
    });
}
