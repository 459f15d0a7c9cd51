//! C23: version 1 documents convert without silently losing or altering content.
//!
//! The oracle is a converter of its own, written from the two schemas' documentation over plain JSON: for every version 1
//! document it gives the version 2 counterpart of each component, or says that there is none (and then the conversion has
//! to name the component in its errors). Components extracted from inside others are compared in place, so their generated
//! names do not matter, except that they are unique and do not clash.
use crate::harness::*;
use crate::schema::build;
use pywr_schema::{ComponentConversionError, ModelSchema};
use serde_json::{Map, Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::LazyLock;

/// No counterpart: an error is due.
struct No;
type R = Result<Value, No>;

/// What the oracle knows of the document.
struct World {
    /// names of the virtual nodes
    virt: BTreeSet<String>,
    /// top-level parameters that are data frames, and what a reference to them becomes
    frames: BTreeMap<String, Value>,
    /// names of the top-level parameters
    tops: BTreeSet<String>,
}

fn f(v: &Value) -> f64 {
    v.as_f64().unwrap()
}

fn lit(v: f64) -> Value {
    json!({"type": "Literal", "value": v})
}

fn index(v: &Value) -> R {
    match v {
        Value::String(_) => Ok(v.clone()),
        Value::Array(a) if a.iter().all(|x| x.is_string()) => Ok(v.clone()),
        _ => Err(No),
    }
}

fn table(v: &Value) -> Result<Map<String, Value>, No> {
    let mut m = Map::new();
    m.insert("table".into(), v["table"].clone());
    if !v["column"].is_null() {
        m.insert("column".into(), index(&v["column"])?);
    }
    if !v["index"].is_null() {
        m.insert("row".into(), index(&v["index"])?);
    }
    Ok(m)
}

fn typed(t: &str, mut m: Map<String, Value>) -> Value {
    m.insert("type".into(), json!(t));
    Value::Object(m)
}

fn columns(v: &Value) -> R {
    match (v["column"].is_null(), v["scenario"].is_null()) {
        (true, true) => Ok(Value::Null),
        (false, true) => Ok(json!({"type": "Column", "name": v["column"]})),
        (true, false) => Ok(json!({"type": "Scenario", "name": v["scenario"]})),
        _ => Err(No),
    }
}

fn meta(v: &Value, name: Option<&str>) -> R {
    let mut m = Map::new();
    m.insert("name".into(), match (name, v["name"].as_str()) {
        (Some(n), _) => json!(n),
        (None, Some(n)) => json!(n),
        (None, None) => json!("*"),
    });
    for k in ["comment", "position"] {
        if !v[k].is_null() {
            m.insert(k.into(), v[k].clone());
        }
    }
    if let Some(t) = v["tags"].as_object() {
        if t.values().any(|x| !x.is_string()) {
            return Err(No);
        }
        m.insert("tags".into(), v["tags"].clone());
    }
    Ok(Value::Object(m))
}

fn checksum(v: &Value) -> R {
    if v.is_null() {
        return Ok(Value::Null);
    }
    if let Some(h) = v.get("md5") {
        return Ok(json!({"type": "MD5", "hash": h}));
    }
    if let Some(h) = v.get("sha256") {
        return Ok(json!({"type": "SHA256", "hash": h}));
    }
    Err(No)
}

/// The timeseries of a data frame with an url, and what stands for the parameter.
fn frame(v: &Value, name: Option<&str>) -> Result<(Option<Value>, Value), No> {
    let m = meta(v, name)?;
    for k in ["timestep_offset", "index", "indexes"] {
        if !v[k].is_null() {
            return Err(No);
        }
    }
    let c = columns(v)?;
    if let Some(u) = v["url"].as_str() {
        let known = ["type", "name", "comment", "is_variable", "tags", "scenario", "timestep_offset", "column", "index", "indexes", "table", "url", "checksum"];
        let mut kw: Map<String, Value> = v.as_object().unwrap().iter().filter(|(k, _)| !known.contains(&k.as_str())).map(|(k, x)| (k.clone(), x.clone())).collect();
        let time = match kw.remove("index_col") {
            None => Value::Null,
            Some(Value::String(s)) => json!(s),
            // the first column is the default of version 2
            Some(n) if n == json!(0) => Value::Null,
            Some(_) => return Err(No),
        };
        if u.ends_with(".csv") {
            kw.remove("parse_dates");
        }
        let d = json!({"type": "Pandas", "meta": m, "time_col": time, "url": u, "kwargs": kw, "checksum": checksum(&v["checksum"])?});
        return Ok((Some(d), json!({"columns": c})));
    }
    if let Some(t) = v["table"].as_str() {
        return Ok((None, json!({"type": "Timeseries", "name": t, "columns": c})));
    }
    Err(No)
}

fn inline(w: &World, v: &Value, int: bool) -> R {
    match v {
        Value::Number(_) if int => match f(v) {
            x if x >= 0.0 && x.fract() == 0.0 => Ok(json!({"type": "Constant", "value": x as u64})),
            _ => Err(No),
        },
        Value::Number(_) => Ok(lit(f(v))),
        Value::String(s) => Ok(match w.frames.get(s) {
            Some(x) if !int => x.clone(),
            _ => json!({"type": "Parameter", "name": s}),
        }),
        _ if v.get("type").is_some() => {
            if v["type"] == "dataframe" {
                let (d, mut r) = frame(v, None)?;
                if let Some(d) = d {
                    r["inline"] = d;
                }
                return Ok(r);
            }
            Ok(json!({"inline": param(w, v, None)?}))
        }
        _ => Ok(typed("Table", table(v)?)),
    }
}

fn metric(w: &World, v: &Value) -> R {
    inline(w, v, false)
}

fn list(w: &World, v: &Value) -> R {
    v.as_array().unwrap().iter().map(|x| metric(w, x)).collect::<Result<Vec<_>, _>>().map(Value::Array)
}

fn opt(w: &World, v: &Value) -> R {
    if v.is_null() { Ok(Value::Null) } else { metric(w, v) }
}

fn lits(v: &Value) -> Value {
    v.as_array().unwrap().iter().map(|x| lit(f(x))).collect()
}

/// A reference to a node, which may be a virtual one.
fn node_ref(w: &World, v: &Value, attr: Value) -> Value {
    let t = if w.virt.contains(v.as_str().unwrap()) { "VirtualNode" } else { "Node" };
    json!({"type": t, "name": v, "attribute": attr})
}

/// The constants of a profile: values, or a table.
fn values(v: &Value, tbl: &Value) -> R {
    if !v["values"].is_null() {
        return Ok(json!({"type": "Literal", "values": v["values"]}));
    }
    if !v["url"].is_null() || tbl["table"].is_null() {
        return Err(No);
    }
    Ok(typed("Table", table(tbl)?))
}

fn curves(w: &World, v: &Value) -> R {
    if !v["control_curves"].is_null() {
        return list(w, &v["control_curves"]);
    }
    if !v["control_curve"].is_null() {
        return Ok(json!([metric(w, &v["control_curve"])?]));
    }
    Err(No)
}

fn pair(v: &Value) -> R {
    match v.as_array() {
        None => Ok(Value::Null),
        Some(a) if a.len() == 2 => Ok(lits(v)),
        _ => Err(No),
    }
}

fn predicate(v: &Value) -> Value {
    json!(match v.as_str() {
        None => "LT",
        Some("<" | "lt" | "LT") => "LT",
        Some(">" | "gt" | "GT") => "GT",
        Some("==" | "eq" | "EQ") => "EQ",
        Some("<=" | "le" | "LE") => "LE",
        Some(_) => "GE",
    })
}

fn title(v: &Value) -> String {
    let s = v.as_str().unwrap();
    s[..1].to_uppercase() + &s[1..]
}

fn bounds(v: &Value) -> R {
    let k = &v["interp_kwargs"];
    if k["kind"].is_string() && k["kind"] != "linear" {
        return Err(No);
    }
    Ok(k["bounds_error"].clone())
}

/// The version 2 counterpart of a version 1 parameter.
fn param(w: &World, v: &Value, name: Option<&str>) -> R {
    let m = meta(v, name)?;
    let prop = json!("ProportionalVolume");
    let b = |t: &str, x: Value| {
        let mut x = x;
        x["type"] = json!(t);
        x["meta"] = m.clone();
        Ok(x)
    };
    match v["type"].as_str().unwrap() {
        "constant" if !v["value"].is_null() => b("Constant", json!({"value": lit(f(&v["value"]))})),
        "constant" if !v["values"].is_null() => b("Constant", json!({"value": lit(f(&v["values"]))})),
        "constant" if v["url"].is_null() && !v["table"].is_null() => b("Constant", json!({"value": typed("Table", table(v)?)})),
        "constantscenario" => b("ConstantScenario", json!({"values": values(v, v)?, "scenario_group": v["scenario"]})),
        "max" => b("Max", json!({"parameter": metric(w, &v["parameter"])?, "threshold": v["threshold"]})),
        "min" => b("Min", json!({"parameter": metric(w, &v["parameter"])?, "threshold": v["threshold"]})),
        "negative" => b("Negative", json!({"parameter": metric(w, &v["parameter"])?})),
        "negativemax" => b("NegativeMax", json!({"metric": metric(w, &v["parameter"])?, "threshold": v["threshold"]})),
        "negativemin" => b("NegativeMin", json!({"metric": metric(w, &v["parameter"])?, "threshold": v["threshold"]})),
        "division" => b("Division", json!({"numerator": metric(w, &v["numerator"])?, "denominator": metric(w, &v["denominator"])?, "phase": "Before"})),
        "aggregated" => b("Aggregated", json!({"agg_func": {"type": title(&v["agg_func"])}, "metrics": list(w, &v["parameters"])?, "phase": "Before"})),
        "aggregatedindex" => {
            let ms: Vec<Value> = v["parameters"].as_array().unwrap().iter().map(|x| inline(w, x, true)).collect::<Result<_, _>>()?;
            b("AggregatedIndex", json!({"agg_func": {"type": title(&v["agg_func"])}, "metrics": ms, "phase": "Before"}))
        }
        "asymmetricswitchindex" => b("AsymmetricSwitchIndex", json!({"on_index_parameter": inline(w, &v["on_index_parameter"], true)?, "off_index_parameter": inline(w, &v["off_index_parameter"], true)?})),
        "indexedarray" => {
            let ps = if v["parameters"].is_null() { &v["params"] } else { &v["parameters"] };
            b("IndexedArray", json!({"metrics": list(w, ps)?, "index_parameter": inline(w, &v["index_parameter"], true)?}))
        }
        "controlcurve" | "controlcurveinterpolated" => {
            let t = v["type"].as_str().unwrap();
            let cc = curves(w, v)?;
            let s = node_ref(w, &v["storage_node"], prop);
            let vals = match (v["values"].is_null(), v["parameters"].is_null()) {
                (false, true) => lits(&v["values"]),
                (true, false) => list(w, &v["parameters"])?,
                (true, true) if t == "controlcurve" => return b("ControlCurveIndex", json!({"control_curves": cc, "storage_metric": s})),
                _ => return Err(No),
            };
            b(if t == "controlcurve" { "ControlCurve" } else { "ControlCurveInterpolated" }, json!({"control_curves": cc, "storage_metric": s, "values": vals}))
        }
        "controlcurveindex" => b("ControlCurveIndex", json!({"control_curves": list(w, &v["control_curves"])?, "storage_metric": node_ref(w, &v["storage_node"], prop)})),
        "controlcurvepiecewiseinterpolated" if v["parameters"].is_null() => {
            b("ControlCurvePiecewiseInterpolated", json!({"control_curves": curves(w, v)?, "storage_metric": node_ref(w, &v["storage_node"], prop), "values": v["values"], "minimum": v["minimum"]}))
        }
        "dailyprofile" => b("DailyProfile", json!({"values": values(v, v)?})),
        "weeklyprofile" => b("WeeklyProfile", json!({"values": values(v, v)?})),
        "monthlyprofile" => {
            let day = if v["interp_day"].is_null() { Value::Null } else { json!(title(&v["interp_day"])) };
            b("MonthlyProfile", json!({"values": values(v, v)?, "interp_day": day}))
        }
        "uniformdrawdownprofile" => {
            let c = |k: &str| v[k].as_u64().map_or(Value::Null, |x| json!({"type": "Literal", "value": x}));
            b("UniformDrawdownProfile", json!({"reset_day": c("reset_day"), "reset_month": c("reset_month"), "residual_days": c("residual_days")}))
        }
        "rbfprofile" => {
            let (d, y, k) = (v["days_of_year"].as_array().unwrap(), v["values"].as_array().unwrap(), &v["rbf_kwargs"]);
            if d.len() != y.len() || k.get("smooth").is_some() || k.get("norm").is_some() {
                return Err(No);
            }
            let e = match k.get("epsilon") {
                None => Value::Null,
                Some(Value::Number(e)) => json!(e),
                Some(_) => return Err(No),
            };
            let fun = match k.get("function") {
                None => json!({"type": "MultiQuadric", "epsilon": e}),
                Some(Value::String(s)) => match s.as_str() {
                    "multiquadric" => json!({"type": "MultiQuadric", "epsilon": e}),
                    "inverse" => json!({"type": "InverseMultiQuadric", "epsilon": e}),
                    "gaussian" => json!({"type": "Gaussian", "epsilon": e}),
                    "linear" => json!({"type": "Linear"}),
                    "cubic" => json!({"type": "Cubic"}),
                    "thin_plate" => json!({"type": "ThinPlateSpline"}),
                    _ => return Err(No),
                },
                Some(_) => return Err(No),
            };
            let pts: Vec<Value> = d.iter().zip(y).map(|(d, y)| json!([d, y])).collect();
            b("RbfProfile", json!({"points": pts, "function": fun}))
        }
        "polynomial1d" => {
            let a = if v["use_proportional_volume"] == json!(false) { "Volume" } else { "ProportionalVolume" };
            b("Polynomial1D", json!({"metric": node_ref(w, &v["storage_node"], json!(a)), "coefficients": v["coefficients"], "scale": v["scale"], "offset": v["offset"]}))
        }
        "parameterthreshold" | "nodethreshold" | "storagethreshold" => {
            let x = match v["type"].as_str().unwrap() {
                "parameterthreshold" => metric(w, &v["parameter"])?,
                "nodethreshold" => node_ref(w, &v["node"], Value::Null),
                _ => node_ref(w, &v["storage_node"], Value::Null),
            };
            b("Threshold", json!({"metric": x, "threshold": metric(w, &v["threshold"])?, "returned_metrics": pair(&v["values"])?, "predicate": predicate(&v["predicate"]), "ratchet": false}))
        }
        "multiplethresholdindex" | "multiplethresholdparameterindex" => {
            let x = if v["type"] == "multiplethresholdindex" { node_ref(w, &v["node"], Value::Null) } else { metric(w, &v["parameter"])? };
            b("MultiThreshold", json!({"metric": x, "thresholds": list(w, &v["thresholds"])?, "predicate": "GE", "ratchet": false}))
        }
        "tablesarray" => b("TablesArray", json!({"node": v["node"], "where": v["where"], "scenario": v["scenario"], "checksum": checksum(&v["checksum"])?, "url": v["url"]})),
        "discountfactor" => {
            let y = v["base_year"].as_i64().unwrap();
            if y < i16::MIN as i64 || y > i16::MAX as i64 {
                return Err(No);
            }
            b("DiscountFactor", json!({"discount_rate": lit(f(&v["rate"])), "base_year": y}))
        }
        "interpolatedvolume" => b("Interpolated", json!({"x": node_ref(w, &v["node"], Value::Null), "xp": list(w, &v["volumes"])?, "fp": list(w, &v["values"])?, "error_on_bounds": bounds(v)?})),
        "interpolatedflow" => b("Interpolated", json!({"x": node_ref(w, &v["node"], Value::Null), "xp": list(w, &v["flows"])?, "fp": list(w, &v["values"])?, "error_on_bounds": bounds(v)?})),
        "hydropowertarget" => b(
            "HydropowerTarget",
            json!({"target": metric(w, &v["target"])?, "water_elevation": opt(w, &v["water_elevation_parameter"])?, "min_flow": opt(w, &v["min_flow"])?,
                "max_flow": opt(w, &v["max_flow"])?, "turbine_elevation": v["turbine_elevation"], "min_head": v["min_head"], "efficiency": v["efficiency"],
                "water_density": v["density"], "flow_unit_conversion": v["flow_unit_conversion"], "energy_unit_conversion": v["energy_unit_conversion"]}),
        ),
        "rollingmeanflownode" => match (v["timesteps"].as_i64(), v["days"].as_i64()) {
            (Some(n), None) if n >= 0 => b("Rolling", json!({"metric": node_ref(w, &v["node"], Value::Null), "window_size": n, "initial_value": v["initial_flow"].as_f64().unwrap_or(0.0), "agg_func": {"type": "Mean"}})),
            _ => Err(No),
        },
        _ => Err(No),
    }
}

fn start(v: &Value) -> R {
    if !v["initial_volume"].is_null() {
        return Ok(json!({"type": "Absolute", "volume": v["initial_volume"]}));
    }
    if !v["initial_volume_pc"].is_null() {
        return Ok(json!({"type": "Proportional", "proportion": v["initial_volume_pc"]}));
    }
    Err(No)
}

fn names(v: &Value) -> Value {
    v.as_array().unwrap().iter().map(|n| json!({"name": n})).collect()
}

/// The version 2 counterpart of a version 1 node, and whether it is a virtual one.
fn node(w: &World, v: &Value) -> Result<(bool, Value), No> {
    let m = meta(v, None)?;
    let o = |k: &str| opt(w, &v[k]);
    let fin = |virt: bool, t: &str, mut x: Value| {
        x["type"] = json!(t);
        x["meta"] = m.clone();
        Ok((virt, x))
    };
    let flows = |t: &str| fin(false, t, json!({"max_flow": o("max_flow")?, "min_flow": o("min_flow")?, "cost": o("cost")?}));
    let lens = |k: &str, n: usize| v[k].as_array().is_none_or(|a| a.len() == n);
    match v["type"].as_str().unwrap() {
        "input" => flows("Input"),
        "link" | "breaklink" => flows("Link"),
        "output" => flows("Output"),
        "storage" | "reservoir" => fin(false, "Storage", json!({"max_volume": o("max_volume")?, "min_volume": o("min_volume")?, "cost": o("cost")?, "initial_volume": start(v)?})),
        "catchment" => fin(false, "Catchment", json!({"flow": o("flow")?, "cost": o("cost")?})),
        "rivergauge" => fin(false, "RiverGauge", json!({"mrf": o("mrf")?, "mrf_cost": o("mrf_cost")?, "bypass_cost": o("cost")?})),
        "losslink" => {
            let l = o("loss_factor")?;
            let l = if l.is_null() { l } else { json!({"type": "Net", "factor": l}) };
            fin(false, "LossLink", json!({"loss_factor": l, "max_net_flow": o("max_flow")?, "min_net_flow": o("min_flow")?, "net_cost": o("cost")?}))
        }
        "river" if ["max_flow", "min_flow", "cost"].iter().all(|k| v[*k].is_null()) => fin(false, "River", json!({})),
        "piecewiselink" => {
            let n = v["nsteps"].as_u64().unwrap() as usize;
            if !lens("max_flows", n) || !lens("costs", n) {
                return Err(No);
            }
            let steps: Vec<Value> = (0..n).map(|i| Ok(json!({"max_flow": opt(w, &v["max_flows"][i])?, "cost": opt(w, &v["costs"][i])?}))).collect::<Result<_, _>>()?;
            fin(false, "PiecewiseLink", json!({"steps": steps}))
        }
        "delaynode" => {
            let d = v["days"].as_i64().or(v["timesteps"].as_i64()).filter(|d| *d >= 0).ok_or(No)?;
            fin(false, "Delay", json!({"delay": {"type": "Literal", "value": d}, "initial_value": {"type": "Literal", "value": v["initial_flow"].as_f64().unwrap_or(0.0)}}))
        }
        "riversplitwithgauge" => {
            let (fs, ss) = (v["factors"].as_array().unwrap(), v["slot_names"].as_array().unwrap());
            if !v["cost"].is_null() || fs.len() != ss.len() || fs.iter().any(|x| !x.is_number()) {
                return Err(No);
            }
            let sum: f64 = fs.iter().skip(1).map(f).sum::<f64>() + fs.first().map_or(0.0, f);
            let splits: Vec<Value> = fs.iter().zip(ss).skip(1).map(|(x, s)| json!({"factor": lit(f(x) / sum), "slot_name": s})).collect();
            fin(false, "RiverSplitWithGauge", json!({"mrf": o("mrf")?, "mrf_cost": o("mrf_cost")?, "splits": splits}))
        }
        "aggregatednode" if v["flow_weights"].is_null() => {
            let r = if v["factors"].is_null() { Value::Null } else { json!({"type": "Ratio", "factors": list(w, &v["factors"])?}) };
            fin(true, "Aggregated", json!({"nodes": names(&v["nodes"]), "relationship": r, "max_flow": o("max_flow")?, "min_flow": o("min_flow")?}))
        }
        "aggregatedstorage" => fin(true, "AggregatedStorage", json!({"storage_nodes": names(&v["storage_nodes"])})),
        t @ ("virtualstorage" | "annualvirtualstorage" | "monthlyvirtualstorage" | "seasonalvirtualstorage" | "rollingvirtualstorage") => {
            let day = |k: &str, d: i64| v[k].as_i64().unwrap_or(d);
            let fits = |ks: &[&str]| ks.iter().all(|k| day(k, 1) <= 127);
            let mut x = json!({"nodes": names(&v["nodes"]), "factors": v["factors"], "max_volume": o("max_volume")?, "min_volume": o("min_volume")?, "cost": o("cost")?, "initial_volume": start(v)?});
            match t {
                "annualvirtualstorage" if fits(&["reset_day", "reset_month"]) => x["reset"] = json!({"type": "Annual", "day": day("reset_day", 1), "month": day("reset_month", 1)}),
                "monthlyvirtualstorage" if day("initial_months", 1) == 1 => x["reset"] = json!({"type": "Monthly", "months": day("months", 1)}),
                "seasonalvirtualstorage" if fits(&["reset_day", "reset_month", "end_day", "end_month"]) => {
                    x["reset"] = json!({"type": "Seasonal", "start_day": day("reset_day", 1), "start_month": day("reset_month", 1), "end_day": day("end_day", 31), "end_month": day("end_month", 12)})
                }
                "rollingvirtualstorage" => {
                    x["window"] = match (v["days"].as_i64(), v["timesteps"].as_i64()) {
                        (Some(d), _) if d > 0 => json!({"type": "Days", "days": d}),
                        (None, Some(s)) if s > 0 => json!({"type": "Timesteps", "timesteps": s}),
                        _ => return Err(No),
                    }
                }
                "virtualstorage" => {}
                _ => return Err(No),
            }
            if x.get("reset").is_some() {
                x["reset_volume"] = json!(if v["reset_to_initial_volume"] == json!(true) { "Initial" } else { "Max" });
            }
            fin(true, "VirtualStorage", x)
        }
        _ => Err(No),
    }
}

/// Without nulls, empty tags and the phases of the type tags.
fn slim(v: &Value) -> Value {
    match v {
        Value::Object(o) => Value::Object(o.iter().filter(|(k, x)| !x.is_null() && !(k.as_str() == "tags" && x.as_object().is_some_and(|t| t.is_empty()))).map(|(k, x)| (k.clone(), slim(x))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(slim).collect()),
        _ => v.clone(),
    }
}

/// Equal, up to the representation of numbers and generated names (`*`).
fn same(e: &Value, a: &Value) -> bool {
    match (e, a) {
        (Value::Object(e), Value::Object(a)) => e.len() == a.len() && e.iter().all(|(k, x)| a.get(k).is_some_and(|y| (k == "name" && x == "*" && y.is_string()) || same(x, y))),
        (Value::Array(e), Value::Array(a)) => e.len() == a.len() && e.iter().zip(a).all(|(x, y)| same(x, y)),
        (Value::Number(e), Value::Number(a)) => (e.as_f64().unwrap() - a.as_f64().unwrap()).abs() <= 1e-12 * e.as_f64().unwrap().abs(),
        _ => e == a,
    }
}

/// The converted document with the extracted components put back in place.
struct Found {
    params: BTreeMap<String, Value>,
    series: BTreeMap<String, Value>,
    used: BTreeMap<String, usize>,
}

fn put_back(w: &World, d: &mut Found, v: &Value) -> Value {
    match v {
        Value::Object(o) => {
            if let (Some(t), Some(n)) = (o.get("type").and_then(|t| t.as_str()), o.get("name").and_then(|n| n.as_str())) {
                if t == "Parameter" && !w.tops.contains(n) {
                    if let Some(p) = d.params.get(n).cloned() {
                        *d.used.entry(format!("parameter {n}")).or_default() += 1;
                        return json!({"inline": put_back(w, d, &p)});
                    }
                }
                if t == "Timeseries" && !w.frames.contains_key(n) {
                    if let Some(s) = d.series.get(n).cloned() {
                        *d.used.entry(format!("timeseries {n}")).or_default() += 1;
                        let mut r = json!({"inline": s});
                        if let Some(c) = o.get("columns") {
                            r["columns"] = c.clone();
                        }
                        return r;
                    }
                }
            }
            Value::Object(o.iter().map(|(k, x)| (k.clone(), put_back(w, d, x))).collect())
        }
        Value::Array(a) => Value::Array(a.iter().map(|x| put_back(w, d, x)).collect()),
        _ => v.clone(),
    }
}

fn named(v: &Value) -> Result<Vec<(String, Value)>, Fail> {
    Ok(v.as_array().map(|a| a.iter().map(|x| (x["meta"]["name"].as_str().unwrap_or("").to_string(), x.clone())).collect()).unwrap_or_default())
}

fn convert(d: &Value) -> Result<(ModelSchema, Vec<ComponentConversionError>), Fail> {
    let s = d.to_string();
    imp(|| ModelSchema::from_v1_str(&s).map_err(|e| e.to_string())).or_else(|e| fail(if e.is_panic() { "panic" } else { "unread" }, format!("the document is not converted: {}", e.text())))
}

/// Convert, and compare every component with its counterpart.
fn compare(d: &Value) -> Result<(ModelSchema, Value, usize), Fail> {
    let (m, errors) = convert(d)?;
    let out = slim(&serde_json::to_value(&m).or_else(|e| fail("unwritable", format!("the converted document cannot be written: {e}")))?);
    let net = &out["network"];
    let mut w = World { virt: BTreeSet::new(), frames: BTreeMap::new(), tops: BTreeSet::new() };
    let none = vec![];
    let v1n = d["nodes"].as_array().unwrap_or(&none);
    for n in v1n {
        let t = n["type"].as_str().unwrap();
        if t.contains("virtualstorage") || t.starts_with("aggregated") {
            w.virt.insert(n["name"].as_str().unwrap().to_string());
        }
    }
    let empty = Map::new();
    let v1p = d["parameters"].as_object().unwrap_or(&empty);
    for (k, p) in v1p {
        w.tops.insert(k.clone());
        if p["type"] == "dataframe" {
            if let Ok((def, mut r)) = frame(p, Some(k)) {
                if def.is_some() {
                    r["type"] = json!("Timeseries");
                    r["name"] = json!(k);
                }
                w.frames.insert(k.clone(), slim(&r));
            }
        }
    }
    // what is there
    let mut have = Found { params: BTreeMap::new(), series: BTreeMap::new(), used: BTreeMap::new() };
    for (n, p) in named(&net["parameters"])? {
        chk!(have.params.insert(n.clone(), p).is_none(), "twice", "two parameters are named `{n}`");
    }
    for (n, p) in named(&net["timeseries"])? {
        chk!(have.series.insert(n.clone(), p).is_none(), "twice", "two timeseries are named `{n}`");
    }
    let mut nodes: BTreeMap<String, (bool, Value)> = BTreeMap::new();
    for (virt, k) in [(false, "nodes"), (true, "virtual_nodes")] {
        for (n, p) in named(&net[k])? {
            chk!(nodes.insert(n.clone(), (virt, p)).is_none(), "twice", "two nodes are named `{n}`");
        }
    }
    let mut missing_n = BTreeSet::new();
    let mut missing_p = BTreeSet::new();
    let mut named_p = BTreeSet::new();
    for e in &errors {
        match e {
            ComponentConversionError::Node { name, .. } => {
                missing_n.insert(name.clone());
            }
            ComponentConversionError::Parameter { name, .. } => {
                named_p.insert(name.clone());
            }
            _ => {}
        }
    }
    // nodes
    for n in v1n {
        let name = n["name"].as_str().unwrap();
        match node(&w, n) {
            Ok((virt, e)) => {
                let e = slim(&e);
                chk!(!missing_n.contains(name) && !named_p.contains(name), "refused", "the node {n} is not converted: {}", errors.iter().map(|e| e.to_string()).collect::<Vec<_>>().join("; "));
                let Some((v, a)) = nodes.remove(name) else { return fail("lost", format!("the node {n} is lost without an error")) };
                let a = put_back(&w, &mut have, &a);
                chk!(v == virt && same(&e, &a), "differs", "the node {n} becomes {a}, not {e}");
            }
            Err(No) => {
                chk!(missing_n.contains(name) || named_p.contains(name), "silent", "the node {n} has no counterpart, but there is no error; it becomes {}", nodes.get(name).map(|x| x.1.to_string()).unwrap_or("nothing".into()));
                chk!(!nodes.contains_key(name), "half", "the node {n} is in the errors, but converted too");
                missing_n.remove(name);
            }
        }
    }
    chk!(nodes.is_empty(), "invented", "the nodes {:?} are new", nodes.keys().collect::<Vec<_>>());
    // parameters
    for (k, p) in v1p {
        if p["type"] == "dataframe" {
            match frame(p, Some(k)) {
                Ok((def, _)) => {
                    chk!(!named_p.contains(k), "refused", "the parameter {k}: {p} is not converted: {}", errors.iter().map(|e| e.to_string()).collect::<Vec<_>>().join("; "));
                    let a = have.series.get(k).cloned();
                    match (def.map(|d| slim(&d)), a) {
                        (None, None) => {}
                        (Some(e), Some(a)) => chk!(same(&e, &a), "differs", "the parameter {k}: {p} becomes {a}, not {e}"),
                        (e, a) => return fail("differs", format!("the parameter {k}: {p} becomes {a:?}, not {e:?}")),
                    }
                    chk!(!have.params.contains_key(k), "differs", "the data frame {k} is still a parameter");
                }
                Err(No) => {
                    chk!(named_p.contains(k), "silent", "the parameter {k}: {p} has no counterpart, but there is no error; it becomes {}", have.series.get(k).map(|x| x.to_string()).unwrap_or("nothing".into()));
                    missing_p.insert(k.clone());
                }
            }
            continue;
        }
        match param(&w, p, Some(k)) {
            Ok(e) => {
                let e = slim(&e);
                chk!(!named_p.contains(k), "refused", "the parameter {k}: {p} is not converted: {}", errors.iter().map(|e| e.to_string()).collect::<Vec<_>>().join("; "));
                let Some(a) = have.params.get(k).cloned() else { return fail("lost", format!("the parameter {k}: {p} is lost without an error")) };
                let a = put_back(&w, &mut have, &a);
                chk!(same(&e, &a), "differs", "the parameter {k}: {p} becomes {a}, not {e}");
            }
            Err(No) => {
                chk!(named_p.contains(k), "silent", "the parameter {k}: {p} has no counterpart, but there is no error; it becomes {}", have.params.get(k).map(|x| x.to_string()).unwrap_or("nothing".into()));
                chk!(!have.params.contains_key(k), "half", "the parameter {k} is in the errors, but converted too");
                missing_p.insert(k.clone());
            }
        }
    }
    // nothing else is in the document, unless it belongs to a component that failed
    for (k, n) in &have.used {
        chk!(*n == 1, "shared", "the extracted {k} is used {n} times");
    }
    if errors.iter().all(|e| !matches!(e, ComponentConversionError::Node { .. } | ComponentConversionError::Parameter { .. })) {
        for k in have.params.keys() {
            chk!(w.tops.contains(k) || have.used.contains_key(&format!("parameter {k}")), "invented", "the parameter `{k}` is new and not used");
        }
        for k in have.series.keys() {
            chk!(w.tops.contains(k) || have.used.contains_key(&format!("timeseries {k}")), "invented", "the timeseries `{k}` is new and not used");
        }
    }
    chk!(missing_n.is_empty(), "wrong-error", "errors are reported for {missing_n:?}: {}", errors.iter().map(|e| e.to_string()).collect::<Vec<_>>().join("; "));
    let other = errors.iter().filter(|e| !matches!(e, ComponentConversionError::Node { .. } | ComponentConversionError::Parameter { .. })).count();
    Ok((m, out, other))
}

// ---- the documents ----

/// One of the forms of a value; `k` makes the names in it unique.
fn form(i: usize, k: &str) -> Option<Value> {
    Some(match i {
        0 => return None,
        1 => json!(2.5),
        2 => json!("p"),
        3 => json!({"type": "constant", "value": 3.5}),
        4 => json!({"type": "flow", "node": "lnk"}),
        5 => json!("df"),
        6 => json!({"type": "dataframe", "url": "a.csv", "column": "x", "index_col": "Date", "parse_dates": true, "sep": ";"}),
        7 => json!({"table": "t", "column": "c", "index": "i"}),
        8 => json!({"type": "constant", "name": format!("{k}-n"), "value": 4.5, "comment": "why"}),
        9 => json!({"type": "aggregated", "agg_func": "min", "parameters": [3, {"type": "constant", "value": 6}, "p", "df", {"type": "dataframe", "url": "b.csv", "scenario": "s"}]}),
        10 => json!({"table": "t", "column": 1}),
        11 => json!({"type": "controlcurve", "storage_node": "res", "control_curve": {"type": "constant", "value": 0.5}}),
        12 => json!({"type": "controlcurve", "storage_node": "vs", "control_curves": [0.5], "parameters": [{"type": "flow", "node": "lnk"}, 1]}),
        13 => json!({"table": "t", "column": ["c", "d"], "index": ["i", "j"]}),
        14 => json!({"type": "negative", "parameter": {"type": "negative", "parameter": {"type": "max", "parameter": "p", "threshold": 1}}}),
        15 => json!({"type": "constant", "name": format!("{k}-m"), "value": 4.5, "tags": {"a": 1}}),
        _ => json!("df2"),
    })
}
const FORMS: usize = 17;

fn base() -> Value {
    json!({
        "metadata": {"title": "t"},
        "timestepper": {"start": "2020-01-01", "end": "2020-01-05", "timestep": 1},
        "nodes": [
            {"name": "res", "type": "storage", "max_volume": 10, "initial_volume": 5},
            {"name": "lnk", "type": "link"},
            {"name": "vs", "type": "virtualstorage", "nodes": ["lnk"], "max_volume": 10, "initial_volume": 5},
            {"name": "agg", "type": "aggregatednode", "nodes": ["lnk"]},
            {"name": "aggs", "type": "aggregatedstorage", "storage_nodes": ["res"]}
        ],
        "edges": [],
        "parameters": {
            "p": {"type": "constant", "value": 1.5},
            "df": {"type": "dataframe", "url": "f.csv", "column": "y", "index_col": "Time", "checksum": {"md5": "00"}},
            "df2": {"type": "dataframe", "table": "t", "column": "z"}
        }
    })
}

/// How an attribute varies.
#[derive(Clone)]
enum A {
    /// absent, or a value of any form
    M(&'static str),
    /// a value of any form
    V(&'static str),
    /// two values of any form
    V2(&'static str),
    /// an index: a value of any form that can be one
    I(&'static str),
    /// one of these (null: absent)
    O(&'static str, Vec<Value>),
}

fn node_kinds() -> Vec<(&'static str, Vec<A>)> {
    let flows = || vec![A::M("max_flow"), A::M("min_flow"), A::M("cost")];
    let init = || vec![A::O("initial_volume", vec![json!(3), json!(null)]), A::O("initial_volume_pc", vec![json!(null), json!(0.5)])];
    let store = || [vec![A::M("max_volume"), A::M("min_volume"), A::M("cost")], init()].concat();
    let vs = || [store(), vec![A::O("nodes", vec![json!(["lnk"]), json!(["lnk", "res"])]), A::O("factors", vec![json!(null), json!([2.0])])]].concat();
    let reset = || A::O("reset_to_initial_volume", vec![json!(null), json!(true), json!(false)]);
    let ints = |k: &'static str, v: &[i64]| A::O(k, std::iter::once(json!(null)).chain(v.iter().map(|x| json!(x))).collect());
    vec![
        ("input", flows()),
        ("link", flows()),
        ("output", flows()),
        ("breaklink", flows()),
        ("river", flows()),
        ("storage", store()),
        ("reservoir", store()),
        ("catchment", vec![A::M("flow"), A::M("cost")]),
        ("rivergauge", vec![A::M("mrf"), A::M("mrf_cost"), A::M("cost")]),
        ("losslink", [flows(), vec![A::M("loss_factor")]].concat()),
        (
            "piecewiselink",
            vec![
                A::O("nsteps", vec![json!(1), json!(2), json!(3)]),
                A::O("costs", vec![json!(null), json!([1]), json!([1, "p"]), json!([{"type": "constant", "value": 1}, {"type": "constant", "value": 2}, 3]), json!([1, 2, 3, 4]), json!(["df", "q", {"type": "flow", "node": "lnk"}])]),
                A::O("max_flows", vec![json!(null), json!([5]), json!([5, null]), json!([{"type": "constant", "value": 1}, "df", null]), json!([1, 2, 3, 4]), json!([null, {"type": "flow", "node": "lnk"}])]),
            ],
        ),
        ("delaynode", vec![ints("days", &[3, 0, -1]), ints("timesteps", &[2, -2]), A::O("initial_flow", vec![json!(null), json!(1.5)])]),
        (
            "riversplitwithgauge",
            vec![
                A::M("mrf"),
                A::M("mrf_cost"),
                A::O("cost", vec![json!(null), json!(-5)]),
                A::O("factors", vec![json!([3, 1]), json!([1, 2, 5]), json!([1]), json!([]), json!([1, "p"]), json!(["p", 1]), json!([1, {"type": "constant", "value": 1}])]),
                A::O("slot_names", vec![json!(["river", "canal"]), json!(["river", "a", "b"]), json!(["river"]), json!([])]),
            ],
        ),
        (
            "aggregatednode",
            vec![
                A::M("max_flow"),
                A::M("min_flow"),
                A::O("nodes", vec![json!(["lnk"]), json!(["lnk", "res"])]),
                A::O("factors", vec![json!(null), json!([1, 2]), json!(["p", "df"]), json!([{"type": "constant", "value": 2}, {"type": "constant", "value": 3}]), json!([1, {"type": "flow", "node": "lnk"}])]),
                A::O("flow_weights", vec![json!(null), json!([1, 2])]),
            ],
        ),
        ("aggregatedstorage", vec![A::O("storage_nodes", vec![json!(["res"]), json!(["res", "aux"]), json!([])])]),
        ("virtualstorage", vs()),
        ("annualvirtualstorage", [vs(), vec![ints("reset_day", &[15, 300]), ints("reset_month", &[4, 300]), reset()]].concat()),
        ("monthlyvirtualstorage", [vs(), vec![ints("months", &[3]), ints("initial_months", &[1, 2]), reset()]].concat()),
        ("seasonalvirtualstorage", [vs(), vec![ints("reset_day", &[15, 300]), ints("reset_month", &[4, 300]), ints("end_day", &[20, 300]), ints("end_month", &[9, 300]), reset()]].concat()),
        ("rollingvirtualstorage", [vs(), vec![ints("days", &[7, 0, -1]), ints("timesteps", &[5, 0, -1])]].concat()),
        ("multisplitlink", vec![A::O("factors", vec![json!([1, 2])]), A::O("slot_names", vec![json!(["a", "b"])])]),
        ("riversplit", vec![A::O("factors", vec![json!([1, 2])]), A::O("slot_names", vec![json!(["a", "b"])])]),
        ("strange", vec![A::O("max_flow", vec![json!(1)])]),
    ]
}

fn param_kinds() -> Vec<(&'static str, Vec<A>)> {
    let stores = || A::O("storage_node", vec![json!("res"), json!("vs"), json!("aggs")]);
    let nodes = || A::O("node", vec![json!("lnk"), json!("vs"), json!("agg"), json!("res"), json!("aggs")]);
    let thr = || A::O("threshold", vec![json!(null), json!(1.5)]);
    let inl = || json!({"type": "constant", "value": 0.25});
    let curve = || A::O("control_curve", vec![json!(null), json!(0.5), json!("p"), json!("df"), inl(), json!({"type": "flow", "node": "lnk"})]);
    let curves = || A::O("control_curves", vec![json!(null), json!([0.5]), json!(["p", "df"]), json!([inl(), inl()]), json!([0.5, {"type": "flow", "node": "lnk"}])]);
    let pars = || A::O("parameters", vec![json!(null), json!([1, 2]), json!(["p", "df"]), json!([inl(), inl(), inl()]), json!([1, {"type": "flow", "node": "lnk"}])]);
    let vals = || A::O("values", vec![json!(null), json!([7, 8])]);
    let pred = || A::O("predicate", vec![json!(null), json!("<"), json!(">"), json!("=="), json!("<="), json!(">="), json!("LT"), json!("GT"), json!("EQ"), json!("LE"), json!("GE")]);
    let two = || A::O("values", vec![json!(null), json!([7, 8]), json!([7]), json!([7, 8, 9])]);
    let url = || A::O("url", vec![json!(null), json!("x.csv")]);
    let tref = || vec![A::O("table", vec![json!(null), json!("t")]), A::O("column", vec![json!(null), json!("c"), json!(3), json!(["c", "d"])]), A::O("index", vec![json!(null), json!("i"), json!(["i", "j"]), json!(2)]), url()];
    let kwargs = || A::O("interp_kwargs", vec![json!(null), json!({}), json!({"bounds_error": true}), json!({"bounds_error": false, "kind": "linear"}), json!({"kind": "cubic"})]);
    let nums = |k: &'static str| A::O(k, vec![json!(null), json!(0.75)]);
    vec![
        ("constant", [vec![A::O("value", vec![json!(null), json!(2), json!(0), json!(-1.5)])], tref()].concat()),
        ("constant", vec![A::O("values", vec![json!(2)])]),
        ("constantscenario", [vec![A::O("scenario", vec![json!("s")]), vals()], tref()].concat()),
        ("max", vec![A::V("parameter"), thr()]),
        ("min", vec![A::V("parameter"), thr()]),
        ("negative", vec![A::V("parameter")]),
        ("negativemax", vec![A::V("parameter"), thr()]),
        ("negativemin", vec![A::V("parameter"), thr()]),
        ("division", vec![A::V("numerator"), A::V("denominator")]),
        ("aggregated", vec![A::O("agg_func", vec![json!("sum"), json!("product"), json!("max"), json!("min")]), A::V2("parameters")]),
        ("aggregatedindex", vec![A::O("agg_func", vec![json!("sum"), json!("product"), json!("max"), json!("min"), json!("any"), json!("all")]), A::O("parameters", vec![json!([1, "p"]), json!([]), json!([2.5]), json!([-1]), json!([{"type": "asymmetricswitchindex", "on_index_parameter": 1, "off_index_parameter": "p"}, 0])])]),
        ("asymmetricswitchindex", vec![A::I("on_index_parameter"), A::I("off_index_parameter")]),
        ("indexedarray", vec![A::V2("parameters"), A::I("index_parameter")]),
        ("indexedarray", vec![A::V2("params"), A::I("index_parameter")]),
        ("controlcurve", vec![stores(), curve(), curves(), vals(), pars()]),
        ("controlcurveinterpolated", vec![stores(), curve(), curves(), vals(), pars()]),
        ("controlcurveindex", vec![stores(), A::V2("control_curves")]),
        ("controlcurvepiecewiseinterpolated", vec![stores(), curve(), curves(), A::O("values", vec![json!(null), json!([[1, 2], [3, 4]])]), pars(), A::O("minimum", vec![json!(null), json!(0.1)])]),
        ("dailyprofile", [vec![vals()], tref()].concat()),
        ("weeklyprofile", [vec![vals()], tref()].concat()),
        (
            "monthlyprofile",
            [vec![A::O("interp_day", vec![json!(null), json!("first"), json!("last")]), A::O("values", vec![json!(null), json!([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12])])], tref()].concat(),
        ),
        ("uniformdrawdownprofile", vec![A::O("reset_day", vec![json!(null), json!(5)]), A::O("reset_month", vec![json!(null), json!(9)]), A::O("residual_days", vec![json!(null), json!(30)])]),
        (
            "rbfprofile",
            vec![
                A::O("days_of_year", vec![json!([1, 90, 180]), json!([1, 90])]),
                A::O("values", vec![json!([0.5, 0.25, 0.75]), json!([0.5, 0.25])]),
                A::O(
                    "rbf_kwargs",
                    vec![
                        json!({}),
                        json!({"function": "multiquadric", "epsilon": 2}),
                        json!({"function": "inverse"}),
                        json!({"function": "gaussian", "epsilon": 3.5}),
                        json!({"function": "linear"}),
                        json!({"function": "cubic"}),
                        json!({"function": "thin_plate"}),
                        json!({"function": "quintic"}),
                        json!({"function": 3}),
                        json!({"epsilon": 4}),
                        json!({"epsilon": "x"}),
                        json!({"smooth": 1}),
                        json!({"norm": "x"}),
                    ],
                ),
            ],
        ),
        ("polynomial1d", vec![stores(), A::O("coefficients", vec![json!([1, 2])]), A::O("use_proportional_volume", vec![json!(null), json!(true), json!(false)]), nums("scale"), nums("offset")]),
        ("parameterthreshold", vec![A::V("parameter"), A::V("threshold"), two(), pred()]),
        ("nodethreshold", vec![nodes(), A::V("threshold"), two(), pred()]),
        ("storagethreshold", vec![stores(), A::V("threshold"), two(), pred()]),
        ("multiplethresholdindex", vec![nodes(), A::V2("thresholds")]),
        ("multiplethresholdparameterindex", vec![A::V("parameter"), A::V2("thresholds")]),
        ("currentyearthreshold", vec![A::V("threshold"), two()]),
        ("currentordinaldaythreshold", vec![A::V("threshold"), two()]),
        ("tablesarray", vec![A::O("node", vec![json!("/a")]), A::O("where", vec![json!("b")]), A::O("scenario", vec![json!(null), json!("s")]), A::O("url", vec![json!("x.h5")]), A::O("checksum", vec![json!(null), json!({"md5": "00"}), json!({"sha256": "11"}), json!({"sha1": "22"})])]),
        (
            "dataframe",
            vec![
                A::O("url", vec![json!(null), json!("x.csv"), json!("x.h5")]),
                A::O("table", vec![json!(null), json!("t")]),
                A::O("column", vec![json!(null), json!("c")]),
                A::O("scenario", vec![json!(null), json!("s")]),
                A::O("checksum", vec![json!(null), json!({"md5": "00"}), json!({"sha1": "22"})]),
                A::O("index_col", vec![json!(null), json!("Date"), json!(0), json!(1)]),
                A::O("parse_dates", vec![json!(null), json!(true)]),
                A::O("timestep_offset", vec![json!(null), json!(1)]),
                A::O("index", vec![json!(null), json!("i")]),
                A::O("indexes", vec![json!(null), json!("i")]),
                A::O("key", vec![json!(null), json!("k")]),
            ],
        ),
        ("deficit", vec![nodes()]),
        ("flow", vec![nodes()]),
        ("storage", vec![stores()]),
        ("strange", vec![stores()]),
        ("scenariowrapper", vec![A::O("scenario", vec![json!("s")]), A::O("parameters", vec![json!([1, 2])])]),
        ("discountfactor", vec![A::O("rate", vec![json!(0.05)]), A::O("base_year", vec![json!(2020), json!(70000), json!(-40000)])]),
        ("interpolatedvolume", vec![nodes(), A::V2("volumes"), A::O("values", vec![json!([1, 2])]), kwargs()]),
        ("interpolatedflow", vec![nodes(), A::O("flows", vec![json!([1, 2])]), A::V2("values"), kwargs()]),
        ("hydropowertarget", vec![A::V("target"), A::M("water_elevation_parameter"), A::M("max_flow"), A::M("min_flow")]),
        ("hydropowertarget", vec![A::O("target", vec![json!(1)]), nums("turbine_elevation"), nums("efficiency"), nums("density"), nums("min_head"), nums("flow_unit_conversion"), nums("energy_unit_conversion")]),
        ("rollingmeanflownode", vec![nodes(), A::O("timesteps", vec![json!(null), json!(3), json!(0), json!(-1)]), A::O("days", vec![json!(null), json!(3)]), A::O("initial_flow", vec![json!(null), json!(1.5)])]),
    ]
}

static NODES: LazyLock<Vec<(&str, Vec<A>)>> = LazyLock::new(node_kinds);
static PARAMS: LazyLock<Vec<(&str, Vec<A>)>> = LazyLock::new(param_kinds);

/// The attributes, each in one of its ways; `wide` values take every form, the others the first few.
fn fill(ch: &mut Ch, o: &mut Value, attrs: &[A], wide: usize, narrow: usize) {
    let ms = attrs.iter().filter(|a| !matches!(a, A::O(..))).map(|a| if matches!(a, A::V2(_)) { 2 } else { 1 }).sum::<usize>();
    let others: usize = attrs.iter().map(|a| if let A::O(_, v) = a { v.len() } else { 1 }).product();
    let n = if ms <= 1 || (ms == 2 && others <= 24) { FORMS } else if ms <= 3 && others <= 4 { wide } else { narrow };
    let mut k = 0;
    let mut pick = |ch: &mut Ch, none: bool| {
        k += 1;
        let i = ch.pick(if none { n } else { n - 1 }) + if none { 0 } else { 1 };
        form(i, &format!("x{k}"))
    };
    for a in attrs {
        match a {
            A::M(s) => {
                if let Some(v) = pick(ch, true) {
                    o[*s] = v;
                }
            }
            A::V(s) => o[*s] = pick(ch, false).unwrap(),
            A::V2(s) => o[*s] = json!([pick(ch, false), pick(ch, false)]),
            A::I(s) => {
                o[*s] = ch.of(&[
                    json!(1),
                    json!(0),
                    json!(1.5),
                    json!(-2),
                    json!("p"),
                    json!({"type": "asymmetricswitchindex", "on_index_parameter": {"type": "asymmetricswitchindex", "on_index_parameter": 0, "off_index_parameter": "p"}, "off_index_parameter": 1}),
                    json!({"type": "flow", "node": "lnk"}),
                    json!({"table": "t", "column": "c", "index": "i"}),
                ]) 
            }
            A::O(s, vs) => {
                let v = ch.of(vs);
                if !v.is_null() {
                    o[*s] = v;
                }
            }
        }
    }
}

fn decorate(ch: &mut Ch, o: &mut Value, node: bool) {
    match ch.pick(4) {
        0 => {}
        1 => o["comment"] = json!("c"),
        2 => o["tags"] = json!({"a": "b", "c": "d"}),
        _ => o["tags"] = json!({"a": 3}),
    }
    if node {
        match ch.pick(4) {
            0 => {}
            1 => o["position"] = json!({"schematic": [1.0, 2.0]}),
            2 => o["position"] = json!({"geographic": [3.0, 4.5]}),
            _ => o["position"] = json!({"schematic": [1.0, 2.0], "geographic": [3.0, 4.5]}),
        }
    }
}

pub fn c23(cx: &Cx) {
    let (wide, narrow) = (cx.b(9, 13), cx.b(4, 6));
    // every node kind, every way of giving its attributes
    cx.explore("nodes", |ch| {
        let kinds = &*NODES;
        let (t, attrs) = &kinds[ch.pick(kinds.len())];
        let mut n = json!({"name": "x", "type": t});
        fill(ch, &mut n, attrs, wide, narrow);
        let mut d = base();
        d["nodes"].as_array_mut().unwrap().push(n.clone());
        ch.describe(|| n.to_string());
        compare(&d)?;
        Ok(())
    });
    // every parameter kind, as a parameter of its own and inside others
    cx.explore("parameters", |ch| {
        let kinds = &*PARAMS;
        let (t, attrs) = &kinds[ch.pick(kinds.len())];
        let mut p = json!({"type": t});
        fill(ch, &mut p, attrs, wide, narrow);
        let mut d = base();
        match ch.pick(4) {
            0 => d["parameters"]["x"] = p.clone(),
            1 => d["nodes"][1]["max_flow"] = p.clone(),
            2 => {
                p["name"] = json!("own");
                d["nodes"][2]["max_volume"] = p.clone()
            }
            _ => d["parameters"]["x"] = json!({"type": "aggregated", "agg_func": "sum", "parameters": [p, 2, {"type": "constant", "value": 1}]}),
        }
        ch.describe(|| p.to_string());
        compare(&d)?;
        Ok(())
    });
    // what all nodes and parameters have
    cx.explore("notes", |ch| {
        let mut d = base();
        if ch.flag() {
            let kinds = &*NODES;
            let (t, attrs) = &kinds[ch.pick(kinds.len())];
            let mut n = json!({"name": "x", "type": t});
            for a in attrs {
                if let A::O(s, v) = a {
                    n[*s] = v.iter().find(|x| !x.is_null()).unwrap().clone();
                }
            }
            decorate(ch, &mut n, true);
            ch.describe(|| n.to_string());
            d["nodes"].as_array_mut().unwrap().push(n);
        } else {
            let kinds = &*PARAMS;
            let (t, attrs) = &kinds[ch.pick(kinds.len())];
            let mut p = json!({"type": t});
            for a in attrs {
                match a {
                    A::O(s, v) => p[*s] = v[0].clone(),
                    A::M(s) | A::V(s) | A::I(s) => p[*s] = json!(1),
                    A::V2(s) => p[*s] = json!([1, 2]),
                }
            }
            let o = p.as_object_mut().unwrap();
            o.retain(|_, x| !x.is_null());
            decorate(ch, &mut p, false);
            let own = ch.flag();
            if own && !p["comment"].is_null() {
                // the comment of a parameter of its own does not get through the v1 schema, a dependency
                return ch.skip();
            }
            ch.describe(|| p.to_string());
            if own { d["parameters"]["x"] = p } else { d["nodes"][1]["max_flow"] = p }
        }
        compare(&d)?;
        Ok(())
    });
    // the names a type goes by
    cx.explore("spellings", |ch| {
        let kinds = &*PARAMS;
        let (t, attrs) = &kinds[ch.pick(kinds.len())];
        let mut p = json!({"type": t});
        for a in attrs {
            match a {
                A::O(s, v) => p[*s] = v[0].clone(),
                A::M(s) | A::V(s) | A::I(s) => p[*s] = json!(1),
                A::V2(s) => p[*s] = json!([1, 2]),
            }
        }
        p.as_object_mut().unwrap().retain(|_, x| !x.is_null());
        let mut d = base();
        d["parameters"]["x"] = p.clone();
        let (m, _) = convert(&d)?;
        let a = serde_json::to_value(&m).unwrap();
        p["type"] = json!(format!("{t}parameter"));
        ch.describe(|| p.to_string());
        d["parameters"]["x"] = p;
        let (m, _) = convert(&d)?;
        let b = serde_json::to_value(&m).unwrap();
        chk!(a == b, "spelling", "with `{t}parameter` for `{t}` the conversion gives {b}, not {a}");
        Ok(())
    });
    // several components that draw on each other, and their names
    cx.explore("names", |ch| {
        let mut d = base();
        let inner = |i: usize| match i {
            0 => json!(1),
            1 => json!({"type": "constant", "value": 2}),
            2 => json!({"type": "dataframe", "url": "n.csv"}),
            _ => json!({"type": "aggregated", "agg_func": "sum", "parameters": [{"type": "constant", "value": 3}, {"type": "negative", "parameter": {"type": "constant", "value": 4}}]}),
        };
        let (a, b) = (ch.of(&["x", "y"]), ch.of(&["x", "y", "x-p0", "unnamed-0"]));
        let vals: Vec<Value> = (0..4).map(|_| inner(ch.pick(4))).collect();
        d["nodes"].as_array_mut().unwrap().push(json!({"name": "x", "type": "link", "max_flow": vals[0], "cost": vals[1]}));
        d["nodes"].as_array_mut().unwrap().push(json!({"name": "z", "type": "link", "max_flow": vals[1]}));
        d["parameters"][a] = json!({"type": "negative", "parameter": vals[2]});
        d["parameters"][b] = json!({"type": "max", "parameter": vals[3]});
        if ch.flag() {
            d["parameters"]["x-p1"] = json!({"type": "dataframe", "url": "q.csv"});
        }
        ch.describe(|| d.to_string());
        compare(&d)?;
        Ok(())
    });
    // the model around the network
    cx.explore("model", |ch| {
        let mut d = base();
        let mut md = json!({});
        for k in ["title", "description", "minimum_version"] {
            if ch.flag() {
                md[k] = json!(format!("{k}!"));
            }
        }
        d["metadata"] = md.clone();
        let step = ch.of(&[json!(1), json!(7), json!("7D"), json!("1d"), json!(0)]);
        let long = ch.flag();
        let s = if long { json!("2020-01-02T06:00:00") } else { json!("2020-01-02") };
        d["timestepper"] = json!({"start": s, "end": "2021-03-04", "timestep": step});
        ch.describe(|| d.to_string());
        let (_, out, other) = compare(&d)?;
        if step == json!(0) {
            chk!(other > 0, "silent", "a timestep of no days converts to {}", out["time"]);
            return Ok(());
        }
        let e = json!({"start": if long { "2020-01-02T06:00:00" } else { "2020-01-02T00:00:00" }, "end": "2021-03-04T00:00:00",
            "timestep": if let Some(n) = step.as_u64() { json!({"type": "Days", "days": n}) } else { json!({"type": "Frequency", "freq": step}) }});
        chk!(same(&e, &out["time"]), "time", "the time is {}, not {e}", out["time"]);
        let m = &out["metadata"];
        for k in ["title", "description", "minimum_version"] {
            if md[k].is_null() && k == "title" { continue; }
            chk!(m[k] == md[k], "metadata", "the {k} is {}, not {}", m[k], md[k]);
        }
        chk!(other == 0, "refused", "errors without a reason");
        Ok(())
    });
    cx.explore("scenarios", |ch| {
        let mut d = base();
        let n = ch.pick(3);
        let mut exp = Vec::new();
        let mut bad = false;
        let mut gs = Vec::new();
        for i in 0..n {
            let size = 2 + 2 * ch.pick(2);
            let name = format!("s{i}");
            let mut g = json!({"name": name, "size": size});
            let mut e = json!({"name": name, "size": size});
            if ch.flag() {
                let l: Vec<String> = (0..size).map(|k| format!("{name}-{k}")).collect();
                g["ensemble_names"] = json!(l);
                e["labels"] = json!(l);
            }
            let len = ch.pick(4);
            if len > 0 {
                let mut s: Vec<Option<usize>> = Vec::new();
                for k in 0..len {
                    let v = ch.pick(4);
                    // a step may be zero, which is not one
                    s.push(if v == 3 { None } else { Some(if k == 2 { v } else { v }) });
                }
                g["slice"] = json!(s);
                // a slice is read as Python's: stop; start, stop; start, stop, step
                let (a, b, c) = match len {
                    1 => (0, s[0].unwrap_or(size), Some(1)),
                    2 => (s[0].unwrap_or(0), s[1].unwrap_or(size), Some(1)),
                    _ => (s[0].unwrap_or(0), s[1].unwrap_or(size), Some(s[2].unwrap_or(1))),
                };
                if c == Some(0) {
                    bad = true;
                } else {
                    let idx: Vec<usize> = (a..b.min(size)).step_by(c.unwrap()).collect();
                    e["subset"] = json!(idx);
                }
            }
            gs.push(g);
            exp.push(e);
        }
        if n > 0 {
            d["scenarios"] = json!(gs);
        }
        let comb = ch.flag();
        if comb {
            d["scenario_combinations"] = json!([vec![0; n.max(1)], vec![1; n.max(1)]]);
        }
        ch.describe(|| format!("{} {}", d["scenarios"], d["scenario_combinations"]));
        let (_, out, other) = compare(&d)?;
        if bad || (comb && n == 0) {
            chk!(other > 0, "silent", "the scenarios have no counterpart, but there is no error: {}", out["scenarios"]);
            return Ok(());
        }
        chk!(other == 0, "refused", "the scenarios are not converted");
        if n == 0 {
            chk!(out["scenarios"].is_null(), "scenarios", "there are scenarios: {}", out["scenarios"]);
            return Ok(());
        }
        let a = out["scenarios"]["groups"].as_array().cloned().unwrap_or_default();
        chk!(a.len() == n, "scenarios", "there are {} groups", a.len());
        for (e, a) in exp.iter().zip(&a) {
            let mut a = a.clone();
            if let Some(s) = a.get("subset").cloned() {
                let size = e["size"].as_u64().unwrap();
                a["subset"] = match s["type"].as_str() {
                    Some("Slice") => (s["start"].as_u64().unwrap()..s["end"].as_u64().unwrap().min(size)).collect::<Vec<_>>().into(),
                    _ => s["indices"].clone(),
                };
            }
            chk!(same(e, &a), "scenarios", "a group is {a}, not {e}");
        }
        let c = &out["scenarios"]["combinations"];
        chk!(*c == d["scenario_combinations"], "combinations", "the combinations are {c}, not {}", d["scenario_combinations"]);
        Ok(())
    });
    cx.explore("edges", |ch| {
        let mut d = base();
        let slots = [Value::Null, json!("abstraction"), json!("river"), json!("storage"), json!("spill"), json!("compensation"), json!("other")];
        let mut exp = Vec::new();
        let mut v1 = Vec::new();
        let mut bad = 0;
        for _ in 0..1 + ch.pick(2) {
            let (a, b) = ch.of(&[("lnk", "res"), ("res", "lnk")]);
            match ch.pick(3) {
                0 => {
                    v1.push(json!([a, b]));
                    exp.push(json!({"from_node": a, "to_node": b}));
                }
                k => {
                    let mut sl = |ch: &mut Ch| {
                        let s = slots[ch.pick(slots.len())].clone();
                        let e = if s.is_null() { Value::Null } else { json!({"type": title(&s)}) };
                        (s == json!("other"), s, e)
                    };
                    let (b1, s1, e1) = sl(ch);
                    if k == 1 {
                        v1.push(json!([a, b, s1]));
                        if b1 { bad += 1 } else { exp.push(slim(&json!({"from_node": a, "to_node": b, "from_slot": e1}))) }
                    } else {
                        let (b2, s2, e2) = sl(ch);
                        v1.push(json!([a, b, s1, s2]));
                        if b1 || b2 { bad += 1 } else { exp.push(slim(&json!({"from_node": a, "to_node": b, "from_slot": e1, "to_slot": e2}))) }
                    }
                }
            }
        }
        d["edges"] = json!(v1);
        ch.describe(|| d["edges"].to_string());
        let (_, out, other) = compare(&d)?;
        chk!(other == bad, "edge-errors", "there are {other} errors for {bad} edges that have no counterpart");
        let a = out["network"]["edges"].clone();
        let e = json!(exp);
        chk!(same(&e, &a), "edges", "the edges are {a}, not {e}");
        Ok(())
    });
    // every table is named in the errors
    cx.explore("tables", |ch| {
        let mut d = base();
        let n = ch.pick(4);
        for i in 0..n {
            d["tables"][format!("t{i}")] = json!({"url": "x.csv", "index_col": 0});
        }
        ch.describe(|| d["tables"].to_string());
        let (_, errors) = convert(&d)?;
        for i in 0..n {
            let t = format!("t{i}");
            chk!(errors.iter().any(|e| matches!(e, ComponentConversionError::Table { name, .. } if *name == t)), "silent", "table {t} is lost without an error");
        }
        let (_, _, other) = compare(&d)?;
        chk!(other == n, "errors", "there are {other} errors for {n} tables");
        Ok(())
    });
    // what converts without an error builds
    cx.explore("builds", |ch| {
        let mut nodes = vec![json!({"name": "in", "type": "input", "max_flow": 5}), json!({"name": "out", "type": "output", "max_flow": 5, "cost": -1})];
        let mut edges = vec![];
        let mut params = json!({"p": {"type": "constant", "value": 2}});
        let mid = ch.pick(7);
        nodes.push(match mid {
            0 => json!({"name": "mid", "type": "link", "max_flow": {"type": "constant", "value": 3}, "cost": "p"}),
            1 => json!({"name": "mid", "type": "rivergauge", "mrf": "p", "mrf_cost": -3}),
            2 => json!({"name": "mid", "type": "losslink", "loss_factor": 0.25}),
            3 => json!({"name": "mid", "type": "piecewiselink", "nsteps": 2, "max_flows": [1, null], "costs": [1, "p"]}),
            4 => json!({"name": "mid", "type": "delaynode", "days": 2, "initial_flow": 1}),
            5 => json!({"name": "mid", "type": "river"}),
            _ => json!({"name": "mid", "type": "reservoir", "max_volume": 10, "initial_volume": 5, "cost": -1}),
        });
        edges.push(json!(["in", "mid"]));
        edges.push(json!(["mid", "out"]));
        let virt = ch.pick(8);
        let vs = |t: &str| json!({"name": "v", "type": t, "nodes": ["in"], "max_volume": 30, "initial_volume": 20, "cost": 0});
        match virt {
            0 => {}
            1 => nodes.push(json!({"name": "v", "type": "aggregatednode", "nodes": ["in", "out"], "max_flow": "p"})),
            2 => nodes.push(vs("virtualstorage")),
            3 => nodes.push(vs("annualvirtualstorage")),
            4 => nodes.push(vs("monthlyvirtualstorage")),
            5 => nodes.push(vs("seasonalvirtualstorage")),
            6 => {
                let mut x = vs("rollingvirtualstorage");
                x["timesteps"] = json!(3);
                nodes.push(x)
            }
            _ => {
                nodes.push(json!({"name": "r2", "type": "storage", "max_volume": 10, "initial_volume": 5}));
                edges.push(json!(["in", "r2"]));
                edges.push(json!(["r2", "out"]));
                nodes.push(json!({"name": "v", "type": "aggregatedstorage", "storage_nodes": ["r2"]}))
            }
        }
        let flow = if virt == 1 { "v" } else { "mid" };
        let store = if virt > 1 { "v" } else if mid == 6 { "mid" } else { "" };
        let k = ch.pick(16);
        if store.is_empty() && (6..14).contains(&k) {
            return ch.skip();
        }
        // only a plain storage or virtual storage has a proportional volume to refer to
        let q = match k {
            0 => json!({"type": "nodethreshold", "node": flow, "threshold": 1, "values": [1, 2]}),
            1 => json!({"type": "multiplethresholdindex", "node": flow, "thresholds": [1, 2]}),
            2 => json!({"type": "interpolatedflow", "node": flow, "flows": [0, 100], "values": [1, 2]}),
            3 => json!({"type": "rollingmeanflownode", "node": flow, "timesteps": 2, "initial_flow": 1}),
            4 => json!({"type": "monthlyprofile", "values": [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12], "interp_day": "first"}),
            5 => json!({"type": "rbfprofile", "days_of_year": [1, 90, 180], "values": [0.5, 0.25, 0.75], "rbf_kwargs": {}}),
            6 => json!({"type": "controlcurve", "storage_node": store, "control_curve": 0.5, "values": [1, 2]}),
            7 => json!({"type": "controlcurve", "storage_node": store, "control_curves": [{"type": "constant", "value": 0.75}, 0.5]}),
            8 => json!({"type": "controlcurveindex", "storage_node": store, "control_curves": [0.5]}),
            9 => json!({"type": "controlcurveinterpolated", "storage_node": store, "control_curve": 0.5, "values": [1, 2, 3]}),
            10 => json!({"type": "controlcurvepiecewiseinterpolated", "storage_node": store, "control_curve": 0.5, "values": [[1, 2], [3, 4]]}),
            11 => json!({"type": "polynomial1d", "storage_node": store, "coefficients": [1, 2]}),
            12 => json!({"type": "storagethreshold", "storage_node": store, "threshold": 6}),
            13 => json!({"type": "interpolatedvolume", "node": store, "volumes": [0, 100], "values": [1, 2]}),
            14 => json!({"type": "indexedarray", "parameters": [1, "p"], "index_parameter": {"type": "asymmetricswitchindex", "on_index_parameter": 1, "off_index_parameter": 0}}),
            _ => json!({"type": "aggregated", "agg_func": "sum", "parameters": [1, "p", {"type": "negative", "parameter": "p"}]}),
        };
        params["q"] = q.clone();
        let d = json!({"metadata": {"title": "t"}, "timestepper": {"start": "2020-01-01", "end": "2020-01-03", "timestep": 1}, "nodes": nodes, "edges": edges, "parameters": params});
        ch.describe(|| d.to_string());
        let (m, errors) = convert(&d)?;
        chk!(errors.is_empty(), "refused", "errors: {}", errors.iter().map(|e| e.to_string()).collect::<Vec<_>>().join("; "));
        compare(&d)?;
        let m = serde_json::to_value(&m).or_else(|e| fail("unwritable", e.to_string()))?;
        build(&m, None).map(|_| ()).or_else(|e| fail("unbuildable", format!("the converted model does not build: {} {m}", e.text())))?;
        Ok(())
    });
}
