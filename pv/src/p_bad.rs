//! C26: invalid models are rejected with an error, never a crash or silent acceptance.
//!
//! Every single defect of a family (an attribute dropped, misspelt, of another type or with another value; a thing named
//! twice or not at all; an impossible connection, size, date or count) is put at every position of small valid models,
//! and the model is read, built and run. Whether a damaged document is one at all is decided by a separate validator of the
//! committed catalogue.
use crate::harness::*;
use crate::p_doc::*;
use crate::p_out::Scratch;
use crate::schema::*;
use pywr_core::solvers::MicroLpSolver;
use serde_json::{Value, json};
use std::path::Path;

/// Whether the value is of the catalogue's type.
fn valid(s: &'static Value, v: &Value) -> bool {
    if s == &json!(true) {
        return true;
    }
    if let Some(r) = ref_name(s) {
        if !valid(def(r), v) {
            return false;
        }
    }
    for k in ["oneOf", "anyOf"] {
        if let Some(a) = s[k].as_array() {
            return a.iter().any(|x| valid(x, v));
        }
    }
    if s.get("const").is_some_and(|c| c != v) || s["enum"].as_array().is_some_and(|e| !e.contains(v)) || s.get("not").is_some_and(|n| valid(n, v)) {
        return false;
    }
    let is = |t: &str| match t {
        "object" => v.is_object(),
        "array" => v.is_array(),
        "string" => v.is_string(),
        "number" => v.is_number(),
        "integer" => v.is_i64() || v.is_u64(),
        "boolean" => v.is_boolean(),
        "null" => v.is_null(),
        _ => true,
    };
    let ty = match &s["type"] {
        Value::String(t) => is(t),
        Value::Array(ts) => ts.iter().any(|t| is(t.as_str().unwrap())),
        _ => true,
    };
    if !ty {
        return false;
    }
    if v.is_number() && (s["minimum"].as_f64().is_some_and(|m| v.as_f64().unwrap() < m) || s["maximum"].as_f64().is_some_and(|m| v.as_f64().unwrap() > m)) {
        return false;
    }
    if let Some(o) = v.as_object() {
        if s["required"].as_array().is_some_and(|r| r.iter().any(|k| !o.contains_key(k.as_str().unwrap()))) {
            return false;
        }
        for (k, x) in o {
            match s["properties"].get(k) {
                Some(p) => {
                    if !valid(p, x) {
                        return false;
                    }
                }
                None => match s.get("additionalProperties") {
                    // (the reader ignores what stands beside the tag of a variant that has no attributes)
                    Some(Value::Bool(false)) if s["properties"].as_object().is_some_and(|p| p.len() > 1 || tag(s).is_none()) => return false,
                    Some(a) if a.is_object() && !valid(a, x) => return false,
                    _ => {}
                },
            }
        }
    }
    if let Some(a) = v.as_array() {
        let n = a.len() as u64;
        if s["minItems"].as_u64().is_some_and(|m| n < m) || s["maxItems"].as_u64().is_some_and(|m| n > m) {
            return false;
        }
        for (i, x) in a.iter().enumerate() {
            if let Some(p) = s["prefixItems"].get(i).or(s.get("items").filter(|i| i.is_object())) {
                if !valid(p, x) {
                    return false;
                }
            }
        }
    }
    true
}
/// Every position of a value.
fn positions(v: &Value, ptr: &str, out: &mut Vec<String>) {
    match v {
        Value::Object(o) => {
            for (k, x) in o {
                let p = format!("{ptr}/{}", esc(k));
                out.push(p.clone());
                positions(x, &p, out);
            }
        }
        Value::Array(a) => {
            // the items of a long list are all alike
            for (i, x) in a.iter().enumerate().take(12) {
                let p = format!("{ptr}/{i}");
                out.push(p.clone());
                positions(x, &p, out);
            }
        }
        _ => {}
    }
}
fn parent(p: &str) -> (&str, String) {
    let (a, k) = p.rsplit_once('/').unwrap();
    (a, k.replace("~1", "/").replace("~0", "~"))
}
const DAMAGE: usize = 20;
/// Damages the value at a position; what was done, or nothing where it makes no difference.
fn damage(d: &mut Value, p: &str, k: usize) -> Option<String> {
    let (up, key) = parent(p);
    let old = d.pointer(p).unwrap().clone();
    let put = |d: &mut Value, v: Value| {
        *d.pointer_mut(p).unwrap() = v.clone();
        (v != old).then(|| format!("{p} made {v}"))
    };
    match k {
        0 => {
            match d.pointer_mut(up).unwrap() {
                Value::Object(o) => drop(o.remove(&key)),
                Value::Array(a) => drop(a.remove(key.parse().unwrap())),
                _ => unreachable!(),
            }
            Some(format!("{p} removed"))
        }
        1 => put(d, json!(null)),
        2 => put(d, json!(true)),
        3 => put(d, json!(-1)),
        // (the reader takes the number of a variant for its tag)
        4 if matches!(key.as_str(), "type" | "format") => None,
        4 => put(d, json!(0)),
        5 => put(d, json!(1.5)),
        6 => put(d, json!(300)),
        7 => put(d, json!("x")),
        8 => put(d, json!("")),
        9 => put(d, json!([])),
        10 => put(d, json!({})),
        11 => put(d, json!([old.clone()])),
        12 => put(d, json!({"type": old.clone()})),
        13 => {
            let mut v = old.clone();
            v.as_object_mut()?.insert("zz".into(), json!(1));
            put(d, v)
        }
        14 => {
            let o = d.pointer_mut(up).unwrap().as_object_mut()?;
            o.remove(&key);
            o.insert(format!("{key}s"), old);
            Some(format!("{p} misspelt"))
        }
        15 => {
            let mut v = old.clone();
            let a = v.as_array_mut()?;
            a.push(a.first()?.clone());
            put(d, v)
        }
        16 => put(d, json!(-1.5e308)),
        17 => put(d, json!(1.5e308)),
        18 => put(d, json!(i64::MIN)),
        19 => {
            let s = old.as_str()?.to_string();
            let flip = |c: char| if c.is_lowercase() { c.to_uppercase().next().unwrap() } else { c.to_lowercase().next().unwrap() };
            put(d, json!(s.chars().map(flip).collect::<String>()))
        }
        _ => unreachable!(),
    }
}
/// Read, build and run.
fn attempt(d: &Value, dir: &Path, out: &Path) -> Result<(), ImpErr> {
    let s = parse(d)?;
    let b = build_schema(&s, Some(dir), Some(out))?;
    let model = imp(|| b.build().map_err(|e| chain(&e)))?;
    imp(|| model.run::<MicroLpSolver>(&Default::default()).map(|_| ()).map_err(|e| chain(&e)))
}
fn place(m: &str) -> String {
    // where a panic was raised, without its line
    m.rsplit('@').next().unwrap_or("").split(':').next().unwrap_or("").trim().to_string()
}

pub fn c26(cx: &Cx) {
    cx.assume("The catalogue of the document types is a committed copy of the JSON schema of the unchanged tree; types that accept unknown attributes there are not required to reject them.");
    cx.assume("A panic of the third-party LP library on coefficients near the largest double is not counted.");
    let dir = Scratch::new();
    files(&dir.0);

    // Every position of a plain document of every component, damaged.
    let ks = kinds();
    let budget = cx.b(0, 1);
    cx.explore("malformed", |ch| {
        let i = ch.pick(ks.len() + 1);
        let mut d = if i == ks.len() { world() } else { document(ch, ks[i], budget, true) };
        let mut ps = vec![];
        positions(&d, "", &mut ps);
        if i < ks.len() {
            let mut base = vec![];
            let w = world();
            positions(&w, "", &mut base);
            // what is not about the component is damaged with the plain world
            ps.retain(|p| w.pointer(p) != d.pointer(p));
        }
        if ps.is_empty() {
            return ch.skip();
        }
        let p = ps[ch.pick(ps.len())].clone();
        let k = ch.pick(DAMAGE);
        let Some(what) = damage(&mut d, &p, k) else { return ch.skip() };
        let ok = valid(catalogue(), &d);
        ch.describe(|| format!("{what} valid={ok} {d}"));
        ch.state(&d.to_string());
        let out = Scratch::new();
        let key = |m: &str| format!("{}:{}:{}", m, generic(&p), k);
        if !ok {
            match parse(&d) {
                Ok(_) => return fail(key("malformed-read"), format!("{what}, which is no document, and it is read: {d}")),
                Err(e) => chk!(!e.is_panic(), key("malformed-panic"), "{what}: {}: {d}", e.text()),
            }
        }
        let r = attempt(&d, &dir.0, &out.0);
        ch.out(&r.as_ref().map_err(|e| e.text().chars().take(40).collect::<String>()));
        if let Err(e) = r {
            // (numbers near the largest there are may be too much for the linear programming library)
            let library = k >= 16 && e.text().contains("/microlp-");
            chk!(!e.is_panic() || library, format!("panic:{}:{k}:{}", generic(&p), place(&e.text())), "{what}: {}: {d}", e.text());
        }
        Ok(())
    });

    // Lists of every length: the right length is accepted, every other is not.
    let lits = |n: usize| (0..n).map(|i| lit(0.9 - 0.2 * i as f64)).collect::<Vec<_>>();
    let up = |n: usize| (0..n).map(|i| lit(0.1 + 0.2 * i as f64)).collect::<Vec<_>>();
    let vals = |n: usize| json!({"type": "Literal", "values": (0..n).map(|i| 1.0 + i as f64 * 0.5).collect::<Vec<_>>()});
    let level = || json!({"type": "Node", "name": "sto1", "attribute": "ProportionalVolume"});
    cx.explore("counts", |ch| {
        let mut d = world();
        let kind = ch.pick(22);
        let used = ch.flag();
        let mut put = |list: &str, mut v: Value| {
            v["meta"] = json!({"name": "new"});
            d["network"][list].as_array_mut().unwrap().push(v);
        };
        let long = [0usize, 1, 2, 11, 12, 13, 23, 24, 25, 51, 52, 53, 54, 364, 365, 366, 367];
        // a count, or two, and whether they are right; nothing where either answer is
        let (what, right): (String, Option<bool>) = match kind {
            0..=3 => {
                let n = ch.of(&long);
                let (ty, ok) = [("DailyProfile", matches!(n, 365 | 366)), ("MonthlyProfile", n == 12), ("WeeklyProfile", matches!(n, 52 | 53)), ("DiurnalProfile", n == 24)][kind];
                put("parameters", json!({"type": ty, "values": vals(n)}));
                (format!("{ty} {n}"), Some(ok))
            }
            4..=6 => {
                let (c, v) = (ch.pick(4), ch.pick(7));
                let (ty, extra) = [("ControlCurve", 1), ("ControlCurveInterpolated", 2), ("ControlCurvePiecewiseInterpolated", 1)][kind - 4];
                let values: Vec<Value> = if kind == 6 { (0..v).map(|i| json!([1.0 + i as f64, 0.5 + i as f64])).collect() } else { lits(v) };
                put("parameters", json!({"type": ty, "control_curves": lits(c), "storage_metric": level(), "values": values}));
                (format!("{ty} {c} {v}"), (c > 0).then_some(v == c + extra))
            }
            7 => {
                let (a, b) = (ch.pick(5), ch.pick(5));
                put("parameters", json!({"type": "Interpolated", "x": lit(0.3), "xp": up(a), "fp": lits(b)}));
                (format!("Interpolated {a} {b}"), (a != 1).then_some(a == b && a > 1))
            }
            8 => {
                let n = ch.pick(6);
                put("parameters", json!({"type": "ConstantScenario", "values": vals(n), "scenario_group": "sg"}));
                (format!("ConstantScenario {n}"), Some(n == 2))
            }
            9 => {
                let (t, r) = (ch.pick(4), ch.pick(6));
                put("parameters", json!({"type": "MultiThreshold", "metric": lit(0.5), "thresholds": up(t), "predicate": ">", "returned_metrics": lits(r)}));
                (format!("MultiThreshold {t} {r}"), if r == t + 1 { Some(true) } else { (r == 0).then_some(false) })
            }
            10..=12 => {
                let (k, f) = (ch.pick(4), ch.pick(5));
                let (ty, need) = [("Proportion", k as i32 - 1), ("Ratio", k as i32), ("Coefficients", k as i32)][kind - 10];
                let nodes: Vec<Value> = ["in1", "link1", "out1"][..k].iter().map(|n| json!({"name": n})).collect();
                let factors: Vec<Value> = (0..f).map(|_| lit(0.25)).collect();
                let mut rel = json!({"type": ty, "factors": factors});
                if kind == 12 {
                    rel["rhs"] = lit(0.0);
                }
                put("virtual_nodes", json!({"type": "Aggregated", "nodes": nodes, "relationship": rel}));
                (format!("{ty} {k} {f}"), if k == 1 || (k == 3 && kind == 12) || (k == 0 && f as i32 == need) { (f as i32 != need).then_some(false) } else { Some(f as i32 == need) })
            }
            13 => {
                let (k, f) = (ch.pick(4), ch.pick(5));
                let nodes: Vec<Value> = ["in1", "link1", "out1"][..k].iter().map(|n| json!({"name": n})).collect();
                put("virtual_nodes", json!({"type": "VirtualStorage", "nodes": nodes, "factors": vec![1.0; f], "max_volume": lit(100.0), "initial_volume": {"type": "Absolute", "volume": 50.0}}));
                (format!("VirtualStorage {k} {f}"), if k == 0 && f == 0 { None } else { Some(k == f) })
            }
            14 => {
                let (a, b) = (ch.pick(5), ch.pick(5));
                let up = |n: usize| (0..n).map(|i| 20.0 * i as f64).collect::<Vec<_>>();
                put("nodes", json!({"type": "Reservoir", "max_volume": lit(10.0), "initial_volume": {"type": "Absolute", "volume": 5.0}, "surface_area": {"data": {"Interpolated": {"storage": {"type": "Literal", "values": up(a)}, "area": {"type": "Literal", "values": up(b)}}}, "is_storage_proportional": false}, "rainfall": {"data": lit(0.1)}}));
                d["network"]["edges"].as_array_mut().unwrap().push(json!({"from_node": "new", "to_node": "out1"}));
                (format!("surface area {a} {b}"), if a == b && a < 2 { None } else { Some(a == b) })
            }
            15 => {
                let (size, n) = (ch.pick(4), ch.pick(5));
                d["scenarios"]["groups"][0] = json!({"name": "sg", "size": size, "labels": (0..n).map(|i| format!("l{i}")).collect::<Vec<_>>()});
                (format!("labels {size} {n}"), if n == 0 && size > 0 { None } else { Some(size > 0 && size == n) })
            }
            16 => {
                let (size, a, b) = (ch.pick(4), ch.pick(6), ch.pick(6));
                d["scenarios"]["groups"][0] = json!({"name": "sg", "size": size, "subset": {"type": "Slice", "start": a, "end": b}});
                (format!("slice {size} {a} {b}"), Some(a < b && b <= size))
            }
            17 => {
                let (size, n) = (ch.pick(4), ch.pick(4));
                let ix: Vec<usize> = (0..n).map(|_| ch.pick(5)).collect();
                d["scenarios"]["groups"][0] = json!({"name": "sg", "size": size, "subset": {"type": "Indices", "indices": ix}});
                let twice = (0..n).any(|i| ix[..i].contains(&ix[i]));
                let ok = size > 0 && ix.iter().all(|i| *i < size);
                (format!("indices {size} {ix:?}"), if ok && (twice || n == 0) { None } else { Some(ok) })
            }
            18 => {
                let (size, n) = (1 + ch.pick(3), 1 + ch.pick(3));
                let ls: Vec<&str> = (0..n).map(|_| ch.of(&["l0", "l1", "l2", "L0", "", "0"])).collect();
                d["scenarios"]["groups"][0] = json!({"name": "sg", "size": size, "labels": (0..size).map(|i| format!("l{i}")).collect::<Vec<_>>(), "subset": {"type": "Labels", "labels": ls}});
                let twice = (0..n).any(|i| ls[..i].contains(&ls[i]));
                let ok = ls.iter().all(|l| (0..size).any(|i| *l == format!("l{i}")));
                (format!("subset labels {size} {ls:?}"), if ok && twice { None } else { Some(ok) })
            }
            19 => {
                let (groups, rows) = (1 + ch.pick(2), 1 + ch.pick(2));
                let size = |g: usize| 2 + g;
                d["scenarios"]["groups"] = (0..groups).map(|g| json!({"name": if g == 0 { "sg" } else { "sh" }, "size": size(g)})).collect();
                let mut ok = true;
                let mut combos = vec![];
                for _ in 0..rows {
                    let n = ch.pick(4);
                    let c: Vec<usize> = (0..n).map(|_| ch.of(&[0, 1, 2, 3])).collect();
                    ok &= n == groups && c.iter().enumerate().all(|(g, i)| *i < size(g));
                    combos.push(c);
                }
                d["scenarios"]["combinations"] = json!(combos);
                let twice = (0..rows).any(|i| combos[..i].contains(&combos[i]));
                (format!("combinations {groups} {combos:?}"), if ok && twice { None } else { Some(ok) })
            }
            20 => {
                let (n, i) = (ch.pick(4), ch.pick(5));
                put("parameters", json!({"type": "IndexedArray", "metrics": lits(n), "index_parameter": {"type": "Constant", "value": i}}));
                (format!("IndexedArray {n} {i}"), Some(i < n))
            }
            _ => {
                let days = ch.pick(4);
                let mut ok = true;
                let points: Vec<Value> = (0..days).map(|i| { let x = ch.of(&[1, 100, 366, 465]); ok &= x % 365 != 1 || i == 0; json!([x, 1.0]) }).collect();
                let xs: Vec<i64> = points.iter().map(|p| p[0].as_i64().unwrap() % 365).collect();
                let ok = days > 0 && !(0..days).any(|i| xs[..i].contains(&xs[i]));
                put("parameters", json!({"type": "RbfProfile", "points": points, "function": {"type": "Linear"}}));
                (format!("RbfProfile {points:?}"), Some(ok))
            }
        };
        if used && d["network"]["parameters"].as_array().unwrap().len() == 3 {
            d["network"]["nodes"][0]["max_flow"] = json!({"type": "Parameter", "name": "new"});
        } else if used {
            return ch.skip();
        }
        ch.describe(|| format!("{what} right={right:?} {d}"));
        ch.state(&what);
        let out = Scratch::new();
        let r = attempt(&d, &dir.0, &out.0);
        let of = what.split(' ').next().unwrap().to_string();
        if let Err(e) = &r {
            chk!(!e.is_panic(), format!("count-panic:{of}"), "{what}: {}: {d}", e.text());
        }
        match (right, r) {
            (Some(true), Err(e)) => fail(format!("count-refused:{of}"), format!("{what} is right, and refused: {}: {d}", e.text())),
            (Some(false), Ok(())) => fail(format!("count-accepted:{of}"), format!("{what} is wrong, and accepted: {d}")),
            _ => Ok(()),
        }
    });

    let judge = |ch: &mut Ch, d: &Value, of: &str, what: &str, right: Option<bool>| -> Res {
        ch.describe(|| format!("{of} {what} right={right:?} {d}"));
        ch.state(&d.to_string());
        let out = Scratch::new();
        let r = attempt(d, &dir.0, &out.0);
        ch.out(&r.as_ref().map_err(|e| e.text().chars().take(40).collect::<String>()));
        if let Err(e) = &r {
            chk!(!e.is_panic(), format!("{of}-panic:{}", place(&e.text())), "{what}: {}: {d}", e.text());
        }
        match (right, r) {
            (Some(true), Err(e)) => fail(format!("{of}-refused"), format!("{what} is right, and refused: {}: {d}", e.text())),
            (Some(false), Ok(())) => fail(format!("{of}-accepted"), format!("{what} is wrong, and accepted: {d}")),
            _ => Ok(()),
        }
    };
    let add = |d: &mut Value, list: &str, mut v: Value| {
        v["meta"] = json!({"name": "new"});
        d["network"][list].as_array_mut().unwrap().push(v);
    };

    // Dates: a day and a month that are a day of some year, or not.
    let real_day = |day: i64, month: i64| (1..=12).contains(&month) && day >= 1 && day <= [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][month as usize - 1];
    let vs = |reset: Value| json!({"type": "VirtualStorage", "nodes": [{"name": "link1"}], "max_volume": lit(100.0), "initial_volume": {"type": "Absolute", "volume": 50.0}, "reset": reset});
    cx.explore("dates", |ch| {
        let mut d = world();
        let days: Vec<i64> = (-1..=33).chain([127, -128]).collect();
        let months: Vec<i64> = (-1..=14).chain([127, -128]).collect();
        match ch.pick(4) {
            0 => {
                let (day, month) = (ch.of(&days), ch.of(&months));
                add(&mut d, "virtual_nodes", vs(json!({"type": "Annual", "day": day, "month": month})));
                judge(ch, &d, "annual", &format!("{day}/{month}"), Some(real_day(day, month)))
            }
            1 => {
                let (day, month) = (ch.of(&days), ch.of(&months));
                let start = ch.flag();
                let reset = if start { json!({"type": "Seasonal", "start_day": day, "start_month": month, "end_day": 30, "end_month": 6}) } else { json!({"type": "Seasonal", "start_day": 1, "start_month": 2, "end_day": day, "end_month": month}) };
                add(&mut d, "virtual_nodes", vs(reset));
                judge(ch, &d, "seasonal", &format!("{day}/{month} start={start}"), Some(real_day(day, month)))
            }
            2 => {
                let (day, month) = (ch.of(&days), ch.of(&months));
                let lit = |v: i64| json!({"type": "Literal", "value": v});
                let part = ch.pick(3);
                let mut v = json!({"type": "UniformDrawdownProfile", "residual_days": lit(0)});
                // (a missing part is 1)
                if part != 1 {
                    v["reset_day"] = lit(day);
                }
                if part != 2 {
                    v["reset_month"] = lit(month);
                }
                let right = real_day(if part == 1 { 1 } else { day }, if part == 2 { 1 } else { month });
                add(&mut d, "parameters", v);
                judge(ch, &d, "drawdown", &format!("{day}/{month} part={part}"), Some(right))
            }
            _ => {
                // the period of a model
                let texts = ["2021-01-01", "2021-01-03", "2020-02-29", "2021-02-29", "2021-02-30", "2021-13-01", "2021-00-10", "2021-01-00", "2021-01-32", "2021-1-1", "01/01/2021", "", "2021", "2021-01-01 00:00:00", "2021-01-01T12:00:00", "2021-01-01T25:00:00", "2021-01-01T00:00:00Z", "-0001-01-01", "99999-01-01", "now"];
                let ok = ["2021-01-01", "2021-01-03", "2020-02-29"];
                let bad = ["2021-02-29", "2021-02-30", "2021-13-01", "2021-00-10", "2021-01-00", "2021-01-32", "", "2021", "2021-01-01T25:00:00", "now", "99999-01-01"];
                let (a, b) = (ch.of(&texts), ch.of(&texts));
                if a != "2021-01-01" && b != "2021-01-03" && !(ok.contains(&a) && ok.contains(&b)) {
                    return ch.skip();
                }
                d["time"]["start"] = json!(a);
                d["time"]["end"] = json!(b);
                let right = if bad.contains(&a) || bad.contains(&b) { Some(false) } else if ok.contains(&a) && ok.contains(&b) { Some(a <= b) } else { None };
                d["network"]["timeseries"] = json!([]);
                judge(ch, &d, "period", &format!("{a}..{b}"), right)
            }
        }
    });

    // Steps and other sizes.
    cx.explore("sizes", |ch| {
        let mut d = world();
        let n = ch.of(&[-2i64, -1, 0, 1, 2, 3, 1000]);
        match ch.pick(12) {
            k @ 0..=1 => {
                d["time"]["timestep"] = if k == 0 { json!({"type": "Days", "days": n}) } else { json!({"type": "Hours", "hours": n}) };
                d["network"]["timeseries"] = json!([]);
                judge(ch, &d, "step", &format!("{k} {n}"), if n > 3 { None } else { Some(n > 0) })
            }
            2 => {
                let unit = ch.of(&["d", "h", "w", "mo", "m", "x", "", "1d"]);
                d["time"]["timestep"] = json!({"type": "Frequency", "freq": format!("{n}{unit}")});
                d["network"]["timeseries"] = json!([]);
                // (only that the run ends is known of the units)
                judge(ch, &d, "frequency", &format!("{n}{unit}"), if unit == "1d" { None } else if n <= 0 || matches!(unit, "x" | "") { Some(false) } else { None })
            }
            3 => {
                d["scenarios"]["groups"][0]["size"] = json!(n);
                judge(ch, &d, "group", &format!("{n}"), Some(n > 0))
            }
            4 => {
                add(&mut d, "parameters", json!({"type": "Delay", "metric": lit(1.0), "delay": n, "initial_value": 1.0}));
                judge(ch, &d, "delay", &format!("{n}"), if n == 0 { None } else { Some(n > 0) })
            }
            5 => {
                add(&mut d, "parameters", json!({"type": "Rolling", "metric": {"type": "Node", "name": "link1"}, "window_size": n, "initial_value": 1.0, "agg_func": {"type": "Sum"}}));
                judge(ch, &d, "rolling", &format!("{n}"), Some(n > 0))
            }
            6 => {
                let m = ch.of(&[0i64, 1, 2, 5]);
                add(&mut d, "parameters", json!({"type": "Rolling", "metric": {"type": "Node", "name": "link1"}, "window_size": n, "min_values": m, "initial_value": 1.0, "agg_func": {"type": "Sum"}}));
                judge(ch, &d, "rolling-min", &format!("{n} {m}"), if n <= 0 { Some(false) } else { None })
            }
            k @ 7..=8 => {
                let mut v = vs(json!({"type": "Never"}));
                v["window"] = if k == 7 { json!({"type": "Days", "days": n}) } else { json!({"type": "Timesteps", "timesteps": n}) };
                add(&mut d, "virtual_nodes", v);
                judge(ch, &d, "window", &format!("{k} {n}"), Some(n > 0))
            }
            9 => {
                add(&mut d, "virtual_nodes", vs(json!({"type": "Monthly", "months": n})));
                judge(ch, &d, "months", &format!("{n}"), if n == 1000 || n == 0 { None } else { Some(n > 0) })
            }
            10 => {
                let child = ch.flag();
                let a = json!({"freq": {"type": "Days", "days": n}, "func": {"type": "Sum"}});
                d["network"]["metric_sets"][0]["aggregator"] = if child { json!({"freq": {"type": "Annual"}, "func": {"type": "Sum"}, "child": a}) } else { a };
                judge(ch, &d, "aggregation", &format!("{n} child={child}"), Some(n > 0))
            }
            _ => {
                // the numbers of active nodes of an exclusive set
                let (a, b) = (ch.pick(5), ch.pick(5));
                if n != 1 {
                    return ch.skip();
                }
                add(&mut d, "virtual_nodes", json!({"type": "Aggregated", "nodes": [{"name": "in1"}, {"name": "link1"}, {"name": "out1"}], "relationship": {"type": "Exclusive", "min_active": a, "max_active": b}}));
                // (the solver of these runs has no binaries)
                judge(ch, &d, "exclusive", &format!("{a} {b}"), (a > b || a > 3).then_some(false))
            }
        }
    });

    // Factors of relationships, written or from a parameter that varies or does not.
    cx.explore("factors", |ch| {
        let mut d = world();
        let ratio = ch.flag();
        let n = if ratio { 2 } else { 1 + ch.pick(2) };
        let menu = [0.25, 0.5, 0.75, 1.0, 0.0, -0.5, 1.5, 1e-4];
        let mut fs = vec![];
        let mut refs = vec![];
        for i in 0..n {
            let f: f64 = ch.of(&menu);
            fs.push(f);
            let name = format!("f{i}");
            match ch.pick(3) {
                0 => refs.push(lit(f)),
                k => {
                    let months = json!(vec![f; 12]);
                    d["network"]["parameters"].as_array_mut().unwrap().push(if k == 1 { json!({"meta": {"name": name}, "type": "Constant", "value": lit(f)}) } else { json!({"meta": {"name": name}, "type": "MonthlyProfile", "values": {"type": "Literal", "values": months}}) });
                    refs.push(par(&name));
                }
            }
        }
        let members: Vec<Value> = [json!({"name": "out1"}), json!({"name": "out2"}), json!({"name": "link1"})][..if ratio { 2 } else { n + 1 }].to_vec();
        add(&mut d, "virtual_nodes", json!({"type": "Aggregated", "nodes": members, "relationship": {"type": if ratio { "Ratio" } else { "Proportion" }, "factors": refs}}));
        let right = fs.iter().all(|f| *f > 0.0) && (ratio || fs.iter().sum::<f64>() < 1.0);
        judge(ch, &d, if ratio { "ratio" } else { "proportion" }, &format!("{fs:?}"), Some(right))
    });

    // Volumes outside of their bounds.
    cx.explore("volumes", |ch| {
        let mut d = world();
        let kind = ch.pick(4);
        let min = ch.of(&[0.0, 2.0, 10.0, 11.0, -1.0]);
        let max = ch.of(&[10.0, 1.0, 0.0, -1.0]);
        let absolute = ch.flag();
        let x = if absolute { ch.of(&[2.0, 10.0, 10.5, 300.0, -0.5, -300.0, 0.0]) } else { ch.of(&[0.5, 1.0, 1.05, 30.0, -0.05, -30.0, 0.0]) };
        let iv = if absolute { json!({"type": "Absolute", "volume": x}) } else { json!({"type": "Proportional", "proportion": x}) };
        let v = if absolute { x } else { x * max };
        let mut new = match kind {
            0 => json!({"type": "Storage"}),
            1 => json!({"type": "Reservoir"}),
            2 => json!({"type": "PiecewiseStorage", "steps": [{"control_curve": lit(0.5)}]}),
            _ => json!({"type": "VirtualStorage", "nodes": [{"name": "link1"}]}),
        };
        new["min_volume"] = lit(min);
        new["max_volume"] = lit(max);
        new["initial_volume"] = iv;
        add(&mut d, if kind == 3 { "virtual_nodes" } else { "nodes" }, new);
        if kind < 3 {
            // nothing flows in; nothing flows out
            d["network"]["edges"].as_array_mut().unwrap().push(json!({"from_node": "new", "to_node": "link1"}));
        }
        d["network"]["nodes"][2]["cost"] = lit(1.0);
        // (the volumes of a piecewise storage are brought within its bounds; a volume little outside of its bounds may be brought back by the first flows; a pair of bounds with one negative may be refused)
        let right = if kind == 2 { None } else if v < min - 20.0 || v > max + 20.0 || min > max { Some(false) } else if min < 0.0 || v < min || v > max { None } else { Some(true) };
        judge(ch, &d, &format!("volume{kind}"), &format!("{x} absolute={absolute} of {min}..{max}"), right)
    });

    // Every edge there can be, also twice, to itself, or from or to nowhere.
    cx.explore("edges", |ch| {
        let mut d = world();
        let names = ["in1", "link1", "out1", "sto1", "out2", "in2", "missing", "vs1", "p1", "", "IN1"];
        let old: Vec<(String, String)> = d["network"]["edges"].as_array().unwrap().iter().map(|e| (e["from_node"].as_str().unwrap().into(), e["to_node"].as_str().unwrap().into())).collect();
        let mut new = old.clone();
        let mut right = true;
        let mut what = vec![];
        for _ in 0..1 + ch.pick(2) {
            let (a, b) = (ch.of(&names), ch.of(&names));
            let at = |n: &str| names.iter().position(|x| *x == n).unwrap();
            right &= at(a) < 6 && at(b) < 6 && a != b && !a.starts_with("out") && !b.starts_with("in") && !new.contains(&(a.to_string(), b.to_string()));
            what.push(format!("{a}->{b}"));
            new.push((a.to_string(), b.to_string()));
            d["network"]["edges"].as_array_mut().unwrap().push(json!({"from_node": a, "to_node": b}));
        }
        if what.len() == 2 && what[0] > what[1] {
            return ch.skip();
        }
        // (flow may go round between a link and a storage)
        let round = new.contains(&("link1".into(), "sto1".into())) && new.contains(&("sto1".into(), "link1".into()));
        judge(ch, &d, "edge", &what.join(" "), if right && round { None } else { Some(right) })
    });

    // Every attribute, component and slot of every kind of node.
    let nodes: Vec<Kind> = ks.iter().copied().filter(|k| matches!(k, Kind::Node(_) | Kind::Virtual(_))).collect();
    let attrs = ["Inflow", "Outflow", "Volume", "MaxVolume", "ProportionalVolume", "Loss", "Deficit", "Power", "Compensation", "Rainfall", "Evaporation", "Abstraction"];
    cx.explore("attributes", |ch| {
        let k = nodes[ch.pick(nodes.len())];
        let mut d = document(ch, k, 0, true);
        let list = if matches!(k, Kind::Node(_)) { "nodes" } else { "virtual_nodes" };
        let new = d["network"][list].as_array().unwrap().last().unwrap();
        let (name, ty) = (new["meta"]["name"].clone(), new["type"].as_str().unwrap().to_string());
        let a = ch.of(&attrs);
        let store = matches!(ty.as_str(), "Storage" | "Reservoir" | "PiecewiseStorage" | "VirtualStorage" | "AggregatedStorage");
        // what a kind of node has, what it has not, and what is left open
        let has = match a {
            "Inflow" | "Outflow" if store => None,
            "Inflow" if matches!(ty.as_str(), "Input" | "Catchment") => None,
            "Outflow" if ty == "Output" => None,
            "Inflow" | "Outflow" => Some(true),
            "Volume" | "ProportionalVolume" => Some(store),
            "MaxVolume" => if matches!(ty.as_str(), "Storage" | "Reservoir") { Some(true) } else if store { None } else { Some(false) },
            "Loss" => if matches!(ty.as_str(), "LossLink" | "River" | "WaterTreatmentWorks") { Some(true) } else if ty == "Reservoir" { None } else { Some(false) },
            "Deficit" => if ty == "Output" { Some(true) } else { Some(false) },
            "Power" => if ty == "Turbine" { None } else { Some(false) },
            "Abstraction" => Some(ty == "Abstraction"),
            _ => if ty == "Reservoir" { None } else { Some(false) },
        };
        let has = if ty == "Placeholder" { Some(false) } else if ty == "Aggregated" || ty == "AggregatedStorage" { has.filter(|h| !h) } else { has };
        let m = json!({"type": if list == "nodes" { "Node" } else { "VirtualNode" }, "name": name, "attribute": a});
        let comp = match ch.pick(5) {
            0 => {
                d["network"]["metric_sets"][0]["metrics"].as_array_mut().unwrap().push(m);
                false
            }
            1 => {
                add(&mut d, "parameters", json!({"type": "Aggregated", "phase": "Before", "agg_func": {"type": "Sum"}, "metrics": [m]}));
                d["network"]["parameters"].as_array_mut().unwrap().last_mut().unwrap()["meta"]["name"] = json!("of");
                d["network"]["nodes"][2]["cost"] = json!({"type": "Parameter", "name": "of"});
                false
            }
            // an unknown kind of reference: a node named as a virtual node, and the other way round
            2 => {
                let m = json!({"type": if list == "nodes" { "VirtualNode" } else { "Node" }, "name": name, "attribute": a});
                d["network"]["metric_sets"][0]["metrics"].as_array_mut().unwrap().push(m);
                return judge(ch, &d, "misreference", &format!("{ty} {a}"), Some(false));
            }
            // an integer of a node
            3 => {
                let m = json!({"type": "Node", "name": name, "attribute": a});
                d["network"]["parameters"][1]["metrics"] = json!([m]);
                return judge(ch, &d, "integer", &format!("{ty} {a}"), Some(false));
            }
            // a component of the node in an aggregated node
            _ => {
                add(&mut d, "virtual_nodes", json!({"type": "Aggregated", "nodes": [{"name": name, "component": a}, {"name": "link1"}], "relationship": {"type": "Ratio", "factors": [lit(1.0), lit(1.0)]}}));
                d["network"]["virtual_nodes"].as_array_mut().unwrap().last_mut().unwrap()["meta"]["name"] = json!("of");
                true
            }
        };
        let right = if comp {
            // (flows in the same proportion may be impossible, which is another matter)
            if list != "nodes" || store && ty != "Reservoir" || matches!(a, "Deficit" | "Power") || (has == Some(false)) { Some(false) } else { None }
        } else {
            has
        };
        judge(ch, &d, "attribute", &format!("{ty} {a} component={comp}"), right)
    });
    cx.explore("slots", |ch| {
        let k = nodes[ch.pick(nodes.len())];
        let mut d = document(ch, k, 0, true);
        let list = if matches!(k, Kind::Node(_)) { "nodes" } else { "virtual_nodes" };
        let new = d["network"][list].as_array().unwrap().last().unwrap();
        let (name, ty) = (new["meta"]["name"].clone(), new["type"].as_str().unwrap().to_string());
        let slot = match ch.pick(9) {
            0 => json!({"type": "Storage"}),
            1 => json!({"type": "River"}),
            2 => json!({"type": "Spill"}),
            3 => json!({"type": "Compensation"}),
            4 => json!({"type": "Abstraction"}),
            5 => json!({"type": "Split", "position": 0}),
            6 => json!({"type": "Split", "position": 1}),
            7 => json!({"type": "User", "name": "s"}),
            _ => json!({"type": "User", "name": "zz"}),
        };
        let to = ch.flag();
        let e = if to { json!({"from_node": "link1", "to_node": name, "to_slot": slot}) } else { json!({"from_node": name, "from_slot": slot, "to_node": "link1"}) };
        d["network"]["edges"].as_array_mut().unwrap().push(e);
        let t = slot["type"].as_str().unwrap();
        // no kind of node has a slot to flow into
        let known = match ty.as_str() {
            "Reservoir" => matches!(t, "Storage" | "Spill" | "Compensation"),
            "RiverSplitWithGauge" => matches!(t, "River" | "Split" | "User"),
            "Abstraction" => matches!(t, "River" | "Abstraction"),
            _ => false,
        };
        let right = if list != "nodes" || !known { Some(false) } else if to || slot["name"] == "zz" || slot["position"] == 1 { Some(false) } else { None };
        // (an edge into a river split or an abstraction may name a slot; none of it is used)
        judge(ch, &d, "slot", &format!("{ty} {slot} to={to}"), right)
    });

    // Parameters and virtual nodes that depend on themselves, or on each other.
    let pars: Vec<Kind> = ks.iter().copied().filter(|k| matches!(k, Kind::Parameter(_))).collect();
    cx.explore("cycles", |ch| {
        let k = pars[ch.pick(pars.len())];
        let mut d = document(ch, k, 0, true);
        let at = d["network"]["parameters"].as_array().unwrap().len() - 1;
        let new = d["network"]["parameters"][at].clone();
        let (name, ty) = (new["meta"]["name"].clone(), new["type"].as_str().unwrap().to_string());
        // a metric of the parameter
        let mut ms = vec![];
        positions(&new, "", &mut ms);
        ms.retain(|p| {
            let mut e = d.clone();
            if p.starts_with("/meta") {
                return false;
            }
            *e.pointer_mut(&format!("/network/parameters/{at}{p}")).unwrap() = json!({"type": "Parameter", "name": name});
            valid(catalogue(), &e)
        });
        if ms.is_empty() {
            return ch.skip();
        }
        let p = ms[ch.pick(ms.len())].clone();
        let loops = ch.pick(4);
        let put = |d: &mut Value, v: Value| *d.pointer_mut(&format!("/network/parameters/{at}{p}")).unwrap() = v;
        let agg = |n: &str, of: Value| json!({"meta": {"name": n}, "type": "Aggregated", "phase": "Before", "agg_func": {"type": "Sum"}, "metrics": [of, lit(1.0)]});
        let par = |n: &Value| json!({"type": "Parameter", "name": n});
        match loops {
            0 => put(&mut d, par(&name)),
            k @ 1..=2 => {
                put(&mut d, par(&json!("b")));
                let b = agg("b", par(&name));
                let ps = d["network"]["parameters"].as_array_mut().unwrap();
                ps.insert(if k == 1 { 0 } else { ps.len() }, b);
            }
            // no loop: nothing to reject
            _ => {
                put(&mut d, par(&json!("b")));
                let b = agg("b", lit(0.5));
                d["network"]["parameters"].as_array_mut().unwrap().insert(0, b);
            }
        }
        let right = match (loops, ty.as_str()) {
            // it gives what was: that is no loop
            (0..3, "Delay" | "Rolling") => None,
            (0..3, _) => Some(false),
            _ => None,
        };
        judge(ch, &d, "cycle", &format!("{ty} {p} loops={loops}"), right)
    });
    let vk: Vec<Kind> = ks.iter().copied().filter(|k| matches!(k, Kind::Virtual(_))).collect();
    cx.explore("references", |ch| {
        // what a virtual node is made of: every node, virtual node and nothing
        let k = vk[ch.pick(vk.len())];
        let mut d = document(ch, k, 0, true);
        let ty = d["network"]["virtual_nodes"][1]["type"].as_str().unwrap().to_string();
        let list = if ty == "AggregatedStorage" { "storage_nodes" } else { "nodes" };
        let n = ch.of(&["in1", "link1", "out1", "sto1", "vs1", "new", "p1", "missing", ""]);
        let twice = ch.flag();
        let old = d["network"]["virtual_nodes"][1][list].as_array().map(|a| a.len()).unwrap_or(0);
        if old == 0 {
            return ch.skip();
        }
        let i = ch.pick(old);
        d["network"]["virtual_nodes"][1][list][i]["name"] = json!(n);
        if twice {
            let w = d["network"]["virtual_nodes"][1].clone();
            d["network"]["virtual_nodes"].as_array_mut().unwrap().push(w);
        }
        let right = match (ty.as_str(), n) {
            _ if twice => Some(false),
            (_, "p1" | "missing" | "" | "new") => Some(false),
            ("AggregatedStorage", "sto1") => Some(true),
            ("AggregatedStorage", "vs1") => None,
            ("AggregatedStorage", _) => Some(false),
            (_, "sto1" | "vs1") => Some(false),
            _ => None,
        };
        judge(ch, &d, "reference", &format!("{ty} {n} twice={twice}"), right)
    });

    // Networks that pass metrics to each other.
    cx.explore("networks", |ch| {
        let net = || {
            let mut n = world()["network"].clone();
            n["timeseries"] = json!([]);
            n["parameters"].as_array_mut().unwrap().push(json!({"meta": {"name": "got"}, "type": "Constant", "value": lit(1.0)}));
            n
        };
        let names = [ch.of(&["net0", "", "NET1"]), ch.of(&["net1", "net0"])];
        let froms = ["net0", "net1", "missing", "", "Net0"];
        let metrics = [
            json!({"type": "Node", "name": "in1", "attribute": "Outflow"}),
            json!({"type": "Node", "name": "in1"}),
            json!({"type": "Parameter", "name": "p1"}),
            lit(2.0),
            json!({"type": "Node", "name": "missing"}),
            json!({"type": "Node", "name": "in1", "attribute": "Volume"}),
            json!({"type": "Parameter", "name": "missing"}),
            json!({"type": "InterNetworkTransfer", "name": "t"}),
            json!({"type": "Edge", "edge": {"from_node": "in1", "to_node": "out1"}}),
            json!({"type": "Edge", "edge": {"from_node": "in1", "to_node": "link1"}}),
            json!({"type": "VirtualNode", "name": "vs1", "attribute": "Volume"}),
            json!({"type": "VirtualNode", "name": "in1"}),
            json!({"type": "Timeseries", "name": "ts1", "columns": {"type": "Column", "name": "a"}}),
            json!({"type": "Table", "table": "t1", "row": "zz"}),
        ];
        let of = ch.of(&froms);
        let mi = ch.pick(metrics.len());
        let metric_ok = matches!(mi, 0 | 1 | 2 | 3 | 9 | 10);
        let used = ch.of(&["t", "u", "", "T"]);
        let extra = ch.pick(5);
        let at = ch.pick(2);
        let mut nets = [net(), net()];
        if mi == 7 {
            // where that network has such a transfer it has no such metric, still
            nets[1 - at]["parameters"].as_array_mut().unwrap().pop();
        }
        nets[at]["nodes"][0]["max_flow"] = json!({"type": "InterNetworkTransfer", "name": used});
        let t = json!({"from_network": of, "metric": metrics[mi], "name": "t", "initial_value": 1.0});
        let mut ts = vec![t.clone()];
        if extra == 1 {
            ts.push(t.clone());
        }
        let mut all = vec![json!([]), json!([])];
        all[at] = json!(ts);
        let mut d = json!({
            "metadata": {"title": "t"},
            "time": world()["time"],
            "scenarios": world()["scenarios"],
            "networks": [{"name": names[0], "network": nets[0], "transfers": all[0]}, {"name": names[1], "network": nets[1], "transfers": all[1]}],
        });
        let right = names[0] != names[1] && names.contains(&of) && names[at] != of && metric_ok && used == "t" && extra != 1;
        match extra {
            2 => d["networks"][at]["network"] = json!("missing.json"),
            3 => d["networks"][at]["network"]["edges"][0]["from_node"] = json!("missing"),
            4 => d["networks"][at]["network"]["parameters"][1]["metrics"] = json!([{"type": "InterNetworkTransfer", "name": used}]),
            _ => {}
        }
        let right = right && extra < 2;
        let what = format!("names {names:?} from {of} metric {} used {used} extra {extra} in {at}", metrics[mi]);
        ch.describe(|| format!("{what} right={right}"));
        ch.state(&what);
        let text = d.to_string();
        let out = Scratch::new();
        let r = imp(|| {
            let s = text.parse::<pywr_schema::model::MultiNetworkModelSchema>().map_err(|e| chain(&e))?;
            let b = s.create_model_builder(Some(&dir.0), Some(&out.0)).map_err(|e| chain(&e))?;
            let m = b.build().map_err(|e| chain(&e))?;
            m.run::<MicroLpSolver>(&Default::default()).map(|_| ()).map_err(|e| chain(&e))
        });
        ch.out(&r.as_ref().map_err(|e| e.text().chars().take(40).collect::<String>()));
        match r {
            Err(e) if e.is_panic() => fail(format!("network-panic:{}", place(&e.text())), format!("{what}: {}: {d}", e.text())),
            Err(e) if right => fail("network-refused", format!("{what} is right, and refused: {}: {d}", e.text())),
            Ok(()) if !right => fail(format!("network-accepted:{mi}"), format!("{what} is wrong, and accepted: {d}")),
            _ => Ok(()),
        }
    });

    // References to nothing: every reference of every component, within one deviation of a plain one.
    let near = cx.b(1, 2);
    cx.explore("missing", |ch| {
        let i = ch.pick(ks.len() + 1);
        let mut d = if i == ks.len() { world() } else { document(ch, ks[i], near, false) };
        let w = world();
        let ms: Vec<Mark> = doc_marks(&d).into_iter().filter(|m| i == ks.len() || w.pointer(&m.ptr) != d.pointer(&m.ptr)).collect();
        if ms.is_empty() {
            return ch.skip();
        }
        let m = ms[ch.pick(ms.len())].clone();
        let old = d.pointer(&m.ptr).unwrap().clone();
        let Some(old) = old.as_str() else { return ch.skip() };
        if outcome(&d, &dir.0).is_err() {
            // (nothing is told by a model that is no good to begin with)
            return ch.skip();
        }
        let new = match ch.pick(3) {
            0 => "missing".to_string(),
            1 => "".to_string(),
            // (the keys of a table are what its file says)
            _ => old.to_uppercase(),
        };
        if new == old {
            return ch.skip();
        }
        *d.pointer_mut(&m.ptr).unwrap() = json!(new);
        let g = generic(&m.ptr);
        // outputs are written to files of any name; python is not there
        let right = if m.role == Role::Path && (g.contains("/outputs") || new.is_empty()) || g.contains("source") { None } else { Some(false) };
        judge(ch, &d, &format!("missing {:?} {g}", m.role), &format!("{} made {new:?}", m.ptr), right)
    });
    // Things named twice.
    cx.explore("duplicates", |ch| {
        let i = ch.pick(ks.len() + 1);
        let mut d = if i == ks.len() { world() } else { document(ch, ks[i], 0, false) };
        let list = ch.of(&["nodes", "virtual_nodes", "parameters", "metric_sets", "tables", "timeseries", "edges", "groups", "local"]);
        let ptr = match list {
            "groups" => "/scenarios/groups".to_string(),
            "local" => {
                let list = if ch.flag() { "nodes" } else { "virtual_nodes" };
                format!("/network/{list}/{}/parameters", d["network"][list].as_array().unwrap().len() - 1)
            }
            l => format!("/network/{l}"),
        };
        let Some(a) = d.pointer_mut(&ptr).and_then(|a| a.as_array_mut()) else { return ch.skip() };
        if a.is_empty() {
            return ch.skip();
        }
        let n = ch.pick(a.len());
        let at = ch.pick(a.len() + 1);
        let mut x = a[n].clone();
        let name = x["meta"]["name"].clone();
        // of the same kind, or of another
        let other = ch.flag();
        if other {
            x = match list {
                "nodes" => json!({"meta": {"name": name}, "type": "Link"}),
                "virtual_nodes" => json!({"meta": {"name": name}, "type": "Aggregated", "nodes": [{"name": "link1"}]}),
                "parameters" | "local" => {
                    if n % 2 == 0 {
                        json!({"meta": {"name": name}, "type": "Constant", "value": lit(1.0)})
                    } else {
                        json!({"meta": {"name": name}, "type": "AggregatedIndex", "phase": "Before", "agg_func": {"type": "Sum"}, "metrics": [{"type": "Constant", "value": 1}]})
                    }
                }
                _ => return ch.skip(),
            };
        }
        a.insert(at, x);
        let what = format!("{ptr} {n} also at {at} other={other}");
        judge(ch, &d, &format!("duplicate {list}"), &what, Some(false))
    });
}
