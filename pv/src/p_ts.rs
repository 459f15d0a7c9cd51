//! C21: alignment and resampling of time series.
use crate::harness::*;
use crate::p_out::Scratch;
use crate::p_time::cal;
use crate::schema::*;
use serde_json::{Value, json};

const H: i64 = 3600;
const D: i64 = 86400;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    Hours(i64),
    Days(i64),
    Freq(&'static str),
}
impl Step {
    fn json(&self) -> Value {
        match self {
            Step::Hours(h) => json!({"type": "Hours", "hours": h}),
            Step::Days(d) => json!({"type": "Days", "days": d}),
            Step::Freq(f) => json!({"type": "Frequency", "freq": f}),
        }
    }
    /// Starts of the first `n` steps and the end of the last.
    fn bounds(&self, start: i64, n: usize) -> Vec<i64> {
        (0..=n as i64)
            .map(|i| match self {
                Step::Hours(h) => start + i * h * H,
                Step::Days(d) => start + i * d * D,
                Step::Freq("1w") => start + i * 7 * D,
                Step::Freq("15d") => start + i * 15 * D,
                Step::Freq("1mo") => {
                    let (y, m, d) = cal::from_ordinal(start.div_euclid(D));
                    let (y, m, d) = cal::add_months(y, m, d, i);
                    cal::ordinal(y, m, d) * D
                }
                Step::Freq("1q") => {
                    let (y, m, d) = cal::from_ordinal(start.div_euclid(D));
                    let (y, m, d) = cal::add_months(y, m, d, 3 * i);
                    cal::ordinal(y, m, d) * D
                }
                _ => unreachable!(),
            })
            .collect()
    }
}
fn stamp(s: i64, fmt: usize) -> String {
    let (y, m, d) = cal::from_ordinal(s.div_euclid(D));
    let t = s.rem_euclid(D);
    match fmt {
        0 => format!("{y:04}-{m:02}-{d:02}"),
        1 => format!("{y:04}-{m:02}-{d:02} {:02}:{:02}:{:02}", t / H, t / 60 % 60, t % 60),
        _ => format!("{y:04}-{m:02}-{d:02}T{:02}:{:02}:{:02}", t / H, t / 60 % 60, t % 60),
    }
}
fn model_time(step: Step, b: &[i64]) -> Value {
    let n = b.len() - 1;
    time_json(&stamp(b[0], 2), &stamp(b[n - 1], 2), step.json())
}

/// One row of a time series: start (s) and a cell per column.
type Row = (i64, Vec<Option<f64>>);

/// What a step may see of column `c`: (least, greatest) of the rows that overlap it and the exact value when it is settled.
struct Seen {
    lo: f64,
    hi: f64,
    exact: Option<f64>,
    any: bool,
    missing: bool,
}
fn seen(rows: &[Row], f: i64, c: usize, a: i64, b: i64) -> Seen {
    let over: Vec<&Row> = rows.iter().filter(|r| r.0 < b && r.0 + f > a).collect();
    let v: Vec<f64> = over.iter().filter_map(|r| r.1[c]).collect();
    let inside = over.iter().all(|r| r.0 >= a && r.0 + f <= b);
    let held = over.len() == 1 && over[0].0 <= a && over[0].0 + f >= b;
    Seen {
        lo: v.iter().copied().fold(f64::INFINITY, f64::min),
        hi: v.iter().copied().fold(f64::NEG_INFINITY, f64::max),
        exact: if v.is_empty() || v.len() != over.len() {
            None
        } else if held {
            Some(v[0])
        } else if inside && over.len() as i64 * f == b - a {
            Some(v.iter().sum::<f64>() / v.len() as f64)
        } else {
            None
        },
        any: !over.is_empty(),
        missing: v.len() != over.len(),
    }
}

pub fn c21(cx: &Cx) {
    cx.assume("the CSV reader and date parser of polars are trusted to split text into cells");
    cx.assume("a row holds from its time to the next; where rows and timesteps only partly overlap any value between the least and greatest overlapping row is accepted, and so is an error");
    let steps: Vec<Step> = cx.b(
        vec![Step::Days(1), Step::Days(2), Step::Days(3), Step::Days(7), Step::Hours(12), Step::Freq("1mo"), Step::Freq("1w")],
        vec![Step::Days(1), Step::Days(2), Step::Days(3), Step::Days(5), Step::Days(7), Step::Hours(6), Step::Hours(12), Step::Hours(8), Step::Hours(36), Step::Freq("1mo"), Step::Freq("1w"), Step::Freq("15d"), Step::Freq("1q")],
    );
    let freqs: Vec<i64> = cx.b(vec![12, 24, 48, 72, 168], vec![1, 6, 12, 24, 36, 48, 72, 96, 168, 336, 720]);
    let starts = cx.b(vec![(2021, 2, 1), (2020, 12, 30)], vec![(2021, 1, 1), (2021, 2, 1), (2020, 2, 1), (2020, 12, 30), (2020, 2, 27)]);
    cx.explore("grid", |ch| {
        let step = ch.of(&steps);
        let f = ch.of(&freqs) * H;
        let (y, m, d) = ch.of(&starts);
        if matches!(step, Step::Freq("1mo" | "1q")) && d > 28 {
            return ch.skip();
        }
        let n = 1 + ch.pick(cx.b(3, 5));
        let b = step.bounds(cal::ordinal(y, m, d) * D, n);
        if (b[n] - b[0]) / f > 3000 {
            return ch.skip();
        }
        // the first row, relative to the model's start
        let lead = match ch.pick(cx.b(6, 8)) {
            0 => 0,
            1 => -f,
            2 => f,
            3 => -f / 2,
            4 => -D,
            5 => D,
            6 => -3 * f,
            _ => -12 * H,
        };
        let s0 = b[0] + lead;
        // the last row: before the start of the last step, in it, at its end, after it
        let want_end = match ch.pick(4) {
            0 => b[n - 1] - 1,
            1 => b[n - 1],
            2 => b[n] - f,
            _ => b[n] + f,
        };
        let k = (want_end - s0).div_euclid(f) + 1;
        if k < 1 {
            return ch.skip();
        }
        let order = ch.of(cx.b(&[0, 2][..], &[0, 1, 2][..]));
        let shape = ch.pick(5); // 0 single; 1 first column; 2 second column; 3 scenarios; 4 as integers
        let fmt = if order > 0 && !cx.thorough { 1 } else if (s0 % D != 0) || (f % D != 0) { 1 + ch.pick(2) } else { ch.pick(3) };
        // rising values, so that a shift in either direction shows
        let rows: Vec<Row> = (0..k).map(|i| (s0 + i * f, vec![Some((3 + i * i) as f64 + if shape == 4 { 0.0 } else { 0.25 }), Some((2000 - i * i) as f64)])).collect();
        let cols = if shape == 0 || shape == 4 { 1 } else { 2 };
        let time_last = shape == 2;
        let mut shown = rows.clone();
        match order {
            0 => {}
            1 => shown.reverse(),
            _ => shown.rotate_left(rows.len() / 2),
        }
        let head: Vec<&str> = ["a", "b"][..cols].to_vec();
        let line = |t: String, v: Vec<String>| if time_last { format!("{},{t}\n", v.join(",")) } else { format!("{t},{}\n", v.join(",")) };
        let text = line("when".into(), head.iter().map(|s| s.to_string()).collect())
            + &shown.iter().map(|r| line(stamp(r.0, fmt), r.1[..cols].iter().map(|v| v.unwrap().to_string()).collect())).collect::<String>();
        let dir = Scratch::new();
        std::fs::write(dir.0.join("ts.csv"), &text).unwrap();
        let mut ts = json!({"type": "Polars", "meta": {"name": "ts"}, "url": "ts.csv"});
        if time_last || order > 0 {
            ts["time_col"] = json!("when");
        }
        let r = |c: Value| if c.is_null() { json!({"type": "Timeseries", "name": "ts"}) } else { json!({"type": "Timeseries", "name": "ts", "columns": c}) };
        let col = |c: &str| r(json!({"type": "Column", "name": c}));
        let (metrics, which): (Vec<Value>, Vec<usize>) = match shape {
            0 => (vec![r(Value::Null)], vec![0]),
            1 => (vec![col("a")], vec![0]),
            2 => (vec![col("b"), col("a")], vec![1, 0]),
            3 => (vec![r(json!({"type": "Scenario", "name": "g"}))], vec![]),
            _ => (vec![par("ix")], vec![0]),
        };
        let params = if shape == 4 {
            // an index of the constants 0, 1, 2, ...
            json!([{"meta": {"name": "ix"}, "type": "IndexedArray", "metrics": (0..=(3 + k * k)).map(|i| lit(i as f64)).collect::<Vec<_>>(), "index_parameter": {"type": "Timeseries", "name": "ts"}}])
        } else {
            json!([])
        };
        if shape == 4 && k > 60 {
            return ch.skip();
        }
        let mut doc = doc(
            model_time(step, &b),
            json!({"nodes": [{"meta": {"name": "in"}, "type": "Input"}, {"meta": {"name": "out"}, "type": "Output"}], "edges": [{"from_node": "in", "to_node": "out"}],
                "parameters": params, "timeseries": [ts], "metric_sets": series_metrics(&metrics)}),
        );
        if shape == 3 {
            doc["scenarios"] = json!({"groups": [{"name": "g", "size": 2}]});
        }
        ch.describe(|| format!("{step:?} n={n} from {} data every {}h from {} x{k}, order {order} shape {shape} fmt {fmt} {doc}", stamp(b[0], 1), f / H, stamp(s0, 1)));
        let got = run_doc(&doc, Some(&dir.0));
        ch.state(&(format!("{step:?}"), f, n, lead, k, got.is_ok()));
        let cells: Vec<Seen> = (0..n).map(|i| seen(&rows, f, 0, b[i], b[i + 1])).collect();
        let must_fail = cells.iter().any(|s| !s.any);
        let aligned = lead <= 0 && lead % f == 0;
        let last = s0 + (k - 1) * f;
        let left = rows.iter().filter(|r| r.0 >= b[0]).count();
        let uniform = (1..n).all(|i| b[i + 1] - b[i] == b[1] - b[0]);
        let must_work = aligned && left >= 2 && cells.iter().all(|s| s.exact.is_some()) && last >= b[n - 1] && last + f >= b[n] && (uniform || f <= b[1] - b[0]);
        match got {
            Err(e) => {
                chk!(!e.is_panic(), "panic", "{}", e.text());
                chk!(!must_work, "rejected", "data that covers the model rejected: {}", e.text());
            }
            Ok(v) => {
                chk!(!must_fail, "accepted", "data that does not cover the model accepted: {v:?}");
                chk!(v.len() == n, "length", "{} steps", v.len());
                for i in 0..n {
                    let ns = if shape == 3 { 2 } else { 1 };
                    chk!(v[i].len() == ns, "scenarios", "{v:?}");
                    for s in 0..ns {
                        let w = if shape == 3 { vec![s] } else { which.clone() };
                        for (j, c) in w.iter().enumerate() {
                            let x = v[i][s][j];
                            let e = seen(&rows, f, *c, b[i], b[i + 1]);
                            match e.exact {
                                Some(y) if shape == 4 => chk!(x == y.trunc() || x == y.round(), "value", "step {i} column {c}: {x}, expected {y}"),
                                Some(y) => chk!((x - y).abs() < 1e-9 * y.abs().max(1.0), "value", "step {i} column {c}: {x}, expected {y}; all {v:?}"),
                                None => chk!(x >= e.lo - 1.0e-9 - if shape == 4 { 1.0 } else { 0.0 } && x <= e.hi + 1e-9, "range", "step {i} column {c}: {x} is outside the rows of the step, {}..{}; all {v:?}", e.lo, e.hi),
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    });

    // one spoiled row: a missing or malformed cell or time, a missing or repeated row
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Spoil {
        None,
        Cell(&'static str),
        Time(&'static str),
        Drop,
        Twice,
        Shift,
    }
    let spoils = [Spoil::None, Spoil::Cell(""), Spoil::Cell("x"), Spoil::Cell("NaN"), Spoil::Cell("null"), Spoil::Time(""), Spoil::Time("x"), Spoil::Time("2021-02-30"), Spoil::Drop, Spoil::Twice, Spoil::Shift];
    cx.explore("spoiled", |ch| {
        let (step, f) = ch.of(&[(Step::Days(1), D), (Step::Days(1), 12 * H), (Step::Days(2), D), (Step::Days(1), 2 * D), (Step::Days(1), 3 * D), (Step::Freq("1mo"), D)]);
        let n = if f > D { 1 + ch.pick(6) } else { 1 + ch.pick(3) };
        let b = step.bounds(cal::ordinal(2021, 2, 1) * D, n);
        let before = ch.pick(2) as i64;
        let after = 1 + ch.pick(2) as i64;
        let s0 = b[0] - before * f;
        let k = (b[n] - s0 + f - 1) / f + after;
        let spoil = ch.of(&spoils);
        // which row: any of the first, the last, and around the model's bounds
        let at = if spoil == Spoil::None {
            0
        } else if k <= 12 {
            ch.pick(k as usize) as i64
        } else {
            ch.of(&[0, 1, 2, k / 2, k - 3, k - 2, k - 1])
        };
        let shape = ch.pick(4); // single, column, scenarios, integers
        let cols = if shape == 1 || shape == 2 { 2 } else { 1 };
        let c = if cols == 2 { ch.pick(2) } else { 0 };
        let ints = shape == 3;
        if ints && k > 60 {
            return ch.skip();
        }
        let all: Vec<Row> = (0..k).map(|i| (s0 + i * f, (0..2).map(|c| Some((3 + i * i + 100 * c) as f64 + if ints { 0.0 } else { 0.25 })).collect())).collect();
        let fmt = if f % D != 0 { 1 } else { 0 };
        let mut text = format!("when,{}\n", ["a", "b"][..cols].join(","));
        let mut rows = vec![];
        for (i, r) in all.iter().enumerate() {
            let mut r = r.clone();
            let mut cells: Vec<String> = r.1[..cols].iter().map(|v| v.unwrap().to_string()).collect();
            let mut t = stamp(r.0, fmt);
            if i as i64 == at {
                match spoil {
                    Spoil::None => {}
                    Spoil::Cell(x) => {
                        cells[c] = x.into();
                        r.1[c] = None;
                    }
                    Spoil::Time(x) => {
                        t = x.into();
                        r.1 = vec![None; 2];
                    }
                    Spoil::Drop => {
                        continue;
                    }
                    Spoil::Twice => text += &format!("{t},{}\n", cells.join(",")),
                    Spoil::Shift => {
                        r.0 += f / 3;
                        t = stamp(r.0, 1);
                    }
                }
            }
            text += &format!("{t},{}\n", cells.join(","));
            rows.push(r);
        }
        let dir = Scratch::new();
        std::fs::write(dir.0.join("ts.csv"), &text).unwrap();
        let cref = match shape {
            1 => json!({"type": "Column", "name": if c == 0 { "a" } else { "b" }}),
            2 => json!({"type": "Scenario", "name": "g"}),
            _ => Value::Null,
        };
        let mut metric = json!({"type": "Timeseries", "name": "ts"});
        if !cref.is_null() {
            metric["columns"] = cref;
        }
        let mut params = json!([]);
        if ints {
            params = json!([{"meta": {"name": "ix"}, "type": "IndexedArray", "metrics": (0..=(3 + k * k).min(4000)).map(|i| lit(i as f64)).collect::<Vec<_>>(), "index_parameter": metric}]);
            metric = par("ix");
        }
        let mut doc = doc(
            model_time(step, &b),
            json!({"nodes": [{"meta": {"name": "in"}, "type": "Input"}, {"meta": {"name": "out"}, "type": "Output"}], "edges": [{"from_node": "in", "to_node": "out"}],
                "parameters": params, "timeseries": [{"type": "Polars", "meta": {"name": "ts"}, "url": "ts.csv"}], "metric_sets": series_metrics(&[metric])}),
        );
        if shape == 2 {
            doc["scenarios"] = json!({"groups": [{"name": "g", "size": 2}]});
        }
        ch.describe(|| format!("{step:?} n={n} data every {}h x{k} from {}, {spoil:?} at {at} shape {shape} column {c}: {text:?}", f / H, stamp(s0, 0)));
        let got = run_doc(&doc, Some(&dir.0));
        ch.state(&(format!("{step:?} {spoil:?}"), f, n, at, got.is_ok()));
        // without the row that was lost, the rest may be a series of a longer interval
        let mut f = f;
        if matches!(spoil, Spoil::Drop | Spoil::Time(_)) {
            let kept: Vec<Row> = rows.iter().filter(|r| r.0 >= b[0] && r.1.iter().all(|c| c.is_some())).cloned().collect();
            if kept.len() >= 2 && kept.windows(2).all(|w| w[1].0 - w[0].0 == kept[1].0 - kept[0].0) && kept[1].0 - kept[0].0 > f {
                f = kept[1].0 - kept[0].0;
                rows = kept;
            }
        }
        match got {
            Err(e) => {
                chk!(!e.is_panic(), "panic", "{}", e.text());
                chk!(spoil != Spoil::None || (n == 1 && f >= b[1] - b[0] && after < 1), "rejected", "{}", e.text());
            }
            Ok(v) => {
                chk!(v.len() == n, "length", "{} steps", v.len());
                for i in 0..n {
                    for s in 0..if shape == 2 { 2 } else { 1 } {
                        let cc = if shape == 2 { s } else { c };
                        let e = seen(&rows, f, cc, b[i], b[i + 1]);
                        let x = v[i][s][0];
                        if x.is_nan() && spoil == Spoil::Cell("NaN") && e.missing {
                            continue; // what the data says
                        }
                        chk!(e.any && e.lo <= e.hi, "missing", "step {i} scenario {s} has no data but was given {x}: {v:?}");
                        match e.exact {
                            Some(y) if ints => chk!((x - y).abs() < 1.0, "value", "step {i}: {x}, expected {y}"),
                            Some(y) if spoil != Spoil::Twice => chk!((x - y).abs() < 1e-9 * y.abs().max(1.0), "value", "step {i}: {x}, expected {y}"),
                            _ => chk!(x >= e.lo - if ints { 1.0 } else { 1e-9 } && x <= e.hi + 1e-9, "range", "step {i} scenario {s}: {x} is outside {}..{}: {v:?}", e.lo, e.hi),
                        }
                    }
                }
            }
        }
        Ok(())
    });

    // several references to several series: each gets its own column, and wrong ones are errors
    cx.explore("references", |ch| {
        #[derive(Clone, Copy, Debug, PartialEq)]
        enum R {
            Col(&'static str),
            Scen(&'static str),
            Single,
        }
        let n = 1 + ch.pick(cx.b(2, 3));
        let refs: Vec<(&str, R, bool)> = (0..n)
            .map(|_| {
                let ts = ch.of(&["one", "two", "wide", "none"]);
                let r = match ts {
                    "none" => R::Single,
                    "wide" => ch.of(&[R::Col("g"), R::Col("a"), R::Scen("g"), R::Scen("h"), R::Single, R::Col("zz"), R::Scen("zz")]),
                    _ => ch.of(&[R::Col("a"), R::Col("b"), R::Single]),
                };
                (ts, r, ch.flag())
            })
            .collect();
        let (sg, sh) = ch.of(&[(2usize, 0usize), (2, 2), (3, 0), (1, 2)]);
        let twin = ch.pick(3); // 1: two series of one name; 2: a parameter named like the series' column
        let dir = Scratch::new();
        // the cells of every file, [column][row]
        let data = |ts: &str, c: usize, i: usize| (match ts { "one" => 10, "two" => 20, _ => 30 } + 3 * c + i) as f64;
        let cols = |ts: &str| -> Vec<&str> { match ts { "one" => vec!["a"], "two" => vec!["a", "b"], _ => vec!["g", "a"] } };
        for ts in ["one", "two", "wide"] {
            let text = format!("t,{}\n", cols(ts).join(",")) + &(0..3).map(|i| format!("2021-01-0{},{}\n", i + 1, (0..cols(ts).len()).map(|c| data(ts, c, i).to_string()).collect::<Vec<_>>().join(","))).collect::<String>();
            std::fs::write(dir.0.join(format!("{ts}.csv")), text).unwrap();
        }
        let mut series: Vec<Value> = ["one", "two", "wide"].iter().map(|t| json!({"type": "Polars", "meta": {"name": t}, "url": format!("{t}.csv")})).collect();
        if twin == 1 {
            series.push(json!({"type": "Polars", "meta": {"name": "one"}, "url": "two.csv"}));
        }
        let mut params = vec![json!({"meta": {"name": "a"}, "type": "Constant", "value": lit(-1.0)}), json!({"meta": {"name": "one"}, "type": "Constant", "value": lit(-2.0)})];
        let mut metrics = vec![];
        for (i, (ts, r, int)) in refs.iter().enumerate() {
            let mut v = json!({"type": "Timeseries", "name": ts});
            match r {
                R::Col(c) => v["columns"] = json!({"type": "Column", "name": c}),
                R::Scen(g) => v["columns"] = json!({"type": "Scenario", "name": g}),
                R::Single => {}
            }
            if *int {
                let p = format!("ix{i}");
                params.push(json!({"meta": {"name": p}, "type": "IndexedArray", "metrics": (0..60).map(|i| lit(i as f64)).collect::<Vec<_>>(), "index_parameter": v}));
                metrics.push(par(&p));
            } else {
                metrics.push(v);
            }
        }
        if twin == 2 {
            metrics.push(par("a"));
        }
        let mut groups = vec![json!({"name": "g", "size": sg})];
        if sh > 0 {
            groups.push(json!({"name": "h", "size": sh}));
        }
        let mut d = doc(
            days_json(3),
            json!({"nodes": [{"meta": {"name": "one"}, "type": "Input"}, {"meta": {"name": "out"}, "type": "Output"}], "edges": [{"from_node": "one", "to_node": "out"}],
                "parameters": params, "timeseries": series, "metric_sets": series_metrics(&metrics)}),
        );
        d["scenarios"] = json!({"groups": groups});
        ch.describe(|| format!("{refs:?} groups {sg} {sh} twin {twin}"));
        let got = run_doc(&d, Some(&dir.0));
        ch.state(&(format!("{refs:?}"), sg, sh, got.is_ok()));
        let size = |g: &str| match g {
            "g" => sg,
            "h" => sh,
            _ => 0,
        };
        // which references cannot be resolved
        let bad = twin == 1
            || refs.iter().any(|(ts, r, _)| match r {
                _ if *ts == "none" => true,
                R::Col(c) => !cols(ts).contains(c),
                R::Scen(g) => size(g) == 0 || size(g) > 2,
                R::Single => cols(ts).len() > 1,
            });
        // fewer scenarios than columns: surplus data
        let loose = refs.iter().any(|(_, r, _)| matches!(r, R::Scen(g) if size(g) == 1));
        match got {
            Err(e) => {
                chk!(!e.is_panic(), "panic", "{}", e.text());
                let twice = |a: &(&str, R, bool), b: &(&str, R, bool)| a.0 == b.0 && a.2 != b.2 && norm(a) == norm(b);
                fn norm(a: &(&str, R, bool)) -> &'static str {
                    match a.1 {
                        R::Col(c) => c,
                        R::Scen(g) => g,
                        R::Single => "a",
                    }
                }
                let both = (0..n).any(|i| (0..i).any(|j| twice(&refs[i], &refs[j])));
                chk!(bad || loose, if both { "number-and-index" } else { "rejected" }, "{}", e.text());
            }
            Ok(v) => {
                chk!(!bad, "accepted", "a reference that cannot be resolved was accepted: {v:?}");
                let ns = sg * sh.max(1);
                for t in 0..3 {
                    chk!(v[t].len() == ns, "scenarios", "{v:?}");
                    for s in 0..ns {
                        for (i, (ts, r, _)) in refs.iter().enumerate() {
                            let c = match r {
                                R::Col(c) => cols(ts).iter().position(|x| x == c).unwrap(),
                                R::Scen("g") => s / sh.max(1),
                                R::Scen(_) => s % sh.max(1),
                                R::Single => 0,
                            };
                            let w = data(ts, c, t);
                            chk!(v[t][s][i] == w, "which", "step {t} scenario {s} reference {i}: {}, expected {w}", v[t][s][i]);
                        }
                        if twin == 2 {
                            chk!(v[t][s][n] == -1.0, "parameter", "{}", v[t][s][n]);
                        }
                    }
                }
            }
        }
        Ok(())
    });

    // files that cannot be read
    cx.explore("files", |ch| {
        let (name, text) = ch.of(&[
            ("ts.csv", ""),
            ("ts.csv", "t,a\n"),
            ("ts.csv", "t\n2021-01-01\n2021-01-02\n"),
            ("ts.csv", "t,a\n2021-01-01,1\n"),
            ("ts.csv", "t,a\n1,1\n2,2\n"),
            ("ts.csv", "t,a\nx,1\ny,2\n"),
            ("ts.csv", "t,a\n2021-01-01,1\n2021-01-02\n"),
            ("ts.csv", "t,a\n2021-01-01,1\n2021-01-02,2,3\n"),
            ("ts", "t,a\n2021-01-01,1\n2021-01-02,2\n"),
            ("ts.txt", "t,a\n2021-01-01,1\n2021-01-02,2\n"),
            ("ts.parquet", "t,a\n2021-01-01,1\n2021-01-02,2\n"),
            ("missing", ""),
            ("ok.csv", "t,a\n2021-01-01,1\n2021-01-02,2\n"),
            ("OK.CSV", "t,a\n2021-01-01,1\n2021-01-02,2\n"),
        ]);
        let time_col = ch.of(&[None, Some("t"), Some("zz"), Some("a")]);
        let n = 1 + ch.pick(2);
        let kind = ch.of(&["Polars", "Pandas"]);
        let dir = Scratch::new();
        if name != "missing" {
            std::fs::write(dir.0.join(name), text).unwrap();
        }
        let mut ts = json!({"type": kind, "meta": {"name": "ts"}, "url": if name == "missing" { "missing.csv" } else { name }});
        if let Some(c) = time_col {
            ts["time_col"] = json!(c);
        }
        let d = doc(
            days_json(n),
            json!({"nodes": [{"meta": {"name": "in"}, "type": "Input"}, {"meta": {"name": "out"}, "type": "Output"}], "edges": [{"from_node": "in", "to_node": "out"}],
                "timeseries": [ts], "metric_sets": series_metrics(&[json!({"type": "Timeseries", "name": "ts"})])}),
        );
        ch.describe(|| format!("{kind} {name} {text:?} time_col {time_col:?} n={n}"));
        let got = run_doc(&d, Some(&dir.0));
        let good = name.to_lowercase() == "ok.csv" && kind == "Polars" && matches!(time_col, None | Some("t"));
        ch.state(&(name, text, time_col, n, got.is_ok()));
        match got {
            Err(e) => {
                chk!(!e.is_panic(), "panic", "{}", e.text());
                chk!(!good, "rejected", "{}", e.text());
            }
            Ok(v) => {
                let right = (0..n).all(|i| v[i][0][0] == (i + 1) as f64);
                // a short last row beyond the model
                let beyond = n == 1 && text.ends_with("2021-01-02\n") && matches!(time_col, None | Some("t")) && kind == "Polars";
                chk!(right && (good || beyond), "accepted", "{v:?}")
            }
        }
        Ok(())
    });
}
