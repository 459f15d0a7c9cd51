//! C22, C25, C21: external data (tables, checksums, time series).
use crate::harness::*;
use crate::p_out::Scratch;
use crate::schema::*;
use pywr_schema::data_tables::{DataTable, LoadedTableCollection, TableDataRef};
use serde_json::{Value, json};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Lay {
    Row(usize),
    Col(usize),
    Both(usize, usize),
}
impl Lay {
    fn json(&self) -> Value {
        match self {
            Lay::Row(n) => json!({"type": "Row", "cols": n}),
            Lay::Col(n) => json!({"type": "Col", "rows": n}),
            Lay::Both(r, c) => json!({"type": "Both", "rows": r, "cols": c}),
        }
    }
    /// Number of keys of a lookup: those of the row come first.
    fn keys(&self) -> usize {
        match self {
            Lay::Row(n) | Lay::Col(n) => *n,
            Lay::Both(r, c) => r + c,
        }
    }
    fn supported(&self, array: bool) -> bool {
        match self {
            Lay::Row(n) | Lay::Col(n) => (1..=4).contains(n),
            Lay::Both(r, c) => !array && (1..=2).contains(r) && (1..=2).contains(c),
        }
    }
}
fn layouts() -> Vec<Lay> {
    let mut v: Vec<Lay> = (0..=5).map(Lay::Row).chain((0..=5).map(Lay::Col)).collect();
    for r in 0..=3 {
        for c in 0..=3 {
            v.push(Lay::Both(r, c));
        }
    }
    v
}
fn table_json(name: &str, array: bool, lay: Lay, url: &str) -> Value {
    json!({"meta": {"name": name}, "format": "CSV", "type": if array { "Array" } else { "Scalar" }, "lookup": lay.json(), "url": url})
}
fn load(defs: &[Value], dir: &std::path::Path) -> Result<LoadedTableCollection, ImpErr> {
    let defs: Vec<DataTable> = imp(|| serde_json::from_value(json!(defs)).map_err(|e| e.to_string()))?;
    imp(|| LoadedTableCollection::from_schema(Some(&defs), Some(dir)).map_err(|e| chain(&e)))
}
fn csv_text(g: &[Vec<String>]) -> String {
    let q = |s: &String| {
        if s.contains([',', '"', '\n']) { format!("\"{}\"", s.replace('"', "\"\"")) } else { s.clone() }
    };
    g.iter().map(|r| r.iter().map(q).collect::<Vec<_>>().join(",") + "\n").collect()
}
/// Every tuple of `n` items.
fn tuples(items: &[&str], n: usize) -> Vec<Vec<String>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        out = out.into_iter().flat_map(|t: Vec<String>| items.iter().map(move |i| [t.clone(), vec![i.to_string()]].concat())).collect();
    }
    out
}
/// All references with these keys: every split over row and column, as a single key or a list.
fn refs(table: &str, key: &[String]) -> Vec<TableDataRef> {
    let side = |k: &[String]| -> Vec<Value> {
        match k.len() {
            0 => vec![Value::Null],
            1 => vec![json!(k[0]), json!(k)],
            _ => vec![json!(k)],
        }
    };
    let mut out = vec![];
    for i in 0..=key.len() {
        for r in side(&key[..i]) {
            for c in side(&key[i..]) {
                let mut v = json!({"table": table});
                if !r.is_null() {
                    v["row"] = r.clone();
                }
                if !c.is_null() {
                    v["column"] = c;
                }
                out.push(serde_json::from_value(v).expect("table reference"));
            }
        }
    }
    out
}
/// The cells addressed by `key` in a grid of text, by position of the headings.
fn cells(g: &[Vec<String>], lay: Lay, key: &[String]) -> Vec<Vec<String>> {
    let at = |r: usize, c: usize| g.get(r).and_then(|x| x.get(c)).cloned();
    let mut out = vec![];
    let width = g.iter().map(|r| r.len()).max().unwrap_or(0);
    match lay {
        Lay::Row(n) => {
            for row in g.iter().skip(1) {
                if row.len() >= n && row[..n] == *key {
                    out.push(row[n..].to_vec());
                }
            }
        }
        Lay::Col(n) => {
            for c in 0..width {
                if (0..n).all(|r| at(r, c).as_ref() == Some(&key[r])) {
                    out.push((n..g.len()).filter_map(|r| at(r, c)).collect());
                }
            }
        }
        Lay::Both(nr, nc) => {
            for (ri, row) in g.iter().enumerate().skip(nr) {
                for c in nc..width {
                    if row.len() >= nc && row[..nc] == key[..nc] && (0..nr).all(|r| at(r, c).as_ref() == Some(&key[nc + r])) {
                        out.push(at(ri, c).into_iter().collect());
                    }
                }
            }
        }
    }
    out
}

pub fn c22(cx: &Cx) {
    cx.assume("the CSV reader splits text into cells as RFC 4180 says; it is trusted and its own errors count as rejection");
    // every supported and unsupported layout, all keys of up to four parts, cell order, one missing or malformed cell
    let lays = layouts();
    let names: Vec<[&str; 2]> = cx.b(vec![["a", "b"], ["A", "a"], ["a ", "a"], ["1", "01"], ["x,y", "x"], ["1.0", "1"], ["", "a"]], vec![["a", "b"], ["A", "a"], ["a ", "a"], ["1", "01"], ["x,y", "x"], ["1.0", "1"], ["", "a"], ["\u{e9}", "e"]]);
    cx.explore("layouts", |ch| {
        let array = ch.flag();
        let lay = ch.of(&lays);
        let nm = ch.of(&names);
        let n = lay.keys();
        let keys: Vec<Vec<String>> = {
            let mut k = tuples(&nm, n);
            match ch.pick(3) {
                0 => {}
                1 => k.reverse(),
                _ => {
                    let m = k.len() / 2;
                    k.rotate_left(m + 1 - m.min(1) * (1 - m % 2));
                }
            }
            k
        };
        let len = if array { ch.of(&[1, 3]) } else { 1 };
        // the cell left out or spoiled
        let spoil = ch.of(&[None, Some(""), Some("x"), Some("1 2"), Some("1,5"), Some("gone")]);
        let which = if spoil.is_some() { ch.pick(keys.len()) } else { 0 };
        let val = |k: &[String], j: usize| -> f64 {
            let i = k.iter().fold(1usize, |a, s| 2 * a + nm.iter().position(|x| x == s).unwrap());
            i as f64 + 0.25 * (j as f64) - 0.125
        };
        let txt = |k: &[String], j: usize| -> String {
            match spoil {
                Some(s) if k == keys[which] && j == len - 1 && s != "gone" => s.to_string(),
                _ => val(k, j).to_string(),
            }
        };
        let gone = |k: &[String]| spoil == Some("gone") && k == keys[which];
        let mut grid: Vec<Vec<String>> = vec![];
        match lay {
            Lay::Row(n) => {
                grid.push((0..n + len).map(|i| format!("h{i}")).collect());
                for k in keys.iter().filter(|k| !gone(k)) {
                    grid.push([k.clone(), (0..len).map(|j| txt(k, j)).collect()].concat());
                }
            }
            Lay::Col(n) => {
                let ks: Vec<_> = keys.iter().filter(|k| !gone(k)).collect();
                for i in 0..n.max(1) {
                    grid.push(ks.iter().map(|k| k.get(i).cloned().unwrap_or("h".into())).collect());
                }
                for j in 0..len {
                    grid.push(ks.iter().map(|k| txt(k, j)).collect());
                }
            }
            Lay::Both(nr, nc) => {
                // row headings and column headings in the order in which they first occur
                let (mut rh, mut chh): (Vec<Vec<String>>, Vec<Vec<String>>) = (vec![], vec![]);
                for k in &keys {
                    if !rh.contains(&k[..nc].to_vec()) {
                        rh.push(k[..nc].to_vec());
                    }
                    if !chh.contains(&k[nc..].to_vec()) {
                        chh.push(k[nc..].to_vec());
                    }
                }
                for i in 0..nr.max(1) {
                    grid.push((0..nc).map(|c| format!("h{c}")).chain(chh.iter().map(|k| k.get(i).cloned().unwrap_or("h".into()))).collect());
                }
                for r in &rh {
                    grid.push([r.clone(), chh.iter().map(|c| {
                        let k = [r.clone(), c.clone()].concat();
                        if gone(&k) { String::new() } else { txt(&k, 0) }
                    }).collect()].concat());
                }
            }
        }
        if grid.iter().any(|r| r.is_empty() || (r.len() == 1 && r[0].is_empty())) || (spoil.is_some() && grid.len() < 2) {
            return ch.skip(); // not expressible as CSV rows
        }
        let dir = Scratch::new();
        let text = csv_text(&grid);
        std::fs::write(dir.0.join("t.csv"), &text).unwrap();
        ch.describe(|| format!("{array} {lay:?} {text:?}"));
        let res = load(&[table_json("t", array, lay, "t.csv")], &dir.0);
        ch.state(&(array, format!("{lay:?}"), res.is_ok()));
        if !lay.supported(array) {
            chk!(res.is_err(), "unsupported", "{lay:?} array={array} loaded");
            chk!(!matches!(&res, Err(e) if e.is_panic()), "panic", "panic while loading");
            return Ok(());
        }
        let bad = matches!(spoil, Some(s) if s != "gone");
        let tables = match res {
            Ok(t) => t,
            Err(e) => {
                chk!(!e.is_panic(), "panic", "{}", e.text());
                chk!(bad || (spoil == Some("gone") && grid.len() < 2), "load", "cannot load: {}", e.text());
                return Ok(());
            }
        };
        for m in 0..=n + 1 {
            for key in tuples(&[nm[0], nm[1], "zz"], m) {
                let want: Option<Vec<f64>> = if m == n && !key.iter().any(|k| k == "zz") && !gone(&key) && !(bad && key == keys[which]) {
                    Some((0..len).map(|j| val(&key, j)).collect())
                } else {
                    None
                };
                let rs = refs("t", &key);
                for r in if m == n { &rs[..] } else { &rs[..1] } {
                    let got: Result<Vec<f64>, ImpErr> = if array {
                        imp(|| tables.get_vec_f64(r).map(|v| v.to_vec()).map_err(|e| chain(&e)))
                    } else {
                        imp(|| tables.get_scalar_f64(r).map(|v| vec![v]).map_err(|e| chain(&e)))
                    };
                    ch.transitions += 1;
                    match (&got, &want) {
                        (Ok(g), Some(w)) => chk!(g == w, "value", "{r:?}: {g:?}, expected {w:?}"),
                        (Ok(g), None) => chk!(false, "found", "{r:?} found {g:?}, expected an error"),
                        (Err(e), Some(w)) => chk!(false, "missing", "{r:?}: {}, expected {w:?}", e.text()),
                        (Err(e), None) => chk!(!e.is_panic(), "panic", "{r:?}: {}", e.text()),
                    }
                    // the other kind of value, and another table, are errors
                    let other = if array { imp(|| tables.get_scalar_f64(r).map(|_| ()).map_err(|e| chain(&e))) } else { imp(|| tables.get_vec_f64(r).map(|_| ()).map_err(|e| chain(&e))) };
                    chk!(matches!(&other, Err(e) if !e.is_panic()), "kind", "{r:?} accepted as the other kind of value");
                    let mut r2 = r.clone();
                    r2.table = "u".into();
                    let other = imp(|| tables.get_scalar_f64(&r2).map(|_| ()).map_err(|e| chain(&e)));
                    chk!(matches!(&other, Err(e) if !e.is_panic()), "table", "{r2:?} accepted");
                }
            }
        }
        Ok(())
    });

    // every small text as a table: an error, or only values of cells whose headings match
    let lays: Vec<Lay> = layouts().into_iter().filter(|l| l.supported(false)).collect();
    let width = cx.b(3, 3);
    let lines: Vec<Vec<String>> = (0..=width).flat_map(|w| tuples(cx.b(&["a", "1"][..], &["a", "1", ""][..]), w)).collect();
    cx.explore("texts", |ch| {
        let k = ch.pick(cx.b(4, 4));
        let grid: Vec<Vec<String>> = (0..k).map(|_| ch.of(&lines)).collect();
        let text = csv_text(&grid);
        let dir = Scratch::new();
        std::fs::write(dir.0.join("t.csv"), &text).unwrap();
        ch.describe(|| format!("{text:?}"));
        // the reader drops blank lines
        let grid: Vec<Vec<String>> = grid.into_iter().filter(|l| !l.is_empty() && !(l.len() == 1 && l[0].is_empty())).collect();
        for array in [false, true] {
            for lay in lays.iter().filter(|l| l.supported(array)) {
                let res = load(&[table_json("t", array, *lay, "t.csv")], &dir.0);
                ch.transitions += 1;
                let rect = grid.iter().all(|r| r.len() == grid[0].len());
                let t = match res {
                    Err(e) => {
                        chk!(!e.is_panic(), "panic", "{lay:?} array={array}: {}", e.text());
                        None
                    }
                    Ok(t) => {
                        chk!(rect || grid.is_empty(), "ragged", "{lay:?} array={array}: rows of different lengths accepted");
                        Some(t)
                    }
                };
                for key in tuples(&["a", "1", "zz"], lay.keys()) {
                    let found = cells(&grid, *lay, &key);
                    let nums: Vec<Option<Vec<f64>>> = found.iter().map(|v| v.iter().map(|s| s.parse().ok()).collect()).collect();
                    // one well-formed cell, in a well-formed table, must be found
                    let well = rect && found.len() == 1 && nums[0].is_some() && {
                        let (h, c) = match lay {
                            Lay::Row(n) => (1, *n),
                            Lay::Col(n) => (*n, 0),
                            Lay::Both(r, c) => (*r, *c),
                        };
                        grid.len() > h
                            && grid[0].len() > c
                            && grid[h..].iter().all(|r| r[c..].iter().all(|s| s.parse::<f64>().is_ok()))
                            && (array || match lay {
                                Lay::Row(n) => grid[0].len() == n + 1,
                                Lay::Col(n) => grid.len() == n + 1,
                                _ => true,
                            })
                    };
                    let r = &refs("t", &key)[0];
                    let got = match &t {
                        None => None,
                        Some(t) => {
                            let g = if array { imp(|| t.get_vec_f64(r).map(|v| v.to_vec()).map_err(|e| chain(&e))) } else { imp(|| t.get_scalar_f64(r).map(|v| vec![v]).map_err(|e| chain(&e))) };
                            chk!(!matches!(&g, Err(e) if e.is_panic()), "panic", "{r:?}");
                            g.ok()
                        }
                    };
                    match got {
                        Some(g) => chk!(nums.contains(&Some(g.clone())), "value", "{lay:?} array={array} {key:?}: {g:?}, the cells are {found:?}"),
                        None => chk!(!well, "missing", "{lay:?} array={array} {key:?}: nothing, the cells are {found:?}"),
                    }
                }
            }
        }
        ch.state(&text);
        Ok(())
    });

    // values as integers
    let vals = ["0", "1", "-0", "-1", "2.5", "1e3", "007", "1e20", "18446744073709551615", "18446744073709551616", "9007199254740993", "4294967296", "-0.5", "inf", "NaN", "1e-9", "0.9999999999999999999", "+3", "1_000", "0x10", " 4"];
    cx.explore("integers", |ch| {
        let v = ch.of(&vals);
        let lay = ch.of(&[Lay::Row(1), Lay::Col(1), Lay::Both(1, 1)]);
        let text = match lay {
            Lay::Row(_) => format!("h,v\na,{v}\nb,5\n"),
            Lay::Col(_) => format!("a,b\n{v},5\n"),
            Lay::Both(..) => format!("h,b,a\na,9,{v}\nb,5,6\n"),
        };
        let dir = Scratch::new();
        std::fs::write(dir.0.join("t.csv"), &text).unwrap();
        ch.describe(|| text.clone());
        let key: Vec<String> = vec!["a".to_string(); lay.keys()];
        let t = match load(&[table_json("t", false, lay, "t.csv")], &dir.0) {
            Ok(t) => t,
            Err(e) => {
                chk!(!e.is_panic(), "panic", "{}", e.text());
                chk!(v.parse::<f64>().is_err(), "load", "{}", e.text());
                return Ok(());
            }
        };
        let r = &refs("t", &key)[0];
        let f = imp(|| t.get_scalar_f64(r).map_err(|e| chain(&e)));
        let u = imp(|| t.get_scalar_u64(r).map_err(|e| chain(&e)));
        ch.state(&(v, u.is_ok()));
        let want_f = v.parse::<f64>().ok();
        match (&f, want_f) {
            (Ok(g), Some(w)) => chk!(g == &w || (g.is_nan() && w.is_nan()), "float", "{v}: {g}"),
            (Err(_), None) => {}
            (f, _) => chk!(false, "float", "{v}: {:?}", f.as_ref().map_err(|e| e.text())),
        }
        // a number that is a whole number in range, to the precision of the table's values
        let whole = want_f.filter(|x| *x >= 0.0 && x.fract() == 0.0 && *x < 18446744073709551616.0);
        match (&u, whole) {
            (Ok(g), Some(w)) => chk!(*g as f64 == w, "integer", "{v}: {g}"),
            (Ok(g), None) => chk!(false, "integer", "{v} read as {g}"),
            (Err(e), Some(_)) => chk!(false, "integer", "{v} rejected: {}", e.text()),
            (Err(e), None) => chk!(!e.is_panic(), "panic", "{}", e.text()),
        }
        Ok(())
    });

    // through models: every place that takes a table reference gives what the literal gives
    cx.explore("models", |ch| {
        let lay = ch.of(&[Lay::Row(1), Lay::Row(2), Lay::Row(3), Lay::Col(1), Lay::Col(4), Lay::Both(1, 1), Lay::Both(2, 1), Lay::Both(1, 2), Lay::Both(2, 2)]);
        let place = ch.pick(12);
        let array = (6..10).contains(&place);
        if !lay.supported(array) {
            return ch.skip();
        }
        // two tables with the same headings and other values
        let second = ch.flag();
        let key = ch.of(&tuples(&["a", "b"], lay.keys()));
        let wrong = ch.pick(5);
        let len = match place {
            6 => 12,
            7 => 366,
            8 => 53,
            9 => 2,
            _ => 1,
        };
        let val = |second: bool, k: &[String], j: usize| -> f64 {
            let i = k.iter().fold(1usize, |a, s| 2 * a + (s == "b") as usize);
            if place == 11 { ((i + second as usize) % 3) as f64 } else if place == 3 { ((i * 2 + second as usize) % 28 + 1) as f64 } else { (i * 2 + second as usize) as f64 + 0.5 * (j as f64) }
        };
        let dir = Scratch::new();
        for (name, second) in [("one", false), ("two", true)] {
            let keys = tuples(&["a", "b"], lay.keys());
            let g: Vec<Vec<String>> = match lay {
                Lay::Row(n) => std::iter::once((0..n + len).map(|i| format!("h{i}")).collect())
                    .chain(keys.iter().map(|k| [k.clone(), (0..len).map(|j| val(second, k, j).to_string()).collect()].concat()))
                    .collect(),
                Lay::Col(n) => (0..n)
                    .map(|i| keys.iter().map(|k| k[i].clone()).collect())
                    .chain((0..len).map(|j| keys.iter().map(|k| val(second, k, j).to_string()).collect()))
                    .collect(),
                Lay::Both(nr, nc) => {
                    let (rh, hh) = (tuples(&["a", "b"], nc), tuples(&["a", "b"], nr));
                    (0..nr)
                        .map(|i| (0..nc).map(|_| "h".to_string()).chain(hh.iter().map(|k| k[i].clone())).collect())
                        .chain(rh.iter().map(|r| [r.clone(), hh.iter().map(|c| val(second, &[r.clone(), c.clone()].concat(), 0).to_string()).collect()].concat()))
                        .collect()
                }
            };
            std::fs::write(dir.0.join(format!("{name}.csv")), csv_text(&g)).unwrap();
        }
        let mut tref = serde_json::to_value(&refs(if second { "two" } else { "one" }, &key)[0]).unwrap();
        // 0: right; 1: no such table; 2: no such key; 3: a key too many; 4: the other kind of table
        match wrong {
            1 => tref["table"] = json!("three"),
            2 => tref["column"] = json!(vec!["zz"; lay.keys()]),
            3 => tref["row"] = json!([vec!["a".to_string()], key.clone()].concat()),
            _ => {}
        }
        if wrong == 2 {
            tref["row"] = Value::Null;
        }
        if wrong == 3 {
            tref["column"] = Value::Null;
        }
        if let Some(o) = tref.as_object_mut() {
            o.retain(|_, v| !v.is_null());
        }
        let v: Vec<f64> = (0..len).map(|j| val(second, &key, j)).collect();
        let mut tv = tref.clone();
        tv["type"] = json!("Table");
        let litv = |x: Value| -> Value { x };
        let mk = |src: Value| -> Value {
            let mut params = vec![];
            let mut metric = par("p");
            let mut max_flow = lit(1000.0);
            let mut nodes_extra = vec![];
            match place {
                0 => params.push(json!({"meta": {"name": "p"}, "type": "Constant", "value": src})),
                1 => params.push(json!({"meta": {"name": "p"}, "type": "Max", "parameter": src, "threshold": 0.0})),
                2 => {
                    max_flow = src;
                    metric = nattr("in", "Outflow");
                }
                3 => params.push(json!({"meta": {"name": "p"}, "type": "UniformDrawdownProfile", "reset_day": src, "reset_month": {"type": "Literal", "value": 1}, "residual_days": {"type": "Literal", "value": 1}})),
                4 => params.push(json!({"meta": {"name": "p"}, "type": "Offset", "offset": src, "metric": lit(1.0)})),
                5 => {
                    params.push(json!({"meta": {"name": "p"}, "type": "Delay", "metric": lit(1.0), "delay": 2, "initial_value": 7.0}));
                    params.push(json!({"meta": {"name": "q"}, "type": "Aggregated", "phase": "Before", "agg_func": {"type": "Product"}, "metrics": [par("p"), src]}));
                    metric = par("q");
                }
                6 => params.push(json!({"meta": {"name": "p"}, "type": "MonthlyProfile", "values": src})),
                7 => params.push(json!({"meta": {"name": "p"}, "type": "DailyProfile", "values": src})),
                8 => params.push(json!({"meta": {"name": "p"}, "type": "WeeklyProfile", "values": src})),
                9 => params.push(json!({"meta": {"name": "p"}, "type": "ConstantScenario", "scenario_group": "g", "values": src})),
                10 => {
                    nodes_extra.push(json!({"meta": {"name": "d"}, "type": "Delay", "delay": {"type": "Literal", "value": 1}, "initial_value": src}));
                    metric = nattr("d", "Outflow");
                }
                _ => params.push(json!({"meta": {"name": "p"}, "type": "IndexedArray", "metrics": [lit(5.0), lit(6.0), lit(7.0)], "index_parameter": src})),
            }
            let mut nodes = vec![
                json!({"meta": {"name": "in"}, "type": "Input", "max_flow": max_flow}),
                json!({"meta": {"name": "out"}, "type": "Output", "max_flow": lit(1000.0), "cost": lit(-10.0)}),
            ];
            let mut edges = vec![json!({"from_node": "in", "to_node": "out"})];
            if place == 10 {
                edges = vec![json!({"from_node": "in", "to_node": "d"}), json!({"from_node": "d", "to_node": "out"})];
            }
            nodes.extend(nodes_extra);
            let mut d = doc(
                days_json(3),
                json!({"nodes": nodes, "edges": edges, "parameters": params, "metric_sets": series_metrics(&[metric]),
                    "tables": [table_json("one", array ^ (wrong == 4), lay, "one.csv"), table_json("two", array ^ (wrong == 4), lay, "two.csv")]}),
            );
            if place == 9 {
                d["scenarios"] = json!({"groups": [{"name": "g", "size": 2}]});
            }
            d
        };
        let int = place == 11 || place == 3;
        let literal = if array {
            json!({"type": "Literal", "values": v})
        } else if place == 11 {
            json!({"type": "Constant", "value": v[0] as u64})
        } else if int {
            json!({"type": "Literal", "value": v[0] as u64})
        } else {
            litv(json!({"type": "Literal", "value": v[0]}))
        };
        let d = mk(tv);
        ch.describe(|| format!("{lay:?} place {place} wrong {wrong} {d}"));
        let got = run_doc(&d, Some(&dir.0));
        if wrong != 0 {
            chk!(got.is_err(), "wrong-ref", "a wrong table reference was accepted");
            chk!(!matches!(&got, Err(e) if e.is_panic()), "panic", "{}", got.err().map(|e| e.text()).unwrap_or_default());
            return Ok(());
        }
        let mut l = mk(literal);
        l["network"].as_object_mut().unwrap().remove("tables");
        let want = run_doc(&l, None);
        match (got, want) {
            (Ok(g), Ok(w)) => {
                ch.state(&format!("{place} {g:?}"));
                chk!(g == w, "model-value", "{g:?}, with literals {w:?}")
            }
            (g, w) => chk!(false, "model", "with tables {:?}, with literals {:?}", g.map_err(|e| e.text()), w.map_err(|e| e.text())),
        }
        Ok(())
    });

    // sets of tables: names must be unique, files must exist, relative and absolute paths
    cx.explore("sets", |ch| {
        let n = ch.pick(4);
        let names: Vec<&str> = ch.seq(&["t", "u"], n);
        let kinds: Vec<usize> = ch.seq(&[0, 1, 2], n); // relative, absolute, missing file
        let dir = Scratch::new();
        for i in 0..n {
            std::fs::write(dir.0.join(format!("{i}.csv")), format!("k,v\na,{}\n", i + 1)).unwrap();
        }
        let defs: Vec<Value> = (0..n)
            .map(|i| {
                let f = match kinds[i] {
                    0 => format!("{i}.csv"),
                    1 => dir.0.join(format!("{i}.csv")).to_string_lossy().to_string(),
                    _ => "none.csv".into(),
                };
                table_json(names[i], false, Lay::Row(1), &f)
            })
            .collect();
        ch.describe(|| format!("{names:?} {kinds:?}"));
        let res = load(&defs, &dir.0);
        let dup = (0..n).any(|i| names[..i].contains(&names[i]));
        let missing = kinds.contains(&2);
        match res {
            Err(e) => {
                chk!(!e.is_panic(), "panic", "{}", e.text());
                chk!(dup || missing, "load", "{}", e.text());
            }
            Ok(t) => {
                chk!(!dup, "duplicate", "two tables named alike were accepted");
                chk!(!missing, "missing-file", "a missing file was accepted");
                for i in 0..n {
                    let v = imp(|| t.get_scalar_f64(&refs(names[i], &["a".to_string()])[0]).map_err(|e| chain(&e)));
                    chk!(matches!(v, Ok(x) if x == (i + 1) as f64), "which", "table {i}: {:?}", v.map_err(|e| e.text()));
                }
            }
        }
        ch.state(&(names.clone(), kinds.clone()));
        Ok(())
    });
}

const ALGS: [&str; 2] = ["MD5", "SHA256"];
struct Content {
    kind: String,
    n: usize,
    bytes: Vec<u8>,
    digest: [String; 2],
}
fn contents() -> Vec<Content> {
    let v: Vec<Value> = serde_json::from_str(include_str!("digests.json")).unwrap();
    v.iter()
        .map(|c| {
            let n = c["n"].as_u64().unwrap() as usize;
            let kind = c["kind"].as_str().unwrap().to_string();
            let bytes = match (kind.as_str(), n) {
                ("table", 0) => vec![],
                ("table", n) => format!("k,v\n{},1\n", "a".repeat(n - 7)).into_bytes(),
                (_, n) => format!("time,a\n{}", (1..=n).map(|i| format!("2021-01-{i:02},{i}\n")).collect::<String>()).into_bytes(),
            };
            assert_eq!(bytes.len(), c["len"].as_u64().unwrap() as usize);
            Content { kind, n, bytes, digest: ["MD5", "SHA256"].map(|a| c[a].as_str().unwrap().to_string()) }
        })
        .collect()
}

pub fn c25(cx: &Cx) {
    cx.assume("the reference digests come from Python's hashlib (tools/gen_digests.py), not from the crates the implementation uses");
    let all = contents();
    // load the content through one of the guarded inputs; Ok(()) when it was accepted
    let accept = |c: &Content, bytes: &[u8], checksum: Value, via: usize| -> Result<(), ImpErr> {
        let dir = Scratch::new();
        std::fs::write(dir.0.join("f.csv"), bytes).unwrap();
        if c.kind == "table" {
            let (array, lay) = [(false, Lay::Row(1)), (true, Lay::Row(1)), (false, Lay::Both(1, 1)), (false, Lay::Col(1))][via];
            let mut t = table_json("t", array, lay, "f.csv");
            t["checksum"] = checksum;
            load(&[t], &dir.0).map(|_| ())
        } else {
            let d = doc(
                days_json(c.n),
                json!({"nodes": [{"meta": {"name": "in"}, "type": "Input", "max_flow": lit(1000.0)}, {"meta": {"name": "out"}, "type": "Output", "max_flow": {"type": "Timeseries", "name": "ts"}, "cost": lit(-1.0)}],
                    "edges": [{"from_node": "in", "to_node": "out"}],
                    "metric_sets": series_metrics(&[nattr("out", "Inflow")]),
                    "timeseries": [{"type": "Polars", "meta": {"name": "ts"}, "url": "f.csv", "checksum": checksum}]}),
            );
            run_doc(&d, Some(&dir.0)).map(|_| ())
        }
    };
    let vias = |c: &Content| match (c.kind.as_str(), c.n) {
        ("table", 0) => 2, // an empty file is no table with headings
        ("table", _) => 4,
        _ => 1,
    };
    let judge = |r: &Result<(), ImpErr>, ok: bool| -> Res {
        match r {
            Ok(()) => chk!(ok, "accepted", "accepted"),
            Err(e) => {
                chk!(!e.is_panic(), "panic", "{}", e.text());
                chk!(!ok, "rejected", "rejected: {}", e.text());
                chk!(e.text().to_lowercase().contains("checksum"), "order", "rejected for another reason than its checksum: {}", e.text());
            }
        }
        Ok(())
    };
    // the unmodified file and every spelling of its digest
    cx.explore("digests", |ch| {
        let c = &all[ch.pick(all.len())];
        let alg = ch.pick(2);
        let via = ch.pick(vias(c));
        let d = &c.digest[alg];
        let kind = ch.pick(10);
        let (rec, ok) = match kind {
            0 => (d.clone(), true),
            1 => (d.to_uppercase(), true),
            2 => (d.chars().enumerate().map(|(i, x)| if i % 2 == 0 { x.to_ascii_uppercase() } else { x }).collect(), true),
            3 => {
                // one other digit
                if c.bytes.len() > 70 || via > 0 {
                    return ch.skip();
                }
                let i = ch.pick(d.len());
                let v = u8::from_str_radix(&d[i..i + 1], 16).unwrap();
                let o = (v + 1 + ch.pick(15) as u8) % 16;
                (format!("{}{o:x}{}", &d[..i], &d[i + 1..]), false)
            }
            4 => {
                let k = ch.pick(d.len());
                (d[..k].to_string(), false)
            }
            5 => {
                let k = 1 + ch.pick(d.len() - 1);
                (d[k..].to_string(), false)
            }
            6 => (format!("{d}{}", ch.of(&["0", "a", "00"])), false),
            7 => (c.digest[1 - alg].clone(), false),
            8 => {
                let o = &all[ch.pick(all.len())];
                (o.digest[alg].clone(), o.bytes == c.bytes)
            }
            _ => (d.chars().rev().collect(), false),
        };
        if (kind == 4 || kind == 5) && c.bytes.len() > 200 {
            return ch.skip();
        }
        let cs = json!({"type": ALGS[alg], "hash": rec});
        ch.describe(|| format!("{} {} bytes, via {via}, {cs}", c.kind, c.bytes.len()));
        ch.state(&(&c.kind, c.n, alg, &rec));
        judge(&accept(c, &c.bytes, cs, via), ok)
    });
    // every small modification of the file under its digest
    cx.explore("modifications", |ch| {
        let c = &all[ch.pick(all.len())];
        let alg = ch.pick(2);
        let via = ch.pick(vias(c));
        let mut b = c.bytes.clone();
        // every byte of a small file, the bytes at block and buffer boundaries of a big one
        let block = if b.len() > 1 << 21 { 1 << 20 } else { 8192 };
        let spots: Vec<usize> = (0..b.len()).filter(|i| b.len() <= cx.b(70, 700) || i % block <= 1 || i % block >= block - 1 || *i < 5 || *i + 5 > b.len() || i % 64 == 0 && *i < 512).collect();
        let what = ch.pick(6);
        if (what == 0 || what == 1 || what == 4) && spots.is_empty() {
            return ch.skip();
        }
        match what {
            0 => {
                let i = spots[ch.pick(spots.len())];
                b[i] ^= 1 << ch.of(cx.b(&[0usize, 7][..], &[0, 1, 2, 3, 4, 5, 6, 7][..]));
            }
            1 => {
                let i = spots[ch.pick(spots.len())];
                b.truncate(i);
            }
            2 => b.extend_from_slice(ch.of(&[&b"\n"[..], &b"\0"[..], &b" "[..], &b"b,2\n"[..]])),
            3 => b.insert(0, ch.of(&[b'\n', b' ', 0xEF])),
            4 => {
                let i = spots[ch.pick(spots.len())];
                b.remove(i);
            }
            _ => b = b.iter().flat_map(|x| if *x == b'\n' { vec![b'\r', b'\n'] } else { vec![*x] }).collect(),
        }
        let ok = b == c.bytes;
        let cs = json!({"type": ALGS[alg], "hash": c.digest[alg]});
        ch.describe(|| format!("{} {} bytes, modification {what}, via {via}", c.kind, c.bytes.len()));
        ch.state(&(what, b.len(), hash_of(&b)));
        judge(&accept(c, &b, cs, via), ok)
    });
    // several guarded and unguarded inputs: each is held to its own digest
    cx.explore("several", |ch| {
        let n = 1 + ch.pick(3);
        let dir = Scratch::new();
        let small: Vec<&Content> = all.iter().filter(|c| c.kind == "table" && (9..=57).contains(&c.n)).collect();
        let mut defs = vec![];
        let mut ok = true;
        for i in 0..n {
            let c = small[ch.pick(small.len())];
            let rec = ch.pick(1 + small.len());
            std::fs::write(dir.0.join(format!("{i}.csv")), &c.bytes).unwrap();
            let mut t = table_json(&format!("t{i}"), false, Lay::Row(1), &format!("{i}.csv"));
            if rec > 0 {
                t["checksum"] = json!({"type": "MD5", "hash": small[rec - 1].digest[0]});
                ok &= small[rec - 1].n == c.n;
            }
            defs.push(t);
        }
        ch.describe(|| format!("{defs:?}"));
        ch.state(&format!("{defs:?}"));
        judge(&load(&defs, &dir.0).map(|_| ()), ok)
    });
    // malformed checksums are rejected with the document
    cx.explore("documents", |ch| {
        let c = &all[1];
        let cs = ch.of(&[
            json!({"type": "SHA1", "hash": "00"}),
            json!({"type": "md5", "hash": c.digest[0]}),
            json!({"hash": c.digest[0]}),
            json!({"type": "MD5"}),
            json!({"type": "MD5", "hash": 5}),
            json!(c.digest[0]),
            json!([]),
        ]);
        ch.describe(|| cs.to_string());
        let r = accept(c, &c.bytes, cs.clone(), 0);
        ch.state(&cs.to_string());
        chk!(matches!(&r, Err(e) if !e.is_panic()), "document", "{:?}", r.map_err(|e| e.text()));
        Ok(())
    });
}
