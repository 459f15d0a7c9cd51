//! C19: what a composite node documents is what the network built from it enforces.
//!
//! Every case is a small document around one node. For every time step an exact linear programme is written
//! down from the node's documentation and the history observed so far; the observed metrics must extend to one
//! of its optimal solutions, and the run must fail exactly where the programme has no solution.
use crate::harness::*;
use crate::rat::*;
use crate::schema::*;
use serde_json::{Value, json};

const N: usize = 3;

fn q(x: f64) -> Rat {
    Rat::new((x * 1e8).round() as i128, 100_000_000)
}

type Expr = Vec<(usize, f64)>;
#[derive(Default, Clone)]
struct M {
    cost: Vec<f64>,
    rows: Vec<(Expr, Option<f64>, Option<f64>)>,
    obs: Vec<(String, Expr, f64)>,
}
impl M {
    fn var(&mut self, cost: f64) -> usize {
        self.cost.push(cost);
        self.cost.len() - 1
    }
    fn vars(&mut self, n: usize) -> Vec<usize> {
        (0..n).map(|_| self.var(0.0)).collect()
    }
    fn ge(&mut self, e: &[(usize, f64)], lo: f64) {
        self.rows.push((e.to_vec(), Some(lo), None));
    }
    fn le(&mut self, e: &[(usize, f64)], hi: f64) {
        self.rows.push((e.to_vec(), None, Some(hi)));
    }
    fn eq(&mut self, e: &[(usize, f64)], v: f64) {
        self.rows.push((e.to_vec(), Some(v), Some(v)));
    }
    fn bounds(&mut self, e: &[(usize, f64)], lo: Option<f64>, hi: Option<f64>) {
        if let Some(l) = lo {
            self.ge(e, l);
        }
        if let Some(h) = hi {
            self.le(e, h);
        }
    }
    /// The metric `name` has the value of the expression plus a constant.
    fn see(&mut self, name: &str, e: &[(usize, f64)], k: f64) {
        self.obs.push((name.into(), e.to_vec(), k));
    }
    fn lp(&self) -> Lp {
        let mut l = Lp::new(self.cost.len());
        for (i, c) in self.cost.iter().enumerate() {
            l.c[i] = q(*c);
        }
        for (e, lo, hi) in &self.rows {
            let t: Vec<_> = e.iter().map(|(i, v)| (*i, q(*v))).collect();
            l.row(&t, lo.map(q), hi.map(q), "");
        }
        l
    }
}
fn one(v: usize) -> Expr {
    vec![(v, 1.0)]
}
fn sum(v: &[usize]) -> Expr {
    v.iter().map(|i| (*i, 1.0)).collect()
}
fn plus(a: &[(usize, f64)], k: f64, b: &[(usize, f64)]) -> Expr {
    let mut e = a.to_vec();
    e.extend(b.iter().map(|(i, v)| (*i, v * k)));
    e
}

/// Observed history: metric values by name.
struct H<'a> {
    names: &'a [String],
    rows: &'a [Vec<f64>],
}
impl H<'_> {
    fn at(&self, t: usize, name: &str) -> f64 {
        let i = self.names.iter().position(|n| n == name).unwrap_or_else(|| panic!("no metric {name}"));
        self.rows[t][i]
    }
}

/// The document under construction.
#[derive(Default, Clone)]
struct Sys {
    nodes: Vec<Value>,
    vnodes: Vec<Value>,
    edges: Vec<Value>,
    params: Vec<Value>,
    metrics: Vec<(String, Value)>,
    rep: usize,
    count: usize,
    local: Vec<Value>,
}
impl Sys {
    fn new(rep: usize) -> Sys {
        Sys { rep, ..Default::default() }
    }
    /// A series as a metric: a literal (then it has one value), a parameter of the model, or a parameter of the node.
    fn val(&mut self, s: &[f64]) -> Value {
        self.count += 1;
        let name = format!("p{}", self.count);
        let values = {
            let mut v = s.to_vec();
            v.resize(366, 0.0);
            v
        };
        let p = json!({"meta": {"name": name}, "type": "DailyProfile", "values": {"type": "Literal", "values": values}});
        match self.rep {
            0 => lit(s[0]),
            1 => {
                self.params.push(p);
                par(&name)
            }
            _ => {
                self.local.push(p);
                json!({"type": "LocalParameter", "name": name})
            }
        }
    }
    /// The value of a series at a step.
    fn s(&self, s: &[f64], t: usize) -> f64 {
        if self.rep == 0 { s[0] } else { s[t] }
    }
    fn os(&self, s: &Option<Vec<f64>>, t: usize) -> Option<f64> {
        s.as_ref().map(|s| self.s(s, t))
    }
    fn put(&mut self, node: &mut Value, key: &str, s: &Option<Vec<f64>>) {
        if let Some(s) = s {
            node[key] = self.val(s);
        }
    }
    /// Finish a node: attach the parameters local to it.
    fn node(&mut self, mut node: Value) {
        if !self.local.is_empty() {
            node["parameters"] = Value::Array(std::mem::take(&mut self.local));
        }
        self.nodes.push(node);
    }
    fn vnode(&mut self, mut node: Value) {
        if !self.local.is_empty() {
            node["parameters"] = Value::Array(std::mem::take(&mut self.local));
        }
        self.vnodes.push(node);
    }
    fn edge(&mut self, a: &str, b: &str) {
        self.edges.push(json!({"from_node": a, "to_node": b}));
    }
    fn slot(&mut self, a: &str, slot: Value, b: &str) {
        self.edges.push(json!({"from_node": a, "to_node": b, "from_slot": slot}));
    }
    fn see(&mut self, name: &str, node: &str, attr: &str) {
        self.metrics.push((name.into(), nattr(node, attr)));
    }
    /// Inputs and outputs around the node: upper limits vary in time through parameters of the model.
    fn end(&mut self, kind: &str, name: &str, max: &[f64], cost: f64) {
        let rep = std::mem::replace(&mut self.rep, 1);
        let m = self.val(max);
        self.rep = rep;
        self.nodes.push(json!({"meta": {"name": name}, "type": kind, "max_flow": m, "cost": lit(cost)}));
        self.see(name, name, if kind == "Input" { "Outflow" } else { "Inflow" });
    }
    fn doc(&self, n: usize) -> Value {
        let metrics: Vec<Value> = self.metrics.iter().map(|m| m.1.clone()).collect();
        doc(
            days_json(n),
            json!({"nodes": self.nodes, "virtual_nodes": self.vnodes, "edges": self.edges, "parameters": self.params,
                   "metric_sets": series_metrics(&metrics)}),
        )
    }
}
const TOL: f64 = 2e-6;

/// Only the part of a profile that is used.
fn short(p: &mut Value) {
    let v: Vec<_> = p["values"]["values"].as_array().unwrap()[..N].to_vec();
    p["values"]["values"] = Value::Array(v);
}
fn verify(ch: &mut Ch, kind: &str, sys: &Sys, lp: impl Fn(usize, &H) -> M) -> Res {
    let names: Vec<String> = sys.metrics.iter().map(|m| m.0.clone()).collect();
    let d = sys.doc(N);
    ch.describe(|| {
        let mut d = d.clone();
        if let Some(ps) = d["network"]["parameters"].as_array_mut() {
            for p in ps {
                short(p);
            }
        }
        for k in ["nodes", "virtual_nodes"] {
            for p in d["network"][k].as_array_mut().into_iter().flatten() {
                for p in p["parameters"].as_array_mut().into_iter().flatten() {
                    short(p);
                }
            }
        }
        d["network"].to_string()
    });
    let built = match build(&d, None) {
        Err(e) => return fail(format!("{kind}:build"), format!("a valid document is not built: {}", e.text())),
        Ok(b) => b,
    };
    let flat = |r: Vec<Vec<Vec<f64>>>| -> Vec<Vec<f64>> { r.into_iter().map(|t| t[0].clone()).collect() };
    let (rows, stuck) = match run_built(built) {
        Ok(r) => (flat(r), None),
        Err(e) => {
            chk!(!e.is_panic(), format!("{kind}:panic"), "{}", e.text());
            // the longest prefix that runs
            let mut rows = vec![];
            for n in 1..N {
                match run_doc(&sys.doc(n), None) {
                    Ok(r) => rows = flat(r),
                    Err(_) => break,
                }
            }
            (rows, Some(e.text()))
        }
    };
    for t in 0..=rows.len() {
        if t == rows.len() && stuck.is_none() {
            break;
        }
        let m = lp(t, &H { names: &names, rows: &rows[..t] });
        let opt = m.lp().solve();
        if t == rows.len() {
            let e = stuck.unwrap();
            chk!(opt == LpOut::Infeasible, format!("{kind}:refused"), "step {t} has a solution, but: {e}");
            ch.out(&"infeasible");
            break;
        }
        let best = match opt {
            LpOut::Optimal(o, _) => o.f(),
            LpOut::Infeasible => {
                return fail(format!("{kind}:feasible"), format!("step {t} has no solution, but the model ran: {:?} = {:?}", names, rows[t]));
            }
            LpOut::Unbounded => panic!("unbounded reference programme"),
        };
        let mut w = m.lp();
        for (i, n) in names.iter().enumerate() {
            let v = rows[t][i];
            chk!(v.is_finite(), format!("{kind}:nan"), "step {t}: {n} = {v}");
            let (_, e, k) = m.obs.iter().find(|o| o.0 == *n).unwrap_or_else(|| panic!("{n} is not specified"));
            if e.is_empty() {
                chk!((v - k).abs() <= 1e-6 * (1.0 + k.abs()), format!("{kind}:metric"), "step {t}: {n} = {v}, expected {k}");
                continue;
            }
            let scale: f64 = e.iter().map(|x| x.1.abs()).fold(1.0, f64::max);
            let t: Vec<_> = e.iter().map(|(i, c)| (*i, q(*c))).collect();
            w.row(&t, Some(q(v - k - TOL * scale)), Some(q(v - k + TOL * scale)), "seen");
        }
        match w.solve() {
            LpOut::Optimal(o, _) => {
                chk!(o.f() <= best + 1e-3, format!("{kind}:optimum"), "step {t}: {:?} = {:?} costs {}, the optimum is {best}", names, rows[t], o.f())
            }
            _ => return fail(format!("{kind}:behaviour"), format!("step {t}: {:?} = {:?} breaks what the node documents (history {:?})", names, rows[t], &rows[..t])),
        }
        ch.state(&rows[t].iter().map(|v| (v * 1e5).round() as i64).collect::<Vec<_>>());
    }
    ch.out(&rows.iter().flatten().map(|v| (v * 1e5).round() as i64).collect::<Vec<_>>());
    Ok(())
}
fn some(ch: &mut Ch, list: &[&[f64]]) -> Option<Vec<f64>> {
    let i = ch.pick(list.len() + 1);
    if i == 0 { None } else { Some(list[i - 1].to_vec()) }
}
const SRC: [f64; N] = [10.0, 4.0, 7.0];
const DST: [f64; N] = [8.0, 9.0, 5.0];

/// A limit on one component of the node, set through an aggregated node.
fn limit(ch: &mut Ch, sys: &mut Sys, comps: &[&str]) -> Option<(String, f64, f64)> {
    let i = ch.pick(comps.len() + 1);
    if i == 0 {
        return None;
    }
    let c = comps[i - 1];
    let (lo, hi) = (1.0, 3.0);
    let node = if c.is_empty() { json!({"name": "X"}) } else { json!({"name": "X", "component": c}) };
    sys.vnode(json!({"meta": {"name": "lim"}, "type": "Aggregated", "nodes": [node], "max_flow": lit(hi), "min_flow": lit(lo)}));
    Some((c.into(), lo, hi))
}
fn limited(m: &mut M, l: &Option<(String, f64, f64)>, default: &str) {
    if let Some((c, lo, hi)) = l {
        let c = if c.is_empty() { default } else { c };
        let e = m.obs.iter().find(|o| o.0 == c).unwrap().1.clone();
        m.bounds(&e, Some(*lo), Some(*hi));
    }
}

fn core_nodes(cx: &Cx) {
    cx.explore("input-output-catchment", |ch| {
        let rep = ch.pick(3);
        let mut sys = Sys::new(rep);
        let kind = ch.of(&["Input", "Catchment"]);
        let (mut imax, mut imin) = (None, None);
        let mut flow = None;
        let icost = some(ch, &[&[2.0, 12.0, -3.0]]);
        if kind == "Input" {
            imax = some(ch, &[&[6.0, 2.0, 9.0]]);
            imin = some(ch, &[&[1.0, 2.0, 3.0]]);
        } else {
            flow = Some(vec![3.0, 5.0, 1.0]);
        }
        let omax = some(ch, &[&[8.0, 3.0, 4.0]]);
        let omin = some(ch, &[&[0.0, 1.0, 2.0]]);
        let ocost = some(ch, &[&[-10.0, -2.0, 5.0]]);
        // something that bounds the throughput, and lets a catchment spill
        let mut n = json!({"meta": {"name": "X"}, "type": kind});
        sys.put(&mut n, "max_flow", &imax);
        sys.put(&mut n, "min_flow", &imin);
        sys.put(&mut n, "flow", &flow);
        sys.put(&mut n, "cost", &icost);
        sys.node(n);
        let mut n = json!({"meta": {"name": "Y"}, "type": "Output"});
        sys.put(&mut n, "max_flow", &omax);
        sys.put(&mut n, "min_flow", &omin);
        sys.put(&mut n, "cost", &ocost);
        sys.node(n);
        sys.node(json!({"meta": {"name": "L"}, "type": "Link", "max_flow": lit(20.0)}));
        sys.edge("X", "L");
        sys.edge("L", "Y");
        sys.see("L", "L", "Inflow");
        sys.see("X", "X", "Outflow");
        sys.see("Y", "Y", "Inflow");
        let s2 = sys.clone();
        verify(ch, kind, &sys, |t, _| {
            let s = &s2;
            let mut m = M::default();
            let f = m.var(s.os(&icost, t).unwrap_or(0.0) + s.os(&ocost, t).unwrap_or(0.0));
            m.le(&one(f), 20.0);
            m.bounds(&one(f), s.os(&imin, t), s.os(&imax, t));
            if kind == "Catchment" {
                m.eq(&one(f), s.os(&flow, t).unwrap());
            }
            m.bounds(&one(f), s.os(&omin, t), s.os(&omax, t));
            for n in ["L", "X", "Y"] {
                m.see(n, &one(f), 0.0);
            }
            m
        })
    });
    cx.explore("storage", |ch| {
        let rep = ch.pick(3);
        let mut sys = Sys::new(rep);
        let (max, min) = (some(ch, &[&[12.0, 12.0, 12.0]]), some(ch, &[&[3.0, 2.0, 4.0]]));
        let cost = some(ch, &[&[-1.0, -20.0, 3.0]]);
        let init = ch.pick(4);
        if max.is_none() && init > 1 {
            return ch.skip();
        }
        let v0 = [5.0, 8.0, 6.0, 12.0][init];
        let mut n = json!({"meta": {"name": "X"}, "type": "Storage", "initial_volume": match init {
            0 | 1 => json!({"type": "Absolute", "volume": v0}),
            _ => json!({"type": "Proportional", "proportion": v0 / 12.0}),
        }});
        sys.put(&mut n, "max_volume", &max);
        sys.put(&mut n, "min_volume", &min);
        sys.put(&mut n, "cost", &cost);
        sys.node(n);
        sys.end("Input", "src", &[6.0, 1.0, 9.0], 1.0);
        sys.end("Output", "dst", &DST, -10.0);
        sys.edge("src", "X");
        sys.edge("X", "dst");
        sys.see("V", "X", "Volume");
        if max.is_some() {
            sys.see("P", "X", "ProportionalVolume");
            sys.see("MV", "X", "MaxVolume");
        }
        let s2 = sys.clone();
        verify(ch, "Storage", &sys, |t, h| {
            let s = &s2;
            let v = if t == 0 { v0 } else { h.at(t - 1, "V") };
            let mut m = M::default();
            let c = s.os(&cost, t).unwrap_or(0.0);
            // storing water costs the node's cost, releasing it gains it back
            let (i, o) = (m.var(1.0 + c), m.var(-10.0 - c));
            m.le(&one(i), [6.0, 1.0, 9.0][t]);
            m.le(&one(o), DST[t]);
            let dv = vec![(i, 1.0), (o, -1.0)];
            m.bounds(&dv, Some(s.os(&min, t).unwrap_or(0.0) - v), s.os(&max, t).map(|x| x - v));
            m.see("src", &one(i), 0.0);
            m.see("dst", &one(o), 0.0);
            m.see("V", &dv, v);
            m.see("P", &[(i, 1.0 / 12.0), (o, -1.0 / 12.0)], v / 12.0);
            m.see("MV", &[], 12.0);
            m
        })
    });
    cx.explore("link", |ch| {
        let rep = ch.pick(3);
        let mut sys = Sys::new(rep);
        let max = some(ch, &[&[6.0, 9.0, 3.0]]);
        let min = some(ch, &[&[2.0, 1.0, 2.0]]);
        let cost = some(ch, &[&[2.0, 12.0, 1.0]]);
        let soft = |ch: &mut Ch, f: &[f64], c: &[&[f64]]| {
            if ch.flag() { Some((some(ch, &[f]), some(ch, c))) } else { None }
        };
        let smin = soft(ch, &[3.0, 5.0, 2.0], &[&[-15.0, -2.0, 5.0], &[7.0, 15.0, -4.0]]);
        let smax = soft(ch, &[5.0, 4.0, 6.0], &[&[20.0, 4.0, -3.0], &[5.0, 1.0, 30.0]]);
        let comps = limit(ch, &mut sys, &["", "Inflow", "Outflow"]);
        let mut n = json!({"meta": {"name": "X"}, "type": "Link"});
        sys.put(&mut n, "max_flow", &max);
        sys.put(&mut n, "min_flow", &min);
        sys.put(&mut n, "cost", &cost);
        for (k, s) in [("soft_min", &smin), ("soft_max", &smax)] {
            if let Some((f, c)) = s {
                let mut o = json!({});
                sys.put(&mut o, "flow", f);
                sys.put(&mut o, "cost", c);
                n[k] = o;
            }
        }
        sys.node(n);
        sys.end("Input", "src", &SRC, 1.0);
        sys.end("Output", "dst", &DST, -10.0);
        sys.edge("src", "X");
        sys.edge("X", "dst");
        sys.see("Inflow", "X", "Inflow");
        sys.see("Outflow", "X", "Outflow");
        let s2 = sys.clone();
        verify(ch, "Link", &sys, |t, _| {
            let s = &s2;
            let mut m = M::default();
            let c = s.os(&cost, t).unwrap_or(0.0);
            let soft = |x: &Option<(Option<Vec<f64>>, Option<Vec<f64>>)>| x.as_ref().map(|(f, c)| (s.os(f, t), s.os(c, t).unwrap_or(0.0)));
            let mut routes = vec![];
            match (soft(&smin), soft(&smax)) {
                (None, None) => routes.push(m.var(c - 9.0)),
                (Some((f, mc)), None) => {
                    let a = m.var(mc - 9.0);
                    m.bounds(&one(a), None, f);
                    routes = vec![a, m.var(c - 9.0)];
                }
                (None, Some((f, mc))) => {
                    // up to the soft maximum at the node's cost, beyond it at the soft cost
                    let a = m.var(c - 9.0);
                    m.bounds(&one(a), None, f);
                    routes = vec![a, m.var(mc - 9.0)];
                }
                (Some((f, mc)), Some((f2, mc2))) => {
                    let a = m.var(mc - 9.0);
                    m.bounds(&one(a), None, f);
                    let b = m.var(c - 9.0);
                    m.bounds(&sum(&[a, b]), None, f2);
                    routes.extend([a, b, m.var(mc2 - 9.0)]);
                }
            }
            let all = sum(&routes);
            m.bounds(&all, s.os(&min, t), s.os(&max, t));
            m.le(&all, SRC[t].min(DST[t]));
            for n in ["src", "dst", "Inflow", "Outflow"] {
                m.see(n, &all, 0.0);
            }
            limited(&mut m, &comps, "Outflow");
            m
        })
    });
}

/// loss factor choices: (type, series)
fn loss(ch: &mut Ch, zero: bool) -> Option<(&'static str, Vec<f64>)> {
    let k = ch.pick(3);
    if k == 0 {
        return None;
    }
    // (a factor of zero is documented for constants; a parameter that yields it is refused)
    let s = if zero && ch.flag() { vec![0.0, 0.0, 0.0] } else { vec![0.2, 0.5, 0.125] };
    Some((["Gross", "Net"][k - 1], s))
}
fn put_loss(sys: &mut Sys, n: &mut Value, l: &Option<(&'static str, Vec<f64>)>) {
    if let Some((k, s)) = l {
        let v = sys.val(s);
        n["loss_factor"] = json!({"type": k, "factor": v});
    }
}
/// A loss out of a gross flow (net + loss).
fn loss_rows(m: &mut M, sys: &Sys, l: &Option<(&'static str, Vec<f64>)>, t: usize, net: &[(usize, f64)], loss: usize) {
    match l {
        None => m.eq(&one(loss), 0.0),
        Some((k, s)) => {
            let f = sys.s(s, t);
            // loss = f (net + loss), or loss = f net
            let own = if *k == "Gross" { 1.0 - f } else { 1.0 };
            let mut e = vec![(loss, own)];
            e.extend(net.iter().map(|(i, v)| (*i, -f * v)));
            m.eq(&e, 0.0);
        }
    }
}

fn loss_nodes(cx: &Cx) {
    cx.explore("loss-link", |ch| {
        let rep = ch.pick(3);
        let mut sys = Sys::new(rep);
        let l = loss(ch, rep == 0);
        let max = some(ch, &[&[6.0, 9.0, 3.0]]);
        let min = some(ch, &[&[2.0, 1.0, 2.0]]);
        let cost = some(ch, &[&[2.0, 12.0, -1.0]]);
        let lim = if l.is_some() { limit(ch, &mut sys, &["", "Inflow", "Outflow", "Loss"]) } else { limit(ch, &mut sys, &["", "Inflow", "Outflow"]) };
        let mut n = json!({"meta": {"name": "X"}, "type": "LossLink"});
        put_loss(&mut sys, &mut n, &l);
        sys.put(&mut n, "max_net_flow", &max);
        sys.put(&mut n, "min_net_flow", &min);
        sys.put(&mut n, "net_cost", &cost);
        sys.node(n);
        sys.end("Input", "src", &SRC, 1.0);
        sys.end("Output", "dst", &DST, -10.0);
        sys.edge("src", "X");
        sys.edge("X", "dst");
        for a in ["Inflow", "Outflow", "Loss"] {
            sys.see(a, "X", a);
        }
        let s2 = sys.clone();
        verify(ch, "LossLink", &sys, |t, _| {
            let s = &s2;
            let mut m = M::default();
            let net = m.var(s.os(&cost, t).unwrap_or(0.0) - 9.0);
            let los = m.var(1.0);
            loss_rows(&mut m, s, &l, t, &one(net), los);
            m.bounds(&one(net), s.os(&min, t), s.os(&max, t));
            m.le(&one(net), DST[t]);
            m.le(&sum(&[net, los]), SRC[t]);
            for n in ["src", "Inflow"] {
                m.see(n, &sum(&[net, los]), 0.0);
            }
            for n in ["dst", "Outflow"] {
                m.see(n, &one(net), 0.0);
            }
            m.see("Loss", &one(los), 0.0);
            limited(&mut m, &lim, "Outflow");
            m
        })
    });
    cx.explore("water-treatment-works", |ch| {
        let rep = ch.pick(3);
        let mut sys = Sys::new(rep);
        let l = loss(ch, rep == 0);
        let max = some(ch, &[&[6.0, 9.0, 3.0]]);
        let min = some(ch, &[&[2.0, 1.0, 2.0]]);
        let cost = some(ch, &[&[2.0, 12.0, -1.0]]);
        let sf = some(ch, &[&[3.0, 2.0, 5.0]]);
        let sc = some(ch, &[&[-5.0, -2.0, -30.0], &[4.0, 15.0, 1.0]]);
        let lim = if l.is_some() { limit(ch, &mut sys, &["", "Inflow", "Outflow", "Loss"]) } else { limit(ch, &mut sys, &["", "Inflow", "Outflow"]) };
        let mut n = json!({"meta": {"name": "X"}, "type": "WaterTreatmentWorks"});
        put_loss(&mut sys, &mut n, &l);
        sys.put(&mut n, "max_flow", &max);
        sys.put(&mut n, "min_flow", &min);
        sys.put(&mut n, "cost", &cost);
        sys.put(&mut n, "soft_min_flow", &sf);
        sys.put(&mut n, "soft_min_flow_cost", &sc);
        sys.node(n);
        sys.end("Input", "src", &SRC, 1.0);
        sys.end("Output", "dst", &DST, -10.0);
        sys.edge("src", "X");
        sys.edge("X", "dst");
        for a in ["Inflow", "Outflow", "Loss"] {
            sys.see(a, "X", a);
        }
        let s2 = sys.clone();
        verify(ch, "WaterTreatmentWorks", &sys, |t, _| {
            let s = &s2;
            let mut m = M::default();
            let c = s.os(&cost, t).unwrap_or(0.0) - 9.0;
            let (a, b) = (m.var(c + s.os(&sc, t).unwrap_or(0.0)), m.var(c));
            let net = sum(&[a, b]);
            m.bounds(&one(a), None, s.os(&sf, t));
            let los = m.var(1.0);
            loss_rows(&mut m, s, &l, t, &net, los);
            m.bounds(&net, s.os(&min, t), s.os(&max, t));
            m.le(&net, DST[t]);
            let gross = sum(&[a, b, los]);
            m.le(&gross, SRC[t]);
            for n in ["src", "Inflow"] {
                m.see(n, &gross, 0.0);
            }
            for n in ["dst", "Outflow"] {
                m.see(n, &net, 0.0);
            }
            m.see("Loss", &one(los), 0.0);
            limited(&mut m, &lim, "Outflow");
            m
        })
    });
}

fn piecewise(cx: &Cx) {
    cx.explore("piecewise-link", |ch| {
        let rep = ch.pick(3);
        let mut sys = Sys::new(rep);
        let k = ch.of(&[1usize, 2, 3, 12]);
        let mut steps = vec![];
        let mut spec = vec![];
        let lim = limit(ch, &mut sys, &["", "Inflow", "Outflow"]);
        for i in 0..k {
            // (of many steps, all but the last three are narrow and cost as much as they are far up)
            let (max, cost, min) = if i + 3 < k {
                (Some(vec![0.5, 0.25, 0.125]), Some(vec![-6.0 + 0.5 * i as f64, 0.25 * i as f64, -2.0]), None)
            } else {
                let i = if k > 3 { i + 3 - k } else { i };
                let max = some(ch, &[&[[2.0, 3.0, 1.0], [3.0, 1.0, 4.0], [4.0, 0.0, 2.0]][i]]);
                let cost = some(ch, &[&[[-3.0, 5.0, 2.0], [4.0, -2.0, 12.0], [8.0, 3.0, -1.0]][i]]);
                (max, cost, if i == 1 { some(ch, &[&[1.0, 0.0, 2.0]]) } else { None })
            };
            let mut s = json!({});
            sys.put(&mut s, "max_flow", &max);
            sys.put(&mut s, "cost", &cost);
            sys.put(&mut s, "min_flow", &min);
            steps.push(s);
            spec.push((min, max, cost));
        }
        sys.node(json!({"meta": {"name": "X"}, "type": "PiecewiseLink", "steps": steps}));
        sys.end("Input", "src", &SRC, 1.0);
        sys.end("Output", "dst", &DST, -10.0);
        sys.edge("src", "X");
        sys.edge("X", "dst");
        for a in ["Inflow", "Outflow"] {
            sys.see(a, "X", a);
        }
        let s2 = sys.clone();
        verify(ch, "PiecewiseLink", &sys, |t, _| {
            let s = &s2;
            let mut m = M::default();
            let mut v = vec![];
            for (min, max, cost) in &spec {
                let x = m.var(s.os(cost, t).unwrap_or(0.0) - 9.0);
                m.bounds(&one(x), s.os(min, t), s.os(max, t));
                v.push(x);
            }
            let all = sum(&v);
            m.le(&all, SRC[t].min(DST[t]));
            for n in ["src", "dst", "Inflow", "Outflow"] {
                m.see(n, &all, 0.0);
            }
            limited(&mut m, &lim, "Outflow");
            m
        })
    });
    cx.explore("piecewise-storage", |ch| {
        let rep = ch.pick(3);
        let mut sys = Sys::new(rep);
        let k = ch.of(&[1usize, 2, 12]);
        let max = 16.0;
        // zones fill from the bottom: the further up, the more it costs to keep water
        let v = |a: f64| [a; N];
        let lists: Vec<Vec<[f64; N]>> = if k == 1 {
            vec![vec![v(0.25)], vec![v(0.5)], vec![v(1.0)], vec![[0.25, 0.75, 0.5]], vec![[1.0, 0.0, 0.5]]]
        } else if k == 12 {
            let f = |i: usize| [(i as f64 + 1.0) / 16.0, (i as f64 + 2.0) / 16.0, (i as f64 + 4.0) / 16.0];
            vec![(0..12).map(|i| v((i as f64 + 1.0) / 16.0)).collect(), (0..12).map(|i| v(0.25 + i as f64 / 32.0)).collect(), (0..12).map(|i| v((i / 2) as f64 / 8.0)).collect(), (0..12).map(f).collect()]
        } else {
            vec![vec![v(0.25), v(0.5)], vec![v(0.5), v(0.75)], vec![v(0.25), v(1.0)], vec![[0.25, 0.5, 0.125], [0.75, 0.5, 1.0]], vec![[0.5, 0.0, 0.25], [0.5, 1.0, 0.5]]]
        };
        // curves only vary in time as parameters
        let curves = ch.of(if rep == 0 { &lists[..3] } else { &lists[..] });
        let costs: Vec<f64> = if k == 12 { ch.of(&[(0..13).map(|i| -30.0 + 2.0 * i as f64).collect(), (0..13).map(|i| -10.0 + i as f64).collect::<Vec<_>>()]) } else { ch.of(&[vec![-30.0, -15.0, -3.0], vec![-20.0, -5.0, 12.0], vec![-7.0, -6.0, -5.0]]) };
        let min = ch.of(&[None, Some(2.0), Some(6.0)]);
        let v0: f64 = ch.of(&[2.0, 7.0, 13.0, 16.0]);
        let abs = ch.flag();
        let dmd = ch.of(&[-10.0, -25.0, -1.0]);
        if min.is_some_and(|m| m > v0) {
            return ch.skip();
        }
        let mut steps = vec![];
        for i in 0..k {
            let c = sys.val(&curves[i]);
            let cost = sys.val(&[costs[i]; N]);
            steps.push(json!({"control_curve": c, "cost": cost}));
        }
        let mx = sys.val(&[max; N]);
        let top = sys.val(&[costs[k]; N]);
        let mut n = json!({"meta": {"name": "X"}, "type": "PiecewiseStorage", "max_volume": mx, "cost": top, "steps": steps, "initial_volume":
            if abs { json!({"type": "Absolute", "volume": v0}) } else { json!({"type": "Proportional", "proportion": v0 / max}) }});
        if let Some(v) = min {
            n["min_volume"] = sys.val(&[v; N]);
        }
        sys.node(n);
        let (a, b) = ([6.0, 1.0, 9.0], [3.0, 9.0, 8.0]);
        sys.end("Input", "src", &a, 1.0);
        sys.end("Output", "dst", &b, dmd);
        sys.edge("src", "X");
        sys.edge("X", "dst");
        sys.see("V", "X", "Volume");
        sys.see("P", "X", "ProportionalVolume");
        verify(ch, "PiecewiseStorage", &sys, |t, h| {
            let v = if t == 0 { v0 } else { h.at(t - 1, "V") };
            let mut m = M::default();
            let (i, o) = (m.var(1.0), m.var(dmd));
            m.le(&one(i), a[t]);
            m.le(&one(o), b[t]);
            // volume by zone
            let mut below = 0.0;
            let mut zones = vec![];
            for z in 0..=k {
                let up = if z < k { curves[z][t] * max } else { max };
                let x = m.var(costs[z]);
                let mn = min.map_or(0.0, |m: f64| (m - below).clamp(0.0, up - below));
                m.bounds(&one(x), Some(mn), Some(up - below));
                below = up;
                zones.push(x);
            }
            let dv = vec![(i, 1.0), (o, -1.0)];
            m.eq(&plus(&sum(&zones), -1.0, &dv), v);
            m.see("src", &one(i), 0.0);
            m.see("dst", &one(o), 0.0);
            m.see("V", &sum(&zones), 0.0);
            m.see("P", &zones.iter().map(|z| (*z, 1.0 / max)).collect::<Vec<_>>(), 0.0);
            m
        })
    });
}

fn gauges(cx: &Cx) {
    cx.explore("river-gauge", |ch| {
        let rep = ch.pick(3);
        let mut sys = Sys::new(rep);
        let mrf = some(ch, &[&[3.0, 2.0, 5.0]]);
        let mc = some(ch, &[&[-20.0, -5.0, -9.0], &[12.0, 15.0, 3.0]]);
        let bc = some(ch, &[&[4.0, 20.0, 1.0]]);
        let lim = limit(ch, &mut sys, &["", "Inflow", "Outflow"]);
        let mut n = json!({"meta": {"name": "X"}, "type": "RiverGauge"});
        sys.put(&mut n, "mrf", &mrf);
        sys.put(&mut n, "mrf_cost", &mc);
        sys.put(&mut n, "bypass_cost", &bc);
        sys.node(n);
        sys.end("Input", "src", &SRC, 1.0);
        sys.end("Output", "dst", &DST, -10.0);
        sys.edge("src", "X");
        sys.edge("X", "dst");
        for a in ["Inflow", "Outflow"] {
            sys.see(a, "X", a);
        }
        let s2 = sys.clone();
        verify(ch, "RiverGauge", &sys, |t, _| {
            let s = &s2;
            let mut m = M::default();
            let a = m.var(s.os(&mc, t).unwrap_or(0.0) - 9.0);
            let b = m.var(s.os(&bc, t).unwrap_or(0.0) - 9.0);
            m.bounds(&one(a), None, s.os(&mrf, t));
            let all = sum(&[a, b]);
            m.le(&all, SRC[t].min(DST[t]));
            for n in ["src", "dst", "Inflow", "Outflow"] {
                m.see(n, &all, 0.0);
            }
            limited(&mut m, &lim, "Outflow");
            m
        })
    });
    cx.explore("river-split-with-gauge", |ch| {
        let rep = ch.pick(3);
        let mut sys = Sys::new(rep);
        let mrf = some(ch, &[&[3.0, 2.0, 5.0]]);
        let mc = some(ch, &[&[-20.0, -5.0, -9.0]]);
        let k = 1 + ch.pick(3);
        let lim = limit(ch, &mut sys, &["", "Inflow", "Outflow"]);
        let factors: [[f64; N]; 3] = [[0.25, 0.5, 0.125], [0.5, 0.25, 0.375], [0.125, 0.125, 0.25]];
        // (names of which some begin with others)
        let names = [["s", "s1", "s12"], ["ab", "a", "b"]];
        let named = ch.of(&[None, Some(0), Some(1)]);
        let river = ch.of(&[-2.0, 3.0]);
        let down = ch.of(&[-10.0, 1.0]);
        let splits: Vec<Value> = (0..k)
            .map(|i| {
                let f = sys.val(&factors[i]);
                match named {
                    Some(n) => {
                        let name = names[n][i];
                        json!({"factor": f, "slot_name": name})
                    }
                    None => json!({"factor": f}),
                }
            })
            .collect();
        let mut n = json!({"meta": {"name": "X"}, "type": "RiverSplitWithGauge", "splits": splits});
        sys.put(&mut n, "mrf", &mrf);
        sys.put(&mut n, "mrf_cost", &mc);
        sys.node(n);
        sys.end("Input", "src", &[10.0, 6.0, 7.0], -3.0);
        sys.end("Output", "dst", &[8.0, 9.0, 5.0], river);
        let caps: [[f64; N]; 3] = [[2.0, 9.0, 1.0], [3.0, 1.0, 2.0], [0.5, 0.25, 9.0]];
        sys.edge("src", "X");
        sys.edge("X", "dst");
        for i in 0..k {
            let o = format!("out{i}");
            sys.end("Output", &o, &caps[i], down);
            let slot = match named {
                Some(n) => {
                    let name = names[n][i];
                    json!({"type": "User", "name": name})
                }
                None => json!({"type": "Split", "position": i}),
            };
            sys.slot("X", slot, &o);
        }
        for a in ["Inflow", "Outflow"] {
            sys.see(a, "X", a);
        }
        let s2 = sys.clone();
        verify(ch, "RiverSplitWithGauge", &sys, |t, _| {
            let s = &s2;
            let mut m = M::default();
            let mrf_v = m.var(s.os(&mc, t).unwrap_or(0.0) + river - 3.0);
            let by = m.var(river - 3.0);
            m.bounds(&one(mrf_v), None, s.os(&mrf, t));
            // a split's flow leaves by its slot, or continues down the river
            let outs: Vec<usize> = (0..k).map(|_| m.var(down - 3.0)).collect();
            let stay: Vec<usize> = (0..k).map(|_| m.var(river - 3.0)).collect();
            let mut rest = one(by);
            for i in 0..k {
                rest.extend([(outs[i], 1.0), (stay[i], 1.0)]);
            }
            for i in 0..k {
                m.eq(&plus(&sum(&[outs[i], stay[i]]), -s.s(&factors[i], t), &rest), 0.0);
                m.le(&one(outs[i]), caps[i][t]);
                m.see(&format!("out{i}"), &one(outs[i]), 0.0);
            }
            let all = plus(&rest, 1.0, &one(mrf_v));
            m.le(&all, [10.0, 6.0, 7.0][t]);
            let mut dn = sum(&stay);
            dn.extend([(mrf_v, 1.0), (by, 1.0)]);
            m.le(&dn, [8.0, 9.0, 5.0][t]);
            m.see("dst", &dn, 0.0);
            for n in ["src", "Inflow", "Outflow"] {
                m.see(n, &all, 0.0);
            }
            limited(&mut m, &lim, "Outflow");
            m
        })
    });
    cx.explore("abstraction", |ch| {
        let rep = ch.pick(3);
        let mut sys = Sys::new(rep);
        let mrf = some(ch, &[&[3.0, 2.0, 5.0]]);
        let mc = if mrf.is_some() { some(ch, &[&[-20.0, -5.0, -9.0], &[12.0, 15.0, 3.0]]) } else { None };
        let ac = some(ch, &[&[4.0, 20.0, -4.0]]);
        let amax = some(ch, &[&[5.0, 2.0, 9.0]]);
        let amin = some(ch, &[&[1.0, 0.0, 2.0]]);
        let lim = limit(ch, &mut sys, &["", "Inflow", "Outflow", "Abstraction"]);
        let explicit = ch.flag();
        let mut n = json!({"meta": {"name": "X"}, "type": "Abstraction"});
        sys.put(&mut n, "mrf", &mrf);
        sys.put(&mut n, "mrf_cost", &mc);
        sys.put(&mut n, "abs_cost", &ac);
        sys.put(&mut n, "abs_max_flow", &amax);
        sys.put(&mut n, "abs_min_flow", &amin);
        sys.node(n);
        sys.end("Input", "src", &SRC, 1.0);
        sys.end("Output", "dst", &DST, -2.0);
        sys.end("Output", "abs", &[6.0, 6.0, 4.0], -10.0);
        sys.edge("src", "X");
        if explicit {
            sys.slot("X", json!({"type": "River"}), "dst");
        } else {
            sys.edge("X", "dst");
        }
        sys.slot("X", json!({"type": "Abstraction"}), "abs");
        for a in ["Inflow", "Outflow", "Abstraction"] {
            sys.see(a, "X", a);
        }
        let s2 = sys.clone();
        verify(ch, "Abstraction", &sys, |t, _| {
            let s = &s2;
            let mut m = M::default();
            let a = m.var(s.os(&mc, t).unwrap_or(0.0) - 1.0);
            m.bounds(&one(a), None, Some(s.os(&mrf, t).unwrap_or(0.0)));
            let b = m.var(-1.0);
            let x = m.var(s.os(&ac, t).unwrap_or(0.0) - 9.0);
            m.bounds(&one(x), s.os(&amin, t), s.os(&amax, t));
            m.le(&one(x), [6.0, 6.0, 4.0][t]);
            m.le(&sum(&[a, b]), DST[t]);
            m.le(&sum(&[a, b, x]), SRC[t]);
            for n in ["src", "Inflow"] {
                m.see(n, &sum(&[a, b, x]), 0.0);
            }
            for n in ["dst", "Outflow"] {
                m.see(n, &sum(&[a, b]), 0.0);
            }
            for n in ["abs", "Abstraction"] {
                m.see(n, &one(x), 0.0);
            }
            limited(&mut m, &lim, "Abstraction");
            m
        })
    });
}


fn routed(cx: &Cx) {
    cx.explore("delay", |ch| {
        let rep = ch.pick(2);
        let mut sys = Sys::new(rep);
        let d = 1 + ch.pick(3);
        let init = ch.of(&[0.0, 2.0]);
        let lim = limit(ch, &mut sys, &["", "Inflow", "Outflow"]);
        let cap = ch.of(&[[8.0, 9.0, 5.0], [20.0, 20.0, 20.0]]);
        let table = ch.flag();
        sys.node(json!({"meta": {"name": "X"}, "type": "Delay", "delay": {"type": "Literal", "value": d}, "initial_value": {"type": "Literal", "value": init}}));
        sys.end("Input", "src", &SRC, -3.0);
        sys.end("Output", "dst", &cap, if table { 5.0 } else { -5.0 });
        sys.edge("src", "X");
        sys.edge("X", "dst");
        for a in ["Inflow", "Outflow"] {
            sys.see(a, "X", a);
        }
        verify(ch, "Delay", &sys, |t, h| {
            let mut m = M::default();
            let (i, o) = (m.var(-3.0), m.var(0.0));
            m.le(&one(i), SRC[t]);
            m.le(&one(o), cap[t]);
            m.eq(&one(o), if t < d { init } else { h.at(t - d, "Inflow") });
            for n in ["src", "Inflow"] {
                m.see(n, &one(i), 0.0);
            }
            for n in ["dst", "Outflow"] {
                m.see(n, &one(o), 0.0);
            }
            limited(&mut m, &lim, "Outflow");
            m
        })
    });
    cx.explore("river", |ch| {
        let rep = ch.pick(3);
        let mut sys = Sys::new(rep);
        let l = loss(ch, rep == 0);
        let routing = ch.pick(5);
        let kx: ([f64; N], [f64; N]) = ([1.0, 2.0, 0.5], [0.25, 0.0, 0.0]);
        let (d, init) = (1 + ch.pick(2), ch.of(&[1.0, 4.0]));
        if (routing == 0 || routing > 2) && (d, init) != (1, 1.0) {
            return ch.skip();
        }
        let lim = if l.is_some() { limit(ch, &mut sys, &["", "Inflow", "Outflow", "Loss"]) } else { limit(ch, &mut sys, &["", "Inflow", "Outflow"]) };
        let cap = ch.of(&[[8.0, 9.0, 5.0], [20.0, 20.0, 20.0]]);
        let mut n = json!({"meta": {"name": "X"}, "type": "River"});
        put_loss(&mut sys, &mut n, &l);
        match routing {
            0 => {}
            1 | 2 => n["routing_method"] = json!({"type": "Delay", "delay": d, "initial_value": {"type": "Literal", "value": init}}),
            _ => {
                let ic = if routing == 3 { json!({"type": "SteadyState"}) } else { json!({"type": "Specified", "inflow": 6.0, "outflow": 3.0}) };
                let (k, x) = (sys.val(&kx.0), sys.val(&kx.1));
                n["routing_method"] = json!({"type": "Muskingum", "travel_time": k, "weight": x, "initial_condition": ic});
            }
        }
        if routing == 2 && (d, init) != (1, 1.0) {
            return ch.skip();
        }
        sys.node(n);
        sys.end("Input", "src", &SRC, -3.0);
        sys.end("Output", "dst", &cap, -1.0);
        sys.edge("src", "X");
        sys.edge("X", "dst");
        for a in ["Inflow", "Outflow", "Loss"] {
            sys.see(a, "X", a);
        }
        let s2 = sys.clone();
        verify(ch, "River", &sys, |t, h| {
            let s = &s2;
            let mut m = M::default();
            let (i, net, los) = (m.var(-3.0), m.var(-1.0), m.var(0.0));
            let gross = sum(&[net, los]);
            m.le(&one(i), SRC[t]);
            m.le(&one(net), cap[t]);
            loss_rows(&mut m, s, &l, t, &one(net), los);
            let outflow = |t: usize| h.at(t, "Outflow") + h.at(t, "Loss");
            match routing {
                0 => m.eq(&plus(&gross, -1.0, &one(i)), 0.0),
                1 | 2 => m.eq(&gross, if t < d { init } else { h.at(t - d, "Inflow") }),
                _ => {
                    let (k, x) = (s.s(&kx.0, t), s.s(&kx.1, t));
                    let den = 2.0 * k * (1.0 - x) + 1.0;
                    let (c0, c1, c2) = ((1.0 - 2.0 * k * x) / den, (1.0 + 2.0 * k * x) / den, (2.0 * k * (1.0 - x) - 1.0) / den);
                    if t == 0 && routing == 3 {
                        m.eq(&plus(&gross, -1.0, &one(i)), 0.0);
                    } else {
                        let (i1, o1) = if t == 0 { (6.0, 3.0) } else { (h.at(t - 1, "Inflow"), outflow(t - 1)) };
                        m.eq(&plus(&gross, -c0, &one(i)), c1 * i1 + c2 * o1);
                    }
                }
            }
            for n in ["src", "Inflow"] {
                m.see(n, &one(i), 0.0);
            }
            for n in ["dst", "Outflow"] {
                m.see(n, &one(net), 0.0);
            }
            m.see("Loss", &one(los), 0.0);
            limited(&mut m, &lim, "Outflow");
            m
        })
    });
    cx.explore("turbine", |ch| {
        let rep = ch.pick(3);
        let mut sys = Sys::new(rep);
        let target = some(ch, &[&[60.0, 20.0, 90.0]]);
        let ty = if target.is_some() { some(ch, &[&[0.0], &[1.0], &[2.0]]).map(|v| v[0] as usize) } else { None };
        let we = some(ch, &[&[12.0, 6.0, 3.0], &[6.0, 2.0, 20.0]]);
        let te = ch.of(&[0.0, 4.0]);
        let mh = ch.of(&[0.0, 5.0]);
        let (eff, fuc, euc, rho) = ch.of(&[(1.0, 1.0, 1e-3, 1000.0), (0.5, 2.0, 2e-3, 500.0)]);
        let cost = some(ch, &[&[12.0, -2.0, 3.0]]);
        let lim = limit(ch, &mut sys, &["", "Inflow", "Outflow"]);
        let mut n = json!({"meta": {"name": "X"}, "type": "Turbine", "turbine_elevation": te, "min_head": mh, "efficiency": eff,
            "water_density": rho, "flow_unit_conversion": fuc, "energy_unit_conversion": euc});
        sys.put(&mut n, "target", &target);
        sys.put(&mut n, "water_elevation", &we);
        sys.put(&mut n, "cost", &cost);
        if let Some(t) = ty {
            n["target_type"] = Value::String(["MaxFlow", "MinFlow", "Both"][t].into());
        }
        sys.node(n);
        sys.end("Input", "src", &SRC, 1.0);
        sys.end("Output", "dst", &DST, -10.0);
        sys.edge("src", "X");
        sys.edge("X", "dst");
        for a in ["Inflow", "Outflow", "Power"] {
            sys.see(a, "X", a);
        }
        let s2 = sys.clone();
        verify(ch, "Turbine", &sys, |t, _| {
            let s = &s2;
            let mut m = M::default();
            let f = m.var(s.os(&cost, t).unwrap_or(0.0) - 9.0);
            m.le(&one(f), SRC[t].min(DST[t]));
            let head = s.os(&we, t).map_or(te, |w| w - te);
            // energy of a unit of flow; none without head
            let k = if head <= mh || head <= 0.0 { 0.0 } else { 9.81 * rho * head * eff * fuc * euc };
            if let Some(e) = s.os(&target, t) {
                let flow = if k == 0.0 { 0.0 } else { e / k };
                let ty = ty.unwrap_or(0);
                m.bounds(&one(f), if ty > 0 { Some(flow) } else { None }, if ty != 1 { Some(flow) } else { None });
            }
            for n in ["src", "dst", "Inflow", "Outflow"] {
                m.see(n, &one(f), 0.0);
            }
            if k == 0.0 {
                m.see("Power", &[], 0.0);
            } else {
                m.see("Power", &[(f, k)], 0.0);
            }
            limited(&mut m, &lim, "Outflow");
            m
        })
    });
}

fn reservoir(cx: &Cx) {
    cx.explore("reservoir", |ch| {
        let rep = ch.pick(3);
        let mut sys = Sys::new(rep);
        let comp = some(ch, &[&[2.0, 3.0, 1.0]]);
        let spill = ch.pick(3);
        // the default connects the compensation to the spill
        let conn = ch.of(&[None, Some(true), Some(false)]);
        let rain = some(ch, &[&[2.0, 0.0, 1.0]]);
        let evap = some(ch, &[&[1.0, 2.0, 0.5]]);
        let ec = if evap.is_some() { some(ch, &[&[-4.0, -30.0, 6.0]]) } else { None };
        let leak = some(ch, &[&[1.5, 0.0, 2.0]]);
        let lc = if leak.is_some() { some(ch, &[&[-4.0, -30.0, 6.0]]) } else { None };
        let wet = rain.is_some() || evap.is_some();
        let area = if wet { ch.pick(4) } else { 0 };
        let (rmax, emax) = (rain.is_some() && ch.flag(), evap.is_some() && ch.flag());
        let full = ch.flag();
        if (comp.is_none() || spill == 0) && conn.is_some() {
            return ch.skip();
        }
        let lim = {
            let mut l = vec![];
            if comp.is_some() {
                l.extend(["", "Compensation"]);
            }
            if leak.is_some() {
                l.push("Loss");
            }
            if rain.is_some() {
                l.push("Rainfall");
            }
            if evap.is_some() {
                l.push("Evaporation");
            }
            limit(ch, &mut sys, &l)
        };
        let (max, v0, min) = (20.0, if full { 18.0 } else { 5.0 }, 1.0);
        let mut n = json!({"meta": {"name": "X"}, "type": "Reservoir", "max_volume": lit(max), "min_volume": lit(min), "cost": lit(-2.0),
            "initial_volume": {"type": "Absolute", "volume": v0}});
        sys.put(&mut n, "compensation", &comp);
        if spill > 0 {
            n["spill"] = Value::String(["OutputNode", "LinkNode"][spill - 1].into());
        }
        if let Some(c) = conn {
            n["connect_compensation_to_spill"] = Value::Bool(c);
        }
        if wet {
            let v = |x: &[f64]| json!({"type": "Literal", "values": x});
            let data = match area {
                0 => json!({"Interpolated": {"storage": v(&[0.0, 10.0, 20.0]), "area": v(&[0.5, 2.0, 3.0])}}),
                1 => json!({"Interpolated": {"storage": v(&[0.0, 0.5, 1.0]), "area": v(&[0.5, 2.0, 3.0])}}),
                2 => json!({"Polynomial": [0.5, 0.125]}),
                _ => json!({"Polynomial": [0.5, 1.0, 1.5]}),
            };
            n["surface_area"] = json!({"data": data, "is_storage_proportional": area % 2 == 1});
        }
        let at = move |v: f64| {
            let p = v / max;
            match area {
                0 | 1 => if p <= 0.5 { 0.5 + 3.0 * p } else { 2.0 + 2.0 * (p - 0.5) },
                2 => 0.5 + 0.125 * v,
                _ => 0.5 + p + 1.5 * p * p,
            }
        };
        if let Some(r) = &rain {
            n["rainfall"] = json!({"data": sys.val(r)});
            if rmax {
                n["rainfall"]["use_max_area"] = Value::Bool(true);
            }
        }
        if let Some(e) = &evap {
            let mut o = json!({"data": sys.val(e)});
            sys.put(&mut o, "cost", &ec);
            if emax {
                o["use_max_area"] = Value::Bool(true);
            }
            n["evaporation"] = o;
        }
        if let Some(l) = &leak {
            let mut o = json!({"loss": sys.val(l)});
            sys.put(&mut o, "cost", &lc);
            n["leakage"] = o;
        }
        sys.node(n);
        let (a, b) = ([6.0, 1.0, 9.0], [3.0, 9.0, 2.0]);
        sys.end("Input", "src", &a, 1.0);
        sys.end("Output", "dst", &b, -10.0);
        sys.edge("src", "X");
        sys.edge("X", "dst");
        let joined = comp.is_some() && spill > 0 && conn.unwrap_or(true);
        let own = comp.is_some() && !joined;
        if own {
            sys.end("Output", "cout", &[9.0; N], 0.5);
            sys.slot("X", json!({"type": "Compensation"}), "cout");
        }
        if spill == 2 {
            sys.end("Output", "term", &[9.0; N], 0.25);
            sys.slot("X", json!({"type": "Spill"}), "term");
        }
        sys.see("V", "X", "Volume");
        sys.see("P", "X", "ProportionalVolume");
        sys.see("MV", "X", "MaxVolume");
        for a in ["Compensation", "Rainfall", "Evaporation"] {
            sys.see(a, "X", a);
        }
        let s2 = sys.clone();
        verify(ch, "Reservoir", &sys, |t, h| {
            let s = &s2;
            let v = if t == 0 { v0 } else { h.at(t - 1, "V") };
            let mut m = M::default();
            // storing costs -2 a unit, a release gives it back
            let (i, o) = (m.var(1.0 - 2.0), m.var(-10.0 + 2.0));
            m.le(&one(i), a[t]);
            m.le(&one(o), b[t]);
            let mut dv = vec![(i, 1.0), (o, -1.0)];
            m.see("src", &one(i), 0.0);
            m.see("dst", &one(o), 0.0);
            let none = |m: &mut M, n: &str| m.see(n, &[], 0.0);
            let mut term = vec![];
            match s.os(&comp, t) {
                Some(lo) => {
                    let c = m.var(2.0 + if own { 0.5 } else if spill == 2 { 0.25 } else { 0.0 });
                    m.ge(&one(c), lo);
                    dv.push((c, -1.0));
                    m.see("Compensation", &one(c), 0.0);
                    if own {
                        m.le(&one(c), 9.0);
                        m.see("cout", &one(c), 0.0);
                    } else if spill == 2 {
                        term.push((c, 1.0));
                    }
                }
                None => none(&mut m, "Compensation"),
            }
            if spill > 0 {
                let x = m.var(2.0 + if spill == 2 { 0.25 } else { 0.0 });
                dv.push((x, -1.0));
                if spill == 2 {
                    term.push((x, 1.0));
                    m.le(&term, 9.0);
                    m.see("term", &term, 0.0);
                }
            }
            match s.os(&rain, t) {
                Some(d) => {
                    let r = m.var(-2.0);
                    m.eq(&one(r), d * at(if rmax { max } else { v }));
                    dv.push((r, 1.0));
                    m.see("Rainfall", &one(r), 0.0);
                }
                None => none(&mut m, "Rainfall"),
            }
            match s.os(&evap, t) {
                Some(d) => {
                    let e = m.var(2.0 + s.os(&ec, t).unwrap_or(0.0));
                    m.le(&one(e), d * at(if emax { max } else { v }));
                    dv.push((e, -1.0));
                    m.see("Evaporation", &one(e), 0.0);
                }
                None => none(&mut m, "Evaporation"),
            }
            if let Some(x) = s.os(&leak, t) {
                let l = m.var(2.0 + s.os(&lc, t).unwrap_or(0.0));
                m.le(&one(l), x);
                dv.push((l, -1.0));
                m.see("Loss", &one(l), 0.0);
            }
            m.bounds(&dv, Some(min - v), Some(max - v));
            m.see("V", &dv, v);
            m.see("P", &dv.iter().map(|(i, k)| (*i, k / max)).collect::<Vec<_>>(), v / max);
            m.see("MV", &[], max);
            limited(&mut m, &lim, "Compensation");
            m
        })
    });
}

/// A node of some kind, and how its inflow and outflow are made up; `routes` are the variables of the ways through it.
fn member(ch: &mut Ch, sys: &mut Sys) -> (&'static str, Vec<&'static str>) {
    let k = ch.pick(6);
    let mut n = json!({"meta": {"name": "X"}});
    let (kind, comps): (&str, Vec<&str>) = match k {
        0 => ("Link", vec!["", "Inflow", "Outflow"]),
        1 => {
            n["soft_min"] = json!({"flow": lit(1.0), "cost": lit(-5.0)});
            n["soft_max"] = json!({"flow": lit(3.0), "cost": lit(2.0)});
            ("Link", vec!["", "Inflow", "Outflow"])
        }
        2 => {
            n["loss_factor"] = json!({"type": "Gross", "factor": lit(0.25)});
            ("LossLink", vec!["", "Inflow", "Outflow", "Loss"])
        }
        3 => {
            n["mrf"] = lit(2.0);
            n["mrf_cost"] = lit(-5.0);
            ("RiverGauge", vec!["", "Inflow", "Outflow"])
        }
        4 => {
            n["steps"] = json!([{"max_flow": lit(1.0), "cost": lit(-1.0)}, {"max_flow": lit(2.0)}, {"cost": lit(2.0)}]);
            ("PiecewiseLink", vec!["", "Inflow", "Outflow"])
        }
        _ => {
            n["loss_factor"] = json!({"type": "Net", "factor": lit(0.5)});
            n["soft_min_flow"] = lit(1.0);
            n["soft_min_flow_cost"] = lit(-5.0);
            ("WaterTreatmentWorks", vec!["", "Inflow", "Outflow", "Loss"])
        }
    };
    n["type"] = Value::String(kind.into());
    sys.nodes.push(n);
    (["link", "soft", "loss", "gauge", "steps", "works"][k], comps)
}
/// The ways through `member`'s node: net flow variables (cost `c` each on top), and the loss.
fn ways(m: &mut M, what: &str, c: f64) -> (Expr, Expr) {
    let mut v = vec![];
    let mut los = vec![];
    match what {
        "link" => v.push(m.var(c)),
        "soft" => {
            v.extend([m.var(c - 5.0), m.var(c), m.var(c + 2.0)]);
            m.le(&one(v[0]), 1.0);
            m.le(&sum(&v[..2]), 3.0);
        }
        "gauge" => {
            v.extend([m.var(c - 5.0), m.var(c)]);
            m.le(&one(v[0]), 2.0);
        }
        "steps" => {
            v.extend([m.var(c - 1.0), m.var(c), m.var(c + 2.0)]);
            m.le(&one(v[0]), 1.0);
            m.le(&one(v[1]), 2.0);
        }
        "loss" => {
            v.push(m.var(c));
            let l = m.var(1.0);
            m.eq(&[(l, 0.75), (v[0], -0.25)], 0.0);
            los.push(l);
        }
        _ => {
            v.extend([m.var(c - 5.0), m.var(c)]);
            m.le(&one(v[0]), 1.0);
            let l = m.var(1.0);
            m.eq(&[(l, 1.0), (v[0], -0.5), (v[1], -0.5)], 0.0);
            los.push(l);
        }
    }
    (sum(&v), sum(&los))
}
fn part(what: &str, comp: &str, net: &Expr, los: &Expr) -> Expr {
    let _ = what;
    match comp {
        "Inflow" => plus(net, 1.0, los),
        "Loss" => los.clone(),
        _ => net.clone(),
    }
}

fn virtuals(cx: &Cx) {
    cx.explore("aggregated", |ch| {
        let rep = ch.pick(3);
        let mut sys = Sys::new(rep);
        let (what, comps) = member(ch, &mut sys);
        let comp = ch.of(&comps);
        let swap = ch.flag();
        let rel = ch.pick(4);
        let max = some(ch, &[&[5.0, 3.0, 4.0]]);
        let min = some(ch, &[&[2.0, 1.0, 3.0]]);
        let inout = ch.of(&[false, true]);
        let (r1, r2): ([f64; N], [f64; N]) = ([1.0, 2.0, 4.0], [2.0, 1.0, 1.0]);
        let p: [f64; N] = [0.25, 0.5, 0.75];
        let rhs: [f64; N] = [2.0, 1.0, 0.0];
        let x = if comp.is_empty() { json!({"name": "X"}) } else { json!({"name": "X", "component": comp}) };
        let y = json!({"name": "Y"});
        let mut n = json!({"meta": {"name": "A"}, "type": "Aggregated", "nodes": if swap { json!([y, x]) } else { json!([x, y]) }});
        match rel {
            0 => {}
            1 => n["relationship"] = json!({"type": "Ratio", "factors": [sys.val(&r1), sys.val(&r2)]}),
            2 => n["relationship"] = json!({"type": "Proportion", "factors": [sys.val(&p)]}),
            _ => n["relationship"] = json!({"type": "Coefficients", "factors": [sys.val(&r1), sys.val(&r2)], "rhs": sys.val(&rhs)}),
        }
        sys.put(&mut n, "max_flow", &max);
        sys.put(&mut n, "min_flow", &min);
        sys.vnode(n);
        sys.nodes.push(json!({"meta": {"name": "Y"}, "type": "Link", "cost": lit(0.5)}));
        sys.end("Input", "src", &SRC, 1.0);
        sys.end("Output", "dst", &DST, -10.0);
        for k in ["X", "Y"] {
            sys.edge("src", k);
            sys.edge(k, "dst");
        }
        sys.see("X", "X", "Outflow");
        sys.see("Y", "Y", "Outflow");
        sys.metrics.push(("A".into(), json!({"type": "VirtualNode", "name": "A", "attribute": if inout { "Inflow" } else { "Outflow" }})));
        let s2 = sys.clone();
        verify(ch, "Aggregated", &sys, |t, _| {
            let s = &s2;
            let mut m = M::default();
            let (net, los) = ways(&mut m, what, -9.0);
            let y = m.var(0.5 - 9.0);
            let mine = part(what, comp, &net, &los);
            let (a, b) = if swap { (one(y), mine) } else { (mine, one(y)) };
            match rel {
                0 => {}
                // in the ratio of the factors
                1 => {
                    let (f, g) = (s.s(&r1, t), s.s(&r2, t));
                    let a: Expr = a.iter().map(|(i, k)| (*i, k * g)).collect();
                    m.eq(&plus(&a, -f, &b), 0.0);
                }
                // the second takes its proportion of the total
                2 => {
                    let f = s.s(&p, t);
                    let e: Expr = b.iter().map(|(i, k)| (*i, k * (1.0 - f))).collect();
                    m.eq(&plus(&e, -f, &a), 0.0);
                }
                _ => {
                    let (f, g) = (s.s(&r1, t), s.s(&r2, t));
                    let e: Expr = a.iter().map(|(i, k)| (*i, k * f)).collect();
                    m.eq(&plus(&e, g, &b), s.s(&rhs, t));
                }
            }
            let total = plus(&a, 1.0, &b);
            m.bounds(&total, s.os(&min, t), s.os(&max, t));
            let through = plus(&net, 1.0, &one(y));
            m.le(&through, DST[t]);
            let gross = plus(&through, 1.0, &los);
            m.le(&gross, SRC[t]);
            m.see("src", &gross, 0.0);
            m.see("dst", &through, 0.0);
            m.see("X", &net, 0.0);
            m.see("Y", &one(y), 0.0);
            // nothing flows out of a loss
            let gone = if inout || !["Inflow", "Loss"].contains(&comp) { vec![] } else { los.clone() };
            m.see("A", &plus(&total, -1.0, &gone), 0.0);
            m
        })
    });
    cx.explore("chain", |ch| {
        // two composite nodes one after the other: every way out of the first leads into every way into the second
        let mut sys = Sys::new(0);
        let (a, ca) = member(ch, &mut sys);
        let comp = ch.of(&ca);
        let (b, cb) = member(ch, &mut sys);
        let comp2 = ch.of(&cb);
        let last = sys.nodes.len() - 1;
        sys.nodes[last]["meta"]["name"] = json!("Z");
        let lim = ch.pick(3);
        let x = if comp.is_empty() { json!({"name": "X"}) } else { json!({"name": "X", "component": comp}) };
        let z = if comp2.is_empty() { json!({"name": "Z"}) } else { json!({"name": "Z", "component": comp2}) };
        for (n, r, k) in [("A", x, 1), ("B", z, 2)] {
            if lim == k {
                sys.vnode(json!({"meta": {"name": n}, "type": "Aggregated", "nodes": [r], "max_flow": lit(1.5)}));
            }
        }
        sys.end("Input", "src", &SRC, 1.0);
        sys.end("Output", "dst", &DST, -10.0);
        sys.edge("src", "X");
        sys.edge("X", "Z");
        sys.edge("Z", "dst");
        for n in ["X", "Z"] {
            sys.see(&format!("{n}i"), n, "Inflow");
            sys.see(&format!("{n}o"), n, "Outflow");
        }
        verify(ch, "chain", &sys, |t, _| {
            let mut m = M::default();
            let (xn, xl) = ways(&mut m, a, 1.0);
            let (zn, zl) = ways(&mut m, b, -10.0);
            let (xg, zg) = (plus(&xn, 1.0, &xl), plus(&zn, 1.0, &zl));
            m.eq(&plus(&xn, -1.0, &zg), 0.0);
            m.le(&xg, SRC[t]);
            m.le(&zn, DST[t]);
            if lim == 1 {
                m.le(&part(a, comp, &xn, &xl), 1.5);
            }
            if lim == 2 {
                m.le(&part(b, comp2, &zn, &zl), 1.5);
            }
            // the loss of the first also costs the source's unit; that of the second comes through the first
            for (n, e) in [("src", &xg), ("Xi", &xg), ("Xo", &xn), ("Zi", &zg), ("Zo", &zn), ("dst", &zn)] {
                m.see(n, e, 0.0);
            }
            m
        })
    });
    cx.explore("virtual-storage", |ch| {
        let rep = ch.pick(3);
        let mut sys = Sys::new(rep);
        let (what, comps) = member(ch, &mut sys);
        let comp = ch.of(&comps);
        let swap = ch.flag();
        let factors = some(ch, &[&[2.0, 0.5], &[0.5, 3.0], &[0.0, 1.0]]);
        let (max, v0) = (20.0, ch.of(&[12.0, 20.0]));
        let min = some(ch, &[&[4.0, 2.0, 1.0]]);
        let x = if comp.is_empty() { json!({"name": "X"}) } else { json!({"name": "X", "component": comp}) };
        let y = json!({"name": "Y"});
        let mut n = json!({"meta": {"name": "A"}, "type": "VirtualStorage", "nodes": if swap { json!([y, x]) } else { json!([x, y]) },
            "max_volume": sys.val(&[max; N]), "initial_volume": {"type": "Proportional", "proportion": v0 / max}});
        sys.put(&mut n, "min_volume", &min);
        if let Some(f) = &factors {
            n["factors"] = json!(f);
        }
        sys.vnode(n);
        sys.nodes.push(json!({"meta": {"name": "Y"}, "type": "Link", "cost": lit(0.5), "max_flow": lit(2.0)}));
        sys.end("Input", "src", &SRC, 1.0);
        sys.end("Output", "dst", &DST, -10.0);
        for k in ["X", "Y"] {
            sys.edge("src", k);
            sys.edge(k, "dst");
        }
        sys.see("X", "X", "Outflow");
        sys.see("Y", "Y", "Outflow");
        for a in ["Volume", "ProportionalVolume"] {
            sys.metrics.push((a.into(), json!({"type": "VirtualNode", "name": "A", "attribute": a})));
        }
        let s2 = sys.clone();
        verify(ch, "VirtualStorage", &sys, |t, h| {
            let s = &s2;
            let mut m = M::default();
            let v = if t == 0 { v0 } else { h.at(t - 1, "Volume") };
            let (net, los) = ways(&mut m, what, -9.0);
            let y = m.var(0.5 - 9.0);
            m.le(&one(y), 2.0);
            let mine = part(what, comp, &net, &los);
            let (a, b) = if swap { (one(y), mine) } else { (mine, one(y)) };
            let f = factors.clone().unwrap_or(vec![1.0, 1.0]);
            let used: Expr = a.iter().map(|(i, k)| (*i, k * f[0])).chain(b.iter().map(|(i, k)| (*i, k * f[1]))).collect();
            m.le(&used, v - s.os(&min, t).unwrap_or(0.0));
            let through = plus(&net, 1.0, &one(y));
            m.le(&through, DST[t]);
            let gross = plus(&through, 1.0, &los);
            m.le(&gross, SRC[t]);
            m.see("src", &gross, 0.0);
            m.see("dst", &through, 0.0);
            m.see("X", &net, 0.0);
            m.see("Y", &one(y), 0.0);
            let left: Expr = used.iter().map(|(i, k)| (*i, -k)).collect();
            m.see("Volume", &left, v);
            m.see("ProportionalVolume", &left.iter().map(|(i, k)| (*i, k / max)).collect::<Vec<_>>(), v / max);
            m
        })
    });
    cx.explore("aggregated-storage", |ch| {
        let set = ch.subset(3);
        if set.is_empty() {
            return ch.skip();
        }
        let mut sys = Sys::new(0);
        let v0: Vec<f64> = (0..3).map(|i| ch.of(&[[4.0, 10.0], [3.0, 14.0], [0.0, 8.0]][i])).collect();
        let init = |i: usize| json!({"type": "Absolute", "volume": v0[i]});
        sys.nodes = vec![
            json!({"meta": {"name": "S"}, "type": "Storage", "max_volume": lit(10.0), "initial_volume": init(0)}),
            json!({"meta": {"name": "P"}, "type": "PiecewiseStorage", "max_volume": lit(16.0), "cost": lit(-1.0), "initial_volume": init(1),
                "steps": [{"control_curve": lit(0.25), "cost": lit(-3.0)}, {"control_curve": lit(0.5), "cost": lit(-2.0)}]}),
            json!({"meta": {"name": "R"}, "type": "Reservoir", "max_volume": lit(8.0), "initial_volume": init(2), "spill": "OutputNode"}),
        ];
        for (k, (n, max)) in [("S", [3.0, 0.0, 2.0]), ("P", [0.0, 5.0, 2.0]), ("R", [1.0, 2.0, 0.0])].iter().enumerate() {
            let (a, b) = (format!("in{k}"), format!("out{k}"));
            sys.end("Input", &a, max, -4.0);
            sys.end("Output", &b, &[[0.0, 2.0, 1.0], [3.0, 0.0, 1.0], [0.0, 1.0, 4.0]][k], -10.0);
            sys.edge(&a, n);
            sys.edge(n, &b);
        }
        sys.metrics.clear();
        let names = ["S", "P", "R"];
        let refs: Vec<Value> = set.iter().map(|i| json!({"name": names[*i]})).collect();
        sys.vnodes.push(json!({"meta": {"name": "A"}, "type": "AggregatedStorage", "storage_nodes": refs}));
        for n in names {
            sys.see(n, n, "Volume");
        }
        for a in ["Volume", "ProportionalVolume"] {
            sys.metrics.push((a.into(), json!({"type": "VirtualNode", "name": "A", "attribute": a})));
        }
        let d = sys.doc(N);
        ch.describe(|| d["network"].to_string());
        let rows = match run_doc(&d, None) {
            Ok(r) => r,
            Err(e) => return fail("AggregatedStorage:run", e.text()),
        };
        for (t, r) in rows.iter().enumerate() {
            let r = &r[0];
            let total: f64 = set.iter().map(|i| r[*i]).sum();
            let max: f64 = set.iter().map(|i| [10.0, 16.0, 8.0][*i]).sum();
            chk!((r[3] - total).abs() < 1e-6, "AggregatedStorage:volume", "step {t}: {} of {:?}", r[3], &r[..3]);
            chk!((r[4] - total / max).abs() < 1e-6, "AggregatedStorage:proportion", "step {t}: {} of {:?}", r[4], &r[..3]);
            ch.state(&r.iter().map(|v| (v * 1e5) as i64).collect::<Vec<_>>());
        }
        Ok(())
    });
}

pub fn c19(cx: &Cx) {
    core_nodes(cx);
    loss_nodes(cx);
    piecewise(cx);
    gauges(cx);
    routed(cx);
    reservoir(cx);
    virtuals(cx);
}
