//! C05: virtual storage.
use crate::core::Kind::*;
use crate::core::Val::*;
use crate::core::*;
use crate::harness::*;
use crate::p_time::*;
use crate::schema::*;
use jiff::civil::{DateTime, date};
use pywr_core::agg_funcs::AggFuncF64;
use pywr_core::metric::UnresolvedMetricF64;
use pywr_core::network::NetworkBuilder;
use pywr_core::node::{NodeBuilder, UnresolvedStorageInitialVolume};
use pywr_core::parameters::*;
use pywr_core::solvers::{HighsSolver, MicroLpSolver};
use pywr_core::timestep::*;
use pywr_core::virtual_storage::*;
use serde_json::{Value, json};
use std::num::NonZeroUsize;

#[derive(Clone, Debug, Hash)]
enum Rule {
    Never,
    Day(i8, i8),
    Months(i32),
}
/// (start month, start day, end month, end day)
type Active = Option<(i8, i8, i8, i8)>;
#[derive(Clone, Debug)]
struct Lic {
    rule: Rule,
    act: Active,
    to_max: bool,
    init: f64,
    init_pct: bool,
    min: f64,
    max: f64,
    factor: f64,
    window: Option<usize>,
}
fn is_active(a: &Active, d: DateTime) -> bool {
    let Some((sm, sd, em, ed)) = a else { return true };
    let k = |m: i8, d: i8| m as i32 * 100 + d as i32;
    let (s, e, x) = (k(*sm, *sd), k(*em, *ed), k(d.month(), d.day()));
    if s <= e { s <= x && x <= e } else { x >= s || x <= e }
}
/// Whether a reset boundary lies in (prev, cur].
fn crosses(day: i8, month: i8, prev: DateTime, cur: DateTime) -> bool {
    (prev.year()..=cur.year()).any(|y| {
        let b = secs(date(y, month, day).at(0, 0, 0, 0));
        secs(prev) < b && b <= secs(cur)
    })
}

/// The reference state machine; returns, per step, (volume before allocation, flow, volume after).
fn reference(l: &Lic, steps: &[(DateTime, f64)], demand: &[f64]) -> Vec<(f64, f64, f64)> {
    let mut vol = 0.0;
    let mut last = steps[0].0;
    let mut spent: Vec<f64> = vec![];
    let mut out = vec![];
    let init = if l.init_pct { l.max * l.init } else { l.init };
    for (t, (d, days)) in steps.iter().enumerate() {
        let act = is_active(&l.act, *d);
        let due = match l.rule {
            Rule::Never => false,
            Rule::Day(day, month) => t > 0 && crosses(day, month, steps[t - 1].0, *d),
            Rule::Months(n) => (d.year() as i32 * 12 + d.month() as i32) - (last.year() as i32 * 12 + last.month() as i32) >= n,
        };
        if t == 0 || !act || due {
            vol = if l.to_max { l.max } else { init };
            last = *d;
            if let Some(w) = l.window {
                // what is missing was spent evenly over the window
                spent = vec![(l.max - vol) / w as f64; w];
            }
        }
        if let Some(w) = l.window {
            if spent.len() >= w {
                vol += spent.remove(0);
            }
        }
        let before = vol;
        let mut flow = demand[t];
        if act {
            if l.factor > 0.0 {
                flow = flow.min((vol - l.min).max(0.0) / days / l.factor);
            }
            vol -= flow * l.factor * days;
            if l.window.is_some() {
                spent.push(flow * l.factor * days);
            }
        }
        out.push((before, flow, vol));
    }
    out
}

fn steps_of(tb: TimeDomainBuilder) -> Vec<(DateTime, f64)> {
    tb.build().unwrap().timesteps().iter().map(|t| (t.date, t.days())).collect()
}
fn network(l: &Lic, demand: &[f64], member: usize) -> NetworkBuilder {
    let mut nb = NetworkBuilder::default();
    nb.node(NodeBuilder::input("in"));
    nb.node(NodeBuilder::link("link"));
    let mut o = NodeBuilder::output("out");
    nb.parameters().f64(Box::new(GenSeriesBuilder::new("demand", vec![demand.to_vec()])));
    o.max_flow(pm("demand")).cost((-10.0).into());
    nb.node(o);
    nb.connect("in", "link").connect("link", "out");
    let mut b = VirtualStorageNodeBuilder::new("vs", &[["in", "link", "out"][member].into()]);
    b.factors(&[l.factor]);
    b.initial_volume(if l.init_pct { UnresolvedStorageInitialVolume::proportional(l.init) } else { UnresolvedStorageInitialVolume::absolute(l.init) });
    b.max_volume(l.max.into());
    if l.min != 0.0 {
        b.min_volume(l.min.into());
    }
    b.reset(match l.rule {
        Rule::Never => VirtualStorageReset::Never,
        Rule::Day(day, month) => VirtualStorageReset::DayOfYear { day, month },
        Rule::Months(months) => VirtualStorageReset::NumberOfMonths { months },
    });
    b.reset_volume(if l.to_max { VirtualStorageResetVolume::Max } else { VirtualStorageResetVolume::Initial });
    if let Some((start_month, start_day, end_month, end_day)) = l.act {
        b.active_period(VirtualStorageActivePeriod::Period { start_day, start_month, end_day, end_month });
    }
    if let Some(w) = l.window {
        b.rolling_window(NonZeroUsize::new(w).unwrap());
    }
    nb.virtual_storage_node(b);
    // the volume as parameters see it before allocation
    let mut a = AggregatedParameterBuilder::before("vol-before".into(), AggFuncF64::Sum);
    a.metric(UnresolvedMetricF64::VirtualStorageVolume("vs".into()));
    nb.parameters().f64(Box::new(a));
    nb
}
fn observed() -> Vec<UnresolvedMetricF64> {
    vec![
        UnresolvedMetricF64::VirtualStorageVolume("vs".into()),
        UnresolvedMetricF64::VirtualStorageProportionalVolume("vs".into()),
        UnresolvedMetricF64::NodeInFlow("out".into()),
        pm("vol-before"),
    ]
}
fn compare(ch: &mut Ch, l: &Lic, steps: &[(DateTime, f64)], demand: &[f64], out: &[Vec<Vec<f64>>], tag: &str) -> Res {
    let want = reference(l, steps, demand);
    chk!(out.len() == steps.len(), format!("{tag}:steps"), "{} steps ran, expected {}", out.len(), steps.len());
    for t in 0..steps.len() {
        let r = &out[t][0];
        let (b, f, a) = want[t];
        let tol = |x: f64, y: f64| (x - y).abs() < 1e-5 * (1.0 + y.abs());
        let when = || format!("step {t} ({}, {} days) {l:?}", steps[t].0, steps[t].1);
        if r.len() > 3 {
            chk!(tol(r[3], b), format!("{tag}:before"), "{}: volume before allocation {}, expected {b}", when(), r[3]);
        }
        chk!(tol(r[2], f), format!("{tag}:flow"), "{}: flow {}, expected {f} (volume before {b})", when(), r[2]);
        chk!(tol(r[0], a), format!("{tag}:after"), "{}: volume after allocation {}, expected {a}", when(), r[0]);
        chk!(tol(r[1], if l.max == 0.0 { 1.0 } else { a / l.max }), format!("{tag}:proportional"), "{}: proportional volume {}, expected {}", when(), r[1], a / l.max);
        ch.state(&((r[0] * 1e4).round() as i64, (r[2] * 1e4).round() as i64, steps[t].0.month(), steps[t].0.day()));
    }
    ch.out(&((out.last().unwrap()[0][0] * 1e4).round() as i64));
    Ok(())
}
fn run_lic(ch: &mut Ch, l: &Lic, tb: TimeDomainBuilder, demand: &dyn Fn(usize) -> f64, member: usize, tag: &str) -> Res {
    let steps = steps_of(tb.clone());
    let dem: Vec<f64> = (0..steps.len()).map(demand).collect();
    match run_probe::<MicroLpSolver>(domain(tb), network(l, &dem, member), observed()) {
        Ok(out) => compare(ch, l, &steps, &dem, &out, tag),
        Err(e) => fail(format!("{tag}:error"), format!("{l:?} from {} demand {dem:?}: {}", steps[0].0, e.text())),
    }
}

pub fn c05(cx: &Cx) {
    cx.assume("the reset day exists in every year (29 February is out of scope)");
    cx.assume("'a number of months' counts calendar-month boundaries since the last reset, as documented by the upstream tests");
    cx.assume("volumes and flows are compared to 1e-5");
    let rules = vec![
        Rule::Never,
        Rule::Day(1, 1),
        Rule::Day(31, 12),
        Rule::Day(1, 3),
        Rule::Day(28, 2),
        Rule::Day(15, 6),
        Rule::Day(1, 4),
        Rule::Day(30, 9),
        Rule::Months(1),
        Rule::Months(2),
        Rule::Months(6),
        Rule::Months(12),
        Rule::Months(13),
    ];
    let acts: Vec<Active> = vec![None, Some((4, 1, 9, 30)), Some((11, 15, 2, 10)), Some((3, 1, 3, 1)), Some((6, 20, 6, 10)), Some((1, 1, 12, 31)), Some((2, 28, 3, 1))];
    let nstart = cx.b(61, 366);
    let stride = cx.b(6, 1);
    // (step in hours, number of steps)
    let grids: Vec<(u64, usize)> = cx.b(vec![(6, 330), (24, 420), (72, 260), (168, 115), (240, 80), (720, 40)], vec![(6, 1600), (12, 800), (24, 800), (48, 420), (72, 270), (120, 160), (168, 160), (240, 110), (720, 40), (744, 40), (8760, 5)]);
    cx.explore("boundaries", |ch| {
        let (hours, n) = ch.of(&grids);
        let off = ch.pick(nstart) as i64 * stride;
        let rule = ch.of(&rules);
        let start = date(2019, 7, 1).at(0, 0, 0, 0).checked_add(jiff::Span::new().days(off)).unwrap();
        let l = Lic { rule, act: None, to_max: off % 2 == 0, init: 40.0, init_pct: false, min: 0.0, max: 50.0, factor: 1.0, window: None };
        let days = hours as f64 / 24.0;
        run_lic(ch, &l, time_hours(start, hours, n), &|t| [0.6, 0.0, 0.9][t % 3] / days.max(0.5), 1, "boundaries")
    });
    let nstart = cx.b(31, 366);
    let stride = cx.b(12, 1);
    cx.explore("active-period", |ch| {
        let (hours, n) = ch.of(&grids);
        let off = ch.pick(nstart) as i64 * stride;
        let rule = ch.of(&[Rule::Never, Rule::Day(1, 4), Rule::Day(15, 11), Rule::Months(1)]);
        let act = ch.of(&acts);
        let start = date(2019, 7, 1).at(0, 0, 0, 0).checked_add(jiff::Span::new().days(off)).unwrap();
        let l = Lic { rule, act, to_max: off % 2 == 1, init: 20.0, init_pct: false, min: 5.0, max: 50.0, factor: 2.0, window: None };
        let days = hours as f64 / 24.0;
        run_lic(ch, &l, time_hours(start, hours, n), &|t| [0.6, 0.0, 0.9][t % 3] / days.max(0.5), 0, "active")
    });
    // calendar-length timesteps
    cx.explore("frequency", |ch| {
        let f = ch.of(&["1mo", "3mo", "1w", "1y", "2mo"]);
        let start = ch.of(&[date(2019, 1, 31), date(2020, 2, 1), date(2019, 12, 15), date(2021, 6, 30)]).at(0, 0, 0, 0);
        let end = start.checked_add(jiff::Span::new().months(30)).unwrap();
        let rule = ch.of(&rules);
        let act = ch.of(&acts);
        let window = ch.of(&[None, Some(1), Some(2), Some(4), Some(7)]);
        let l = Lic { rule, act, to_max: ch.flag(), init: 0.5, init_pct: true, min: 0.0, max: 60.0, factor: 1.0, window };
        run_lic(ch, &l, TimeDomainBuilder::new(start, end, TimestepDuration::Frequency(f.into())), &|t| [0.5, 1.5, 0.0][t % 3], 2, "freq")
    });
    // every demand history
    let len = cx.b(5, 7);
    cx.explore("window", |ch| {
        let w = 1 + ch.pick(len - 1);
        let hours = ch.of(&[6u64, 24, 168]);
        let init = ch.of(&[0.0, 0.4, 1.0]);
        let init_pct = ch.flag();
        let to_max = ch.flag();
        let factor = ch.of(&[1.0, 0.5]);
        let rule = ch.of(&[Rule::Never, Rule::Day(2, 3), Rule::Months(1)]);
        let act = ch.of(&[None, Some((3, 2, 12, 31))]);
        let dem = ch.seq(&[0.0, 2.0, 9.0], len);
        let days = hours as f64 / 24.0;
        let max = 20.0 * days;
        let l = Lic { rule, act, to_max, init: if init_pct { init } else { init * max }, init_pct, min: 0.0, max, factor, window: Some(w) };
        ch.describe(|| format!("window {l:?} dt {hours}h demand {dem:?}"));
        run_lic(ch, &l, time_hours(date(2020, 2, 29).at(0, 0, 0, 0), hours, len), &|t| dem[t], 0, "window")
    });
    // windows longer than a few steps, emptied and refilled, also by inactive periods
    cx.explore("long-windows", |ch| {
        let w = ch.of(&[3usize, 5, 6, 8, 11]);
        let hours = ch.of(&[6u64, 24, 168]);
        let act = ch.of(&[None, Some((3, 2, 12, 31)), Some((3, 1, 3, 2)), Some((3, 3, 2, 28))]);
        let rule = ch.of(&[Rule::Never, Rule::Day(2, 3), Rule::Day(1, 4)]);
        let to_max = ch.flag();
        let init = ch.of(&[0.4, 1.0]);
        // every pair of patterns before and after
        let pats = [[0.0, 0.0, 0.0], [3.0, 0.0, 0.0], [0.0, 1.0, 9.0], [2.0, 2.0, 2.0], [9.0, 9.0, 0.0]];
        let (a, b) = (ch.of(&pats), ch.of(&pats));
        let len = cx.b(20, 40);
        let cut = ch.of(&[4usize, 9]);
        let max = 20.0 * hours as f64 / 24.0;
        let l = Lic { rule, act, to_max, init: init * max, init_pct: false, min: 0.0, max, factor: 1.0, window: Some(w) };
        run_lic(ch, &l, time_hours(date(2020, 2, 28).at(0, 0, 0, 0), hours, len), &|t| if t < cut { a[t % 3] } else { b[t % 3] }, 0, "long")
    });
    cx.explore("history", |ch| {
        let hours = ch.of(&[6u64, 24, 168, 720]);
        let member = ch.pick(3);
        let init = ch.of(&[0.0, 0.4, 1.0]);
        let init_pct = ch.flag();
        let to_max = ch.flag();
        let min = ch.of(&[0.0, 3.0]);
        let factor = ch.of(&[1.0, 0.5, 3.0, 0.0]);
        let rule = ch.of(&[Rule::Never, Rule::Day(2, 3), Rule::Months(1)]);
        let dem = ch.seq(&[0.0, 2.0, 9.0], len - 1);
        let days = hours as f64 / 24.0;
        let max = 20.0 * days;
        if init * max < min {
            return ch.skip(); // an initial volume below the minimum is not a valid configuration
        }
        let l = Lic { rule, act: None, to_max, init: if init_pct { init } else { init * max }, init_pct, min, max, factor, window: None };
        ch.describe(|| format!("history {l:?} dt {hours}h member {member} demand {dem:?}"));
        run_lic(ch, &l, time_hours(date(2020, 2, 29).at(0, 0, 0, 0), hours, len - 1), &|t| dem[t], member, "history")
    });
    // several members and several virtual storages
    cx.explore("members", |ch| {
        let hours = ch.of(&[24u64, 168]);
        let d = hours as i64 / 24;
        let dem = |ch: &mut Ch| ch.of(&[Lit(4), Ser(vec![1, 8, 5])]);
        let nodes = vec![node(In).max(Lit(12)), node(In).max(Lit(5)).cost(Lit(ch.of(&[0i64, 3]))), node(Link).max(Lit(9)), node(Link), node(Out).max(dem(ch)).cost(Lit(-10)), node(Out).max(dem(ch)).cost(Lit(ch.of(&[-4, -15])))];
        let mut spec = NetSpec::new(nodes, &[(0, 2), (1, 3), (2, 4), (3, 5), (2, 5)]);
        let fac = [0i64, 1, 3, -1];
        let sets: Vec<Vec<usize>> = vec![vec![0], vec![0, 1], vec![2, 3], vec![4, 5], vec![0, 3], vec![2, 5], vec![0, 1, 5], vec![1, 3, 2]];
        let nvs = 1 + ch.pick(2);
        for k in 0..nvs {
            let m = if k == 0 { ch.of(&sets) } else { ch.of(&sets[..5]) };
            let f: Vec<i64> = m.iter().map(|_| if k == 0 { ch.of(&fac) } else { 1 + (k as i64) }).collect();
            let init = ch.of(&[0i64, 7, 20]) * d;
            spec.vs.push(VsSpec { members: m.into_iter().zip(f).collect(), init, vmin: if init > 0 { 2 } else { 0 }, vmax: 20 * d, cost: None });
        }
        spec.dth = hours;
        spec.steps = 3;
        if cx.thorough {
            lockstep::<HighsSolver>(ch, &spec, ALL, "members")?;
        }
        lockstep::<MicroLpSolver>(ch, &spec, ALL, "members")
    });
    cx.explore("schema", |ch| schema_doc(cx, ch));
}

fn schema_doc(cx: &Cx, ch: &mut Ch) -> Res {
    let step = ch.of(&[1usize, 7, 30]);
    let reset = ch.pick(5);
    let (rule, act, rj): (Rule, Active, Value) = match reset {
        0 => (Rule::Never, None, Value::Null),
        1 => (Rule::Never, None, json!({"type": "Never"})),
        2 => (Rule::Day(4, 7), None, json!({"type": "Annual", "day": 4, "month": 7})),
        3 => {
            let m = ch.of(&[1, 3, 12]);
            (Rule::Months(m), None, json!({"type": "Monthly", "months": m}))
        }
        _ => {
            let (a, b, c, d) = ch.of(&[(4i8, 1i8, 9i8, 30i8), (11, 5, 2, 3)]);
            (Rule::Day(b, a), Some((a, b, c, d)), json!({"type": "Seasonal", "start_month": a, "start_day": b, "end_month": c, "end_day": d}))
        }
    };
    let rv = ch.of(&[None, Some("Initial"), Some("Max")]);
    let win = ch.of(&[None, Some(("Days", 30usize)), Some(("Days", 14)), Some(("Timesteps", 3)), Some(("Timesteps", 1))]);
    let init_pct = ch.flag();
    let max = 30.0 * step as f64;
    let init = ch.of(&[0.0, 0.5, 1.0]);
    let min = ch.of(&[None, Some(4.0)]);
    let factor = ch.of(&[None, Some(2.0), Some(0.25)]);
    if init * max < min.unwrap_or(0.0) {
        return ch.skip();
    }
    let members = [json!({"name": "in"}), json!({"name": "out", "component": "Inflow"}), json!({"name": "link"}), json!({"name": "in", "component": "Outflow"}), json!({"name": "out"})];
    let member = ch.of(&members[..cx.b(2, 5)]);
    let window = match win {
        None => None,
        Some(("Days", d)) => Some(d / step),
        Some((_, t)) => Some(t),
    };
    let l = Lic {
        rule,
        act,
        to_max: rv == Some("Max"),
        init: if init_pct { init } else { init * max },
        init_pct,
        min: min.unwrap_or(0.0),
        max,
        factor: factor.unwrap_or(1.0),
        window,
    };
    let n = cx.b(420, 800) / step;
    let start = date(2020, 3, 10).at(0, 0, 0, 0);
    let end = start.checked_add(jiff::Span::new().days((step * (n - 1)) as i64)).unwrap();
    let dem: Vec<f64> = (0..12).map(|m| [0.5, 1.5, 0.0, 4.0][m % 4]).collect();
    let mut vs = json!({"meta": {"name": "vs"}, "type": "VirtualStorage", "nodes": [member], "max_volume": lit(max),
        "initial_volume": if init_pct { json!({"type": "Proportional", "proportion": init}) } else { json!({"type": "Absolute", "volume": init * max}) }});
    if !rj.is_null() {
        vs["reset"] = rj;
    }
    if let Some(r) = rv {
        vs["reset_volume"] = json!(r);
    }
    if let Some((k, v)) = win {
        vs["window"] = if k == "Days" { json!({"type": k, "days": v}) } else { json!({"type": k, "timesteps": v}) };
    }
    if let Some(m) = min {
        vs["min_volume"] = lit(m);
    }
    if let Some(f) = factor {
        vs["factors"] = json!([f]);
    }
    let d = doc(
        time_json(&start.date().to_string(), &end.date().to_string(), json!({"type": "Days", "days": step})),
        json!({"nodes": [
            {"meta": {"name": "in"}, "type": "Input"},
            {"meta": {"name": "link"}, "type": "Link"},
            {"meta": {"name": "out"}, "type": "Output", "max_flow": par("demand"), "cost": lit(-10.0)}],
            "virtual_nodes": [vs],
            "edges": [{"from_node": "in", "to_node": "link"}, {"from_node": "link", "to_node": "out"}],
            "parameters": [{"meta": {"name": "demand"}, "type": "MonthlyProfile", "values": {"type": "Literal", "values": dem}}],
            "metric_sets": [{"name": "m", "metrics": [
                {"type": "VirtualNode", "name": "vs", "attribute": "Volume"},
                {"type": "VirtualNode", "name": "vs", "attribute": "ProportionalVolume"},
                {"type": "Node", "name": "out", "attribute": "Inflow"}]}]}),
    );
    ch.describe(|| d.to_string());
    let r = run_doc(&d, None);
    if window == Some(0) {
        // shorter than one timestep
        return match r {
            Ok(_) => fail("schema:window-accepted", format!("a window shorter than a timestep is accepted: {d}")),
            Err(e) => {
                chk!(!e.is_panic(), "schema:panic", "{}", e.text());
                Ok(())
            }
        };
    }
    let steps: Vec<(DateTime, f64)> = (0..n).map(|t| (start.checked_add(jiff::Span::new().days((t * step) as i64)).unwrap(), step as f64)).collect();
    let demand: Vec<f64> = steps.iter().map(|s| dem[s.0.month() as usize - 1]).collect();
    match r {
        Ok(out) => compare(ch, &l, &steps, &demand, &out, "schema"),
        Err(e) => fail("schema:error", format!("{l:?}: {}", e.text())),
    }
}
