//! C16: periodic aggregation of metric sets.
use crate::core::*;
use crate::harness::*;
use crate::p_time::{at_secs, cal, secs};
use crate::schema::*;
use jiff::civil::{DateTime, date};
use pywr_core::agg_funcs::AggFuncF64;
use pywr_core::recorders::{AggregationFrequency, Aggregator, PeriodValue};
use pywr_core::timestep::PywrDuration;
use serde_json::{Value, json};
use std::num::NonZeroI64;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Freq {
    Month,
    Year,
    Days(i64),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fun {
    Sum,
    Mean,
    Min,
    Max,
    Product,
    Count,
    Any,
    Above,
}
pub const FUNS: [Fun; 8] = [Fun::Sum, Fun::Mean, Fun::Min, Fun::Max, Fun::Product, Fun::Count, Fun::Any, Fun::Above];
/// Outermost first.
pub type Agg = Vec<(Option<Freq>, Fun)>;
/// start (s), duration (s), value
pub type Pv = (i64, i64, f64);

fn above(v: f64) -> bool {
    v > 1.5
}
pub fn core_fun(f: Fun) -> AggFuncF64 {
    match f {
        Fun::Sum => AggFuncF64::Sum,
        Fun::Mean => AggFuncF64::Mean,
        Fun::Min => AggFuncF64::Min,
        Fun::Max => AggFuncF64::Max,
        Fun::Product => AggFuncF64::Product,
        Fun::Count => AggFuncF64::CountNonZero,
        Fun::Any => AggFuncF64::AnyNonZero { tolerance: 0.25 },
        Fun::Above => AggFuncF64::CountFunc { func: above },
    }
}
fn core_agg(a: &[(Option<Freq>, Fun)]) -> Aggregator {
    let f = a[0].0.map(|f| match f {
        Freq::Month => AggregationFrequency::Monthly,
        Freq::Year => AggregationFrequency::Annual,
        Freq::Days(n) => AggregationFrequency::Days(NonZeroI64::new(n).unwrap()),
    });
    Aggregator::new(f, core_fun(a[0].1), if a.len() > 1 { Some(core_agg(&a[1..])) } else { None })
}
fn json_agg(a: &[(Option<Freq>, Fun)]) -> Value {
    let mut v = json!({"func": match a[0].1 {
        Fun::Any => json!({"type": "AnyNonZero", "tolerance": 0.25}),
        Fun::Count => json!({"type": "CountNonZero"}),
        f => json!({"type": format!("{f:?}")}),
    }});
    if let Some(f) = a[0].0 {
        v["freq"] = match f {
            Freq::Month => json!({"type": "Monthly"}),
            Freq::Year => json!({"type": "Annual"}),
            Freq::Days(n) => json!({"type": "Days", "days": n}),
        };
    }
    if a.len() > 1 {
        v["child"] = json_agg(&a[1..]);
    }
    v
}
/// The function over (value, weight) pairs; None when it has no value.
pub fn apply(f: Fun, v: &[(f64, f64)]) -> Option<f64> {
    let it = || v.iter().map(|x| x.0);
    Some(match f {
        Fun::Sum => it().sum(),
        Fun::Mean => {
            let w: f64 = v.iter().map(|x| x.1).sum();
            if w == 0.0 {
                return None;
            }
            v.iter().map(|x| x.0 * x.1).sum::<f64>() / w
        }
        Fun::Min => it().fold(f64::INFINITY, f64::min),
        Fun::Max => it().fold(f64::NEG_INFINITY, f64::max),
        Fun::Product => it().product(),
        Fun::Count => it().filter(|x| *x != 0.0).count() as f64,
        Fun::Any => it().any(|x| x.abs() > 0.25) as u8 as f64,
        Fun::Above => it().filter(|x| above(*x)).count() as f64,
    })
}
/// End of the calendar period holding `t` (for day periods: of the one starting at `origin`).
fn period_end(f: Freq, t: i64, origin: i64) -> i64 {
    let (y, m, _) = cal::from_ordinal(t.div_euclid(86400));
    match f {
        Freq::Month => {
            let (y, m, d) = cal::add_months(y, m, 1, 1);
            cal::ordinal(y, m, d) * 86400
        }
        Freq::Year => cal::ordinal(y + 1, 1, 1) * 86400,
        Freq::Days(n) => origin + ((t - origin).div_euclid(n * 86400) + 1) * n * 86400,
    }
}
/// What an aggregator yields for a contiguous list of values. `short` reproduces the known defect in which the
/// last (unfinished) period ends at the start of its last value instead of at its end.
pub fn spec(a: &[(Option<Freq>, Fun)], values: &[Pv], short: bool) -> Vec<Pv> {
    let ins = if a.len() > 1 { spec(&a[1..], values, short) } else { values.to_vec() };
    let Some(first) = ins.first() else { return vec![] };
    let mut groups: Vec<Vec<Pv>> = vec![];
    match a[0].0 {
        None => groups.push(ins),
        Some(f) => {
            let origin = first.0;
            let mut end = i64::MIN;
            for (s, d, v) in ins {
                let (mut t, stop) = (s, s + d);
                while t < stop {
                    if t >= end {
                        end = period_end(f, t, origin);
                        groups.push(vec![]);
                    }
                    let e = end.min(stop);
                    groups.last_mut().unwrap().push((t, e - t, v));
                    t = e;
                }
            }
        }
    }
    let n = groups.len();
    let mut out = vec![];
    for (i, g) in groups.iter().enumerate() {
        let start = g[0].0;
        let l = g[g.len() - 1];
        let end = if i + 1 < n { groups[i + 1][0].0 } else if short { l.0 } else { l.0 + l.1 };
        if let Some(v) = apply(a[0].1, &g.iter().map(|x| (x.2, x.1 as f64 / 86400.0)).collect::<Vec<_>>()) {
            out.push((start, end - start, v));
        }
    }
    out
}
pub fn show(v: &[Pv]) -> String {
    v.iter().map(|x| format!("{} +{}d: {}", at_secs(x.0), x.1 as f64 / 86400.0, x.2)).collect::<Vec<_>>().join(", ")
}
pub fn agree(a: &[Pv], b: &[Pv]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && x.1 == y.1 && close(x.2, y.2))
}
/// Compare with the specification; what only the known defect explains gets its own key.
pub fn judge(ch: &mut Ch, a: &Agg, values: &[Pv], got: &[Pv], what: &str) -> Res {
    let want = spec(a, values, false);
    if agree(got, &want) {
        return Ok(());
    }
    let known = agree(got, &spec(a, values, true));
    if known && ch.is_soft() {
        return Ok(());
    }
    let r = fail(if known { "agg:final-duration" } else { "agg" }, format!("{what} {a:?} over {}: yields {} instead of {}", show(values), show(got), show(&want)));
    if known {
        ch.soft(r);
        return Ok(());
    }
    r
}
fn pv(p: &PeriodValue<f64>) -> Pv {
    (secs(p.start), (p.duration.milliseconds() / 1000) as i64, p.value)
}
fn drive(ch: &mut Ch, a: &Agg, values: &[Pv]) -> Res<Vec<Pv>> {
    let agg = core_agg(a);
    let r = imp(|| {
        let mut st = agg.setup();
        let mut out: Vec<Pv> = vec![];
        for (i, (s, d, v)) in values.iter().enumerate() {
            for p in agg.append_values(&mut st, PeriodValue::new(at_secs(*s), PywrDuration::from_seconds(*d), *v)) {
                // nothing may be reported before the period it covers is complete
                let p = pv(&p);
                if p.0 + p.1 > s + d {
                    return Err(format!("value {i} yields a period ending in the future: {}", show(&[p])));
                }
                out.push(p);
            }
        }
        out.extend(agg.finalise_all(&mut st).iter().map(pv));
        Ok(out)
    });
    match r {
        Ok(v) => {
            for p in &v {
                ch.state(&(p.0, p.1, p.2.to_bits()));
            }
            Ok(v)
        }
        Err(e) => fail("agg", format!("{a:?} over {}: {}", show(values), e.text())),
    }
}
pub fn starts() -> Vec<DateTime> {
    [
        (2020, 2, 27),
        (2020, 2, 1),
        (2021, 2, 26),
        (2020, 12, 30),
        (2021, 1, 1),
        (2020, 12, 31),
        (2021, 1, 31),
        (2019, 11, 28),
        (2100, 2, 27),
        (2000, 2, 28),
        (2020, 1, 2),
        (2021, 6, 15),
    ]
    .iter()
    .map(|&(y, m, d)| date(y, m, d).at(0, 0, 0, 0))
    .collect()
}
const STEPS: [i64; 10] = [21600, 43200, 86400, 2 * 86400, 3 * 86400, 5 * 86400, 7 * 86400, 30 * 86400, 45 * 86400, 400 * 86400];

fn pattern(k: usize, n: usize, i: usize) -> f64 {
    match k {
        0 => i as f64 + 1.0,
        1 => 1.0,
        2 => [0.0, 2.0, -1.0, 0.5, 0.25][i % 5],
        3 => -(i as f64) * 0.5,
        // one-hot
        k => {
            let p = (k - 4) % n.max(1);
            if i == p { 2.0 } else { 0.0 }
        }
    }
}
fn freqs() -> Vec<Option<Freq>> {
    vec![None, Some(Freq::Month), Some(Freq::Year), Some(Freq::Days(1)), Some(Freq::Days(2)), Some(Freq::Days(3)), Some(Freq::Days(7)), Some(Freq::Days(30)), Some(Freq::Days(365))]
}
/// Rank used to nest: a parent's period is at least as long as its child's.
fn rank(f: Option<Freq>) -> i64 {
    match f {
        None => i64::MAX,
        Some(Freq::Month) => 30,
        Some(Freq::Year) => 365,
        Some(Freq::Days(n)) => n,
    }
}

pub fn c16(cx: &Cx) {
    cx.assume("values are recorded in order, contiguous in time, and are not NaN");
    cx.assume("a day-count period is counted from the first value it aggregates");
    let spans: (i64, i64) = cx.b((70, 400), (430, 800));
    // one level: all start dates, steps, frequencies, functions, lengths
    cx.explore("single", |ch| {
        let start = secs(ch.of(&starts()));
        let off = ch.of(&[0, 21 * 3600 + 1800]);
        let step = ch.of(&STEPS);
        let f = ch.of(&freqs());
        let fun = ch.of(&FUNS);
        let span = if f == Some(Freq::Year) || f == Some(Freq::Days(365)) { spans.1 } else { spans.0 };
        let nmax = (span * 86400 / step).clamp(4, 420) as usize;
        let pat = ch.pick(5);
        let values: Vec<Pv> = (0..nmax).map(|i| (start + off + step * i as i64, step, pattern(pat, nmax, i))).collect();
        let a = vec![(f, fun)];
        // every length up to 12, then every seventh and the longest
        for n in 1..=nmax {
            if n <= cx.b(5, 12) || n % cx.b(30, 7) == 0 || n == nmax {
                let got = drive(ch, &a, &values[..n])?;
                judge(ch, &a, &values[..n], &got, "aggregator")?;
            }
        }
        Ok(())
    });
    // every assignment of a small alphabet to short histories
    cx.explore("words", |ch| {
        let n = 1 + ch.pick(cx.b(5, 6));
        let words = ch.seq(&[0.0, 2.0, -1.0], n);
        let start = secs(ch.of(&cx.b(starts()[..5].to_vec(), starts())));
        let step = ch.of(&[43200, 86400, 3 * 86400, 30 * 86400]);
        let f = ch.of(&freqs());
        let fun = ch.of(&FUNS);
        let values: Vec<Pv> = (0..n).map(|i| (start + step * i as i64, step, words[i])).collect();
        let a = vec![(f, fun)];
        let got = drive(ch, &a, &values)?;
        judge(ch, &a, &values, &got, "aggregator")
    });
    // irregular durations
    cx.explore("irregular", |ch| {
        let n = 1 + ch.pick(cx.b(4, 5));
        let durs = ch.seq(&[21600i64, 86400, 4 * 86400, 33 * 86400], n);
        let start = secs(ch.of(&[date(2020, 2, 27).at(0, 0, 0, 0), date(2020, 12, 31).at(12, 0, 0, 0), date(2021, 3, 1).at(0, 0, 0, 0)]));
        let f = ch.of(&freqs());
        let fun = ch.of(&FUNS);
        let pat = ch.pick(3);
        let mut t = start;
        let mut values = vec![];
        for (i, d) in durs.iter().enumerate() {
            values.push((t, *d, pattern(pat, n, i)));
            t += d;
        }
        let a = vec![(f, fun)];
        let got = drive(ch, &a, &values)?;
        judge(ch, &a, &values, &got, "aggregator")
    });
    // nested aggregators
    cx.explore("nested", |ch| {
        let depth = 2 + ch.pick(2);
        let mut a: Agg = vec![];
        for k in 0..depth {
            let f: Vec<Option<Freq>> = freqs().into_iter().filter(|f| k == 0 || (rank(*f) <= rank(a[k - 1].0) && f.is_some())).collect();
            let f = ch.of(&f);
            let fun = if depth == 2 { ch.of(&FUNS) } else { ch.of(&[Fun::Mean, Fun::Max, Fun::Count]) };
            a.push((f, fun));
        }
        let start = secs(ch.of(&if depth == 2 { cx.b(starts()[..4].to_vec(), starts()) } else { cx.b(starts()[..1].to_vec(), starts()[..4].to_vec()) }));
        let step = ch.of(&cx.b(vec![43200, 86400, 7 * 86400], vec![21600, 43200, 86400, 3 * 86400, 7 * 86400, 30 * 86400]));
        let pat = ch.of(&[0, 2]);
        let nmax = (70 * 86400 / step).clamp(4, 800) as usize;
        let values: Vec<Pv> = (0..nmax).map(|i| (start + step * i as i64, step, pattern(pat, nmax, i))).collect();
        for n in 1..=nmax {
            if n <= 5 || n % 9 == 0 || n % 31 == 0 || n == nmax {
                let got = drive(ch, &a, &values[..n])?;
                judge(ch, &a, &values[..n], &got, "aggregator")?;
            }
        }
        Ok(())
    });
    // whole models, through the schema: several metrics and scenarios, each aggregated on its own
    cx.explore("model", |ch| {
        let start = ch.of(&[date(2020, 2, 26).at(0, 0, 0, 0), date(2020, 12, 30).at(0, 0, 0, 0), date(2021, 1, 30).at(0, 0, 0, 0)]);
        let step = ch.of(&[1i64, 2, 7, 33]);
        let n = ch.of(&[1usize, 3, 6, 35]);
        let depth = 1 + ch.pick(2);
        let mut a: Agg = vec![];
        for k in 0..depth {
            let f: Vec<Option<Freq>> = [None, Some(Freq::Month), Some(Freq::Year), Some(Freq::Days(3)), Some(Freq::Days(30))]
                .into_iter()
                .filter(|f| k == 0 || (rank(*f) <= rank(a[k - 1].0) && f.is_some()))
                .collect();
            let f = ch.of(&f);
            let fun = ch.of(&cx.b(vec![Fun::Sum, Fun::Mean, Fun::Any, Fun::Min], FUNS[..7].to_vec()));
            a.push((f, fun));
        }
        let nscen = 2;
        // metric 0: input flow = time varying profile limited by output demand; metric 1: per-scenario constant
        let end = at_secs(secs(start) + step * 86400 * (n as i64 - 1));
        let d = json!({"metadata": {"title": "t"},
            "time": time_json(&start.date().to_string(), &end.date().to_string(), json!({"type": "Days", "days": step})),
            "scenarios": {"groups": [{"name": "g", "size": nscen}]},
            "network": {
                "nodes": [
                    {"meta": {"name": "in"}, "type": "Input", "max_flow": par("supply")},
                    {"meta": {"name": "out"}, "type": "Output", "max_flow": lit(100.0), "cost": lit(-1.0)}],
                "edges": [{"from_node": "in", "to_node": "out"}],
                "parameters": [
                    {"meta": {"name": "prof"}, "type": "MonthlyProfile", "values": {"type": "Literal", "values": [1, 0, 3, 4, 5, 6, 7, 8, 9, 10, 0.25, 12]}},
                    {"meta": {"name": "sc"}, "type": "ConstantScenario", "scenario_group": "g", "values": {"type": "Literal", "values": [1.0, 3.0]}},
                    {"meta": {"name": "supply"}, "type": "Aggregated", "phase": "Before", "agg_func": {"type": "Product"}, "metrics": [par("prof"), par("sc")]}],
                "metric_sets": [
                    {"name": "agg", "aggregator": json_agg(&a), "metrics": [nattr("in", "Outflow"), par("sc"), par("prof")]},
                    {"name": "raw", "metrics": [nattr("in", "Outflow"), par("sc"), par("prof")]}]}});
        let sink_v = match build(&d, None).and_then(|b| run_full(b, vec![])) {
            Ok(v) => v.0,
            Err(e) => return fail("agg", format!("{a:?} start {start} step {step}d n {n}: {}", e.text())),
        };
        // reshape
        for s in 0..nscen {
            let mut got: Vec<Vec<Pv>> = vec![vec![]; 3];
            let mut raw: Vec<Vec<Pv>> = vec![vec![]; 3];
            for row in &sink_v {
                for (set, dst) in [(0, &mut got), (1, &mut raw)] {
                    for r in &row[s][set] {
                        chk!(r.len() == 3, "agg", "set yields {} values", r.len());
                        for (m, x) in r.iter().enumerate() {
                            dst[m].push((secs(x.0), (x.1 * 86400.0).round() as i64, x.2));
                        }
                    }
                }
            }
            for m in 0..3 {
                chk!(raw[m].len() == n, "agg", "{} values recorded in {n} timesteps", raw[m].len());
                ch.state(&(m, s, got[m].len()));
                judge(ch, &a, &raw[m], &got[m], &format!("metric {m} scenario {s}"))?;
            }
        }
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------------------------
// C17

use pywr_core::models::{ModelBuilder, ModelDomain, ModelDomainBuilder};
use pywr_core::recorders::*;
use pywr_core::scenario::{ScenarioDomainBuilder, ScenarioGroupBuilder};
use pywr_core::solvers::MicroLpSolver;
use std::collections::BTreeMap;
use std::num::NonZeroU32;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

/// A directory that is removed with everything the check wrote to it.
pub struct Scratch(pub PathBuf);
static SCRATCH: AtomicU64 = AtomicU64::new(0);
impl Scratch {
    pub fn new() -> Self {
        let p = std::env::temp_dir().join(format!("pv-{}-{}", std::process::id(), SCRATCH.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// set, metric name, attribute, simulation, start (s)
type Key = (String, String, String, usize, i64);
/// label, end (s), value
type Cell = (String, i64, f64);
type Table = BTreeMap<Key, Vec<Cell>>;

fn layout(k: usize, time: pywr_core::timestep::TimeDomainBuilder) -> ModelDomain {
    let mut d = ModelDomainBuilder::new(time);
    let sb = ScenarioDomainBuilder::default();
    let g = |n: &str, k: usize| ScenarioGroupBuilder::new(n, k);
    d.scenario(match k {
        0 => sb,
        1 => sb.with_group(g("a", 2).build().unwrap()).unwrap(),
        2 => sb.with_group(g("a", 3).with_subset_indices(vec![0, 2]).build().unwrap()).unwrap(),
        3 => sb.with_group(g("a", 2).with_labels(&["x,1", "y"]).build().unwrap()).unwrap().with_group(g("b", 2).build().unwrap()).unwrap(),
        _ => sb
            .with_group(g("a", 4).with_labels(&["p", "q", "r", "s"]).with_subset_labels(&["q", "s"]).build().unwrap())
            .unwrap()
            .with_group(g("b", 3).with_subset_slice(1, 3).build().unwrap())
            .unwrap(),
    });
    d.build().unwrap()
}
fn parse_dt(s: &str) -> Result<i64, String> {
    s.parse::<DateTime>().map(secs).map_err(|e| format!("time stamp {s:?}: {e}"))
}
fn read_long(p: &Path) -> Result<Table, String> {
    let mut r = csv::ReaderBuilder::new().from_path(p).map_err(|e| e.to_string())?;
    let head: Vec<String> = r.headers().map_err(|e| e.to_string())?.iter().map(String::from).collect();
    let at = |n: &str| head.iter().position(|h| h == n);
    let mut t = Table::new();
    for rec in r.records() {
        let rec = rec.map_err(|e| e.to_string())?;
        let get = |n: &str| at(n).map(|i| rec[i].to_string()).ok_or(format!("no column {n}"));
        t.entry((get("metric_set")?, get("name")?, get("attribute")?, get("simulation_id")?.parse().map_err(|_| "bad simulation_id")?, parse_dt(&get("time_start")?)?))
            .or_default()
            .push((get("label")?, parse_dt(&get("time_end")?)?, get("value")?.parse().map_err(|_| "bad value")?));
    }
    Ok(t)
}
fn read_wide(p: &Path, set: &str) -> Result<Table, String> {
    let mut r = csv::ReaderBuilder::new().has_headers(false).from_path(p).map_err(|e| e.to_string())?;
    let rows: Vec<Vec<String>> = r.records().map(|x| x.map(|x| x.iter().map(String::from).collect())).collect::<Result<_, _>>().map_err(|e| e.to_string())?;
    let mut t = Table::new();
    if rows.len() < 4 {
        return Err(format!("{} rows", rows.len()));
    }
    for (i, h) in ["node", "attribute", "simulation_id", "label"].iter().enumerate() {
        if rows[i][0] != *h {
            return Err(format!("header row {i} is {:?}", rows[i][0]));
        }
    }
    for r in &rows[4..] {
        if r.len() != rows[0].len() {
            return Err("ragged row".into());
        }
        for c in 1..r.len() {
            let start = parse_dt(&r[0])?;
            t.entry((set.into(), rows[0][c].clone(), rows[1][c].clone(), rows[2][c].parse().map_err(|_| "bad simulation_id")?, start))
                .or_default()
                .push((rows[3][c].clone(), i64::MIN, r[c].parse().map_err(|_| "bad value")?));
        }
    }
    Ok(t)
}
fn read_memory(r: &dyn RecorderFinalResult) -> Result<Table, String> {
    let df = r.to_dataframe().map_err(|e| chain(&e))?;
    let s = |c: &str, i: usize| -> Result<String, String> { Ok(df.column(c).map_err(|e| e.to_string())?.str().map_err(|e| e.to_string())?.get(i).unwrap_or("").to_string()) };
    let mut t = Table::new();
    for i in 0..df.height() {
        let id = df.column("simulation_id").map_err(|e| e.to_string())?.u32().map_err(|e| e.to_string())?.get(i).unwrap() as usize;
        let v = df.column("value").map_err(|e| e.to_string())?.f64().map_err(|e| e.to_string())?.get(i).unwrap();
        t.entry((s("metric_set", i)?, s("name", i)?, s("attribute", i)?, id, parse_dt(&s("time_start", i)?)?)).or_default().push((s("label", i)?, parse_dt(&s("time_end", i)?)?, v));
    }
    Ok(t)
}
#[derive(hdf5_metno::H5Type, Copy, Clone, Debug)]
#[repr(C)]
struct H5Time {
    index: usize,
    year: i16,
    month: u8,
    day: u8,
    hour: u8,
    minute: u8,
    second: u8,
}
#[derive(hdf5_metno::H5Type, Clone, Debug)]
#[repr(C)]
struct H5Scen {
    index: usize,
    indices: hdf5_metno::types::VarLenArray<usize>,
    label: hdf5_metno::types::VarLenUnicode,
}
/// Dataset per metric, time table and scenario table of an HDF5 output.
fn read_hdf5(p: &Path, metrics: &[(String, String)], set: &str) -> Result<Table, String> {
    let e = |e: hdf5_metno::Error| e.to_string();
    let f = hdf5_metno::File::open(p).map_err(e)?;
    let time: Vec<H5Time> = f.dataset("time").map_err(e)?.read_raw().map_err(e)?;
    let scen: Vec<H5Scen> = f.dataset("scenarios/indices").map_err(e)?.read_raw().map_err(e)?;
    let mut t = Table::new();
    for (name, attr) in metrics {
        let ds = f.group(name).map_err(e)?.dataset(attr).map_err(e)?;
        let a = ds.read_2d::<f64>().map_err(e)?;
        if a.dim() != (time.len(), scen.len()) {
            return Err(format!("dataset {name}/{attr} has shape {:?}", a.dim()));
        }
        for (i, x) in time.iter().enumerate() {
            if x.index != i {
                return Err(format!("time row {i} has index {}", x.index));
            }
            let start = cal::ordinal(x.year as i64, x.month as i64, x.day as i64) * 86400 + x.hour as i64 * 3600 + x.minute as i64 * 60 + x.second as i64;
            for (j, sc) in scen.iter().enumerate() {
                t.entry((set.into(), name.clone(), attr.clone(), sc.index, start)).or_default().push((sc.label.to_string(), i64::MIN, a[(i, j)]));
            }
        }
    }
    Ok(t)
}
fn same_table(got: Result<Table, String>, want: &Table, end: bool, tol: f64, what: &str) -> Res {
    let got = match got {
        Ok(g) => g,
        Err(e) => return fail("out", format!("{what}: {e}")),
    };
    for (k, w) in want {
        let g = got.get(k).cloned().unwrap_or_default();
        chk!(g.len() == w.len(), "out", "{what}: {} values for {k:?} at {} instead of {}", g.len(), at_secs(k.4), w.len());
        for (g, w) in g.iter().zip(w) {
            chk!(g.0 == w.0, "out", "{what}: {k:?} labelled {:?} instead of {:?}", g.0, w.0);
            chk!(!end || g.1 == w.1, "out", "{what}: {k:?} ends at {} instead of {}", at_secs(g.1), at_secs(w.1));
            chk!((g.2 - w.2).abs() <= tol, "out", "{what}: {k:?} at {} holds {} instead of {}", at_secs(k.4), g.2, w.2);
        }
    }
    for k in got.keys() {
        chk!(want.contains_key(k), "out", "{what}: surplus entry {k:?} at {}", at_secs(k.4));
    }
    Ok(())
}
const NAMES: [(&str, &str); 4] = [("m,1 \"q\"", "value"), ("n2", "Inflow"), ("n2", "outflow"), ("é m", "value")];
fn datum(set: usize, m: usize, t: usize, s: usize) -> f64 {
    ((set * 1000 + m * 100 + t * 10 + s) as f64) * 1.06254321987 - 3.3
}

pub fn c17(cx: &Cx) {
    cx.assume("the values an aggregator yields are those of the metric set (they are the subject of C16)");
    cx.assume("metrics of one set have different names or attributes; metric names contain no '/'");
    cx.assume("the HDF5 output holds the values of every timestep, also for aggregated sets");
    cx.explore("formats", |ch| {
        let lay = ch.pick(5);
        let step_h = ch.of(&[24u64, 6, 7 * 24]);
        let nt = 1 + ch.pick(cx.b(4, 6));
        let start = ch.of(&[date(2020, 12, 30).at(0, 0, 0, 0), date(2021, 2, 27).at(18, 35, 20, 0)]);
        let time = time_hours(start, step_h, nt);
        let agg: Option<Agg> = ch.of(&[None, Some(vec![(Some(Freq::Month), Fun::Mean)]), Some(vec![(None, Fun::Sum)]), Some(vec![(Some(Freq::Year), Fun::Max), (Some(Freq::Days(2)), Fun::Mean)])]);
        let nm = ch.of(&[1usize, 0, 2, 4]);
        let dec = ch.of(&[None, Some(1u32), Some(3), Some(7)]);
        let order = ch.pick(3); // which sets the long output lists, and in which order
        let dom = layout(lay, time);
        let labels: Vec<String> = dom.scenarios().indices().iter().map(|i| i.label()).collect();
        let ns = labels.len();
        let dir = Scratch::new();
        let mut nb = trivial_network();
        // set 0: the set under test; set 1: another raw set with one metric
        let sets = ["first", "second set"];
        let mut metrics: Vec<Vec<(String, String)>> = vec![];
        for (k, set) in sets.iter().enumerate() {
            let mut ms = MetricSetBuilder::new(set);
            let mut l = vec![];
            for m in 0..(if k == 0 { nm } else { 1 }) {
                let pname = format!("p{k}{m}");
                f64p_gen(&mut nb, &pname, (0..ns).map(|s| (0..nt).map(|t| datum(k, m, t, s)).collect()).collect());
                let (n, a) = NAMES[(m + k) % 4];
                ms.metric(UnresolvedOutputMetric::new(n, a, "parameter", if m == 0 { None } else { Some("x") }, pm(&pname)));
                l.push((n.to_string(), a.to_string()));
            }
            if k == 0 {
                if let Some(a) = &agg {
                    ms.aggregator(core_agg(a));
                }
            }
            nb.metric_set(ms);
            metrics.push(l);
        }
        let sink: MsSink = Default::default();
        nb.recorder(Box::new(MsProbeBuilder(sink.clone())));
        let f = |n: &str| dir.0.join(n);
        nb.recorder(Box::new(MemoryRecorderBuilder::new("mem", sets[0], Aggregation::new(None, None, None), AggregationOrder::MetricTimeScenario)));
        nb.recorder(Box::new(CsvWideFmtOutputBuilder::new("wide", f("wide.csv"), sets[0])));
        let mut long = CsvLongFmtOutputBuilder::new("long", f("long.csv"), dec.and_then(NonZeroU32::new));
        let listed: Vec<usize> = [vec![0], vec![0, 1], vec![1, 0]][order].clone();
        for k in &listed {
            long.metric_set(sets[*k]);
        }
        nb.recorder(Box::new(long));
        // one process-wide lock guards the HDF5 library: once per combination is enough
        let hdf = order == 0 && dec.is_none();
        if hdf {
            nb.recorder(Box::new(HDF5RecorderBuilder::new("hdf", f("out.h5"), sets[0])));
        }
        ch.describe(|| format!("layout {lay} step {step_h}h nt {nt} start {start} agg {agg:?} metrics {nm} decimals {dec:?} order {order}"));
        let res = imp(|| {
            let model = ModelBuilder::new(dom, nb).build().map_err(|e| chain(&e))?;
            model.run::<MicroLpSolver>(&Default::default()).map_err(|e| chain(&e))
        });
        let res = match res {
            Ok(r) => r,
            Err(e) => return fail("out", format!("run failed: {}", e.text())),
        };
        // what the sets hold
        let rows = sink.lock().unwrap().clone();
        let mut want = [Table::new(), Table::new()];
        let mut raw = Table::new();
        let step = step_h as i64 * 3600;
        for s in 0..ns {
            for t in 0..nt {
                let b = secs(start) + step * t as i64;
                for k in 0..2 {
                    for (m, (n, a)) in metrics[k].iter().enumerate() {
                        let e = (labels[s].clone(), b + step, datum(k, m, t, s));
                        let key = (sets[k].to_string(), n.clone(), a.clone(), s, b);
                        if k == 0 {
                            raw.insert(key.clone(), vec![e.clone()]);
                        }
                        if k == 1 || agg.is_none() {
                            want[k].insert(key, vec![e]);
                        }
                    }
                }
            }
            if agg.is_some() {
                for r in &rows {
                    for r in &r[s][0] {
                        for (m, (n, a)) in metrics[0].iter().enumerate() {
                            let b = secs(r[m].0);
                            want[0].entry((sets[0].into(), n.clone(), a.clone(), s, b)).or_default().push((labels[s].clone(), b + (r[m].1 * 86400.0).round() as i64, r[m].2));
                        }
                    }
                }
            }
        }
        for (k, v) in &want[0] {
            ch.state(&(k, v[0].1, v[0].2.to_bits()));
        }
        // in memory
        let Some(mem) = res.network_result.get("mem") else { return fail("out", "the memory output has no result") };
        let mut got = read_memory(mem);
        if let Ok(t) = &mut got {
            if !t.is_empty() && t.keys().all(|k| k.0 == "mem") {
                ch.soft(fail("mem:metric-set-name", "the metric_set column of the in-memory data frame holds the name of the output"));
                *t = std::mem::take(t).into_iter().map(|(mut k, v)| {
                    k.0 = sets[0].into();
                    (k, v)
                }).collect();
            }
        }
        same_table(got, &want[0], true, 0.0, "memory data frame")?;
        same_table(read_wide(&f("wide.csv"), sets[0]), &want[0], false, 0.00501, "wide CSV")?;
        let mut both = Table::new();
        for k in &listed {
            both.extend(want[*k].clone());
        }
        let tol = dec.map(|d| 0.500001 * 10f64.powi(-(d as i32))).unwrap_or(0.0);
        if !both.is_empty() {
            same_table(read_long(&f("long.csv")), &both, true, tol, "long CSV")?;
        }
        if hdf {
            same_table(read_hdf5(&f("out.h5"), &metrics[0], sets[0]), &raw, false, 0.0, "HDF5")?;
        }
        if dec.is_some_and(|d| d < 7) && order == 0 {
            // rounding is to the requested number of places
            for (k, v) in read_long(&f("long.csv")).unwrap_or_default() {
                let x = v[0].2 * 10f64.powi(dec.unwrap() as i32);
                chk!((x - x.round()).abs() < 1e-6, "out", "long CSV: {k:?} holds {} with {dec:?} decimal places", v[0].2);
            }
        }
        Ok(())
    });
    // in-memory summary: every combination of functions and orders over every assignment of values
    cx.explore("summary", |ch| {
        let (ns, nt, nm) = ch.of(&cx.b(vec![(1usize, 1usize, 1usize), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (1, 2, 2), (2, 1, 2), (2, 2, 2), (1, 3, 1), (3, 1, 1), (1, 1, 3)], vec![(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (1, 2, 2), (2, 1, 2), (2, 2, 2), (1, 3, 1), (3, 1, 1), (1, 1, 3), (3, 2, 1), (2, 3, 1), (1, 3, 2), (1, 2, 3), (3, 3, 1)]));
        let cells = ns * nt * nm;
        let words = ch.seq(&if cells > 6 { vec![0.0, 2.0] } else { vec![0.0, 2.0, -1.0] }, cells);
        let v = |m: usize, t: usize, s: usize| words[(s * nt + t) * nm + m];
        // unequal periods make the time mean weighted: with a year aggregation of the steps
        let uneven = nt > 1 && ch.flag();
        let start = if uneven { date(2020, 12, 20).at(0, 0, 0, 0) } else { dt0() };
        // uneven: 20 day steps yearly aggregated would merge; use monthly sums over 20 day steps instead
        let dom = {
            let t = time_days(start, if uneven { 40 } else { 1 }, nt);
            if ns > 1 { domain_scen(t, &[("g", ns)]) } else { domain(t) }
        };
        let mut nb = trivial_network();
        let mut ms = MetricSetBuilder::new("set");
        for m in 0..nm {
            let n = format!("p{m}");
            f64p_gen(&mut nb, &n, (0..ns).map(|s| (0..nt).map(|t| v(m, t, s)).collect()).collect());
            ms.metric(UnresolvedOutputMetric::new(&n, "value", "parameter", None, pm(&n)));
        }
        if uneven {
            ms.aggregator(core_agg(&[(Some(Freq::Month), Fun::Sum)]));
        }
        nb.metric_set(ms);
        let sink: MsSink = Default::default();
        nb.recorder(Box::new(MsProbeBuilder(sink.clone())));
        let mut opts: Vec<Option<Fun>> = vec![None];
        opts.extend(FUNS.iter().map(|f| Some(*f)));
        let mut list = vec![];
        for order in 0..2 {
            for sc in &opts {
                for tf in &opts {
                    for mf in &opts {
                        list.push((order, *sc, *tf, *mf));
                    }
                }
            }
        }
        for (i, (order, sc, tf, mf)) in list.iter().enumerate() {
            let a = Aggregation::new(sc.map(core_fun), tf.map(core_fun), mf.map(core_fun));
            nb.recorder(Box::new(MemoryRecorderBuilder::new(&format!("r{i}"), "set", a, [AggregationOrder::MetricTimeScenario, AggregationOrder::TimeMetricScenario][*order])));
        }
        ch.describe(|| format!("{ns} scenarios, {nt} steps, {nm} metrics, uneven {uneven}: {words:?}"));
        let res = imp(|| {
            let model = ModelBuilder::new(dom, nb).build().map_err(|e| chain(&e))?;
            model.run::<MicroLpSolver>(&Default::default()).map_err(|e| chain(&e))
        });
        let res = match res {
            Ok(r) => r,
            Err(e) => return fail("sum", format!("run failed: {}", e.text())),
        };
        let rows = sink.lock().unwrap().clone();
        // data[scenario][time][metric] = (duration, value)
        let data: Vec<Vec<Vec<(f64, f64)>>> = (0..ns).map(|s| rows.iter().filter_map(|r| r[s][0].clone()).map(|r| r.iter().map(|x| (x.1, x.2)).collect()).collect()).collect();
        if !uneven {
            for s in 0..ns {
                chk!(data[s].len() == nt, "sum", "{} rows", data[s].len());
                for t in 0..nt {
                    for m in 0..nm {
                        chk!(data[s][t][m] == (1.0, v(m, t, s)), "sum", "set holds {:?}", data[s][t][m]);
                    }
                }
            }
        }
        // a single value needs no function
        let fun = |f: Option<Fun>, x: &[(f64, f64)]| -> Option<f64> { if x.len() == 1 { Some(x[0].0) } else { apply(f?, x) } };
        for (i, (order, sc, tf, mf)) in list.iter().enumerate() {
            let per: Option<Vec<f64>> = data
                .iter()
                .map(|d| {
                    if *order == 0 {
                        let ts: Option<Vec<(f64, f64)>> = d.iter().map(|row| fun(*mf, &row.iter().map(|x| (x.1, 1.0)).collect::<Vec<_>>()).map(|v| (v, row[0].0))).collect();
                        fun(*tf, &ts?)
                    } else {
                        let per: Option<Vec<(f64, f64)>> = (0..nm).map(|m| fun(*tf, &d.iter().map(|row| (row[m].1, row[m].0)).collect::<Vec<_>>()).map(|v| (v, 1.0))).collect();
                        fun(*mf, &per?)
                    }
                })
                .collect();
            let want = per.and_then(|p| fun(*sc, &p.iter().map(|v| (*v, 1.0)).collect::<Vec<_>>()));
            let got = imp(|| Ok::<_, String>(res.network_result.get_aggregated_value(&format!("r{i}"))));
            let got = match got {
                Ok(g) => g,
                Err(e) => return fail("sum", format!("order {order} scenario {sc:?} time {tf:?} metric {mf:?}: {}", e.text())),
            };
            ch.transitions += 1;
            chk!(
                match (got, want) {
                    (Some(g), Some(w)) => close(g, w),
                    (None, None) => true,
                    _ => false,
                },
                "sum",
                "order {order} scenario {sc:?} time {tf:?} metric {mf:?} over {data:?}: {got:?} instead of {want:?}"
            );
        }
        ch.state(&(ns, nt, nm, uneven, words.iter().map(|w| w.to_bits()).collect::<Vec<_>>()));
        Ok(())
    });
    // the same through the schema: which function applies to which dimension, and which outputs are written
    cx.explore("schema", |ch| {
        let time_f = ch.of(&[None, Some("Sum"), Some("Max")]);
        let scen_f = ch.of(&[None, Some("Min"), Some("Product"), Some("Mean")]);
        let met_f = ch.of(&[None, Some("Mean"), Some("CountNonZero"), Some("Min")]);
        let order = ch.of(&[None, Some("MetricTimeScenario"), Some("TimeMetricScenario")]);
        let fmt = ch.of(&["Wide", "Long"]);
        let sets_as_list = ch.flag();
        let dec = ch.of(&[None, Some(0u32), Some(2)]);
        let mut agg = json!({});
        for (k, f) in [("time", time_f), ("scenario", scen_f), ("metric", met_f)] {
            if let Some(f) = f {
                agg[k] = json!({"type": f});
            }
        }
        let mut mem = json!({"name": "mem", "type": "Memory", "metric_set": "set", "aggregation": agg});
        if let Some(o) = order {
            mem["order"] = json!(o);
        }
        let mut out = json!({"name": "file", "type": "CSV", "filename": "file.csv", "format": fmt, "metric_set": if fmt == "Long" && sets_as_list { json!(["set", "other"]) } else { json!("set") }});
        if let Some(d) = dec {
            out["decimal_places"] = json!(d);
        }
        let d = json!({"metadata": {"title": "t"},
            "time": time_json("2021-01-31", "2021-02-02", json!({"type": "Days", "days": 1})),
            "scenarios": {"groups": [{"name": "g", "size": 2}]},
            "network": {
                "nodes": [{"meta": {"name": "in"}, "type": "Input", "max_flow": par("supply")}, {"meta": {"name": "out"}, "type": "Output", "max_flow": lit(100.0), "cost": lit(-1.0)}],
                "edges": [{"from_node": "in", "to_node": "out"}],
                "parameters": [
                    {"meta": {"name": "prof"}, "type": "MonthlyProfile", "values": {"type": "Literal", "values": [2, 5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]}},
                    {"meta": {"name": "sc"}, "type": "ConstantScenario", "scenario_group": "g", "values": {"type": "Literal", "values": [1.0, 3.125]}},
                    {"meta": {"name": "supply"}, "type": "Aggregated", "phase": "Before", "agg_func": {"type": "Product"}, "metrics": [par("prof"), par("sc")]}],
                "metric_sets": [{"name": "set", "metrics": [nattr("in", "Outflow"), par("sc")]}, {"name": "other", "metrics": [par("prof")]}],
                "outputs": [mem, out, {"name": "h5", "type": "HDF5", "filename": "out.h5", "metric_set": "set"}]}});
        let dir = Scratch::new();
        let res = parse(&d).and_then(|s| build_schema(&s, None, Some(&dir.0))).and_then(|mb| {
            imp(|| {
                let model = mb.build().map_err(|e| chain(&e))?;
                model.run::<MicroLpSolver>(&Default::default()).map_err(|e| chain(&e))
            })
        });
        ch.describe(|| format!("time {time_f:?} scenario {scen_f:?} metric {met_f:?} order {order:?} {fmt} list {sets_as_list} decimals {dec:?}"));
        let res = match res {
            Ok(r) => r,
            Err(e) => return fail("out", format!("failed: {}", e.text())),
        };
        let prof = [2.0, 5.0, 5.0];
        let sc = [1.0, 3.125];
        let fun = |f: Option<&str>, x: &[f64]| -> Option<f64> {
            if x.len() == 1 {
                return Some(x[0]);
            }
            Some(match f? {
                "Sum" => x.iter().sum(),
                "Max" => x.iter().cloned().fold(f64::MIN, f64::max),
                "Min" => x.iter().cloned().fold(f64::MAX, f64::min),
                "Product" => x.iter().product(),
                "Mean" => x.iter().sum::<f64>() / x.len() as f64,
                _ => x.iter().filter(|v| **v != 0.0).count() as f64,
            })
        };
        let per: Option<Vec<f64>> = (0..2)
            .map(|s| {
                if order == Some("TimeMetricScenario") {
                    let a = fun(time_f, &prof.iter().map(|p| p * sc[s]).collect::<Vec<_>>())?;
                    let b = fun(time_f, &[sc[s]; 3])?;
                    fun(met_f, &[a, b])
                } else {
                    let ts: Option<Vec<f64>> = prof.iter().map(|p| fun(met_f, &[p * sc[s], sc[s]])).collect();
                    fun(time_f, &ts?)
                }
            })
            .collect();
        let want = per.and_then(|p| fun(scen_f, &p));
        let got = res.network_result.get_aggregated_value("mem");
        ch.state(&(got.map(|g| g.to_bits()), fmt, dec));
        chk!(
            match (got, want) {
                (Some(g), Some(w)) => close(g, w),
                (None, None) => true,
                _ => false,
            },
            "sum",
            "memory aggregation: {got:?} instead of {want:?}"
        );
        let mut t = Table::new();
        for s in 0..2usize {
            for k in 0..3usize {
                let b = (cal::ordinal(2021, 1, 31) + k as i64) * 86400;
                let mut add = |set: &str, n: &str, a: &str, v: f64| {
                    t.insert((set.into(), n.into(), a.into(), s, b), vec![(s.to_string(), b + 86400, v)]);
                };
                add("set", "in", "Outflow", prof[k] * sc[s]);
                add("set", "sc", "before", sc[s]);
                if fmt == "Long" && sets_as_list {
                    add("other", "prof", "before", prof[k]);
                }
            }
        }
        let tol = match dec {
            Some(2) if fmt == "Long" => 0.00500001,
            _ if fmt == "Wide" => 0.00500001,
            Some(0) => 0.5,
            _ => 1e-9,
        };
        let p = dir.0.join("file.csv");
        if fmt == "Long" {
            same_table(read_long(&p), &t, true, tol, "schema long CSV")?;
        } else {
            same_table(read_wide(&p, "set"), &t, false, tol, "schema wide CSV")?;
        }
        let t: Table = t.into_iter().filter(|(k, _)| k.0 == "set").collect();
        same_table(read_hdf5(&dir.0.join("out.h5"), &[("in".into(), "Outflow".into()), ("sc".into(), "before".into())], "set"), &t, false, 1e-9, "schema HDF5")
    });
}
fn f64p_gen(nb: &mut pywr_core::network::NetworkBuilder, name: &str, v: Vec<Vec<f64>>) {
    nb.parameters().f64(Box::new(GenSeriesBuilder::new(name, v)));
}
