//! C08 time domain, C09 scenario domain.
use crate::core::*;
use crate::harness::*;
use jiff::civil::{DateTime, date};
use pywr_core::scenario::*;
use pywr_core::solvers::MicroLpSolver;
use pywr_core::timestep::*;
use std::num::NonZeroU64;

/// Proleptic Gregorian calendar, by definition (independent of jiff).
pub mod cal {
    pub fn leap(y: i64) -> bool {
        y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
    }
    pub fn mdays(y: i64, m: i64) -> i64 {
        [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][(m - 1) as usize]
    }
    /// Days since 0001-01-01.
    pub fn ordinal(y: i64, m: i64, d: i64) -> i64 {
        let p = y - 1;
        let mut n = p * 365 + p / 4 - p / 100 + p / 400;
        for k in 1..m {
            n += mdays(y, k);
        }
        n + d - 1
    }
    pub fn from_ordinal(n: i64) -> (i64, i64, i64) {
        let mut y = n / 366 + 1;
        while ordinal(y + 1, 1, 1) <= n {
            y += 1;
        }
        let mut r = n - ordinal(y, 1, 1);
        let mut m = 1;
        while r >= mdays(y, m) {
            r -= mdays(y, m);
            m += 1;
        }
        (y, m, r + 1)
    }
    pub fn doy(y: i64, m: i64, d: i64) -> i64 {
        ordinal(y, m, d) - ordinal(y, 1, 1) + 1
    }
    /// Monday is 0.
    pub fn weekday(y: i64, m: i64, d: i64) -> i64 {
        // 0001-01-01 was a Monday
        ordinal(y, m, d) % 7
    }
    pub fn add_months(y: i64, m: i64, d: i64, k: i64) -> (i64, i64, i64) {
        let n = y * 12 + (m - 1) + k;
        let (y, m) = (n.div_euclid(12), n.rem_euclid(12) + 1);
        (y, m, d.min(mdays(y, m)))
    }
}

/// Seconds since 0001-01-01T00:00.
pub fn secs(t: DateTime) -> i64 {
    cal::ordinal(t.year() as i64, t.month() as i64, t.day() as i64) * 86400 + t.hour() as i64 * 3600 + t.minute() as i64 * 60 + t.second() as i64
}
pub fn at_secs(s: i64) -> DateTime {
    let (y, m, d) = cal::from_ordinal(s.div_euclid(86400));
    let r = s.rem_euclid(86400);
    date(y as i16, m as i8, d as i8).at((r / 3600) as i8, (r / 60 % 60) as i8, (r % 60) as i8, 0)
}

/// Compare a built domain with the expected step starts (one more than there are steps).
fn compare(ch: &mut Ch, d: &TimeDomain, starts: &[i64], what: &str) -> Res {
    let n = starts.len() - 1;
    chk!(d.len() == n, "time:count", "{what}: {} timesteps, expected {n}", d.len());
    chk!(d.timesteps().len() == n && !d.is_empty(), "time:count", "{what}: timesteps() has {} entries, expected {n}", d.timesteps().len());
    for (i, t) in d.timesteps().iter().enumerate() {
        chk!(t.index == i, "time:index", "{what}: timestep {i} has index {}", t.index);
        chk!(t.is_first() == (i == 0), "time:index", "{what}: timestep {i} is_first {}", t.is_first());
        chk!(t.date == at_secs(starts[i]), "time:start", "{what}: timestep {i} starts {} expected {}", t.date, at_secs(starts[i]));
        let want = starts[i + 1] - starts[i];
        chk!(t.duration.milliseconds() == want * 1000, "time:duration", "{what}: timestep {i} lasts {} ms expected {} s", t.duration.milliseconds(), want);
        chk!(close(t.days(), want as f64 / 86400.0), "time:duration", "{what}: timestep {i} days() {} expected {}", t.days(), want as f64 / 86400.0);
        ch.state(&(starts[i], want, i));
    }
    chk!(d.first_timestep().index == 0 && d.last_timestep().index == n - 1, "time:ends", "{what}: first/last timestep wrong");
    let uni = (1..n).all(|i| starts[i + 1] - starts[i] == starts[1] - starts[0]);
    let f = d.fixed_step_duration();
    chk!(f.is_some() == uni, "time:fixed", "{what}: fixed_step_duration {f:?}, uniform {uni}");
    if let Some(f) = f {
        chk!(f.milliseconds() == (starts[1] - starts[0]) * 1000, "time:fixed", "{what}: fixed_step_duration {f:?}");
    }
    ch.out(&(n, starts[n] - starts[0], uni));
    Ok(())
}

fn starts_menu() -> Vec<DateTime> {
    vec![
        date(2021, 1, 1).at(0, 0, 0, 0),
        date(2020, 2, 28).at(0, 0, 0, 0),
        date(2019, 12, 31).at(18, 30, 15, 0),
        date(2100, 2, 27).at(6, 0, 0, 0),
        date(2000, 2, 29).at(23, 59, 59, 0),
        date(1900, 1, 31).at(0, 0, 0, 0),
        date(1999, 8, 30).at(12, 0, 0, 0),
        date(1969, 12, 30).at(1, 0, 0, 0),
    ]
}

fn expect_fixed(start: i64, end: i64, step: i64) -> Vec<i64> {
    let mut v = vec![start];
    while *v.last().unwrap() <= end {
        let n = start + v.len() as i64 * step;
        v.push(n);
    }
    v
}

pub fn c08(cx: &Cx) {
    cx.assume("the configured start, end and step are representable (years 1 to 9999)");
    let menu = starts_menu();
    let steps_d: Vec<u64> = cx.b(vec![1, 2, 3, 7, 28, 30, 31, 365, 366], (1..=40).chain([59, 60, 61, 90, 100, 364, 365, 366, 367, 730, 731, 1461]).collect());
    let steps_h: Vec<u64> = cx.b(vec![1, 2, 3, 5, 6, 12, 23, 24, 25, 36, 48, 167], (1..=50).chain([71, 72, 73, 167, 168, 169, 719, 720, 8759, 8760, 8784]).collect());
    // end as (number of whole steps after start, offset in seconds)
    let ends: Vec<i64> = cx.b(vec![-1, 0, 1, 2, 5, 13], vec![-2, -1, 0, 1, 2, 3, 4, 5, 7, 13, 29, 61]);
    let offs: Vec<i64> = vec![0, 1, -1, 3600, -3600, 43200, 86399, -86399];
    cx.explore("fixed", |ch| {
        let start = ch.of(&menu);
        let hours = ch.flag();
        let n = ch.of(if hours { &steps_h } else { &steps_d });
        let step = n as i64 * if hours { 3600 } else { 86400 };
        let k = ch.of(&ends);
        let off = ch.of(&offs);
        let end = secs(start) + k * step + off;
        let dur = if hours { TimestepDuration::Hours(NonZeroU64::new(n).unwrap()) } else { TimestepDuration::Days(NonZeroU64::new(n).unwrap()) };
        ch.describe(|| format!("start {start} end {} step {dur:?}", at_secs(end)));
        let r = imp(|| TimeDomainBuilder::new(start, at_secs(end), dur.clone()).build());
        if end < secs(start) {
            chk!(matches!(r, Err(ImpErr::Err(_))), "time:empty", "a period ending before it starts gave {:?}", r.map(|d| d.len()).map_err(|e| e.text()));
            ch.state(&(start.to_string(), end, n, "err"));
            return Ok(());
        }
        let d = match r {
            Ok(d) => d,
            Err(e) => return fail("time:build", format!("valid time domain rejected: {}", e.text())),
        };
        compare(ch, &d, &expect_fixed(secs(start), end, step), "fixed")
    });
    // frequencies
    let units: &[(&str, i64, i64, i64)] = &[
        // text, months, days, seconds
        ("1h", 0, 0, 3600),
        ("6h", 0, 0, 21600),
        ("36h", 0, 0, 129600),
        ("90m", 0, 0, 5400),
        ("1d", 0, 1, 0),
        ("2d", 0, 2, 0),
        ("7d", 0, 7, 0),
        ("10d", 0, 10, 0),
        ("1w", 0, 7, 0),
        ("2w", 0, 14, 0),
        ("1mo", 1, 0, 0),
        ("2mo", 2, 0, 0),
        ("1q", 3, 0, 0),
        ("1y", 12, 0, 0),
        ("4y", 48, 0, 0),
        ("1d12h", 0, 1, 43200),
        ("1w1d", 0, 8, 0),
        ("1mo1d", 1, 1, 0),
        ("1mo1w2d6h", 1, 9, 21600),
        ("1y1mo", 13, 0, 0),
        ("3600s", 0, 0, 3600),
        ("24h", 0, 0, 86400),
        ("1d1h30m10s", 0, 1, 5410),
    ];
    let mut menu2 = menu.clone();
    for (y, m, d) in [(2020, 1, 31), (2021, 1, 31), (2019, 1, 29), (2020, 1, 30), (2020, 2, 29), (2023, 3, 31), (2023, 12, 31), (2021, 10, 31), (1999, 11, 30)] {
        menu2.push(date(y, m, d).at(0, 0, 0, 0));
    }
    if cx.thorough {
        for d in 1..=28 {
            menu2.push(date(2023, 12, d).at(d % 24, 0, 0, 0));
            menu2.push(date(2024, 2, d).at(0, d, 0, 0));
        }
    }
    cx.explore("frequency", |ch| {
        let start = ch.of(&menu2);
        let (f, mo, d, s) = ch.of(units);
        let k = ch.of(&ends);
        let off = ch.of(&offs);
        let s0 = secs(start);
        let nth = |i: i64| {
            let (y, m, dd) = cal::from_ordinal(s0.div_euclid(86400));
            let (y, m, dd) = cal::add_months(y, m, dd, mo * i);
            (cal::ordinal(y, m, dd) + d * i) * 86400 + s0.rem_euclid(86400) + s * i
        };
        let end = nth(k) + off;
        ch.describe(|| format!("start {start} end {} frequency {f}", at_secs(end)));
        let r = imp(|| TimeDomainBuilder::new(start, at_secs(end), TimestepDuration::Frequency(f.into())).build());
        if end < s0 {
            chk!(matches!(r, Err(ImpErr::Err(_))), "time:empty", "a period ending before it starts gave {:?}", r.map(|d| d.len()).map_err(|e| e.text()));
            return Ok(());
        }
        let mut v = vec![s0];
        while *v.last().unwrap() <= end {
            v.push(nth(v.len() as i64));
        }
        match r {
            Ok(dm) => compare(ch, &dm, &v, f),
            Err(e) => fail("time:build", format!("valid time domain rejected: {}", e.text())),
        }
    });
    let bad = ["", "d", "abc", "0d", "0h0m", "-1d", "-1mo", "1x", "1.5d", "1 d", "d1", "1", "1d-1h", "+-1d", "0mo", "1day", "P1D", "1D"];
    cx.explore("bad frequency", |ch| {
        let f = ch.of(&bad);
        let start = ch.of(&menu);
        ch.describe(|| format!("start {start} frequency {f:?}"));
        let r = imp(|| TimeDomainBuilder::new(start, start, TimestepDuration::Frequency(f.into())).build());
        ch.state(&(f, start.to_string()));
        match r {
            Err(ImpErr::Err(_)) => Ok(()),
            Err(e) => fail("time:bad-frequency-panic", format!("frequency {f:?} crashed: {}", e.text())),
            Ok(d) => fail("time:bad-frequency", format!("frequency {f:?} accepted with {} steps", d.len())),
        }
    });
    // calendar lookups: every day of a whole 400-year cycle
    cx.explore("calendar", |ch| {
        let y = 1880 + ch.pick(400) as i64;
        ch.describe(|| format!("year {y}"));
        let mut n = 0;
        for m in 1..=12 {
            for d in 1..=cal::mdays(y, m) {
                n += 1;
                for (h, mi, s) in [(0, 0, 0), (0, 0, 1), (6, 0, 0), (11, 59, 59), (12, 0, 0), (23, 59, 59)] {
                    let t = Timestep::new(date(y as i16, m as i8, d as i8).at(h, mi, s, 0), 3, PywrDuration::from_days(1));
                    chk!(t.day_of_year() == n, "cal:doy", "{}: day of year {} expected {n}", t.date, t.day_of_year());
                    let idx = n as i64 - 1 + i64::from(!cal::leap(y) && m > 2);
                    chk!(t.day_of_year_index() as i64 == idx, "cal:index", "{}: index {} expected {idx}", t.date, t.day_of_year_index());
                    let fr = idx as f64 + (h as f64 * 3600.0 + mi as f64 * 60.0 + s as f64) / 86400.0;
                    chk!((t.fractional_day_of_year() - fr).abs() < 1e-9, "cal:fraction", "{}: fractional {} expected {fr}", t.date, t.fractional_day_of_year());
                    chk!(t.is_leap_year() == cal::leap(y), "cal:leap", "{}: leap {}", t.date, t.is_leap_year());
                    chk!(secs(t.date + jiff::SignedDuration::from_secs(1)) == secs(t.date) + 1, "harness", "calendar oracle");
                    ch.transitions += 1;
                }
                ch.states.push(hash_of(&(y, m, d)));
            }
        }
        ch.out(&n);
        Ok(())
    });
    // durations
    cx.explore("durations", |ch| {
        let parts = [(86400_000i64, "d"), (3600_000, "h"), (60_000, "m"), (1000, "s"), (1, "ms")];
        let vals: [&[i64]; 5] = [&[0, 1, 2, 31, 400], &[0, 1, 23], &[0, 1, 59], &[0, 1, 59], &[0, 1, 999]];
        let mut ms = 0;
        let mut txt = String::new();
        for (i, (k, u)) in parts.iter().enumerate() {
            let v = ch.of(vals[i]);
            ms += v * k;
            if v > 0 {
                txt += &format!("{v}{u}");
            }
        }
        if ms == 0 {
            return ch.skip();
        }
        ch.describe(|| txt.clone());
        let p: PywrDuration = jiff::SignedDuration::from_millis(ms).into();
        chk!(p.milliseconds() == ms, "dur:ms", "{txt}: {} ms", p.milliseconds());
        chk!(p.duration_string() == txt, "dur:text", "{ms} ms is written {:?}, expected {txt:?}", p.duration_string());
        chk!(p.whole_days() == if ms % 86400_000 == 0 { Some(ms / 86400_000) } else { None }, "dur:whole", "{txt}: whole days {:?}", p.whole_days());
        chk!(close(p.fractional_days(), ms as f64 / 86400_000.0), "dur:days", "{txt}: days {}", p.fractional_days());
        ch.state(&ms);
        ch.out(&ms);
        // a duration string used as a frequency yields steps of this duration
        let start = date(2020, 2, 28).at(0, 0, 0, 0);
        let end = start.checked_add(jiff::SignedDuration::from_millis(ms)).unwrap();
        let d = match imp(|| TimeDomainBuilder::new(start, end, TimestepDuration::Frequency(txt.clone())).build()) {
            Ok(d) => d,
            Err(e) => return fail("dur:frequency", format!("{txt}: {}", e.text())),
        };
        chk!(d.len() == 2 && d.timesteps()[1].date == end, "dur:frequency", "{txt}: steps {:?}", d.timesteps().iter().map(|t| t.date).collect::<Vec<_>>());
        Ok(())
    });
    // a model visits every timestep exactly once and then stops; a schema document gives the same domain
    let run_steps: Vec<(&str, serde_json::Value)> = vec![
        ("days1", serde_json::json!({"type": "Days", "days": 1})),
        ("days3", serde_json::json!({"type": "Days", "days": 3})),
        ("hours6", serde_json::json!({"type": "Hours", "hours": 6})),
        ("hours36", serde_json::json!({"type": "Hours", "hours": 36})),
        ("1w", serde_json::json!({"type": "Frequency", "freq": "1w"})),
        ("1mo", serde_json::json!({"type": "Frequency", "freq": "1mo"})),
    ];
    cx.explore("run", |ch| {
        let start = ch.of(&menu2);
        let (name, ts) = ch.of(&run_steps);
        let len = ch.of(&[0i64, 1, 2, 10, 40]);
        let end = secs(start) + len * 86400;
        ch.describe(|| format!("start {start} end {} step {name}", at_secs(end)));
        let j = serde_json::json!({"start": start.to_string(), "end": at_secs(end).to_string(), "timestep": ts});
        let td: pywr_schema::model::TimeDomain = match serde_json::from_value(j.clone()) {
            Ok(t) => t,
            Err(e) => return fail("time:schema", format!("{j}: {e}")),
        };
        let b: TimeDomainBuilder = td.into();
        let s0 = secs(start);
        let v: Vec<i64> = match name {
            "days1" => expect_fixed(s0, end, 86400),
            "days3" => expect_fixed(s0, end, 3 * 86400),
            "hours6" => expect_fixed(s0, end, 6 * 3600),
            "hours36" => expect_fixed(s0, end, 36 * 3600),
            "1w" => expect_fixed(s0, end, 7 * 86400),
            _ => {
                let mut v = vec![s0];
                while *v.last().unwrap() <= end {
                    let (y, m, d) = cal::from_ordinal(s0.div_euclid(86400));
                    let (y, m, d) = cal::add_months(y, m, d, v.len() as i64);
                    v.push(cal::ordinal(y, m, d) * 86400 + s0.rem_euclid(86400));
                }
                v
            }
        };
        let dom = match imp(|| b.build()) {
            Ok(d) => d,
            Err(e) => return fail("time:build", e.text()),
        };
        compare(ch, &dom, &v, name)?;
        let seen: std::sync::Arc<std::sync::Mutex<Vec<(usize, DateTime, f64)>>> = Default::default();
        let mut nb = trivial_network();
        nb.recorder(Box::new(StepLogBuilder(seen.clone())));
        let mut r = match Run::<MicroLpSolver>::build(pywr_core::models::ModelBuilder::new(domain(b), nb)) {
            Ok(r) => r,
            Err(e) => return fail("time:run", e.text()),
        };
        for i in 0..dom.len() {
            if let Err(e) = r.step() {
                return fail("time:run", format!("step {i} of {} failed: {}", dom.len(), e.text()));
            }
            let s = seen.lock().unwrap();
            chk!(s.len() == i + 1 && s[i] == (i, at_secs(v[i]), (v[i + 1] - v[i]) as f64 / 86400.0), "time:visit", "after {} steps the model had visited {:?}", i + 1, s);
        }
        chk!(matches!(r.step(), Err(ImpErr::Err(_))), "time:end", "a step after the last timestep did not return an error");
        chk!(seen.lock().unwrap().len() == dom.len(), "time:visit", "a step after the end was recorded");
        Ok(())
    });
}

use pywr_core::metric::MetricF64;
use pywr_core::network::{Network, ResolutionMaps};
use pywr_core::recorders::*;
use pywr_core::state::State;
type StepLog = std::sync::Arc<std::sync::Mutex<Vec<(usize, DateTime, f64)>>>;
#[derive(Debug)]
struct StepLogBuilder(StepLog);
#[derive(Debug)]
struct StepLogRec(RecorderMeta, StepLog);
impl Recorder for StepLogRec {
    fn meta(&self) -> &RecorderMeta {
        &self.0
    }
    fn save(&self, t: &Timestep, _s: &[ScenarioIndex], _m: &Network, _st: &[State], _ms: &[Vec<MetricSetState>], _i: &mut Option<Box<dyn RecorderInternalState>>) -> Result<(), RecorderSaveError> {
        self.1.lock().unwrap().push((t.index, t.date, t.days()));
        Ok(())
    }
}
impl RecorderBuilder for StepLogBuilder {
    fn name(&self) -> &str {
        "steplog"
    }
    fn build(self: Box<Self>, _m: &ResolutionMaps) -> Result<Box<dyn Recorder>, RecorderBuilderError> {
        let _: Option<MetricF64> = None;
        Ok(Box::new(StepLogRec(RecorderMeta { name: "steplog".into(), comment: String::new() }, self.0)))
    }
}

// ------------------------------------------------------------------------------------------ C09

#[derive(Clone, Debug)]
enum Sub {
    None,
    Slice(usize, usize),
    Idx(Vec<usize>),
    Lab(Vec<String>),
}
#[derive(Clone, Debug)]
struct Grp {
    size: usize,
    labels: Option<Vec<String>>,
    sub: Sub,
}
fn lab(g: usize, i: usize) -> String {
    // labels that differ in case only are different labels
    let base = ["Wet", "dry Year", "z"][g];
    match i {
        0 => base.to_string(),
        1 => base.to_uppercase(),
        _ => format!("{base}{i}"),
    }
}
impl Grp {
    fn valid(&self) -> bool {
        if self.size == 0 {
            return false;
        }
        if let Some(l) = &self.labels {
            if l.len() != self.size {
                return false;
            }
        }
        match &self.sub {
            Sub::None => true,
            Sub::Slice(a, b) => a < b && *b <= self.size,
            Sub::Idx(v) => v.iter().all(|i| *i < self.size),
            Sub::Lab(v) => self.labels.as_ref().is_some_and(|l| v.iter().all(|x| l.contains(x))),
        }
    }
    /// Positions in the full group, in simulation order.
    fn members(&self) -> Vec<usize> {
        match &self.sub {
            Sub::None => (0..self.size).collect(),
            Sub::Slice(a, b) => (*a..*b).collect(),
            Sub::Idx(v) => v.clone(),
            Sub::Lab(v) => v.iter().map(|x| self.labels.as_ref().unwrap().iter().position(|l| l == x).unwrap()).collect(),
        }
    }
    fn label(&self, i: usize) -> String {
        self.labels.as_ref().map_or(i.to_string(), |l| l[i].clone())
    }
    fn json(&self, g: usize) -> serde_json::Value {
        let mut j = serde_json::json!({"name": format!("g{g}"), "size": self.size});
        if let Some(l) = &self.labels {
            j["labels"] = serde_json::json!(l);
        }
        match &self.sub {
            Sub::None => {}
            Sub::Slice(a, b) => j["subset"] = serde_json::json!({"type": "Slice", "start": a, "end": b}),
            Sub::Idx(v) => j["subset"] = serde_json::json!({"type": "Indices", "indices": v}),
            Sub::Lab(v) => j["subset"] = serde_json::json!({"type": "Labels", "labels": v}),
        }
        j
    }
}
#[derive(Clone, Debug)]
enum Ent {
    I(usize),
    L(String),
}

fn build(groups: &[Grp], combos: Option<&Vec<Vec<Ent>>>, dup: bool) -> Result<ScenarioDomain, ImpErr> {
    imp(|| {
        let mut b = ScenarioDomainBuilder::default();
        for (i, g) in groups.iter().enumerate() {
            let mut gb = ScenarioGroupBuilder::new(&if dup { "g".to_string() } else { format!("g{i}") }, g.size);
            if let Some(l) = &g.labels {
                gb = gb.with_labels(l);
            }
            gb = match &g.sub {
                Sub::None => gb,
                Sub::Slice(a, b) => gb.with_subset_slice(*a, *b),
                Sub::Idx(v) => gb.with_subset_indices(v.clone()),
                Sub::Lab(v) => gb.with_subset_labels(v),
            };
            b = b.with_group(gb.build()?)?;
        }
        if let Some(c) = combos {
            b = b.with_combinations(
                c.iter()
                    .map(|r| {
                        r.iter()
                            .map(|e| match e {
                                Ent::I(i) => ScenarioLabelOrIndex::Index(*i),
                                Ent::L(l) => ScenarioLabelOrIndex::Label(l.clone()),
                            })
                            .collect()
                    })
                    .collect(),
            );
        }
        b.build()
    })
}
fn build_schema(groups: &[Grp], combos: Option<&Vec<Vec<Ent>>>) -> Result<ScenarioDomain, ImpErr> {
    imp(|| -> Result<ScenarioDomain, String> {
        let mut j = serde_json::json!({"groups": groups.iter().enumerate().map(|(i, g)| g.json(i)).collect::<Vec<_>>()});
        if let Some(c) = combos {
            j["combinations"] = c
                .iter()
                .map(|r| {
                    r.iter()
                        .map(|e| match e {
                            Ent::I(i) => serde_json::json!(i),
                            Ent::L(l) => serde_json::json!(l),
                        })
                        .collect::<Vec<_>>()
                })
                .collect::<Vec<_>>()
                .into();
        }
        let d: pywr_schema::model::ScenarioDomain = serde_json::from_value(j).map_err(|e| e.to_string())?;
        let b: ScenarioDomainBuilder = d.try_into().map_err(|e: ScenarioDomainBuilderError| e.to_string())?;
        b.build().map_err(|e| e.to_string())
    })
}

fn compare_scen(ch: &mut Ch, d: &ScenarioDomain, groups: &[Grp], want: &[Vec<usize>], what: &str) -> Res {
    let got: Vec<Vec<usize>> = d.indices().iter().map(|s| (0..groups.len()).map(|g| s.schema_index_for_group(g)).collect()).collect();
    chk!(got == want, "scen:list", "{what}: scenarios {got:?}, expected {want:?}");
    chk!(d.len() == want.len() && d.is_empty() == want.is_empty(), "scen:len", "{what}: len {} expected {}", d.len(), want.len());
    for (k, s) in d.indices().iter().enumerate() {
        chk!(s.simulation_id() == k, "scen:id", "{what}: scenario {k} has simulation id {}", s.simulation_id());
        let labels: Vec<String> = groups.iter().zip(&want[k]).map(|(g, i)| g.label(*i)).collect();
        chk!(s.labels() == labels, "scen:label", "{what}: scenario {k} {:?} has labels {:?}, expected {labels:?}", want[k], s.labels());
        chk!(s.label() == labels.join("-"), "scen:label", "{what}: scenario {k} label {:?}", s.label());
        chk!(s.simulation_indices().len() == groups.len(), "scen:simidx", "{what}: scenario {k} simulation indices {:?}", s.simulation_indices());
        for g in 0..groups.len() {
            let sim = s.simulation_index_for_group(g);
            chk!(sim == s.simulation_indices()[g], "scen:simidx", "{what}: scenario {k} group {g}");
            let sub = match d.group_scenario_subset(&format!("g{g}")) {
                Ok(s) => s,
                Err(e) => return fail("scen:subset", format!("{what}: {e}")),
            };
            let full = match sub {
                Some(m) => m.get(sim).copied(),
                None => Some(sim),
            };
            chk!(full == Some(want[k][g]), "scen:subset", "{what}: scenario {k} group {g}: simulation index {sim} of subset {sub:?} is {full:?}, expected member {}", want[k][g]);
        }
    }
    for g in 0..groups.len() {
        chk!(d.group_index(&format!("g{g}")).ok() == Some(g), "scen:group", "{what}: group index of g{g}");
        chk!(d.group_size(&format!("g{g}")).ok() == Some(groups[g].size), "scen:group", "{what}: group size of g{g}");
    }
    chk!(d.group_index("nope").is_err() && d.group_size("nope").is_err() && d.group_scenario_subset("nope").is_err(), "scen:group", "{what}: unknown group accepted");
    ch.state(&format!("{groups:?}{want:?}"));
    ch.out(&got);
    Ok(())
}

fn product(groups: &[Grp], member: impl Fn(usize, usize) -> bool) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    for (g, gr) in groups.iter().enumerate() {
        let mut next = vec![];
        for o in &out {
            for i in 0..gr.size {
                if member(g, i) {
                    let mut o2 = o.clone();
                    o2.push(i);
                    next.push(o2);
                }
            }
        }
        out = next;
    }
    out
}

pub fn c09(cx: &Cx) {
    cx.assume("labels within one group are distinct");
    let maxsize = cx.b(3, 4);
    let subset_menu = move |size: usize, full: bool| -> Vec<Sub> {
        let mut v = vec![Sub::None];
        for a in 0..=size {
            for b in 0..=size + 1 {
                v.push(Sub::Slice(a, b));
            }
        }
        for a in 0..=size {
            v.push(Sub::Idx(vec![a]));
            for b in 0..=size {
                v.push(Sub::Idx(vec![a, b]));
                if full {
                    for c in 0..=size {
                        v.push(Sub::Idx(vec![a, b, c]));
                    }
                }
            }
        }
        v
    };
    let choose_group = |ch: &mut Ch, g: usize, maxsize: usize, full: bool| -> Grp {
        let size = 1 + ch.pick(maxsize);
        let labels = match ch.pick(if full { 4 } else { 2 }) {
            0 => None,
            1 => Some(size),
            2 => Some(size + 1),
            _ => Some(size - 1),
        }
        .map(|n| (0..n).map(|i| lab(g, i)).collect::<Vec<_>>());
        let mut m = subset_menu(size, full);
        for a in 0..=size {
            m.push(Sub::Lab(vec![lab(g, a)]));
            for b in 0..=size {
                if a != b {
                    m.push(Sub::Lab(vec![lab(g, b), lab(g, a)]));
                }
            }
        }
        let sub = ch.of(&m);
        Grp { size, labels, sub }
    };
    let check_subsets = |ch: &mut Ch, groups: Vec<Grp>| -> Res {
        ch.describe(|| format!("{groups:?}"));
        let valid = groups.iter().all(Grp::valid);
        for schema in [false, true] {
            let what = if schema { "document" } else { "builder" };
            let r = if schema { build_schema(&groups, None) } else { build(&groups, None, false) };
            match (r, valid) {
                (Ok(d), true) => {
                    let want = product(&groups, |g, i| groups[g].members().contains(&i));
                    compare_scen(ch, &d, &groups, &want, what)?;
                }
                (Err(ImpErr::Err(_)), false) => {}
                (Ok(d), false) => return fail("scen:accepted", format!("{what}: malformed groups accepted with {} scenarios", d.len())),
                (Err(e), true) => return fail("scen:rejected", format!("{what}: valid groups rejected: {}", e.text())),
                (Err(e), false) => return fail("scen:panic", format!("{what}: malformed groups crashed: {}", e.text())),
            }
        }
        Ok(())
    };
    cx.explore("one group", |ch| {
        let g = choose_group(ch, 0, maxsize + 1, true);
        check_subsets(ch, vec![g])
    });
    cx.explore("two groups", |ch| {
        let a = choose_group(ch, 0, maxsize, false);
        let b = choose_group(ch, 1, maxsize, false);
        check_subsets(ch, vec![a, b])
    });
    cx.explore("three groups", |ch| {
        let gs: Vec<Grp> = (0..3)
            .map(|g| {
                let size = 1 + ch.pick(3);
                let labels = if ch.flag() { Some((0..size).map(|i| lab(g, i)).collect()) } else { None };
                let sub = ch.of(&[Sub::None, Sub::Slice(0, 1), Sub::Slice(1, size.max(2)), Sub::Idx(vec![size - 1, 0]), Sub::Idx(vec![0])]);
                Grp { size, labels, sub }
            })
            .collect();
        check_subsets(ch, gs)
    });
    let ncomb = cx.b(2, 3);
    cx.explore("combinations", |ch| {
        let ng = 1 + ch.pick(2);
        let labelled = ch.flag();
        let sub = ch.pick(4) == 3; // a subset together with combinations is an error
        let groups: Vec<Grp> = (0..ng)
            .map(|g| {
                let size = 1 + ch.pick(if ng == 1 { 3 } else { 2 });
                Grp { size, labels: labelled.then(|| (0..size).map(|i| lab(g, i)).collect()), sub: if sub && g == 0 { Sub::Slice(0, 1) } else { Sub::None } }
            })
            .collect();
        let n = 1 + ch.pick(ncomb);
        let mut combos = vec![];
        for _ in 0..n {
            let arity = ch.of(&[ng, ng + 1, ng - 1]);
            let mut row = vec![];
            for g in 0..arity {
                let size = groups.get(g).map_or(1, |g| g.size);
                let mut m: Vec<Ent> = (0..=size).map(Ent::I).collect();
                m.extend((0..=size).map(|i| Ent::L(lab(g.min(2), i))));
                row.push(ch.of(&m));
            }
            combos.push(row);
        }
        ch.describe(|| format!("{groups:?} combinations {combos:?}"));
        let mut want = vec![];
        let mut valid = !sub;
        for r in &combos {
            if r.len() != ng {
                valid = false;
                break;
            }
            let mut w = vec![];
            for (g, e) in r.iter().enumerate() {
                match e {
                    Ent::I(i) if *i < groups[g].size => w.push(*i),
                    Ent::L(l) => match groups[g].labels.as_ref().and_then(|ls| ls.iter().position(|x| x == l)) {
                        Some(i) => w.push(i),
                        None => valid = false,
                    },
                    _ => valid = false,
                }
            }
            want.push(w);
        }
        for schema in [false, true] {
            let what = if schema { "document" } else { "builder" };
            let r = if schema { build_schema(&groups, Some(&combos)) } else { build(&groups, Some(&combos), false) };
            match (r, valid) {
                (Ok(d), true) => compare_scen(ch, &d, &groups, &want, what)?,
                (Err(ImpErr::Err(_)), false) => {}
                (Ok(d), false) => return fail("scen:accepted", format!("{what}: malformed combinations accepted with {} scenarios", d.len())),
                (Err(e), true) => return fail("scen:rejected", format!("{what}: valid combinations rejected: {}", e.text())),
                (Err(e), false) => return fail("scen:panic", format!("{what}: malformed combinations crashed: {}", e.text())),
            }
        }
        Ok(())
    });
    cx.explore("names and defaults", |ch| {
        let k = ch.pick(4);
        ch.describe(|| format!("case {k}"));
        let g = Grp { size: 2, labels: None, sub: Sub::None };
        ch.state(&k);
        match k {
            0 => {
                // no groups: a single scenario
                let d = ScenarioDomainBuilder::default().build();
                chk!(d.as_ref().is_ok_and(|d| d.len() == 1 && d.indices()[0].simulation_id() == 0 && d.indices()[0].simulation_indices() == [0]), "scen:default", "default domain {d:?}");
            }
            1 => chk!(matches!(build(&[g.clone(), g], None, true), Err(ImpErr::Err(_))), "scen:duplicate", "duplicate group names accepted"),
            2 => {
                let z = Grp { size: 0, labels: None, sub: Sub::None };
                chk!(matches!(build(&[g, z], None, false), Err(ImpErr::Err(_))), "scen:zero", "a group of size zero was accepted");
            }
            _ => {
                let r = build(&[], Some(&vec![vec![Ent::I(0)]]), false);
                chk!(matches!(r, Err(ImpErr::Err(_))), "scen:nogroup", "combinations without groups were accepted");
            }
        }
        Ok(())
    });
}
