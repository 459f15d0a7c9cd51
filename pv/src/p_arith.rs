//! C14: arithmetic and aggregating parameters. C15: arrays and scenario inputs.
use crate::core::*;
use crate::harness::*;
use crate::p_param::*;
use jiff::civil::date;
use ndarray::{Array1, Array2};
use pywr_core::agg_funcs::{AggFuncF64, AggFuncU64};
use pywr_core::metric::UnresolvedMetricF64;
use pywr_core::models::ModelDomainBuilder;
use pywr_core::network::NetworkBuilder;
use pywr_core::parameters::*;
use pywr_core::scenario::{ScenarioDomainBuilder, ScenarioGroupBuilder};

const FIXED: [Src; 2] = [Src::Lit, Src::Const];

/// Rows of input tuples: inputs from fixed sources hold one value each, the others go through all values.
fn rows(ch: &mut Ch, srcs: &[Src], alph: &[f64]) -> Vec<Vec<f64>> {
    let mut r: Vec<Vec<f64>> = vec![vec![]];
    for s in srcs {
        let opts: Vec<f64> = if FIXED.contains(s) { vec![ch.of(alph)] } else { alph.to_vec() };
        r = r.iter().flat_map(|x| opts.iter().map(move |o| [x.clone(), vec![*o]].concat())).collect();
    }
    r
}
fn col(rows: &[Vec<f64>], i: usize) -> Vec<f64> {
    rows.iter().map(|r| r[i]).collect()
}
fn inputs(nb: &mut NetworkBuilder, srcs: &[Src], rows: &[Vec<f64>]) -> Vec<UnresolvedMetricF64> {
    srcs.iter().enumerate().map(|(i, s)| supply(nb, &format!("x{i}"), *s, &col(rows, i))).collect()
}
fn phase_metric(phase: usize, name: &str) -> Vec<UnresolvedMetricF64> {
    match phase {
        0 => vec![UnresolvedMetricF64::new_parameter_before(name)],
        1 => vec![UnresolvedMetricF64::new_parameter_after(name)],
        _ => vec![UnresolvedMetricF64::new_parameter_before(name), UnresolvedMetricF64::new_parameter_after(name)],
    }
}
fn judge_rows(ch: &mut Ch, key: &str, r: Result<Out, ImpErr>, rows: &[Vec<f64>], want: impl Fn(usize, &[f64]) -> f64) -> Res {
    let out = match r {
        Ok(o) => o,
        Err(e) => return fail(format!("{key}:error"), e.text()),
    };
    for (t, row) in rows.iter().enumerate() {
        let w = want(t, row);
        for (m, g) in out[t][0].iter().enumerate() {
            chk!(close(*g, w), format!("{key}:value"), "inputs {row:?} (step {t}, reading {m}): got {g}, expected {w}");
        }
        ch.state(&(key.to_string(), row.iter().map(|v| v.to_bits()).collect::<Vec<_>>()));
    }
    Ok(())
}
fn big(x: f64) -> bool {
    x >= 0.5
}

pub fn c14(cx: &Cx) {
    cx.assume("parameter values are compared to 1e-7 relative");
    cx.assume("aggregations are given at least one input");
    let n_agg = cx.b(3, 4);
    cx.explore("aggregated", |ch| {
        let f = ch.pick(9);
        let phase = ch.pick(3);
        let n = 1 + ch.pick(n_agg);
        let srcs: Vec<Src> = ch.seq(&SRCS, n);
        let alph: &[f64] = if n > 3 { &[-2.0, 0.0, 3.0] } else { &[-2.0, 0.0, 0.5, 3.0] };
        let rows = rows(ch, &srcs, alph);
        ch.describe(|| format!("aggregate function {f} phase {phase} of {srcs:?}, rows {rows:?}"));
        let mut nb = trivial_network();
        let xs = inputs(&mut nb, &srcs, &rows);
        let func = match f {
            0 => AggFuncF64::Sum,
            1 => AggFuncF64::Mean,
            2 => AggFuncF64::Product,
            3 => AggFuncF64::Min,
            4 => AggFuncF64::Max,
            5 => AggFuncF64::CountNonZero,
            6 => AggFuncF64::CountFunc { func: big },
            7 => AggFuncF64::AnyNonZero { tolerance: 0.0 },
            _ => AggFuncF64::AnyNonZero { tolerance: 1.0 },
        };
        let mut b = match phase {
            0 => AggregatedParameterBuilder::before("p".into(), func),
            1 => AggregatedParameterBuilder::after("p".into(), func),
            _ => AggregatedParameterBuilder::both("p".into(), func),
        };
        for x in xs {
            b.metric(x);
        }
        f64p(&mut nb, b);
        let r = run(domain(time_days(dt0(), 1, rows.len())), nb, phase_metric(phase, "p"));
        judge_rows(ch, "agg", r, &rows, |_, v| match f {
            0 => v.iter().sum(),
            1 => v.iter().sum::<f64>() / v.len() as f64,
            2 => v.iter().product(),
            3 => v.iter().cloned().fold(f64::INFINITY, f64::min),
            4 => v.iter().cloned().fold(f64::NEG_INFINITY, f64::max),
            5 => v.iter().filter(|x| **x != 0.0).count() as f64,
            6 => v.iter().filter(|x| **x >= 0.5).count() as f64,
            7 => v.iter().any(|x| *x != 0.0) as u8 as f64,
            _ => v.iter().any(|x| x.abs() > 1.0) as u8 as f64,
        })
    });
    cx.explore("aggregated-index", |ch| {
        let f = ch.pick(6);
        let phase = ch.pick(3);
        let n = 1 + ch.pick(3);
        let srcs: Vec<Src> = ch.seq(&SRCS, n);
        let rows = rows(ch, &srcs, &[0.0, 1.0, 3.0]);
        ch.describe(|| format!("index aggregate function {f} phase {phase} of {srcs:?}, rows {rows:?}"));
        let mut nb = trivial_network();
        let func = [AggFuncU64::Sum, AggFuncU64::Product, AggFuncU64::Min, AggFuncU64::Max, AggFuncU64::Any, AggFuncU64::All][f].clone();
        let mut b = match phase {
            0 => AggregatedIndexParameterBuilder::before("p".into(), func),
            1 => AggregatedIndexParameterBuilder::after("p".into(), func),
            _ => AggregatedIndexParameterBuilder::both("p".into(), func),
        };
        for (i, s) in srcs.iter().enumerate() {
            let c: Vec<u64> = col(&rows, i).iter().map(|v| *v as u64).collect();
            b.metric(supply_u(&mut nb, &format!("x{i}"), *s, &c));
        }
        u64p(&mut nb, b);
        let r = run(domain(time_days(dt0(), 1, rows.len())), nb, phase_metric(phase, "p"));
        judge_rows(ch, "aggu", r, &rows, |_, v| match f {
            0 => v.iter().sum(),
            1 => v.iter().product(),
            2 => v.iter().cloned().fold(f64::INFINITY, f64::min),
            3 => v.iter().cloned().fold(f64::NEG_INFINITY, f64::max),
            4 => v.iter().any(|x| *x != 0.0) as u8 as f64,
            _ => v.iter().all(|x| *x != 0.0) as u8 as f64,
        })
    });
    cx.explore("unary", |ch| {
        let op = ch.pick(6);
        let src = ch.of(&SRCS);
        let th = ch.of(&[-1.5, 0.0, 2.0]);
        let rows = rows(ch, &[src], &[-3.0, -1.5, 0.0, 1.0, 1.5, 2.0, 7.25]);
        ch.describe(|| format!("operation {op} (max, min, negative max, negative min, negative, offset) argument {th} of {src:?}, rows {rows:?}"));
        let mut nb = trivial_network();
        let x = inputs(&mut nb, &[src], &rows).remove(0);
        match op {
            0 => f64p(&mut nb, MaxParameterBuilder::new("p".into(), x, th)),
            1 => f64p(&mut nb, MinParameterBuilder::new("p".into(), x, th)),
            2 => f64p(&mut nb, NegativeMaxParameterBuilder::new("p".into(), x, th)),
            3 => f64p(&mut nb, NegativeMinParameterBuilder::new("p".into(), x, th)),
            4 => f64p(&mut nb, NegativeParameterBuilder::new("p".into(), x)),
            _ => f64p(&mut nb, OffsetParameterBuilder::new("p".into(), x, th)),
        }
        let r = run(domain(time_days(dt0(), 1, rows.len())), nb, vec![pm("p")]);
        judge_rows(ch, "unary", r, &rows, |_, v| match op {
            0 => if v[0] > th { v[0] } else { th },
            1 => if v[0] < th { v[0] } else { th },
            2 => if -v[0] > th { -v[0] } else { th },
            3 => if -v[0] < th { -v[0] } else { th },
            4 => -v[0],
            _ => v[0] + th,
        })
    });
    cx.explore("polynomial", |ch| {
        let src = ch.of(&SRCS);
        let n = ch.pick(cx.b(6, 7));
        let c: Vec<f64> = ch.seq(&[-2.0, 0.0, 1.5], n);
        let (scale, offset) = ch.of(&[(None, None), (Some(2.0), None), (None, Some(-3.0)), (Some(-0.5), Some(1.0)), (Some(0.0), Some(1.0))]);
        let rows = rows(ch, &[src], &[-2.0, 0.0, 1.0, 3.5]);
        ch.describe(|| format!("polynomial {c:?} scale {scale:?} offset {offset:?} of {src:?}, rows {rows:?}"));
        let mut nb = trivial_network();
        let x = inputs(&mut nb, &[src], &rows).remove(0);
        let mut b = Polynomial1DParameterBuilder::new("p".into(), x, c.clone());
        if let Some(s) = scale {
            b.scale(s);
        }
        if let Some(o) = offset {
            b.offset(o);
        }
        f64p(&mut nb, b);
        let r = run(domain(time_days(dt0(), 1, rows.len())), nb, vec![pm("p")]);
        judge_rows(ch, "polynomial", r, &rows, |_, v| {
            let z = v[0] * scale.unwrap_or(1.0) + offset.unwrap_or(0.0);
            // Horner
            c.iter().rev().fold(0.0, |y, k| y * z + k)
        })
    });
    cx.explore("division", |ch| {
        let phase = ch.pick(3);
        let srcs: Vec<Src> = ch.seq(&SRCS, 2);
        let zero = ch.flag();
        let den: &[f64] = if zero { &[0.0, 4.0] } else { &[-2.0, 0.5, 4.0] };
        let num = [-3.0, 0.0, 5.0];
        let mut r: Vec<Vec<f64>> = vec![];
        let ns: Vec<f64> = if FIXED.contains(&srcs[0]) { vec![ch.of(&num)] } else { num.to_vec() };
        let ds: Vec<f64> = if FIXED.contains(&srcs[1]) { vec![ch.of(den)] } else { den.to_vec() };
        for a in &ns {
            for b in ds.iter().rev() {
                r.push(vec![*a, *b]);
            }
        }
        ch.describe(|| format!("division phase {phase} of {srcs:?}, rows {r:?}"));
        let mut nb = trivial_network();
        let xs = inputs(&mut nb, &srcs, &r);
        let b = match phase {
            0 => DivisionParameterBuilder::before("p".into(), xs[0].clone(), xs[1].clone()),
            1 => DivisionParameterBuilder::after("p".into(), xs[0].clone(), xs[1].clone()),
            _ => DivisionParameterBuilder::both("p".into(), xs[0].clone(), xs[1].clone()),
        };
        f64p(&mut nb, b);
        let res = run(domain(time_days(dt0(), 1, r.len())), nb, phase_metric(phase, "p"));
        if r.iter().any(|x| x[1] == 0.0) {
            return match res {
                Ok(o) => fail("division:zero", format!("division by zero gives {:?}", o.iter().map(|t| t[0].clone()).collect::<Vec<_>>())),
                Err(e) => {
                    chk!(!e.is_panic(), "division:panic", "{}", e.text());
                    Ok(())
                }
            };
        }
        judge_rows(ch, "division", res, &r, |_, v| v[0] / v[1])
    });
    cx.explore("difference", |ch| {
        let srcs: Vec<Src> = ch.seq(&SRCS, 2);
        let lo = ch.pick(5);
        let hi = ch.pick(5);
        let alph = [-1.0, 0.0, 2.5];
        let mut all = srcs.clone();
        if lo > 0 {
            all.push(SRCS[lo - 1]);
        }
        if hi > 0 {
            all.push(SRCS[hi - 1]);
        }
        // lower bounds -2, 1; upper bounds 1, 3
        let mut r: Vec<Vec<f64>> = vec![vec![]];
        for (i, s) in all.iter().enumerate() {
            let a: Vec<f64> = if i < 2 {
                alph.to_vec()
            } else if i == 2 && lo > 0 {
                vec![-2.0, 1.0]
            } else {
                vec![1.0, 3.0]
            };
            let opts = if FIXED.contains(s) { vec![ch.of(&a)] } else { a };
            r = r.iter().flat_map(|x| opts.iter().map(move |o| [x.clone(), vec![*o]].concat())).collect();
        }
        ch.describe(|| format!("difference of {srcs:?} with minimum {lo} maximum {hi} (0 absent), rows {r:?}"));
        let mut nb = trivial_network();
        let xs = inputs(&mut nb, &all, &r);
        let mut b = DifferenceParameterBuilder::new("p".into(), xs[0].clone(), xs[1].clone());
        if lo > 0 {
            b.min(xs[2].clone());
        }
        if hi > 0 {
            b.max(xs[all.len() - 1].clone());
        }
        f64p(&mut nb, b);
        let res = run(domain(time_days(dt0(), 1, r.len())), nb, vec![pm("p")]);
        judge_rows(ch, "difference", res, &r, |_, v| {
            let mut d = v[0] - v[1];
            if lo > 0 {
                d = d.max(v[2]);
            }
            if hi > 0 {
                d = d.min(v[v.len() - 1]);
            }
            d
        })
    });
    cx.explore("discount", |ch| {
        let src = ch.of(&SRCS);
        let base = ch.of(&[1999i16, 2020, 2021, 2030]);
        let step = ch.of(&[1u64, 97, 365]);
        let start = ch.of(&[date(2019, 12, 30), date(2020, 6, 1)]);
        let rate = ch.of(&[0.0, 0.035, 0.5, -0.25]);
        let n = 8;
        ch.describe(|| format!("discount rate {rate} from {src:?} base year {base}, {n} steps of {step} days from {start}"));
        let series: Vec<f64> = (0..n).map(|t| if FIXED.contains(&src) { rate } else { rate + 0.01 * t as f64 }).collect();
        let mut nb = trivial_network();
        let m = supply(&mut nb, "r", src, &series);
        f64p(&mut nb, DiscountFactorParameterBuilder::new("p".into(), m, base));
        let r = run(domain(time_days(start.at(0, 0, 0, 0), step, n)), nb, vec![pm("p")]);
        let rows: Vec<Vec<f64>> = series.iter().map(|s| vec![*s]).collect();
        judge_rows(ch, "discount", r, &rows, |t, v| {
            let day = crate::p_time::cal::ordinal(start.year() as i64, start.month() as i64, start.day() as i64) + (t as u64 * step) as i64;
            let year = crate::p_time::cal::from_ordinal(day).0;
            let k = year - base as i64;
            let f = (0..k.abs()).fold(1.0, |p, _| p * (1.0 + v[0]));
            if k >= 0 { 1.0 / f } else { f }
        })
    });
    cx.explore("indexed", |ch| {
        let isrc = ch.of(&SRCS);
        let vsrc = ch.of(&SRCS);
        let n = 1 + ch.pick(3);
        let over = ch.flag();
        let idx: Vec<u64> = if FIXED.contains(&isrc) {
            vec![ch.pick(if over { n + 2 } else { n }) as u64; 2]
        } else if over {
            vec![0, n as u64]
        } else {
            (0..n).rev().chain(0..n).map(|i| i as u64).collect()
        };
        ch.describe(|| format!("indexed array of {n} values from {vsrc:?}, index {idx:?} from {isrc:?}"));
        let nt = idx.len();
        let val = |i: usize, t: usize| 10.0 * i as f64 + if FIXED.contains(&vsrc) { 0.0 } else { t as f64 };
        let mut nb = trivial_network();
        let im = supply_u(&mut nb, "i", isrc, &idx);
        let mut b = IndexedArrayParameterBuilder::new("p".into(), im);
        for i in 0..n {
            b.metric(supply(&mut nb, &format!("v{i}"), vsrc, &(0..nt).map(|t| val(i, t)).collect::<Vec<_>>()));
        }
        f64p(&mut nb, b);
        let r = run(domain(time_days(dt0(), 1, nt)), nb, vec![pm("p")]);
        if idx.iter().any(|i| *i >= n as u64) {
            return match r {
                Ok(_) => fail("indexed:accepted", "an index beyond the array gives a value"),
                Err(e) => {
                    chk!(!e.is_panic(), "indexed:panic", "{}", e.text());
                    Ok(())
                }
            };
        }
        let rows: Vec<Vec<f64>> = idx.iter().map(|i| vec![*i as f64]).collect();
        judge_rows(ch, "indexed", r, &rows, |t, v| val(v[0] as usize, t))
    });
    cx.explore("hydropower", |ch| {
        let src = ch.of(&[Src::Lit, Src::General]);
        let el = ch.of(&[None, Some(5.0), Some(40.0)]);
        let mh = ch.of(&[None, Some(15.0), Some(20.0)]);
        let w = ch.of(&[None, Some(25.0), Some(3.0)]);
        let maxf = ch.of(&[None, Some(30.0)]);
        let minf = ch.of(&[None, Some(12.0)]);
        let (tgt, act) = ch.of(&[(true, false), (false, true), (true, true), (false, false)]);
        let units = ch.of(&[0, 1]);
        let (eff, dens, fu, eu) = if units == 0 { (None, None, None, None) } else { (Some(0.8), Some(1020.0), Some(2.0), Some(1e-3)) };
        let neg = ch.flag();
        let power = [0.0, 1.0, 3.0, if neg { -2.0 } else { 9.0 }].map(|p| p * if units == 0 { 1.0 } else { 1000.0 });
        let nt = if src == Src::Lit { 2 } else { 4 };
        let p0 = ch.of(&power);
        let series: Vec<f64> = if src == Src::Lit { vec![p0; nt] } else { power.to_vec() };
        let flow: Vec<f64> = if src == Src::Lit { vec![6.0; nt] } else { vec![6.0, 0.0, 2.0, 11.0] };
        ch.describe(|| format!("hydropower elevation {el:?} min head {mh:?} water level {w:?} max flow {maxf:?} min flow {minf:?} target {tgt} actual {act} units {units}, power {series:?} flow {flow:?}"));
        let mut nb = trivial_network();
        let d = HydropowerTargetData {
            actual_flow: act.then(|| supply(&mut nb, "q", src, &flow)),
            target: tgt.then(|| supply(&mut nb, "t", src, &series)),
            elevation: el,
            min_head: mh,
            max_flow: maxf.map(|v| supply(&mut nb, "mx", src, &vec![v; nt])),
            min_flow: minf.map(|v| supply(&mut nb, "mn", src, &vec![v; nt])),
            efficiency: eff,
            water_elevation: w.map(|v| supply(&mut nb, "w", src, &vec![v; nt])),
            water_density: dens,
            flow_unit_conversion: fu,
            energy_unit_conversion: eu,
        };
        f64p(&mut nb, HydropowerTargetParameterBuilder::new("p".into(), d));
        let mut ms = vec![];
        if tgt {
            ms.push(UnresolvedMetricF64::new_parameter_before("p"));
        }
        if act {
            ms.push(UnresolvedMetricF64::new_parameter_after("p"));
        }
        let r = run(domain(time_days(dt0(), 1, nt)), nb, ms);
        let valid = (tgt || act) && (tgt || (maxf.is_none() && minf.is_none()));
        let head = match w {
            Some(w) => (w - el.unwrap_or(0.0)).max(0.0),
            None => el.unwrap_or(0.0),
        };
        let works = head > mh.unwrap_or(0.0);
        // no flow can produce a negative target, unless a minimum flow applies
        let impossible = tgt && works && minf.is_none() && series.iter().any(|p| *p < 0.0);
        let out = match (valid && !impossible, r) {
            (true, Ok(o)) => o,
            (true, Err(e)) => return fail("hydro:error", e.text()),
            (false, Ok(_)) => return fail("hydro:accepted", "a hydropower parameter without a use for its data, or with a negative target, is accepted"),
            (false, Err(e)) => {
                chk!(!e.is_panic(), "hydro:panic", "{}", e.text());
                return Ok(());
            }
        };
        // power = density * g * head * efficiency * flow, with the unit conversions
        let per_flow = dens.unwrap_or(1000.0) * 9.81 * head * eff.unwrap_or(1.0) * fu.unwrap_or(1.0) * eu.unwrap_or(1e-6);
        for t in 0..nt {
            ch.state(&("hydro", out[t][0].iter().map(|v| v.to_bits()).collect::<Vec<_>>()));
            let mut m = 0;
            if tgt {
                let mut q = if works { series[t] / per_flow } else { 0.0 };
                if works {
                    if let Some(x) = maxf {
                        q = q.min(x);
                    }
                    if let Some(x) = minf {
                        q = q.max(x);
                    }
                }
                chk!(close(out[t][0][m], q), "hydro:flow", "step {t}: flow for target {}, got {}, expected {q}", series[t], out[t][0][m]);
                m += 1;
            }
            if act {
                let p = if works { flow[t] * per_flow } else { 0.0 };
                chk!(close(out[t][0][m], p), "hydro:power", "step {t}: power of flow {}, got {}, expected {p}", flow[t], out[t][0][m]);
            }
        }
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------
// C15
// ---------------------------------------------------------------------------------------------
pub fn c15(cx: &Cx) {
    cx.assume("parameter values are compared to 1e-7 relative");
    let offs = |ch: &mut Ch, n: i32| -> Option<i32> {
        let k = ch.pick((2 * n + 9) as usize) as i32;
        match k {
            0 => None,
            1 => Some(i32::MIN),
            2 => Some(i32::MAX),
            _ => Some(k - 5 - n),
        }
    };
    let maxn = cx.b(5, 8);
    cx.explore("array1", |ch| {
        let int = ch.flag();
        let len = ch.pick(maxn as usize + 1);
        let nt = 1 + ch.pick(maxn as usize);
        let off = offs(ch, maxn);
        ch.describe(|| format!("array of {len} over {nt} steps, offset {off:?}, integer {int}"));
        let val = |i: usize| (i * i + 2) as f64;
        let mut nb = trivial_network();
        if int {
            let mut b = Array1ParameterBuilder::<u64>::new("p".into(), Array1::from((0..len).map(|i| val(i) as u64).collect::<Vec<_>>()));
            if let Some(o) = off {
                b.timestep_offset(o);
            }
            u64p(&mut nb, b);
        } else {
            let mut b = Array1ParameterBuilder::<f64>::new("p".into(), Array1::from((0..len).map(val).collect::<Vec<_>>()));
            if let Some(o) = off {
                b.timestep_offset(o);
            }
            f64p(&mut nb, b);
        }
        let r = run(domain(time_days(dt0(), 1, nt)), nb, vec![pm("p")]);
        ch.state(&(len, nt, off, int));
        // without an offset, data that is too short does not match the run
        let ok = len > 0 && (off.is_some() || len >= nt);
        match r {
            Ok(o) => {
                chk!(ok, "array1:accepted", "an array of {len} values serves {nt} steps");
                let want: Vec<f64> = (0..nt).map(|t| val((t as i64 + off.unwrap_or(0) as i64).clamp(0, len as i64 - 1) as usize)).collect();
                check_col("array1:value", "array", &column(&o, 0, 0), &want)
            }
            Err(e) => {
                chk!(!e.is_panic(), "array1:panic", "{}", e.text());
                chk!(!ok, "array1:rejected", "{}", e.text());
                Ok(())
            }
        }
    });
    // groups, subsets, combinations and the arrays that belong to them
    let maxg = cx.b(3, 4);
    cx.explore("array2", |ch| {
        let kind = ch.pick(4); // f64 array, u64 array, constant per scenario, wrong shapes
        let sizes: Vec<usize> = (0..2).map(|_| 1 + ch.pick(maxg)).collect();
        let group = ch.pick(2);
        // how the scenarios are restricted: none, subset on own group, subset on the other, combinations
        let restrict = ch.pick(4);
        let names = ["ga", "gb"];
        let mut subs: [Option<Vec<usize>>; 2] = [None, None];
        let mut combos: Option<Vec<[usize; 2]>> = None;
        match restrict {
            1 => {
                let s = ch.subset(sizes[group]);
                if s.is_empty() {
                    return ch.skip();
                }
                subs[group] = Some(s);
            }
            2 => {
                let s = ch.subset(sizes[1 - group]);
                if s.is_empty() {
                    return ch.skip();
                }
                subs[1 - group] = Some(s);
            }
            3 => {
                let all: Vec<[usize; 2]> = (0..sizes[0]).flat_map(|a| (0..sizes[1]).map(move |b| [a, b])).collect();
                if all.len() > 6 {
                    return ch.skip();
                }
                let s = ch.subset(all.len());
                if s.is_empty() {
                    return ch.skip();
                }
                combos = Some(s.iter().map(|i| all[*i]).collect());
            }
            _ => {}
        }
        let bad = if kind == 3 { 1 + ch.pick(4) } else { 0 };
        let nt = 2;
        let off = if kind < 2 { ch.of(&[None, Some(0), Some(1), Some(-1), Some(5)]) } else { None };
        let own = sizes[group];
        let cols = match bad {
            1 => own + 1,
            2 => own - 1,
            3 => 0,
            _ => own,
        };
        let unknown_group = bad == 4;
        ch.describe(|| format!("kind {kind} on group {} of sizes {sizes:?}, subsets {subs:?}, combinations {combos:?}, offset {off:?}, {cols} columns, unknown group {unknown_group}", names[group]));
        let val = |t: usize, s: usize| (100 * t + 7 * s + 1) as f64;
        let g = if unknown_group { "nothing" } else { names[group] };
        let mut nb = trivial_network();
        let shape = (nt, cols);
        let wrong_const = bad > 0 && ch.flag();
        if kind == 2 || wrong_const {
            f64p(&mut nb, ConstantScenarioParameterBuilder::new("p".into(), (0..cols).map(|s| val(0, s)).collect(), g));
        } else if kind == 1 {
            let mut b = Array2ParameterBuilder::<u64>::new("p".into(), Array2::from_shape_fn(shape, |(t, s)| val(t, s) as u64), g);
            if let Some(o) = off {
                b.timestep_offset(o);
            }
            u64p(&mut nb, b);
        } else {
            let mut b = Array2ParameterBuilder::<f64>::new("p".into(), Array2::from_shape_fn(shape, |(t, s)| val(t, s)), g);
            if let Some(o) = off {
                b.timestep_offset(o);
            }
            f64p(&mut nb, b);
        }
        let mut sb = ScenarioDomainBuilder::default();
        for i in 0..2 {
            let mut gb = ScenarioGroupBuilder::new(names[i], sizes[i]);
            if let Some(s) = &subs[i] {
                gb = gb.with_subset_indices(s.clone());
            }
            sb = sb.with_group(gb.build().map_err(|e| Fail { key: "setup".into(), msg: chain(&e) })?).map_err(|e| Fail { key: "setup".into(), msg: chain(&e) })?;
        }
        if let Some(c) = &combos {
            sb = sb.with_combinations(c.iter().map(|x| x.to_vec()).collect());
        }
        let mut db = ModelDomainBuilder::new(time_days(dt0(), 1, nt));
        db.scenario(sb);
        let dom = db.build().map_err(|e| Fail { key: "setup".into(), msg: chain(&e) })?;
        let r = run(dom, nb, vec![pm("p")]);
        // the scenarios simulated, in order
        let mut want: Vec<[usize; 2]> = (0..sizes[0]).flat_map(|a| (0..sizes[1]).map(move |b| [a, b])).collect();
        for i in 0..2 {
            if let Some(s) = &subs[i] {
                want.retain(|w| s.contains(&w[i]));
            }
        }
        if let Some(c) = combos {
            want = c;
        }
        ch.state(&format!("{kind} {sizes:?} {want:?} {group}"));
        match r {
            Err(e) => {
                chk!(!e.is_panic(), "array2:panic", "{}", e.text());
                chk!(bad > 0, "array2:rejected", "{}", e.text());
                Ok(())
            }
            Ok(o) => {
                // data of a wrong shape or an unknown group is never used
                chk!(bad == 0, "array2:accepted", "{cols} columns for a group of {own} (group known: {})", !unknown_group);
                chk!(o[0].len() == want.len(), "array2:scenarios", "{} scenarios, expected {}", o[0].len(), want.len());
                for t in 0..nt {
                    let ti = if kind == 2 { 0 } else { (t as i64 + off.unwrap_or(0) as i64).clamp(0, nt as i64 - 1) as usize };
                    for (s, w) in want.iter().enumerate() {
                        let e = val(ti, w[group]);
                        let g = o[t][s][0];
                        chk!(close(g, e), "array2:value", "step {t} scenario {s} (members {w:?}): got {g}, expected {e}");
                    }
                }
                Ok(())
            }
        }
    });
}
