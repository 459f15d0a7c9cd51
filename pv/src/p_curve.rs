//! C12: control curves and interpolation.
use crate::core::*;
use crate::harness::*;
use crate::p_param::*;
use pywr_core::metric::UnresolvedMetricF64;
use pywr_core::network::NetworkBuilder;
use pywr_core::node::{NodeBuilder, UnresolvedStorageInitialVolume};
use pywr_core::AggregatedStorageNodeBuilder;
use pywr_core::parameters::*;
use pywr_core::solvers::MicroLpSolver;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ty {
    Value,
    Index,
    Interp,
    Piecewise { max: f64, min: f64 },
    Apportion,
    Between,
}
const TYS: [Ty; 5] = [Ty::Value, Ty::Index, Ty::Interp, Ty::Piecewise { max: 1.0, min: 0.0 }, Ty::Piecewise { max: 0.9, min: 0.1 }];

/// Straight line through (x0,y0) and (x1,y1), held at the ends; at the lower end when both coincide.
fn line(x: f64, x0: f64, x1: f64, y0: f64, y1: f64) -> f64 {
    if x <= x0 {
        return y0;
    }
    if x >= x1 {
        return y1;
    }
    let f = (x - x0) / (x1 - x0);
    y0 * (1.0 - f) + y1 * f
}

/// The value of the parameter by its definition. `v` has one value per band (curves + 1), with one more pair for
/// the piecewise kind.
fn expect(ty: Ty, x: f64, cc: &[f64], v: &[f64], pw: &[[f64; 2]]) -> f64 {
    // band: number of the first curve at or below the level
    let band = cc.iter().position(|c| x >= *c).unwrap_or(cc.len());
    match ty {
        Ty::Value => v[band],
        Ty::Index => band as f64,
        Ty::Interp => {
            let full = 1.0;
            let above = if band == 0 { full } else { cc[band - 1] };
            if band < cc.len() {
                line(x, cc[band], above, v[band + 1], v[band])
            } else {
                // below every curve
                line(x, 0.0, above, v[v.len() - 1], v[v.len() - 2])
            }
        }
        Ty::Piecewise { max, min } => {
            let above = if band == 0 { max } else { cc[band - 1] };
            let below = if band < cc.len() { cc[band] } else { min };
            let p = pw[band];
            line(x, below, above, p[1], p[0])
        }
        Ty::Apportion | Ty::Between => unreachable!(),
    }
}
/// Number of values the parameter takes with `n` curves.
fn n_values(ty: Ty, n: usize) -> usize {
    match ty {
        Ty::Value => n + 1,
        Ty::Index => 0,
        // the full level, each curve, and the empty level
        Ty::Interp => n + 2,
        Ty::Piecewise { .. } => n + 1,
        _ => 0,
    }
}
const PW: [[f64; 2]; 4] = [[10.0, 7.0], [3.0, -4.0], [1.0, 1.0], [-9.0, 20.0]];

fn add_curve_param(nb: &mut NetworkBuilder, name: &str, ty: Ty, x: UnresolvedMetricF64, cc: &[UnresolvedMetricF64], vals: &[UnresolvedMetricF64]) {
    match ty {
        Ty::Value => {
            let mut b = ControlCurveParameterBuilder::before(name.into(), x);
            for c in cc {
                b.control_curve(c.clone());
            }
            for v in vals {
                b.value(v.clone());
            }
            f64p(nb, b)
        }
        Ty::Index => {
            let mut b = ControlCurveIndexParameterBuilder::before(name.into(), x);
            for c in cc {
                b.control_curve(c.clone());
            }
            u64p(nb, b)
        }
        Ty::Interp => {
            let mut b = ControlCurveInterpolatedParameterBuilder::before(name.into(), x);
            for c in cc {
                b.control_curve(c.clone());
            }
            for v in vals {
                b.value(v.clone());
            }
            f64p(nb, b)
        }
        Ty::Piecewise { max, min } => {
            let mut b = PiecewiseInterpolatedParameterBuilder::before(name.into(), x, max, min);
            for c in cc {
                b.control_curve(c.clone());
            }
            for i in 0..=cc.len() {
                b.value(PW[i]);
            }
            f64p(nb, b)
        }
        _ => unreachable!(),
    }
}

const LEVELS: [f64; 8] = [-0.1, 0.0, 0.1, 0.3, 0.5, 0.8, 1.0, 1.25];
const CURVES: [f64; 5] = [0.0, 0.3, 0.5, 0.8, 1.0];
const VALS: [f64; 5] = [10.0, 4.0, 7.0, -3.0, 0.0];

pub fn c12(cx: &Cx) {
    cx.assume("parameter values are compared to 1e-7 relative");
    cx.assume("two coincident curves: the first one listed is the one that applies");
    // every level against every sequence of curve values, from every kind of source
    let maxn = 3;
    cx.explore("bands", |ch| {
        let ty = ch.of(&TYS);
        let n = ch.pick(maxn + 1);
        let srcs: Vec<Src> = (0..n).map(|_| ch.of(&SRCS)).collect();
        let vsrc = ch.of(&SRCS);
        // fixed sources have one value per run, the others take all values over the timesteps
        let fixed: Vec<Option<f64>> = srcs.iter().map(|s| if matches!(s, Src::Lit | Src::Const) { Some(ch.of(&CURVES)) } else { None }).collect();
        let mut rows: Vec<(f64, Vec<f64>)> = LEVELS.iter().map(|l| (*l, vec![])).collect();
        for f in &fixed {
            let opts: Vec<f64> = match f {
                Some(v) => vec![*v],
                None => CURVES.to_vec(),
            };
            rows = rows.iter().flat_map(|(l, c)| opts.iter().map(move |o| (*l, [c.clone(), vec![*o]].concat()))).collect();
        }
        let nt = rows.len();
        ch.describe(|| format!("{ty:?} with {n} curves from {srcs:?} (fixed {fixed:?}), values from {vsrc:?}, {nt} level/curve rows"));
        let mut nb = trivial_network();
        f64p(&mut nb, GenSeriesBuilder::new("x", vec![rows.iter().map(|r| r.0).collect()]));
        let cc: Vec<_> = (0..n)
            .map(|i| {
                let col: Vec<f64> = rows.iter().map(|r| r.1[i]).collect();
                supply(&mut nb, &format!("cc{i}"), srcs[i], &col)
            })
            .collect();
        // band values vary in time where their source can
        let nv = n_values(ty, n);
        let vcol = |i: usize| -> Vec<f64> {
            (0..nt).map(|t| if matches!(vsrc, Src::Lit | Src::Const) { VALS[i] } else { VALS[i] + (t % 3) as f64 }).collect()
        };
        let vals: Vec<_> = (0..nv).map(|i| supply(&mut nb, &format!("v{i}"), vsrc, &vcol(i))).collect();
        add_curve_param(&mut nb, "p", ty, pm("x"), &cc, &vals);
        let out = match run(domain(time_days(dt0(), 1, nt)), nb, vec![pm("p")]) {
            Ok(o) => o,
            Err(e) => return fail("bands:error", e.text()),
        };
        let cols: Vec<Vec<f64>> = (0..nv).map(vcol).collect();
        for (t, (x, c)) in rows.iter().enumerate() {
            let v: Vec<f64> = cols.iter().map(|c| c[t]).collect();
            let want = expect(ty, *x, c, &v, &PW);
            let got = out[t][0][0];
            chk!(close(got, want), "bands:value", "level {x} curves {c:?} values {v:?}: got {got}, expected {want}");
            ch.state(&(format!("{ty:?}"), x.to_bits(), c.iter().map(|v| v.to_bits()).collect::<Vec<_>>()));
        }
        Ok(())
    });
    cx.explore("apportion", |ch| {
        let src = ch.of(&SRCS);
        let xsrc = ch.of(&SRCS);
        let ccs = [-0.5, 0.0, 0.25, 0.6, 1.0, 1.5];
        let xs = [0.0, 1.0, 17.5];
        let fixed = ch.of(&ccs);
        let fx = ch.of(&xs);
        let mut rows = vec![];
        for c in if matches!(src, Src::Lit | Src::Const) { vec![fixed] } else { ccs.to_vec() } {
            for x in if matches!(xsrc, Src::Lit | Src::Const) { vec![fx] } else { xs.to_vec() } {
                rows.push((x, c));
            }
        }
        ch.describe(|| format!("apportion metric {xsrc:?} curve {src:?} rows (metric, curve) {rows:?}"));
        let mut nb = trivial_network();
        let x = supply(&mut nb, "x", xsrc, &rows.iter().map(|r| r.0).collect::<Vec<_>>());
        let c = supply(&mut nb, "c", src, &rows.iter().map(|r| r.1).collect::<Vec<_>>());
        nb.parameters().multi(Box::new(ApportionParameterBuilder::before("p".into(), x, c)));
        let m = vec![UnresolvedMetricF64::new_parameter_before_key("p", "upper"), UnresolvedMetricF64::new_parameter_before_key("p", "lower")];
        let out = match run(domain(time_days(dt0(), 1, rows.len())), nb, m) {
            Ok(o) => o,
            Err(e) => return fail("apportion:error", e.text()),
        };
        for (t, (x, c)) in rows.iter().enumerate() {
            let f = c.max(0.0).min(1.0);
            let (up, lo) = (x * (1.0 - f), x * f);
            let (gu, gl) = (out[t][0][0], out[t][0][1]);
            chk!(close(gu, up) && close(gl, lo), "apportion:value", "metric {x} curve {c}: got upper {gu} lower {gl}, expected {up} and {lo}");
            ch.state(&(x.to_bits(), c.to_bits()));
        }
        Ok(())
    });
    cx.explore("volume-between", |ch| {
        let s3 = [Src::Lit, Src::Const, Src::Simple];
        let tsrc = ch.of(&s3);
        let lo = ch.pick(4);
        let up = ch.pick(4);
        let rows: Vec<(f64, f64, f64)> = if tsrc == Src::Simple && lo == 3 && up == 3 {
            let mut r = vec![];
            for t in [0.0, 20.0] {
                for l in CURVES {
                    for u in CURVES {
                        r.push((t, l, u));
                    }
                }
            }
            r
        } else {
            vec![(ch.of(&[0.0, 20.0]), ch.of(&CURVES), ch.of(&CURVES))]
        };
        let nt = rows.len();
        ch.describe(|| format!("volume between: total {tsrc:?}, lower kind {lo}, upper kind {up} (0 absent, 1 literal, 2 constant, 3 array), rows {rows:?}"));
        let mut nb = trivial_network();
        let total = supply(&mut nb, "total", tsrc, &rows.iter().map(|r| r.0).collect::<Vec<_>>());
        let mut b = VolumeBetweenControlCurvesParameterBuilder::new("p".into(), total);
        if lo > 0 {
            b.lower(supply(&mut nb, "lo", s3[lo - 1], &rows.iter().map(|r| r.1).collect::<Vec<_>>()));
        }
        if up > 0 {
            b.upper(supply(&mut nb, "up", s3[up - 1], &rows.iter().map(|r| r.2).collect::<Vec<_>>()));
        }
        f64p(&mut nb, b);
        let out = match run(domain(time_days(dt0(), 1, nt)), nb, vec![pm("p")]) {
            Ok(o) => o,
            Err(e) => return fail("between:error", e.text()),
        };
        let want: Vec<f64> = rows.iter().map(|(t, l, u)| t * (if up > 0 { *u } else { 1.0 } - if lo > 0 { *l } else { 0.0 })).collect();
        check_col("between:value", "volume between", &column(&out, 0, 0), &want)
    });
    // the wrong number of values is rejected
    cx.explore("value-count", |ch| {
        let ty = ch.of(&[Ty::Value, Ty::Interp, Ty::Piecewise { max: 1.0, min: 0.0 }]);
        let n = ch.pick(4);
        let nv = ch.pick(6);
        ch.describe(|| format!("{ty:?} with {n} curves and {nv} values"));
        let mut nb = trivial_network();
        f64p(&mut nb, GenSeriesBuilder::new("x", vec![LEVELS.to_vec()]));
        let cc: Vec<UnresolvedMetricF64> = [0.8, 0.5, 0.3, 0.1][..n].iter().map(|v| (*v).into()).collect();
        if let Ty::Piecewise { max, min } = ty {
            let mut b = PiecewiseInterpolatedParameterBuilder::before("p".into(), pm("x"), max, min);
            for c in &cc {
                b.control_curve(c.clone());
            }
            for _ in 0..nv {
                b.value([1.0, 2.0]);
            }
            f64p(&mut nb, b);
        } else {
            let vals: Vec<UnresolvedMetricF64> = (0..nv).map(|v| (v as f64).into()).collect();
            add_curve_param(&mut nb, "p", ty, pm("x"), &cc, &vals);
        }
        let r = run(domain(time_days(dt0(), 1, LEVELS.len())), nb, vec![pm("p")]);
        let ok = nv == n_values(ty, n);
        match r {
            Ok(_) => chk!(ok, "count:accepted", "{n} curves with {nv} values are accepted"),
            Err(e) => {
                chk!(!e.is_panic(), "count:panic", "{}", e.text());
                chk!(!ok, "count:rejected", "{}", e.text());
            }
        }
        Ok(())
    });
    // interpolation over tables
    let npt = cx.b(3, 4);
    cx.explore("table", |ch| {
        let n = ch.pick(npt + 1);
        let xp = [0.0, 1.0, 3.0, 4.0];
        let fp = [5.0, -2.0, 0.0];
        let pts: Vec<(f64, f64)> = (0..n).map(|_| (ch.of(&xp), ch.of(&fp))).collect();
        let strict = ch.pick(3);
        let src = ch.of(&SRCS);
        let sorted = pts.windows(2).all(|w| w[0].0 < w[1].0);
        ch.describe(|| format!("points {pts:?} error_on_bounds {strict} (0 default, 1 true, 2 false) from {src:?}"));
        let xs = [-1.0, 0.0, 0.25, 1.0, 2.0, 3.0, 3.75, 4.0, 6.0];
        for x in xs {
            let mut nb = trivial_network();
            f64p(&mut nb, GenSeriesBuilder::new("x", vec![vec![x]]));
            let points: Vec<_> = pts
                .iter()
                .enumerate()
                .map(|(i, (a, b))| (supply(&mut nb, &format!("xp{i}"), src, &[*a]), supply(&mut nb, &format!("fp{i}"), src, &[*b])))
                .collect();
            let mut b = InterpolatedParameterBuilder::new("p".into(), pm("x"), points);
            if strict > 0 {
                b.error_on_bounds(strict == 1);
            }
            f64p(&mut nb, b);
            let r = run(domain(time_days(dt0(), 1, 1)), nb, vec![pm("p")]);
            let got = match &r {
                Ok(o) => Some(o[0][0][0]),
                Err(e) => {
                    chk!(!e.is_panic(), "table:panic", "{}", e.text());
                    None
                }
            };
            ch.state(&(x.to_bits(), pts.iter().map(|(a, b)| (a.to_bits(), b.to_bits())).collect::<Vec<_>>()));
            if n < 2 {
                chk!(got.is_none(), "table:few", "{n} points give {got:?}");
                continue;
            }
            if !sorted {
                continue; // an unusable table may be reported when the bad segment is reached
            }
            let (first, last) = (pts[0], pts[n - 1]);
            let want = if x < first.0 || x > last.0 {
                if strict < 2 { None } else { Some(if x < first.0 { first.1 } else { last.1 }) }
            } else {
                let k = pts.windows(2).position(|w| x >= w[0].0 && x <= w[1].0).unwrap();
                Some(line(x, pts[k].0, pts[k + 1].0, pts[k].1, pts[k + 1].1))
            };
            match (got, want) {
                (Some(g), Some(w)) => chk!(close(g, w), "table:value", "x {x}: got {g}, expected {w}"),
                (None, None) => {}
                _ => return fail("table:bounds", format!("x {x}: got {got:?}, expected {want:?}")),
            }
        }
        Ok(())
    });
    // levels that are the proportional volumes of stores in a running network
    let nt = cx.b(3, 4);
    cx.explore("storage", |ch| {
        let ty = ch.of(&TYS);
        let level = ch.pick(3);
        let init: f64 = ch.of(&[0.0, 3.0, 5.0, 10.0]);
        let inflow: Vec<f64> = ch.seq(&[0.0, 2.0, 5.0], nt);
        let demand = ch.of(&[0.0, 3.0]);
        let cc = [0.8, 0.5];
        ch.describe(|| format!("{ty:?} on the level of {}, initial {init} of 10, inflow {inflow:?}, demand {demand}", ["a storage", "an aggregated storage", "a virtual storage"][level]));
        let mut nb = NetworkBuilder::default();
        let mut i = NodeBuilder::input("in");
        f64p(&mut nb, GenSeriesBuilder::new("inflow", vec![inflow.clone()]));
        i.max_flow(pm("inflow"));
        i.cost((-100.0).into());
        let mut st = NodeBuilder::storage("store");
        st.max_volume(10.0.into());
        st.initial_volume(UnresolvedStorageInitialVolume::absolute(init));
        st.cost((-1.0).into());
        let mut o = NodeBuilder::output("out");
        o.max_flow(demand.into());
        o.cost((-10.0).into());
        nb.node(i);
        nb.node(st);
        nb.node(o);
        nb.node(NodeBuilder::output("spill"));
        nb.connect("in", "store");
        nb.connect("store", "out");
        nb.connect("store", "spill");
        let mut st2 = NodeBuilder::storage("store2");
        st2.max_volume(30.0.into());
        st2.initial_volume(UnresolvedStorageInitialVolume::absolute(20.0));
        let mut i2 = NodeBuilder::input("in2");
        i2.max_flow(0.0.into());
        let mut o2 = NodeBuilder::output("out2");
        o2.max_flow(4.0.into());
        o2.cost((-10.0).into());
        nb.node(st2);
        nb.node(i2);
        nb.node(o2);
        nb.connect("in2", "store2");
        nb.connect("store2", "out2");
        let mut agg = AggregatedStorageNodeBuilder::new("agg");
        agg.node("store".into());
        agg.node("store2".into());
        nb.agg_storage_node(agg);
        let mut vs = pywr_core::virtual_storage::VirtualStorageNodeBuilder::new("vs", &["out".into()]);
        vs.factors(&[1.0]);
        vs.max_volume(10.0.into());
        vs.initial_volume(UnresolvedStorageInitialVolume::absolute(init));
        nb.virtual_storage_node(vs);
        let x = match level {
            0 => UnresolvedMetricF64::NodeProportionalVolume("store".into()),
            1 => UnresolvedMetricF64::AggregatedStorageNodeProportionalVolume("agg".into()),
            _ => UnresolvedMetricF64::VirtualStorageProportionalVolume("vs".into()),
        };
        let nv = n_values(ty, cc.len());
        let vals: Vec<UnresolvedMetricF64> = VALS[..nv].iter().map(|v| (*v).into()).collect();
        add_curve_param(&mut nb, "p", ty, x, &cc.map(|c| c.into()), &vals);
        let (pb, sink) = ProbeBuilder::new("probe", vec![pm("p")]);
        nb.recorder(Box::new(pb));
        let mut r = match Run::<MicroLpSolver>::build(pywr_core::models::ModelBuilder::new(domain(time_days(dt0(), 1, nt)), nb)) {
            Ok(r) => r,
            Err(e) => return fail("storage:error", e.text()),
        };
        for t in 0..nt {
            let before = match level {
                0 if t == 0 => init / 10.0,
                0 => r.node_volume("store", 0) / 10.0,
                1 if t == 0 => (init + 20.0) / 40.0,
                1 => (r.node_volume("store", 0) + r.node_volume("store2", 0)) / 40.0,
                _ if t == 0 => init / 10.0,
                _ => r.vs_volume("vs", 0) / 10.0,
            };
            if let Err(e) = r.step() {
                return fail("storage:step", e.text());
            }
            let got = sink.lock().unwrap()[t][0][0];
            // solver rounding must not decide the band
            let near = |x: f64| [0.8, 0.5, 0.0, 1.0].iter().any(|c| (x - c).abs() < 1e-6 && x != *c);
            let want = expect(ty, before, &cc, &VALS[..nv], &PW);
            if !near(before) || !matches!(ty, Ty::Value | Ty::Index | Ty::Piecewise { .. }) {
                chk!((got - want).abs() < 1e-4, "storage:value", "step {t}: level {before}: got {got}, expected {want}");
            }
            ch.state(&(format!("{ty:?}"), level, (before * 1e6).round() as i64));
        }
        Ok(())
    });
    let _ = Ty::Apportion;
    let _ = Ty::Between;
}
