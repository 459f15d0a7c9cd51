//! C01 mass balance, C02 constraints, C03 least cost, C04 exclusivity.
use crate::core::*;
use crate::harness::*;
use crate::rat::*;
use pywr_core::solvers::{HighsSolver, MicroLpSolver, Solver, SolverSettings};

use Kind::*;
use Val::*;

pub fn both(ch: &mut Ch, spec: &NetSpec, j: Judge, tag: &str, highs: bool) -> Res {
    ch.describe(|| spec.text());
    lockstep::<MicroLpSolver>(ch, spec, j, tag)?;
    if highs {
        lockstep::<HighsSolver>(ch, spec, j, &format!("{tag}:highs"))?;
    }
    Ok(())
}
fn opt<T: Clone>(ch: &mut Ch, items: &[T]) -> Option<T> {
    let i = ch.pick(items.len() + 1);
    if i == 0 { None } else { Some(items[i - 1].clone()) }
}

/// Every topology over one input, two middle nodes (link or storage) and one output.
fn topology(ch: &mut Ch) -> Option<(Vec<Kind>, Vec<(usize, usize)>)> {
    let kinds = vec![In, ch.of(&[Link, Sto]), ch.of(&[Link, Sto]), Out];
    let cand = [(0, 1), (0, 2), (0, 3), (1, 2), (2, 1), (1, 3), (2, 3)];
    let edges: Vec<_> = cand.iter().filter(|_| ch.flag()).cloned().collect();
    for n in 0..4 {
        let i = edges.iter().filter(|e| e.1 == n).count();
        let o = edges.iter().filter(|e| e.0 == n).count();
        let ok = match kinds[n] {
            In => o > 0,
            Out => i > 0,
            Link => i > 0 && o > 0,
            Sto => i + o > 0,
        };
        if !ok {
            return None;
        }
    }
    Some((kinds, edges))
}

fn topo_spec(ch: &mut Ch) -> Option<NetSpec> {
    let (kinds, edges) = topology(ch)?;
    let nodes = kinds.iter().map(|k| node(*k)).collect();
    Some(NetSpec::new(nodes, &edges))
}

pub fn c01(cx: &Cx) {
    cx.assume("networks of at most 6 nodes, integer bounds/costs/volumes, at most 4 timesteps; all time-varying inputs are series");
    // every topology, storages with bounds, time-varying inflow and demand
    cx.explore("all-topologies", |ch| {
        let Some(mut spec) = topo_spec(ch) else { return ch.skip() };
        spec.steps = cx.b(3, 4);
        spec.dth = ch.of(&[24, 72, 6]);
        let inflow = ch.of(&[Ser(vec![4, 0, 2, 5]), Gen(vec![vec![1, 6, 0, 3]])]);
        let demand = ch.of(&[Lit(3), Ser(vec![2, 5, 0, 4])]);
        let c = ch.of(&[(-10, 0, 0), (-10, 1, 3), (-3, -5, 2)]);
        for n in 0..4 {
            spec.nodes[n] = match spec.nodes[n].kind {
                In => node(In).max(inflow.clone()),
                Out => node(Out).max(demand.clone()).cost(Lit(c.0)),
                Sto => node(Sto).vol(if n == 1 { 5 } else { 2 }, if n == 1 { None } else { Some(Lit(1)) }, Some(Lit(if n == 1 { 10 } else { 6 }))).cost(Lit(c.n(n))),
                Link => node(Link).max(Lit(7)).cost(Lit(c.n(n))),
            };
        }
        let tag = "mass";
        both(ch, &spec, Judge { feasible: true, optimal: false, infeasible_is_err: false }, tag, cx.thorough)
    });
    // reported metrics equal what flows and volumes imply
    cx.explore("metrics", |ch| if ch.flag() { metrics::<HighsSolver>(ch) } else { metrics::<MicroLpSolver>(ch) });
    // initial volumes, time-varying maximum volume
    cx.explore("storage-bounds", |ch| {
        let mut s = node(Sto);
        s.init = if ch.flag() { Init::Pct(ch.of(&[0, 50, 100])) } else { Init::Abs(ch.of(&[0, 3, 8])) };
        s.vmax = Some(ch.of(&[Lit(8), Par(8), Ser(vec![8, 9, 10, 12]), Ser(vec![8, 8, 6, 5])]));
        s.vmin = opt(ch, &[Lit(0), Lit(2), Par(1), Ser(vec![0, 1, 2, 0])]);
        s.cost = opt(ch, &[Lit(-5), Lit(5)]);
        let mut spec = NetSpec::new(
            vec![node(In).max(ch.of(&[Lit(0), Lit(2), Ser(vec![5, 0, 4, 1])])).min(opt(ch, &[Ser(vec![0, 0, 1, 0])])), s, node(Out).max(ch.of(&[Lit(3), Ser(vec![0, 6, 1, 9])])).cost(Lit(-10))],
            &[(0, 1), (1, 2)],
        );
        spec.steps = 4;
        spec.dth = ch.of(&[24, 48, 12]);
        both(ch, &spec, Judge { feasible: true, optimal: false, infeasible_is_err: false }, "storage", cx.thorough)
    });
}
trait Pick {
    fn n(&self, n: usize) -> i64;
}
impl Pick for (i64, i64, i64) {
    fn n(&self, n: usize) -> i64 {
        if n == 1 { self.1 } else { self.2 }
    }
}


fn un(n: usize) -> pywr_core::node::UnresolvedNode {
    format!("n{n}").as_str().into()
}

/// Every kind of flow and volume metric, read by a recorder after the solve and by a parameter before the next one,
/// against the edge flows.
fn metrics<S: Solver>(ch: &mut Ch) -> Res
where
    <S as Solver>::Settings: SolverSettings + Default,
{
    use pywr_core::metric::UnresolvedMetricF64 as M;
    use pywr_core::network::UnresolvedEdge;
    use pywr_core::{AggregatedNodeBuilder, AggregatedStorageNodeBuilder};
    // n0 in, n1 link, n2 storage, n3 link, n4 out, n5 storage
    let edges = [(0, 1), (1, 2), (0, 2), (2, 3), (3, 4), (1, 5), (5, 4)];
    let vm2 = ch.of(&[Lit(10), Par(11), Ser(vec![10, 12, 14, 9]), Ser(vec![10, 7, 5, 6]), Ser(vec![12, 6, 7, 7]), Lit(0)]);
    let vm5 = ch.of(&[Lit(6), Ser(vec![4, 3, 7, 2]), Lit(0)]);
    let init2 = ch.of(&[0i64, 4, 9]);
    if vm2 == Lit(0) && init2 != 0 {
        return ch.skip();
    }
    let init5 = if vm5 == Lit(0) { 0 } else { 2 };
    let (c2, c5) = ch.of(&[(-3, -2), (3, 2), (-3, 2)]);
    let mut spec = NetSpec::new(
        vec![
            node(In).max(ch.of(&[Ser(vec![5, 0, 9, 2]), Lit(4)])),
            node(Link).max(ch.of(&[Lit(3), Ser(vec![1, 2, 6, 3])])).cost(Lit(1)),
            node(Sto).vol(init2, None, Some(vm2.clone())).cost(Lit(c2)),
            node(Link).max(Lit(7)),
            node(Out).max(ch.of(&[Gen(vec![vec![2, 8, 1, 4], vec![6, 0, 9, 9]]), Lit(3)])).cost(Lit(-20)),
            node(Sto).vol(init5, None, Some(vm5.clone())).cost(Lit(c5)),
        ],
        &edges,
    );
    spec.steps = 4;
    spec.scen = ch.of(&[1, 2]);
    spec.dth = ch.of(&[24, 48, 8]);
    ch.describe(|| spec.text());
    let e = |k: usize| UnresolvedEdge::new(un(edges[k].0), un(edges[k].1));
    let mut ms: Vec<M> = vec![];
    for n in 0..6 {
        ms.push(M::NodeInFlow(un(n)));
        ms.push(M::NodeOutFlow(un(n)));
    }
    for k in 0..edges.len() {
        ms.push(M::EdgeFlow(e(k)));
    }
    ms.push(M::MultiEdgeFlow { edges: vec![e(0), e(3), e(6)], name: "me".into() });
    ms.push(M::MultiNodeInFlow { nodes: vec![un(1), un(4)], name: "mi".into() });
    ms.push(M::MultiNodeOutFlow { nodes: vec![un(0), un(2), un(3)], name: "mo".into() });
    ms.push(M::AggregatedNodeInFlow("agg".into()));
    ms.push(M::AggregatedNodeOutFlow("agg".into()));
    for n in [2, 5] {
        ms.push(M::NodeVolume(un(n)));
        ms.push(M::NodeProportionalVolume(un(n)));
    }
    ms.push(M::AggregatedStorageNodeVolume("aggs".into()));
    ms.push(M::AggregatedStorageNodeProportionalVolume("aggs".into()));
    let before = ms.clone();
    for n in [2, 5] {
        ms.push(M::NodeMaxVolume(un(n)));
    }
    for n in [1, 3, 0] {
        ms.push(M::NodeMaxFlow(un(n)));
    }
    let mut nb = spec.builder();
    let mut a = AggregatedNodeBuilder::new("agg");
    a.nodes(vec![un(1)]);
    a.nodes(vec![un(3)]);
    nb.agg_node(a);
    let mut a = AggregatedStorageNodeBuilder::new("aggs");
    a.node("n2".into());
    a.node("n5".into());
    nb.agg_storage_node(a);
    let (p, sink) = ProbeBuilder::new("probe", ms);
    nb.recorder(Box::new(p));
    let (p, seen) = WatchBuilder::new("watch", before);
    nb.parameters().f64(Box::new(p) as Box<dyn pywr_core::parameters::ParameterBuilder<f64>>);
    let b = pywr_core::models::ModelBuilder::new(spec.model_domain(), nb);
    let mut run = match Run::<S>::build(b) {
        Ok(r) => r,
        Err(e) => return fail("metrics:build", e.text()),
    };
    let dt = spec.dtr().f();
    let mut vol = vec![[init2 as f64, init5 as f64]; spec.scen];
    // what a parameter sees before the step: the flows and volumes at the end of the one before
    let mut last: Vec<Vec<f64>> = vec![vec![]; spec.scen];
    for t in 0..spec.steps {
        let feasible = (0..spec.scen).all(|s| {
            let v: Vec<Rat> = (0..6).map(|n| if n == 2 || n == 5 { Rat::from_f64(vol[s][n / 5]) } else { Rat::ZERO }).collect();
            matches!(spec.optimum(t, s, &v, &[]), LpOut::Optimal(..))
        });
        match run.step() {
            Ok(()) if !feasible => return Ok(()),
            Err(_) if !feasible => {
                ch.out(&("infeasible", t));
                return Ok(());
            }
            Err(e) => return fail("metrics:step", format!("step {t}: {}", e.text())),
            Ok(()) => {}
        }
        for s in 0..spec.scen {
            let x = run.edge_flows(s);
            let fin = |n: usize| -> f64 { spec.ins(n).iter().map(|e| x[*e]).sum() };
            let fout = |n: usize| -> f64 { spec.outs(n).iter().map(|e| x[*e]).sum() };
            for n in [1, 3] {
                chk!(close(fin(n), fout(n)), "metrics:link-balance", "link n{n} in {} out {}", fin(n), fout(n));
            }
            vol[s][0] += (fin(2) - fout(2)) * dt;
            vol[s][1] += (fin(5) - fout(5)) * dt;
            let vol = vol[s];
            let mx = [vm2.at(t, s).f(), vm5.at(t, s).f()];
            let pv = |v: f64, m: f64| if m == 0.0 { 1.0 } else { v / m };
            let mut want: Vec<(String, f64)> = vec![];
            for n in 0..6 {
                want.push((format!("in flow of n{n}"), fin(n)));
                want.push((format!("out flow of n{n}"), fout(n)));
            }
            for k in 0..edges.len() {
                want.push((format!("edge {k}"), x[k]));
            }
            want.push(("multi edge".into(), x[0] + x[3] + x[6]));
            want.push(("multi node in".into(), fin(1) + fin(4)));
            want.push(("multi node out".into(), fout(0) + fout(2) + fout(3)));
            want.push(("aggregated node in flow".into(), fin(1) + fin(3)));
            want.push(("aggregated node out flow".into(), fout(1) + fout(3)));
            for (i, n) in [2, 5].into_iter().enumerate() {
                want.push((format!("volume of n{n}"), vol[i]));
                want.push((format!("proportional volume of n{n}"), pv(vol[i], mx[i])));
            }
            want.push(("aggregated storage volume".into(), vol[0] + vol[1]));
            want.push(("aggregated storage proportional volume".into(), pv(vol[0] + vol[1], mx[0] + mx[1])));
            let nb = want.len();
            for (i, n) in [2, 5].into_iter().enumerate() {
                want.push((format!("max volume of n{n}"), mx[i]));
            }
            for n in [1, 3, 0] {
                want.push((format!("max flow of n{n}"), spec.nodes[n].max.as_ref().unwrap().at(t, s).f()));
            }
            let got = sink.lock().unwrap()[t][s].clone();
            for (k, (w, v)) in want.iter().enumerate() {
                chk!((v - got[k]).abs() < 1e-6, format!("metrics:{}", w.split(" of ").next().unwrap()), "step {t} scenario {s}: {w} reported {} but flows and volumes give {v}", got[k]);
            }
            let before = seen.lock().unwrap()[t][s].clone();
            for (k, v) in last[s].iter().enumerate() {
                chk!((v - before[k]).abs() < 1e-6, format!("metrics:before:{}", want[k].0.split(" of ").next().unwrap()), "step {t} scenario {s}: before the step, a parameter sees {} of {}, which was {v} at the end of the last", before[k], want[k].0);
            }
            last[s] = want[..nb].iter().map(|w| w.1).collect();
            ch.state(&(spec.text(), t, s, vol.map(|v| (v * 1e6) as i64)));
            ch.out(&got.iter().map(|f| (f * 1e6) as i64).collect::<Vec<_>>());
        }
    }
    Ok(())
}

fn bound(ch: &mut Ch, a: i64, b: i64) -> Option<Val> {
    opt(ch, &[Lit(a), Par(a), Ser(vec![a, b]), Gen(vec![vec![b, a]])])
}
const FEAS: Judge = Judge { feasible: true, optimal: false, infeasible_is_err: true };

pub fn c02(cx: &Cx) {
    cx.assume("at most 6 nodes and 4 timesteps; flow tolerance 1e-6; problems without an optimum (unbounded) are out of scope");
    // every combination of bounds on the three nodes of a chain
    cx.explore("chain-bounds", |ch| {
        let sign = ch.of(&[-5i64, 5]);
        let mut nodes = vec![];
        for (i, k) in [In, Link, Out].into_iter().enumerate() {
            let mut n = node(k);
            let (a, b) = [(6, 3), (5, 4), (7, 2)][i];
            n.max = bound(ch, a, b);
            let (a, b) = [(1, 2), (2, 0), (3, 1)][i];
            n.min = bound(ch, a, b);
            nodes.push(n);
        }
        nodes[2].cost = Some(Lit(sign));
        let mut spec = NetSpec::new(nodes, &[(0, 1), (1, 2)]);
        spec.steps = 2;
        both(ch, &spec, FEAS, "chain", cx.thorough)
    });
    // bounds of every sign relation, incl. unsatisfiable ones, over several steps
    cx.explore("bound-histories", |ch| {
        let steps = cx.b(2, 3);
        let vals = [0i64, 1, 3];
        let mk = |ch: &mut Ch| -> Vec<i64> { ch.seq(&vals, steps) };
        let which = ch.of(&[In, Link, Out]);
        let (mn, mx) = (mk(ch), mk(ch));
        let gen_ = ch.flag();
        let v = |x: Vec<i64>| if gen_ { Gen(vec![x]) } else { Ser(x) };
        let mut nodes = vec![node(In).max(Lit(2)), node(Link), node(Out).cost(Lit(ch.of(&[-1, 1])))];
        let k = nodes.iter().position(|n| n.kind == which).unwrap();
        nodes[k].min = Some(v(mn));
        nodes[k].max = Some(v(mx));
        let mut spec = NetSpec::new(nodes, &[(0, 1), (1, 2)]);
        spec.steps = steps;
        both(ch, &spec, FEAS, "hist", true)
    });
    // branched links: 1-2 inflows, 1-2 outflows around a link with bounds
    cx.explore("branched-bounds", |ch| {
        let (ni, no) = (1 + ch.pick(2), 1 + ch.pick(2));
        let mut nodes = vec![node(Link)];
        let mut edges = vec![];
        nodes[0].max = bound(ch, 6, 4);
        nodes[0].min = bound(ch, 1, 2);
        for i in 0..ni {
            let mut n = node(In);
            n.max = Some(ch.of(&[Lit(5), Ser(vec![4, 2])]));
            n.min = if i == 0 { bound(ch, 1, 2) } else { None };
            nodes.push(n);
            edges.push((1 + i, 0));
        }
        for o in 0..no {
            let mut n = node(Out).cost(Lit(-3 + 4 * o as i64));
            n.max = bound(ch, 4, 3);
            n.min = if o == 1 { Some(ch.of(&[Lit(1), Ser(vec![0, 2])])) } else { None };
            nodes.push(n);
            edges.push((0, 1 + ni + o));
        }
        let mut spec = NetSpec::new(nodes, &edges);
        spec.steps = 2;
        both(ch, &spec, FEAS, "branch", cx.thorough)
    });
    // aggregated bounds over every pair of member sets (overlapping and identical ones included)
    cx.explore("aggregated-bounds", |ch| {
        let mut nodes = vec![node(In).max(Lit(5)), node(In).max(Ser(vec![4, 6, 2])), node(Link), node(Out).max(Lit(6)), node(Out).max(Ser(vec![3, 7, 5]))];
        let c = ch.of(&[(-3i64, -2i64), (2, 1), (-3, 1)]);
        nodes[3].cost = Some(Lit(c.0));
        nodes[4].cost = Some(Lit(c.1));
        nodes[1].cost = Some(Lit(1));
        let mut spec = NetSpec::new(nodes, &[(0, 2), (1, 2), (2, 3), (2, 4)]);
        let sets: Vec<Vec<Vec<usize>>> = vec![vec![vec![0], vec![1]], vec![vec![3], vec![4]], vec![vec![0], vec![3]], vec![vec![2], vec![4]], vec![vec![3, 4]], vec![vec![4]]];
        for k in 0..2 {
            let m = ch.of(&sets);
            let max = bound(ch, [4, 5][k], [6, 3][k]);
            let min = if k == 0 { bound(ch, 2, 1) } else { opt(ch, &[Lit(1), Gen(vec![vec![0, 3]])]) };
            if max.is_none() && min.is_none() {
                continue;
            }
            spec.aggs.push(AggSpec { members: m, min, max, rel: None });
        }
        spec.steps = 2;
        both(ch, &spec, FEAS, "agg", cx.thorough)
    });
    // proportional, ratio and coefficient relationships with every value kind
    cx.explore("relationships", |ch| {
        let n = 2 + ch.pick(2);
        let c = ch.of(&[-4i64, 4]);
        let mut nodes = vec![node(In).max(ch.of(&[Lit(12), Ser(vec![6, 9])])).min(opt(ch, &[Lit(3)])), node(Link)];
        let mut edges = vec![(0, 1)];
        for i in 0..n {
            nodes.push(node(Out).cost(Lit(c + i as i64)).max(ch.of(&[Lit(8), Ser(vec![5, 4])])));
            edges.push((1, 2 + i));
        }
        let members: Vec<Vec<usize>> = (0..n).map(|i| vec![2 + i]).collect();
        let v = |ch: &mut Ch, a: i64, b: i64| ch.of(&[Lit(a), Par(a), Ser(vec![a, b]), Gen(vec![vec![a, b]])]);
        let rel = match ch.pick(3) {
            0 => Rel::Prop((1..n).map(|i| v(ch, [25, 40][i - 1], [50, 20][i - 1])).collect()),
            1 => Rel::Ratio((0..n).map(|i| v(ch, [1, 2, 4][i], [3, 1, 2][i])).collect()),
            _ => {
                if n > 2 {
                    return ch.skip();
                }
                let f = vec![v(ch, 2, 1), v(ch, 3, 1)];
                Rel::Coef(f, opt(ch, &[Lit(6), Par(6), Ser(vec![6, 4]), Gen(vec![vec![6, 4]])]))
            }
        };
        let mut spec = NetSpec::new(nodes, &edges);
        if let Rel::Ratio(..) = rel {
            spec.ratio_scale = ch.of(&[1.0, 1e-4, 1e4]);
        }
        spec.aggs.push(AggSpec { members, min: None, max: if ch.flag() { Some(Lit(7)) } else { None }, rel: Some(rel) });
        spec.steps = 2;
        both(ch, &spec, FEAS, "rel", cx.thorough)
    });
    // two relationships on the same nodes, and nodes reached over shared edges
    cx.explore("relationship-pairs", |ch| {
        let mut nodes = vec![node(In).max(Lit(12)), node(Link), node(Link), node(Link), node(Out).max(Lit(5)), node(Out).max(Lit(7)), node(Out).max(Ser(vec![4, 3]))];
        for (i, c) in [(4, -3i64), (5, -2), (6, -4)] {
            nodes[i].cost = Some(Lit(c));
        }
        // 0 -> 1 -> {2,3}; 2 -> 4; 3 -> {5,6}
        let mut spec = NetSpec::new(nodes, &[(0, 1), (1, 2), (1, 3), (2, 4), (3, 5), (3, 6)]);
        let pairs: Vec<Vec<Vec<usize>>> = vec![vec![vec![2], vec![3]], vec![vec![4], vec![5]], vec![vec![5], vec![6]], vec![vec![4], vec![5, 6]], vec![vec![3], vec![5]], vec![vec![1], vec![3]], vec![vec![0], vec![5, 4]]];
        let v = |ch: &mut Ch, a: i64, b: i64| ch.of(&[Lit(a), Ser(vec![a, b]), Gen(vec![vec![a, b]])]);
        for k in 0..2 {
            let m = ch.of(&pairs);
            let (a, b) = [(1, 2), (2, 1)][k];
            let rel = match ch.pick(if k == 0 { 2 } else { 3 }) {
                0 => Rel::Ratio(vec![v(ch, a, b), v(ch, b, a)]),
                1 => Rel::Coef(vec![v(ch, a, b), Lit(b)], Some(Lit(4))),
                _ => Rel::Prop(vec![Lit(50)]),
            };
            spec.aggs.push(AggSpec { members: m, min: None, max: None, rel: Some(rel) });
        }
        spec.steps = 2;
        both(ch, &spec, FEAS, "relpair", cx.thorough)
    });
    // storage members in relationships and aggregated limits
    cx.explore("storage-members", |ch| {
        let mut s = node(Sto).vol(4, None, Some(Lit(10)));
        s.cost = Some(Lit(ch.of(&[-2i64, 2])));
        let nodes = vec![node(In).max(ch.of(&[Lit(5), Ser(vec![2, 6, 1])])), s, node(Out).max(ch.of(&[Lit(4), Ser(vec![6, 0, 5])])).cost(Lit(-3)), node(Out).cost(Lit(-1)).max(Lit(2))];
        let mut spec = NetSpec::new(nodes, &[(0, 1), (1, 2), (0, 3)]);
        let m: Vec<Vec<usize>> = ch.of(&[vec![vec![1], vec![3]], vec![vec![2], vec![1]], vec![vec![1]], vec![vec![3], vec![2]]]);
        let v = |ch: &mut Ch, a: i64, b: i64| ch.of(&[Lit(a), Ser(vec![a, b]), Gen(vec![vec![a, b]])]);
        let k = ch.pick(3);
        let two = m.len() == 2;
        let (min, max, rel) = match k {
            0 => (opt(ch, &[Lit(0), Ser(vec![1, 0, 1])]), Some(v(ch, 3, 1)), None),
            1 if two => (None, None, Some(Rel::Ratio(vec![v(ch, 1, 2), v(ch, 2, 1)]))),
            2 if two => (None, None, Some(Rel::Coef(vec![v(ch, 1, 2), Lit(1)], Some(Lit(2))))),
            _ => return ch.skip(),
        };
        spec.aggs.push(AggSpec { members: m, min, max, rel });
        spec.steps = 3;
        both(ch, &spec, FEAS, "stomem", cx.thorough)
    });
    // time-varying storage limits
    cx.explore("storage-limits", |ch| {
        let steps = cx.b(2, 3);
        let mut s = node(Sto);
        s.init = Init::Abs(ch.of(&[2i64, 4]));
        s.vmax = Some(Ser(ch.seq(&[4i64, 3, 6], steps)));
        s.vmin = Some(Ser(ch.seq(&[0i64, 2, 4], steps)));
        s.cost = Some(Lit(ch.of(&[-1i64, 1])));
        let mut spec = NetSpec::new(vec![node(In).max(Lit(1)), s, node(Out).max(Lit(2)).min(opt(ch, &[Lit(1)])).cost(Lit(ch.of(&[-2i64, 2])))], &[(0, 1), (1, 2)]);
        spec.steps = steps;
        spec.dth = ch.of(&[24, 48]);
        both(ch, &spec, FEAS, "stolim", cx.thorough)
    });
}

pub fn c03(cx: &Cx) {
    cx.assume("integer costs, bounds and volumes; at most 6 nodes; the optimum is computed exactly by a rational simplex, checked by exhaustive vertex enumeration on startup");
    let opt_j = Judge { feasible: true, optimal: true, infeasible_is_err: false };
    // all topologies x all cost assignments
    cx.explore("topologies-costs", |ch| {
        let Some(mut spec) = topo_spec(ch) else { return ch.skip() };
        let cs = cx.b(vec![-2i64, 0, 3], vec![-2i64, -1, 0, 3]);
        for n in 0..4 {
            let c = Some(Lit(ch.of(&cs)));
            spec.nodes[n] = match spec.nodes[n].kind {
                In => node(In).max(Lit(4)),
                Out => node(Out).max(Lit(5)),
                Sto => node(Sto).vol(3, None, Some(Lit(6))),
                Link => node(Link).max(Lit(3)),
            }
            .cost(c);
        }
        both(ch, &spec, opt_j, "topo", true)
    });
    // every way of supplying costs, changing over time
    cx.explore("cost-kinds", |ch| {
        let kinds = |a: i64, b: i64| vec![Lit(a), Par(a), Ser(vec![a, b, a]), Gen(vec![vec![b, a, b]])];
        let nodes = vec![
            node(In).max(Lit(4)).cost(ch.of(&kinds(1, 6))),
            node(In).max(Ser(vec![5, 2, 4])).cost(ch.of(&kinds(3, 2))),
            node(Link).max(Lit(6)).cost(ch.of(&kinds(2, -3))),
            node(Sto).vol(5, None, Some(Lit(9))).cost(ch.of(&kinds(-4, 5))),
            node(Out).max(Lit(5)).cost(ch.of(&kinds(-9, -1))),
            node(Out).max(Lit(3)).cost(ch.of(&kinds(-6, 7))),
        ];
        let mut spec = NetSpec::new(nodes, &[(0, 2), (1, 2), (2, 3), (3, 4), (2, 5), (2, 4)]);
        spec.steps = 3;
        both(ch, &spec, opt_j, "kinds", cx.thorough)
    });
    // virtual storage costs aggregated into node costs
    cx.explore("virtual-storage-costs", |ch| {
        let nvs = ch.pick(3);
        let agg = ch.of(&[None, Some(0u8), Some(1), Some(2)]);
        let mut nodes = vec![node(In).max(Lit(6)).cost(ch.of(&[Some(Lit(2)), Some(Ser(vec![2, -4])), None])), node(In).max(Lit(6)).cost(Lit(1)), node(Link), node(Out).max(ch.of(&[Lit(8)])).cost(Lit(ch.of(&[-10i64, -1])))];
        nodes[0].agg_cost = agg;
        if ch.flag() {
            nodes[2].agg_cost = agg;
        }
        let mut spec = NetSpec::new(nodes, &[(0, 2), (1, 2), (2, 3)]);
        for i in 0..nvs {
            let members = ch.of(&[vec![(0usize, 1i64)], vec![(0, 1), (2, 2)], vec![(1, 1)]]);
            let cost = ch.of(&[Some(Lit(-3)), Some(Ser(vec![5, -2])), None, Some(Par(4))]);
            spec.vs.push(VsSpec { members, init: 40 + i as i64, vmin: 0, vmax: 100, cost });
        }
        spec.steps = 2;
        both(ch, &spec, opt_j, "vscost", true)
    });
    // costs interacting with constraints of every kind
    cx.explore("constrained-costs", |ch| {
        let cs = [-3i64, 1, 4];
        let mut nodes = vec![node(In).max(Lit(5)), node(In).max(Lit(4)), node(Link), node(Out).max(Lit(6)), node(Out).max(Lit(4))];
        for n in nodes.iter_mut() {
            n.cost = Some(Lit(ch.of(&cs)));
        }
        let mut spec = NetSpec::new(nodes, &[(0, 2), (1, 2), (2, 3), (2, 4)]);
        let a = match ch.pick(6) {
            0 => AggSpec { members: vec![vec![0], vec![4]], min: Some(Lit(2)), max: Some(Lit(6)), rel: None },
            1 => AggSpec { members: vec![vec![3], vec![4]], min: None, max: None, rel: Some(Rel::Ratio(vec![Lit(1), Lit(2)])) },
            2 => AggSpec { members: vec![vec![0], vec![1]], min: Some(Lit(3)), max: None, rel: Some(Rel::Prop(vec![Lit(25)])) },
            3 => AggSpec { members: vec![vec![0], vec![3]], min: None, max: None, rel: Some(Rel::Coef(vec![Lit(1), Lit(1)], Some(Lit(7)))) },
            4 => AggSpec { members: vec![vec![0], vec![1]], min: None, max: None, rel: Some(Rel::Excl(0, 1)) },
            _ => AggSpec { members: vec![vec![3], vec![4]], min: Some(Lit(1)), max: None, rel: Some(Rel::Excl(1, 1)) },
        };
        spec.aggs.push(a);
        both(ch, &spec, opt_j, "constr", true)
    });
    // SIMD interior point solver: several scenarios at once, against the exact optimum
    cx.explore("ipm-simd", |ch| ipm(cx, ch));
    // and over every topology, with different limits in every lane
    cx.explore("ipm-topologies", |ch| {
        let Some(mut spec) = topo_spec(ch) else { return ch.skip() };
        if spec.nodes[1].kind == Sto && spec.nodes[2].kind == Sto && spec.edges.contains(&(1, 2)) && spec.edges.contains(&(2, 1)) {
            return ch.skip(); // a circulation without a limit
        }
        // (with costs that differ between the lanes)
        let w = |a: [i64; 6]| Gen(a.iter().map(|x| vec![*x]).collect());
        let cs = [Lit(-2), Lit(0), Lit(3), w([2, -3, 0, 4, -1, 1])];
        let zero = ch.flag();
        let (dth, scen) = ch.of(&[(24, 5), (36, 3), (6, 6)]);
        for n in 0..4 {
            let c = Some(ch.of(&cs));
            let g = |a: i64, b: i64| Gen(vec![vec![a, b], vec![b, a], vec![a + 1, b], vec![if zero { 0 } else { a }, if zero { 0 } else { 2 }], vec![1, 8], vec![b, 3]]);
            spec.nodes[n] = match spec.nodes[n].kind {
                In => node(In).max(g(4, 2)),
                Out => node(Out).max(g(5, 3)),
                Sto => node(Sto).vol(3, None, Some(Lit(6))),
                Link => node(Link).max(g(3, 7)),
            }
            .cost(c);
        }
        spec.steps = 2;
        spec.scen = scen;
        spec.dth = dth;
        ipm_run(ch, &spec)
    });
}

fn ipm(cx: &Cx, ch: &mut Ch) -> Res {
    let ns = ch.of(&[1usize, 3, 5]);
    let c = ch.of(&[(-10i64, -1i64), (-10, 2), (-3, -4)]);
    let infl = ch.of(&[vec![vec![4i64, 1, 0], vec![0, 9, 2], vec![7, 7, 7], vec![1, 2, 3], vec![5, 0, 5]], vec![vec![3, 3, 3], vec![2, 0, 1], vec![0, 0, 8], vec![6, 1, 1], vec![9, 9, 0]]]);
    let dem = ch.of(&[Lit(4), Ser(vec![2, 7, 3]), Gen(vec![vec![1, 2, 3], vec![5, 5, 5], vec![0, 9, 0], vec![3, 3, 3], vec![2, 2, 2]])]);
    let topo = ch.pick(2);
    let nodes = vec![node(In).max(Gen(infl)), node(Sto).vol(5, None, Some(Lit(10))).cost(Lit(c.1)), node(Link).max(ch.of(&[Lit(5), Lit(20)])).cost(Lit(1)), node(Out).max(dem).cost(Lit(c.0)), node(Out).max(Lit(50)).cost(Lit(0))];
    let edges: &[(usize, usize)] = if topo == 0 { &[(0, 1), (1, 2), (2, 3), (0, 4)] } else { &[(0, 2), (2, 1), (1, 3), (2, 3), (2, 4)] };
    let mut spec = NetSpec::new(nodes, edges);
    spec.steps = cx.b(2, 3);
    spec.scen = ns;
    ipm_run(ch, &spec)
}
fn ipm_run(ch: &mut Ch, spec: &NetSpec) -> Res {
    use pywr_core::models::ModelBuilder;
    use pywr_core::network::NetworkTimings;
    use pywr_core::solvers::{SimdIpmF64Solver, SimdIpmSolverSettings};
    let ns = spec.scen;
    let sto: Vec<usize> = (0..spec.nodes.len()).filter(|n| spec.nodes[*n].kind == Sto).collect();
    ch.describe(|| format!("ipm {}", spec.text()));
    let dom = if ns == 1 { domain(time_hours(dt0(), spec.dth, spec.steps)) } else { spec.model_domain() };
    let model = match imp(|| ModelBuilder::new(dom, spec.builder()).build().map_err(|e| chain(&e))) {
        Ok(m) => m,
        Err(e) => return fail("ipm:build", e.text()),
    };
    let settings = SimdIpmSolverSettings::default();
    let mut state = match imp(|| model.setup_multi_scenario::<SimdIpmF64Solver>(&settings).map_err(|e| chain(&e))) {
        Ok(s) => s,
        Err(e) => return fail("ipm:setup", e.text()),
    };
    let pool = pool();
    let mut tim = NetworkTimings::new_without_component_timings();
    let mut vol: Vec<Vec<Rat>> = (0..ns).map(|_| spec.nodes.iter().map(|n| if let Init::Abs(v) = n.init { Rat::int(v) } else { Rat::ZERO }).collect()).collect();
    for t in 0..spec.steps {
        let key = |k: &'static str, vol: &[Vec<Rat>], lanes: std::ops::Range<usize>| {
            let r = lanes.map(|s| spec.lp(t, s, &vol[s], &[], &[]).interior()).fold(1.0, f64::min);
            if r < 1e-3 { "ipm:no-interior" } else { k }
        };
        if let Err(e) = imp(|| model.step_multi_scenario(&mut state, &pool, &mut tim).map_err(|e| chain(&e))) {
            return fail(key("ipm:step", &vol, 0..ns), format!("step {t}: {}", e.text()));
        }
        for s in 0..ns {
            let si = &model.domain().scenarios().indices()[s];
            let st = state.network_state().state(si).get_network_state();
            let x: Vec<f64> = model.network().edges().iter().map(|e| st.get_edge_flow(&e.index()).unwrap()).collect();
            let lp = spec.lp(t, s, &vol[s], &[], &[]);
            if let Some(w) = lp.violated(&x, 1e-3) {
                return fail(key("ipm:constraint", &vol, s..s + 1), format!("step {t} scenario {s}: flows {x:?} violate {w}"));
            }
            let LpOut::Optimal(o, _) = lp.solve() else { return fail("ipm:oracle", "reference has no optimum") };
            let got = lp.objective(&x);
            let near = (got - o.f()).abs() < 2e-3 * (1.0 + o.f().abs());
            chk!(near, if near { "" } else { key("ipm:cost", &vol, s..s + 1) }, "step {t} scenario {s}: cost {got}, optimum {}", o.f());
            for n in &sto {
                let ni = model.network().get_node_index_by_name(&format!("n{n}"), None).unwrap();
                let v = st.get_node_volume(&ni).unwrap();
                let want = vol[s][*n].f() + spec.node_flow(*n, &x) * spec.dtr().f();
                chk!((v - want).abs() < 1e-3, "ipm:volume", "step {t} scenario {s}: volume {v}, expected {want}");
                vol[s][*n] = Rat::new((v * 1e4).round() as i128, 10_000);
                ch.state(&(spec.text(), t, s, (v * 1e3).round() as i64));
                ch.out(&((v * 1e2).round() as i64));
            }
        }
    }
    Ok(())
}
fn pool() -> &'static rayon::ThreadPool {
    static P: std::sync::OnceLock<rayon::ThreadPool> = std::sync::OnceLock::new();
    P.get_or_init(|| rayon::ThreadPoolBuilder::new().num_threads(4).build().unwrap())
}

pub fn c04(cx: &Cx) {
    cx.assume("exclusive sets of at most 3 members, integer bounds; flow limits below the solver's big-M of 1e6");
    // one set: members are outputs behind a link
    cx.explore("single-set", |ch| {
        let n = 2 + ch.pick(2);
        let hi = ch.pick(n + 1) as u64;
        let lo = ch.pick(hi as usize + 1) as u64;
        let mut nodes = vec![node(In).max(ch.of(&[Lit(9), Ser(vec![4, 9])])), node(Link)];
        let mut edges = vec![(0, 1)];
        let c = ch.of(&[-4i64, 3]);
        for i in 0..n {
            let (a, b) = [(5, 2), (4, 6), (3, 1)][i];
            let max = ch.of(&[Some(Lit(a)), Some(Ser(vec![a, b])), Some(Gen(vec![vec![b, a]])), None]);
            let min = if i < 2 { ch.of(&[None, Some(Lit(1)), Some(Ser(vec![2, 1]))]) } else { None };
            nodes.push(node(Out).max(max).min(min).cost(Lit(c - i as i64)));
            edges.push((1, 2 + i));
        }
        let mut spec = NetSpec::new(nodes, &edges);
        spec.aggs.push(AggSpec { members: (0..n).map(|i| vec![2 + i]).collect(), min: None, max: None, rel: Some(Rel::Excl(lo, hi)) });
        spec.steps = 2;
        ch.describe(|| spec.text());
        lockstep::<MicroLpSolver>(ch, &spec, ALL, "single")?;
        if cx.thorough || n == 2 && c < 0 {
            lockstep::<HighsSolver>(ch, &spec, ALL, "single:highs")?;
        }
        Ok(())
    });
    // limits of any magnitude, up to the solver's big-M
    cx.explore("magnitudes", |ch| {
        let k = ch.of(&[10i64, 100, 1_000, 10_000, 100_000]);
        let v = |ch: &mut Ch, a: i64, b: i64| ch.of(&[Some(Lit(a * k)), Some(Ser(vec![a * k, b * k])), Some(Gen(vec![vec![b * k, a]])), None]);
        let nodes = vec![
            node(In).max(Lit(9 * k)),
            node(Link),
            node(Out).max(v(ch, 5, 2)).cost(Lit(-3)),
            node(Out).max(v(ch, 4, 6)).min(opt(ch, &[Lit(k), Ser(vec![2 * k, 1])])).cost(Lit(-4)),
        ];
        let mut spec = NetSpec::new(nodes, &[(0, 1), (1, 2), (1, 3)]);
        spec.aggs.push(AggSpec { members: vec![vec![2], vec![3]], min: None, max: None, rel: Some(Rel::Excl(ch.pick(2) as u64, 1)) });
        spec.steps = 2;
        ch.describe(|| spec.text());
        lockstep::<MicroLpSolver>(ch, &spec, ALL, "scale")?;
        lockstep::<HighsSolver>(ch, &spec, ALL, "scale:highs")
    });
    // histories of limits
    cx.explore("limit-histories", |ch| {
        let steps = cx.b(2, 3);
        let vals = [0i64, 1, 4];
        let m: Vec<Vec<i64>> = (0..2).map(|_| ch.seq(&vals, steps)).collect();
        let mn = ch.of(&[None, Some(Ser(vec![0, 1, 0])), Some(Ser(vec![1, 0, 2]))]);
        let gen_ = ch.flag();
        let v = |x: &Vec<i64>| if gen_ { Gen(vec![x.clone()]) } else { Ser(x.clone()) };
        let nodes = vec![node(In).max(v(&m[0])).min(mn).cost(Lit(1)), node(In).max(v(&m[1])).cost(Lit(2)), node(Link), node(Out).cost(Lit(-5)).max(Lit(6))];
        let mut spec = NetSpec::new(nodes, &[(0, 2), (1, 2), (2, 3)]);
        let lo = ch.pick(2) as u64;
        spec.aggs.push(AggSpec { members: vec![vec![0], vec![1]], min: None, max: None, rel: Some(Rel::Excl(lo, 1)) });
        spec.steps = steps;
        ch.describe(|| spec.text());
        lockstep::<HighsSolver>(ch, &spec, ALL, "hist")?;
        lockstep::<MicroLpSolver>(ch, &spec, ALL, "hist")
    });
    // two sets on the same or different members, and members that are groups of nodes
    cx.explore("set-pairs", |ch| {
        let b = |ch: &mut Ch, a: i64, b: i64| ch.of(&[Lit(a), Ser(vec![a, b])]);
        let cs = ch.of(&[(1i64, 2i64, -5i64, -3i64), (2, 1, -1, -6)]);
        let nodes = vec![node(In).max(b(ch, 4, 2)).cost(Lit(cs.0)), node(In).max(b(ch, 5, 3)).cost(Lit(cs.1)), node(Link), node(Out).max(b(ch, 3, 6)).cost(Lit(cs.2)), node(Out).max(b(ch, 6, 1)).cost(Lit(cs.3))];
        let mut spec = NetSpec::new(nodes, &[(0, 2), (1, 2), (2, 3), (2, 4)]);
        let sets: Vec<Vec<Vec<usize>>> = vec![vec![vec![0], vec![1]], vec![vec![3], vec![4]], vec![vec![0], vec![3]], vec![vec![0, 3], vec![1, 4]], vec![vec![1], vec![3], vec![4]]];
        for _ in 0..2 {
            let m = ch.of(&sets);
            let hi = 1 + ch.pick(2) as u64;
            let lo = ch.pick(2) as u64;
            spec.aggs.push(AggSpec { members: m, min: None, max: opt(ch, &[Lit(3)]), rel: Some(Rel::Excl(lo, hi)) });
        }
        spec.steps = 2;
        ch.describe(|| spec.text());
        lockstep::<MicroLpSolver>(ch, &spec, ALL, "pairs")?;
        if cx.thorough {
            lockstep::<HighsSolver>(ch, &spec, ALL, "pairs:highs")?;
        }
        Ok(())
    });
    // exclusive links in a network with storage, several scenarios
    cx.explore("links-and-storage", |ch| {
        let b = |ch: &mut Ch, a: i64, b: i64| ch.of(&[Lit(a), Ser(vec![a, b]), Gen(vec![vec![b, a, b], vec![a, b, a]])]);
        let nodes = vec![
            node(In).max(b(ch, 6, 1)),
            node(Link).max(b(ch, 4, 2)).cost(Lit(1)),
            node(Link).max(b(ch, 3, 5)).cost(Lit(ch.of(&[0i64, 2]))).min(opt(ch, &[Lit(1), Ser(vec![2, 1])])),
            node(Sto).vol(3, None, Some(Lit(8))).cost(Lit(-2)),
            node(Out).max(b(ch, 5, 3)).cost(Lit(-9)),
        ];
        let mut spec = NetSpec::new(nodes, &[(0, 1), (0, 2), (1, 3), (2, 4), (3, 4)]);
        spec.aggs.push(AggSpec { members: vec![vec![1], vec![2]], min: None, max: None, rel: Some(Rel::Excl(ch.pick(2) as u64, 1)) });
        spec.steps = 3;
        spec.scen = 1 + ch.pick(2);
        ch.describe(|| spec.text());
        if cx.thorough || spec.scen == 1 {
            lockstep::<HighsSolver>(ch, &spec, ALL, "links:highs")?;
        }
        lockstep::<MicroLpSolver>(ch, &spec, ALL, "links")
    });
}
