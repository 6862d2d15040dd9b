//! C09: metrics normalized by mean.
use crate::{
    c01::{dense, pairs, show},
    c02::{contract, Mode},
    engine::{guard, perms, pow, Ctx, Dig, Local, Verdict},
    model::*,
};
use osmgraphing::{
    configs::routing::RoutingAlgo,
    network::{EdgeIdx, Graph, MetricIdx},
    routing::dijkstra::Dijkstra,
};

fn cfgn(dim: usize, normalize: &str, gen: &str) -> PCfg {
    let mets: Vec<(String, String)> = (0..dim).map(|i| ("F64".to_string(), format!("m{}", i))).collect();
    let t = cfg_text("x.fmi", &mets, false, gen);
    cfg_yaml(&t.replace("  edges:\n    data:", &format!("  edges:\n{}    data:", normalize)))
}

const ON: &str = "    will_normalize_metrics_by_mean: true\n";
const OFF: &str = "    will_normalize_metrics_by_mean: false\n";

/// edges of the graph as (src, dst, metrics), sorted
fn table(g: &Graph) -> Vec<(i64, i64, Vec<f64>)> {
    let mut v: Vec<(i64, i64, Vec<f64>)> = endpoints(g)
        .iter()
        .enumerate()
        .map(|(i, (a, b))| (g.nodes().id(osmgraphing::network::NodeIdx(*a)), g.nodes().id(osmgraphing::network::NodeIdx(*b)), g.metrics()[EdgeIdx(i)].to_vec()))
        .collect();
    v.sort_by(|x, y| x.partial_cmp(y).unwrap());
    v
}

/// `es` are distinct; `m` of an edge are the metrics after generating
fn judge(r: Result<Graph, String>, es: &[(i64, i64, Vec<f64>)], dim: usize, on: bool, l: &mut Local, text: &dyn Fn() -> String) -> Verdict {
    l.step(1);
    l.eval(1);
    l.validated += 1;
    let n = es.len() as f64;
    let means: Vec<f64> = (0..dim).map(|k| es.iter().map(|x| x.2[k]).sum::<f64>() / n).collect();
    let reject = on && (es.is_empty() || means.iter().any(|m| m.abs() < 0.5e-6));
    if reject {
        l.outcome(&0u8);
        return match r {
            Err(_) => Ok(()),
            Ok(_) => Err(format!("without a mean (or with a mean of 0), nothing can be normalized, but it is accepted: {}", text())),
        };
    }
    let g = r.map_err(|m| format!("{}: {}", m, text()))?;
    let mut want = es.to_vec();
    for x in want.iter_mut() {
        for k in 0..dim {
            if on {
                x.2[k] /= means[k];
                if x.2[k] < 0.9e-6 {
                    x.2[k] = 1e-6;
                }
            }
        }
    }
    want.sort_by(|x, y| x.partial_cmp(y).unwrap());
    let got = table(&g);
    if got.len() != want.len() {
        return Err(format!("{} edges instead of {}: {}", got.len(), want.len(), text()));
    }
    for (a, b) in got.iter().zip(&want) {
        let same = a.0 == b.0 && a.1 == b.1 && a.2.len() == b.2.len() && a.2.iter().zip(&b.2).all(|(x, y)| if on { (x - y).abs() <= 1e-9 * y } else { x == y });
        if !same {
            return Err(format!("edge {:?} instead of {:?}: {}", a, b, text()));
        }
    }
    for k in 0..dim {
        let m = g.metrics().mean(MetricIdx(k));
        match (on, m) {
            (false, None) => (),
            (true, Some(m)) if (m - means[k]).abs() <= 1e-9 * means[k].abs() => (),
            _ => return Err(format!("mean of metric {} is {:?} instead of {}{}: {}", k, m, if on { "" } else { "not there; it would be " }, means[k], text())),
        }
    }
    l.outcome(&got.iter().map(|x| x.2.iter().map(|y| y.to_bits()).collect::<Vec<_>>()).collect::<Vec<_>>());
    Ok(())
}

fn plain(es: &[E]) -> Vec<(i64, i64, Vec<f64>)> {
    es.iter().map(|x| (x.src, x.dst, x.m.clone())).collect()
}

pub fn run(c: &mut Ctx) {
    let ps = pairs(3, true);
    {
        let vals: &[&[f64]] = &[&[1.0, 1000.0], &[0.25, 3.0], &[7.5, 3.0]];
        let opts = [("", false), (ON, true), (OFF, false)];
        let cf: Vec<PCfg> = opts.iter().map(|o| cfgn(2, o.0, "")).collect();
        c.family("networks", "all digraphs on 3 nodes with self-loops, 2 metrics out of 3 pairs; normalizing on, off, not mentioned (off)", pow(4, 9) * 3, |i, l| {
            let o = (i % 3) as usize;
            let es = dense(i / 3, &ps, vals, &IDS[..3]);
            if es.is_empty() && o != 1 {
                return Ok(());
            }
            let r = guard(|| build(&cf[o], &es, &nodes_of(&es))).and_then(|x| x);
            judge(r, &plain(&es), 2, opts[o].1, l, &|| show(&es))
        });
    }
    // repeated edges count once
    {
        let k = cfgn(1, ON, "");
        let al: Vec<E> = vec![e(-7, 0, &[1.0]), e(0, 3, &[4.0]), e(3, -7, &[2.5]), e(-7, -7, &[10.0])];
        let depth = c.pick(6, 8);
        c.family("repeated", &format!("all sequences of {} inserts out of 4 edges: an edge which is inserted repeatedly counts once", depth), pow(4, depth), |i, l| {
            let mut d = Dig(i);
            let es: Vec<E> = (0..depth).map(|_| al[d.take(4) as usize].clone()).collect();
            let mut distinct = plain(&es);
            distinct.sort_by(|x, y| x.partial_cmp(y).unwrap());
            distinct.dedup();
            let r = guard(|| build(&k, &es, &nodes_of(&es))).and_then(|x| x);
            judge(r, &distinct, 1, true, l, &|| show(&es))
        });
    }
    // values and dimensions
    {
        let vals = [0.0, 2e-6, 0.5, 1.0, 1e3, 1e9];
        c.family("values", &format!("2 edges of 1..3 metrics, all values out of {:?}: normalized values around 0 become 1e-6", vals), [1, 2, 3].iter().map(|d| pow(6, 2 * d)).sum(), |i, l| {
            let (dim, i) = if i < 36 { (1, i) } else if i < 36 + 1296 { (2, i - 36) } else { (3, i - 36 - 1296) };
            let mut d = Dig(i);
            let mut ms = || (0..dim).map(|_| vals[d.take(6) as usize]).collect::<Vec<f64>>();
            let es = vec![e(0, 3, &ms()), e(3, 0, &ms())];
            let k = cfgn(dim, ON, "");
            let r = guard(|| build(&k, &es, &nodes_of(&es))).and_then(|x| x);
            let st: Vec<_> = plain(&es).into_iter().map(|(a, b, m)| (a, b, m.into_iter().map(|x| if x == 0.0 { 1e-6 } else { x }).collect::<Vec<f64>>())).collect();
            // too close to what counts as 0
            for k in 0..dim {
                let mean = st.iter().map(|x| x.2[k]).sum::<f64>() / 2.0;
                if (0.5e-6..2e-6).contains(&mean) || st.iter().any(|x| (0.4e-6..2.5e-6).contains(&(x.2[k] / mean))) {
                    return Ok(());
                }
            }
            judge(r, &st, dim, true, l, &|| show(&es))
        });
        c.family("dimensions", "all digraphs on 3 nodes, 1..5 metrics", pow(2, 9) * 5, |i, l| {
            let dim = (i % 5 + 1) as usize;
            let es: Vec<E> = dense(i / 5, &ps, &[&[1.0]], &IDS[..3])
                .into_iter()
                .enumerate()
                .map(|(j, x)| E { m: (0..dim).map(|k| (1 + (j * 7 + k * 5) % 11) as f64 * 10f64.powi(k as i32 * 2 - 4)).collect(), ..x })
                .collect();
            let k = cfgn(dim, ON, "");
            let r = guard(|| build(&k, &es, &nodes_of(&es))).and_then(|x| x);
            judge(r, &plain(&es), dim, true, l, &|| show(&es))
        });
    }
    // generated metrics
    {
        let gens: Vec<(&str, Box<dyn Fn(&[f64]) -> Vec<f64> + Sync>)> = vec![
            ("    - custom: { id: c, default: 4.0 }\n", Box::new(|m| vec![m[0], m[1], 4.0])),
            ("    - custom: { id: c }\n", Box::new(|m| vec![m[0], m[1], 0.0])),
            ("    - copy: { from: { unit: F64, id: m1 }, to: { unit: F64, id: c } }\n", Box::new(|m| vec![m[0], m[1], m[1]])),
            ("    - convert: { from: { unit: Kilometers, id: m0 }, to: { unit: Meters, id: m0 } }\n", Box::new(|m| vec![m[0] * 1000.0, m[1]])),
            ("    - calc: { result: { unit: Hours, id: c }, a: { unit: Kilometers, id: m0 }, b: { unit: KilometersPerHour, id: m1 } }\n", Box::new(|m| vec![m[0], m[1], m[0] / m[1]])),
            ("    - meta: { info: EdgeId, id: edge-id }\n", Box::new(|m| m.to_vec())),
        ];
        let vals: &[&[f64]] = &[&[1.0, 1000.0], &[0.25, 3.0]];
        let ps2 = pairs(3, false);
        let ng = gens.len() as u64;
        c.family("generated", "all digraphs on 3 nodes, 6 generating steps: generated and converted metrics are normalized, too", pow(3, 6) * ng, |i, l| {
            let (gen, f) = &gens[(i % ng) as usize];
            let es = dense(i / ng, &ps2, vals, &IDS[..3]);
            let k = cfgn(2, ON, &format!("  generating:\n    nodes: []\n    edges:\n{}", gen));
            let r = guard(|| build(&k, &es, &nodes_of(&es))).and_then(|x| x);
            let want: Vec<_> = es.iter().map(|x| (x.src, x.dst, f(&x.m))).collect();
            let dim = f(&[1.0, 1.0]).len();
            judge(r, &want, dim, true, l, &|| format!("{}{}", gen, show(&es)))
        });
    }
    // shortcuts
    {
        let ps2 = pairs(3, false);
        let vals: &[&[f64]] = &[&[1.0, 5.0], &[3.0, 2.0]];
        let ords = perms(3);
        let k = cfgn(2, ON, "");
        c.family("contracted", "all digraphs on 3 nodes, all contraction orders: shortcuts count like edges", pow(3, 6) * 6, |i, l| {
            let es = dense(i / 6, &ps2, vals, &IDS[..3]);
            let (all, lv) = contract(&es, &IDS[..3], &ords[(i % 6) as usize], Mode::Full, false);
            let ns: Vec<N> = nodes_of(&all).into_iter().map(|n| { let j = IDS.iter().position(|x| *x == n.id).unwrap(); nl(n.id, lv[j]) }).collect();
            let r = guard(|| build(&k, &all, &ns)).and_then(|x| x);
            let mut t = plain(&all);
            t.sort_by(|x, y| x.partial_cmp(y).unwrap());
            let len = t.len();
            t.dedup();
            if t.len() != len {
                // whether a shortcut repeats an edge is not decided here
                return Ok(());
            }
            judge(r, &t, 2, true, l, &|| show(&all))
        });
    }
    // routing on normalized metrics
    {
        let ps2 = pairs(3, false);
        let vals: &[&[f64]] = &[&[1.0, 500.0], &[3.0, 200.0], &[9.0, 100.0]];
        let (on, off) = (cfgn(2, ON, ""), cfgn(2, "", ""));
        c.family("routing", "all digraphs on 3 nodes, 3 alpha-vectors, all node pairs: routing on normalized metrics with alphas a is routing on plain metrics with alphas a/mean", pow(4, 6) * 3, |i, l| {
            let es = dense(i / 3, &ps2, vals, &IDS[..3]);
            if es.is_empty() {
                return Ok(());
            }
            let a = [[1.0, 1.0], [0.3, 0.9], [1.0, 0.0]][(i % 3) as usize];
            let ns = nodes_of(&es);
            let g = guard(|| build(&on, &es, &ns)).and_then(|x| x)?;
            let h = guard(|| build(&off, &es, &ns)).and_then(|x| x)?;
            let mean = |k: usize| es.iter().map(|x| x.m[k]).sum::<f64>() / es.len() as f64;
            let b = [a[0] / mean(0), a[1] / mean(1)];
            let (ra, rb) = (rcfg(RoutingAlgo::Dijkstra, &a), rcfg(RoutingAlgo::Dijkstra, &b));
            let n = g.nodes().count();
            let (mut d1, mut d2) = (Dijkstra::new(), Dijkstra::new());
            for s in 0..n {
                for t in 0..n {
                    let p = guard(|| query(&mut d1, &g, &ra, s, t).map(|p| path_edges(&p)))?;
                    let q = guard(|| query(&mut d2, &h, &rb, s, t).map(|p| path_edges(&p)))?;
                    l.step(2);
                    l.eval(1);
                    let cost = |g: &Graph, p: &Vec<usize>, al: &[f64]| p.iter().map(|i| dot(&g.metrics()[EdgeIdx(*i)], al)).sum::<f64>();
                    match (&p, &q) {
                        (None, None) => (),
                        (Some(p), Some(q)) if close(cost(&g, p, &a), cost(&h, q, &b)) => (),
                        _ => return Err(format!("from {} to {}: {:?} on normalized, {:?} on plain metrics: {}", s, t, p, q, show(&es))),
                    }
                }
            }
            Ok(())
        });
    }
}
