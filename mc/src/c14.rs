//! C14: alternative routes of the explorator.
use crate::{
    c01::show,
    c02::{contract, Mode},
    engine::{guard, Ctx, Dig, Local, Verdict},
    model::*,
};
use osmgraphing::{
    configs::routing::RoutingAlgo,
    network::{Graph, NodeIdx},
    routing::{dijkstra, dijkstra::Dijkstra, explorating::ConvexHullExplorator, paths::Path},
};
use std::f64::INFINITY;

pub struct Search {
    dijkstra: Dijkstra,
    explorator: ConvexHullExplorator,
}

impl Search {
    fn new() -> Search {
        Search {
            dijkstra: Dijkstra::new(),
            explorator: ConvexHullExplorator::new(),
        }
    }
    fn ask(&mut self, g: &Graph, r: &RCfg, s: usize, t: usize) -> Result<Vec<Path>, String> {
        guard(|| {
            self.explorator.fully_explorate(
                dijkstra::Query {
                    src_idx: NodeIdx(s),
                    dst_idx: NodeIdx(t),
                    graph: g,
                    routing_cfg: r,
                },
                &mut self.dijkstra,
            )
        })
    }
}

/// A weighting of the considered metrics (none negative, not all zero) for which `p` is best?
fn supported(p: &[f64], all: &[Vec<f64>], on: &[usize]) -> bool {
    let d = on.len();
    // tight: lambda * row = 0; all rows: lambda * row >= 0
    let mut rows: Vec<Vec<f64>> = all.iter().map(|q| on.iter().map(|&k| q[k] - p[k]).collect::<Vec<f64>>()).collect();
    for k in 0..d {
        let mut u = vec![0.0; d];
        u[k] = 1.0;
        rows.push(u);
    }
    let ok = |x: &[f64]| x.iter().any(|v| v.abs() > 1e-9) && rows.iter().all(|r| dot(r, x) >= -1e-9);
    // the weightings form a cone without lines: it is more than 0 iff it has an extreme ray, where d - 1 rows are tight
    if d == 0 {
        return true;
    }
    let mut pick: Vec<usize> = (0..d - 1).collect();
    loop {
        let x = normal(&pick.iter().map(|&i| &rows[i][..]).collect::<Vec<_>>(), d);
        if ok(&x) || ok(&x.iter().map(|v| -v).collect::<Vec<_>>()) {
            return true;
        }
        // next combination
        let k = match (0..pick.len()).rev().find(|&k| pick[k] + (pick.len() - k) < rows.len()) {
            Some(k) => k,
            None => return false,
        };
        pick[k] += 1;
        for j in k + 1..pick.len() {
            pick[j] = pick[j - 1] + 1;
        }
    }
}

/// orthogonal to d-1 rows (cofactors)
fn normal(rows: &[&[f64]], d: usize) -> Vec<f64> {
    fn det(m: &[Vec<f64>]) -> f64 {
        match m.len() {
            0 => 1.0,
            1 => m[0][0],
            n => (0..n)
                .map(|c| {
                    let minor: Vec<Vec<f64>> = m[1..].iter().map(|r| (0..n).filter(|k| *k != c).map(|k| r[k]).collect()).collect();
                    (if c % 2 == 0 { 1.0 } else { -1.0 }) * m[0][c] * det(&minor)
                })
                .sum(),
        }
    }
    (0..d)
        .map(|c| {
            let minor: Vec<Vec<f64>> = rows.iter().map(|r| (0..d).filter(|k| *k != c).map(|k| r[k]).collect()).collect();
            (if c % 2 == 0 { 1.0 } else { -1.0 }) * det(&minor)
        })
        .collect()
}

/// two considered metrics: the only best one for some positive weighting
fn corner(p: &[f64], all: &[Vec<f64>], on: &[usize]) -> bool {
    // no other point (or combination of two) is as good in both
    let v: Vec<(f64, f64)> = all.iter().map(|q| (q[on[0]] - p[on[0]], q[on[1]] - p[on[1]])).filter(|q| *q != (0.0, 0.0)).collect();
    if v.iter().any(|q| q.0 <= 0.0 && q.1 <= 0.0) {
        return false;
    }
    for a in &v {
        for b in &v {
            if a.0 < 0.0 && b.0 > 0.0 && a.1 > 0.0 && b.1 < 0.0 {
                // does the segment a-b pass on the origin's lower left (or through it)?
                if a.0 * b.1 - a.1 * b.0 >= -1e-12 {
                    return false;
                }
            }
        }
    }
    true
}

struct Net {
    es: Vec<E>,
    g: Graph,
    ends: Vec<(usize, usize)>,
}

fn net(es: Vec<E>, nodes: &[N]) -> Result<Net, String> {
    let g = build(&cfg(es[0].m.len()), &es, nodes)?;
    let ends = endpoints(&g);
    Ok(Net { es, g, ends })
}

/// `all`: costs of all paths from `s` to `t`
#[allow(clippy::too_many_arguments)]
fn judge(n: &Net, se: &mut Search, algo: RoutingAlgo, alphas: &[f64], scales: &[f64], s: usize, t: usize, all: &[Vec<f64>], l: &mut Local) -> Verdict {
    let mut r = rcfg(algo, alphas);
    r.tolerated_scales = dimvec(scales);
    let text = || format!("{:?}, alphas {:?}, tolerated scales {:?}, {} to {}: {}", algo, alphas, scales, s, t, show(&n.es));
    let got = se.ask(&n.g, &r, s, t).map_err(|m| format!("{}: {}", m, text()))?;
    l.step(1);
    l.eval(1);
    l.validated += 1;
    let on: Vec<usize> = (0..alphas.len()).filter(|&k| alphas[k] > 0.0).collect();
    let best = |k: usize| all.iter().map(|q| q[k]).fold(INFINITY, f64::min);
    let tolerated = |q: &[f64]| on.iter().all(|&k| scales[k] == INFINITY || q[k] <= best(k) * scales[k] + 1e-7);
    let clearly = |q: &[f64]| on.iter().all(|&k| scales[k] == INFINITY || q[k] <= best(k) * scales[k] - 1e-7 || q[k] == best(k));
    let mut costs = vec![];
    for p in &got {
        if *p.src_idx() != s || *p.dst_idx() != t {
            return Err(format!("a path from {:?} to {:?}: {}", p.src_idx(), p.dst_idx(), text()));
        }
        let flat = path_edges(&p.clone().flatten(&n.g));
        let sum = chain(&n.g, &n.ends, &flat, s, t).map_err(|m| format!("{}: {}", m, text()))?;
        if !p.costs().iter().zip(&sum).all(|(a, b)| close(*a, *b)) {
            return Err(format!("path {:?} costs {:?}, not {:?}: {}", flat, sum, p.costs(), text()));
        }
        if !tolerated(&sum) {
            return Err(format!("path of costs {:?} is not tolerated: {}", sum, text()));
        }
        if !supported(&sum, all, &on) {
            return Err(format!("path of costs {:?} is best for no weighting, there is {:?}: {}", sum, all, text()));
        }
        costs.push((flat, sum));
    }
    for i in 0..costs.len() {
        for j in 0..i {
            if costs[i].0 == costs[j].0 {
                return Err(format!("path {:?} is given twice: {}", costs[i].0, text()));
            }
        }
    }
    // best ones for every choice of considered metrics
    if !all.is_empty() && !on.is_empty() {
        let mut bests: Vec<Vec<&Vec<f64>>> = vec![];
        for mask in 1..1u32 << on.len() {
            let w = |q: &[f64]| -> f64 { (0..on.len()).filter(|i| mask >> i & 1 == 1).map(|i| q[on[i]]).sum() };
            let want = all.iter().map(|q| w(q)).fold(INFINITY, f64::min);
            bests.push(all.iter().filter(|q| close(w(q), want)).collect());
            if bests[bests.len() - 1].iter().all(|q| clearly(q)) && !costs.iter().any(|c| close(w(&c.1), want)) {
                return Err(format!("{:?} lack a best path for metrics {:b}, which costs {}: {}", costs, mask, want, text()));
            }
        }
        // enough different ones for a hull: all (tolerated) corners towards the origin
        let apart = |i: usize, j: usize| bests[i].iter().all(|p| bests[j].iter().all(|q| on.iter().any(|&k| (p[k] - q[k]).abs() > 1e-4)));
        if on.len() == 2 && apart(0, 1) && apart(0, 2) && apart(1, 2) {
            for q in all {
                if corner(q, all, &on) && clearly(q) && !costs.iter().any(|c| on.iter().all(|&k| close(c.1[k], q[k]))) {
                    return Err(format!("{:?} lack {:?}: {}", costs, q, text()));
                }
            }
        }
    }
    if all.is_empty() && !got.is_empty() {
        return Err(format!("{:?} though there is no path: {}", costs, text()));
    }
    l.outcome(&(costs.len(), format!("{:?}", costs.iter().map(|c| &c.1).collect::<Vec<_>>())));
    l.sample(|| format!("{}: {:?}", text(), costs));
    Ok(())
}

/// number of sorted choices of k of n, things may be chosen again
fn choices(n: u64, k: u64) -> u64 {
    (0..k).fold(1, |c, i| c * (n + i) / (i + 1))
}

/// the idx-th of them
fn choice(mut idx: u64, n: u64, k: u64) -> Vec<u64> {
    let mut v = vec![];
    let mut low = 0;
    for left in (0..k).rev() {
        // all those which start with `low`
        while idx >= choices(n - low, left) {
            idx -= choices(n - low, left);
            low += 1;
        }
        v.push(low);
    }
    v
}

fn point(i: u64, base: u64, dim: u32) -> Vec<f64> {
    let mut d = Dig(i);
    (0..dim).map(|_| 1.0 + d.take(base) as f64).collect()
}

pub fn run(c: &mut Ctx) {
    // any set of costs: parallel edges
    let (base, k) = c.pick((5, 5), (6, 6));
    let pts = base * base;
    c.family("bundles-2", "all bundles of 5 parallel edges, both metrics of {1..5} (thorough: 6 edges, {1..6}): every choice of costs, equal ones as well", choices(pts, k), |i, l| -> Verdict {
        let idx = choice(i, pts, k);
        let es: Vec<E> = idx.iter().map(|&p| e(0, 1, &point(p, base, 2))).collect();
        let all: Vec<Vec<f64>> = es.iter().map(|x| x.m.clone()).collect();
        let n = net(es, &[nl(0, 0), nl(1, 1)])?;
        let mut se = Search::new();
        for algo in [RoutingAlgo::Dijkstra, RoutingAlgo::CHDijkstra] {
            judge(&n, &mut se, algo, &[1.0, 1.0], &[INFINITY, INFINITY], 0, 1, &all, l)?;
            judge(&n, &mut se, algo, &[1.0, 1.0], &[INFINITY, INFINITY], 1, 0, &[], l)?;
        }
        Ok(())
    });

    // more distinct points, convex and not
    let pool: Vec<Vec<f64>> = vec![
        vec![1.0, 60.0],
        vec![2.0, 40.0],
        vec![4.0, 25.0],
        vec![7.0, 16.0],
        vec![11.0, 10.0],
        vec![12.0, 12.0],
        vec![16.0, 7.0],
        vec![25.0, 4.0],
        vec![40.0, 2.0],
        vec![60.0, 1.0],
        vec![3.0, 39.0],
        vec![20.0, 20.0],
        vec![10.0, 12.5],
        vec![1.0, 100.0],
    ];
    c.family("hulls", "all 16384 subsets of 14 costs on, above and around a convex front", 1 << 14, |i, l| -> Verdict {
        if i == 0 {
            return Ok(());
        }
        let es: Vec<E> = (0..14).filter(|b| i >> b & 1 == 1).map(|b| e(0, 1, &pool[b])).collect();
        let all: Vec<Vec<f64>> = es.iter().map(|x| x.m.clone()).collect();
        let n = net(es, &[nl(0, 0), nl(1, 1)])?;
        let mut se = Search::new();
        judge(&n, &mut se, RoutingAlgo::Dijkstra, &[1.0, 1.0], &[INFINITY, INFINITY], 0, 1, &all, l)?;
        judge(&n, &mut se, RoutingAlgo::Dijkstra, &[1.0, 1.0], &[2.0, INFINITY], 0, 1, &all, l)?;
        judge(&n, &mut se, RoutingAlgo::Dijkstra, &[1.0, 1.0], &[16.0, 11.0], 0, 1, &all, l)
    });

    let k3 = c.pick(4, 5);
    c.family("bundles-3", "all bundles of 4 (thorough: 5) parallel edges, 3 metrics of {1,2,3}, all choices of considered metrics", choices(27, k3), |i, l| -> Verdict {
        let idx = choice(i, 27, k3);
        let es: Vec<E> = idx.iter().map(|&p| e(0, 1, &point(p, 3, 3))).collect();
        let all: Vec<Vec<f64>> = es.iter().map(|x| x.m.clone()).collect();
        let n = net(es, &[nl(0, 0), nl(1, 1)])?;
        let mut se = Search::new();
        for mask in 1..8 {
            let alphas: Vec<f64> = (0..3).map(|b| if mask >> b & 1 == 1 { 1.0 } else { 0.0 }).collect();
            judge(&n, &mut se, RoutingAlgo::Dijkstra, &alphas, &[INFINITY; 3], 0, 1, &all, l)?;
        }
        Ok(())
    });

    // tolerances and weights
    let scales = [1.0, 1.25, 2.0, 3.0, INFINITY];
    let alphas = [[1.0, 1.0], [2.0, 0.5], [1.0, 0.0], [0.0, 3.0]];
    let k2 = c.pick(4, 5);
    c.family("tolerances", "all bundles of 4 (thorough: 5) parallel edges over {1..4}^2 x tolerated scales {1,1.25,2,3,inf}^2 x weights", choices(16, k2), |i, l| -> Verdict {
        let idx = choice(i, 16, k2);
        let es: Vec<E> = idx.iter().map(|&p| e(0, 1, &point(p, 4, 2))).collect();
        let all: Vec<Vec<f64>> = es.iter().map(|x| x.m.clone()).collect();
        let n = net(es, &[nl(0, 0), nl(1, 1)])?;
        let mut se = Search::new();
        for a in &alphas {
            for x in scales {
                for y in scales {
                    judge(&n, &mut se, RoutingAlgo::Dijkstra, a, &[x, y], 0, 1, &all, l)?;
                }
            }
        }
        Ok(())
    });

    let kt = c.pick(3, 4);
    let some = [1.25, 2.0, INFINITY];
    c.family("tolerances-3", "all bundles of 3 (thorough: 4) parallel edges over {1,2,4}^3, all choices of considered metrics, all tolerated scales {1.25,2,inf}^3", choices(27, kt), |i, l| -> Verdict {
        let idx = choice(i, 27, kt);
        let es: Vec<E> = idx
            .iter()
            .map(|&p| {
                let mut d = Dig(p);
                e(0, 1, &(0..3).map(|_| [1.0, 2.0, 4.0][d.take(3) as usize]).collect::<Vec<_>>())
            })
            .collect();
        let all: Vec<Vec<f64>> = es.iter().map(|x| x.m.clone()).collect();
        let n = net(es, &[nl(0, 0), nl(1, 1)])?;
        let mut se = Search::new();
        for mask in 1..8 {
            let alphas: Vec<f64> = (0..3).map(|b| if mask >> b & 1 == 1 { 1.0 + b as f64 } else { 0.0 }).collect();
            for x in 0..27 {
                let s = [some[x % 3], some[x / 3 % 3], some[x / 9]];
                judge(&n, &mut se, RoutingAlgo::Dijkstra, &alphas, &s, 0, 1, &all, l)?;
            }
        }
        Ok(())
    });

    let k4 = c.pick(3, 4);
    c.family("bundles-4", "all bundles of 3 (thorough: 4) parallel edges, 4 metrics of {1,2,3}, all choices of considered metrics, with and without tolerance", choices(81, k4), |i, l| -> Verdict {
        let idx = choice(i, 81, k4);
        let es: Vec<E> = idx.iter().map(|&p| e(0, 1, &point(p, 3, 4))).collect();
        let all: Vec<Vec<f64>> = es.iter().map(|x| x.m.clone()).collect();
        let n = net(es, &[nl(0, 0), nl(1, 1)])?;
        let mut se = Search::new();
        for mask in 1..16 {
            let alphas: Vec<f64> = (0..4).map(|b| if mask >> b & 1 == 1 { 1.0 } else { 0.0 }).collect();
            judge(&n, &mut se, RoutingAlgo::Dijkstra, &alphas, &[INFINITY; 4], 0, 1, &all, l)?;
            judge(&n, &mut se, RoutingAlgo::Dijkstra, &alphas, &[2.0, INFINITY, 1.0, 4.0], 0, 1, &all, l)?;
        }
        Ok(())
    });

    // two bundles in a row, contracted; one explorator for all queries
    let pts2 = [[1.0, 4.0], [2.0, 2.0], [4.0, 1.0], [3.0, 3.0], [1.0, 9.0]];
    let sub: Vec<u32> = (1..32).collect();
    let n2 = (sub.len() * sub.len()) as u64;
    c.family("two-bundles", "all pairs of bundles (subsets of 5 costs each) in a row, plain and contracted, all node pairs with one explorator, judged by all sums", n2, |i, l| -> Verdict {
        let (a, b) = (sub[i as usize / sub.len()], sub[i as usize % sub.len()]);
        let mut es: Vec<E> = vec![];
        let pick = |m: u32| (0..5).filter(move |k| m >> k & 1 == 1).map(|k| pts2[k].to_vec()).collect::<Vec<_>>();
        let (pa, pb) = (pick(a), pick(b));
        for p in &pa {
            es.push(e(0, 1, p));
        }
        for p in &pb {
            es.push(e(1, 2, p));
        }
        let both: Vec<Vec<f64>> = pa.iter().flat_map(|x| pb.iter().map(move |y| vec![x[0] + y[0], x[1] + y[1]])).collect();
        let (ces, levels) = contract(&es, &[0, 1, 2], &[1, 0, 2], Mode::Full, false);
        let plain = net(es, &[nl(0, 0), nl(1, 1), nl(2, 2)])?;
        let ch = net(ces, &[nl(0, levels[0]), nl(1, levels[1]), nl(2, levels[2])])?;
        let mut se = Search::new();
        for s in 0..3 {
            for t in 0..3 {
                let none = vec![];
                let zero = vec![vec![0.0, 0.0]];
                let all = match (s, t) {
                    (0, 1) => &pa,
                    (1, 2) => &pb,
                    (0, 2) => &both,
                    _ if s == t => &zero,
                    _ => &none,
                };
                judge(&plain, &mut se, RoutingAlgo::Dijkstra, &[1.0, 1.0], &[INFINITY; 2], s, t, all, l)?;
                judge(&ch, &mut se, RoutingAlgo::CHDijkstra, &[1.0, 1.0], &[INFINITY; 2], s, t, all, l)?;
                judge(&ch, &mut se, RoutingAlgo::CHDijkstra, &[1.0, 1.0], &[1.5, 2.0], s, t, all, l)?;
            }
        }
        Ok(())
    });

    // whole maps
    let patterns = c.pick(3, 12);
    c.family("maps", "all 4096 maps of 4 nodes x 3 (thorough: 12) patterns of metrics with ties, plain and contracted in 4 orders, all node pairs with one explorator, judged by all simple paths", 4096 * patterns, |i, l| -> Verdict {
        let mut d = Dig(i);
        let (mask, x) = (d.take(4096), d.take(patterns));
        // isolated nodes are not part of a network
        let ends = |b: u64| (b as i64 / 3, (b as i64 / 3 + 1 + b as i64 % 3) % 4);
        let on: Vec<u64> = (0..12).filter(|b| mask >> b & 1 == 1).collect();
        let used: Vec<i64> = (0..4).filter(|v| on.iter().any(|&b| ends(b).0 == *v || ends(b).1 == *v)).collect();
        let new = |v: i64| used.iter().position(|x| *x == v).unwrap() as i64;
        let es: Vec<E> = on
            .iter()
            .map(|&b| {
                let m = [1 + (b * (x % 3 + 1) + x) % 4, 1 + (b * (x % 5 + 2) + x / 2) % 5];
                e(new(ends(b).0), new(ends(b).1), &[m[0] as f64, m[1] as f64])
            })
            .collect();
        if es.is_empty() {
            return Ok(());
        }
        let size = used.len();
        let ids: Vec<i64> = (0..size as i64).collect();
        let order: Vec<usize> = [[0, 1, 2, 3], [1, 3, 0, 2], [3, 2, 1, 0], [2, 0, 3, 1]][(mask % 4) as usize].iter().copied().filter(|v| *v < size).collect();
        let (ces, levels) = contract(&es, &ids, &order, Mode::Full, false);
        let levels: Vec<N> = ids.iter().map(|&v| nl(v, levels[v as usize])).collect();
        let plain = net(es.clone(), &levels)?;
        let ch = net(ces, &levels)?;
        let mut se = Search::new();
        for s in 0..size {
            for t in 0..size {
                let mut all = vec![];
                walks(&es, s as i64, t as i64, &mut vec![s as i64], &[0.0, 0.0], &mut all);
                for scales in [[INFINITY; 2], [1.5, INFINITY], [2.0, 1.25]] {
                    judge(&plain, &mut se, RoutingAlgo::Dijkstra, &[1.0, 1.0], &scales, s, t, &all, l)?;
                    judge(&ch, &mut se, RoutingAlgo::CHDijkstra, &[1.0, 1.0], &scales, s, t, &all, l)?;
                }
            }
        }
        Ok(())
    });
}

/// costs of all simple paths
fn walks(es: &[E], at: i64, t: i64, seen: &mut Vec<i64>, cost: &[f64; 2], out: &mut Vec<Vec<f64>>) {
    if at == t {
        out.push(cost.to_vec());
        return;
    }
    for x in es.iter().filter(|x| x.src == at) {
        if !seen.contains(&x.dst) {
            seen.push(x.dst);
            walks(es, x.dst, t, seen, &[cost[0] + x.m[0], cost[1] + x.m[1]], out);
            seen.pop();
        }
    }
}
