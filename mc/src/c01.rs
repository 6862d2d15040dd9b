//! C01: the answer of the (bidirectional) Dijkstra is a cheapest path.
use crate::{
    engine::{pow, Ctx, Dig, Local, Verdict},
    model::*,
};
use osmgraphing::{
    configs::routing::RoutingAlgo,
    network::Graph,
    routing::dijkstra::Dijkstra,
};

/// all queries of all node-pairs against Bellman-Ford
pub fn all_pairs(
    g: &Graph,
    spec: &[E],
    ids: &[i64],
    alphas: &[f64],
    algo: RoutingAlgo,
    l: &mut Local,
) -> Verdict {
    let ends = endpoints(g);
    let nn = g.nodes().count();
    let pos = |id: i64| ids.iter().position(|&x| x == id).unwrap();
    let ref_edges: Vec<_> = spec
        .iter()
        .map(|e| (pos(e.src), pos(e.dst), dot(alphas, &e.m)))
        .collect();
    let r = rcfg(algo, alphas);
    let mut d = Dijkstra::new();
    for s in 0..nn {
        let si = pos(g.nodes().id(osmgraphing::network::NodeIdx(s)));
        let dist = bellman_ford(ids.len(), &ref_edges, si);
        for t in 0..nn {
            let ti = pos(g.nodes().id(osmgraphing::network::NodeIdx(t)));
            let ctxt = || {
                format!(
                    "{:?} alphas {:?} from id {} to id {} in\n{}",
                    algo,
                    alphas,
                    ids[si],
                    ids[ti],
                    show(spec)
                )
            };
            l.step(1);
            l.eval(1);
            let p = crate::engine::guard(|| query(&mut d, g, &r, s, t))
                .map_err(|m| format!("{} for {}", m, ctxt()))?;
            match p {
                None => {
                    if dist[ti].is_finite() {
                        return Err(format!(
                            "no path was found, but one of cost {} exists: {}",
                            dist[ti],
                            ctxt()
                        ));
                    }
                    l.outcome(&(s, t, -1i64));
                }
                Some(mut p) => {
                    if !dist[ti].is_finite() {
                        return Err(format!("a path was returned, but none exists: {}", ctxt()));
                    }
                    if *p.src_idx() != s || *p.dst_idx() != t {
                        return Err(format!("path has wrong endpoints: {}", ctxt()));
                    }
                    let pe = path_edges(&p);
                    let sum = chain(g, &ends, &pe, s, t).map_err(|m| format!("{}: {}", m, ctxt()))?;
                    let cost = dot(alphas, &sum);
                    if !close(cost, dist[ti]) {
                        return Err(format!(
                            "path {:?} costs {}, but the cheapest path costs {}: {}",
                            pe,
                            cost,
                            dist[ti],
                            ctxt()
                        ));
                    }
                    if s == t && !pe.is_empty() {
                        return Err(format!("path from a node to itself is not empty: {}", ctxt()));
                    }
                    let reported: Vec<f64> = p.calc_costs(g).to_vec();
                    if reported.len() != sum.len()
                        || reported.iter().zip(&sum).any(|(a, b)| !close(*a, *b))
                    {
                        return Err(format!(
                            "path reports costs {:?} instead of {:?}: {}",
                            reported,
                            sum,
                            ctxt()
                        ));
                    }
                    l.outcome(&(s, t, pe));
                }
            }
        }
    }
    Ok(())
}

pub fn show(spec: &[E]) -> String {
    let mut s = String::new();
    for e in spec {
        s += &format!(
            "  {} -> {} {:?}{}{}\n",
            e.src,
            e.dst,
            e.m,
            e.id.map(|i| format!(" id {}", i)).unwrap_or_default(),
            e.sc.map(|i| format!(" shortcut of {:?}", i)).unwrap_or_default()
        );
    }
    s
}

/// ordered node pairs without loops
pub fn pairs(n: usize, loops: bool) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for a in 0..n {
        for b in 0..n {
            if a != b || loops {
                v.push((a, b));
            }
        }
    }
    v
}

/// graph number idx over all subsets of the pairs, each with one of the weights
pub fn dense(idx: u64, pairs: &[(usize, usize)], ws: &[&[f64]], ids: &[i64]) -> Vec<E> {
    let mut dg = Dig(idx);
    let mut v = vec![];
    for &(a, b) in pairs {
        let d = dg.take(ws.len() as u64 + 1) as usize;
        if d > 0 {
            v.push(e(ids[a], ids[b], ws[d - 1]));
        }
    }
    v
}

pub fn run(c: &mut Ctx) {
    let dij = RoutingAlgo::Dijkstra;
    // 1 metric
    for &(n, ws, loops) in &[
        (2usize, &[1.0, 2.0, 3.0][..], true),
        (3, &[1.0, 2.0][..], true),
        (3, &[1.0, 2.0, 4.0, 7.0][..], false),
    ] {
        let ps = pairs(n, loops);
        let wv: Vec<Vec<f64>> = ws.iter().map(|w| vec![*w]).collect();
        let wr: Vec<&[f64]> = wv.iter().map(|v| &v[..]).collect();
        let total = pow(wr.len() as u64 + 1, ps.len() as u32);
        let k = cfg(1);
        c.family(
            &format!("dense-n{}-w{}", n, ws.len()),
            &format!("all digraphs on {} nodes{}, edge weights from {:?}; all node pairs; vs Bellman-Ford", n, if loops {" with self-loops"} else {""}, ws),
            total,
            |i, l| {
                let es = dense(i, &ps, &wr, &IDS[..n]);
                if es.is_empty() {
                    return Ok(());
                }
                let g = build(&k, &es, &nodes_of(&es))?;
                l.sample(|| format!("case {}: {:?}", i, es.iter().map(|e| (e.src, e.dst, e.m[0])).collect::<Vec<_>>()));
                all_pairs(&g, &es, &IDS[..n], &[1.0], dij, l)
            },
        );
    }
    {
        let n = 4;
        let ps = pairs(n, false);
        let ws_q: &[&[f64]] = &[&[1.0], &[3.0]];
        let ws_t: &[&[f64]] = &[&[1.0], &[2.0], &[5.0]];
        let ws = c.pick(ws_q, ws_t);
        let total = pow(ws.len() as u64 + 1, ps.len() as u32);
        let k = cfg(1);
        c.family(
            "dense-n4",
            &format!("all digraphs on 4 nodes without self-loops, edge weights from {:?}; all node pairs", ws),
            total,
            |i, l| {
                let es = dense(i, &ps, ws, &IDS[..n]);
                if es.is_empty() {
                    return Ok(());
                }
                let g = build(&k, &es, &nodes_of(&es))?;
                all_pairs(&g, &es, &IDS[..n], &[1.0], dij, l)
            },
        );
    }
    // 2 metrics, all alphas
    {
        let n = 3;
        let ps = pairs(n, false);
        let ws: &[&[f64]] = &[&[1.0, 4.0], &[4.0, 1.0], &[2.0, 2.0]];
        let alphas: &[[f64; 2]] = &[
            [1.0, 0.0],
            [0.0, 1.0],
            [1.0, 1.0],
            [0.25, 2.0],
            [3.0, 0.5],
            [0.0, 0.0],
            [1000.0, 1.0],
        ];
        let total = pow(4, 6);
        let k = cfg(2);
        c.family(
            "alphas-n3",
            &format!("all digraphs on 3 nodes, 2 metrics from {:?}, alphas {:?}", ws, alphas),
            total,
            |i, l| {
                let es = dense(i, &ps, ws, &IDS[..n]);
                if es.is_empty() {
                    return Ok(());
                }
                let g = build(&k, &es, &nodes_of(&es))?;
                for a in alphas {
                    all_pairs(&g, &es, &IDS[..n], a, dij, l)?;
                }
                Ok(())
            },
        );
    }
    // 3..5 metrics: alphas over {0,1,2}^dim on a fixed set of shapes
    {
        let ps = pairs(3, false);
        let ws: &[&[f64]] = &[&[1.0, 2.0, 4.0, 8.0, 16.0], &[16.0, 8.0, 4.0, 2.0, 1.0]];
        let k = cfg(5);
        let graphs = pow(3, 6);
        let alphas = pow(3, 5);
        let sub: Vec<u64> = if c.quick() { (0..alphas).filter(|a| a % 5 == 1 || *a < 9).collect() } else { (0..alphas).collect() };
        c.family(
            "alphas-dim5",
            &format!("all digraphs on 3 nodes, 5 metrics from {:?}, {} alpha-vectors from {{0,1,2}}^5", ws, sub.len()),
            graphs,
            |i, l| {
                let es = dense(i, &ps, ws, &IDS[..3]);
                if es.is_empty() {
                    return Ok(());
                }
                let g = build(&k, &es, &nodes_of(&es))?;
                for &a in &sub {
                    let mut d = Dig(a);
                    let al: Vec<f64> = (0..5).map(|_| d.take(3) as f64).collect();
                    all_pairs(&g, &es, &IDS[..3], &al, dij, l)?;
                }
                Ok(())
            },
        );
    }
    // parallel edges: every ordered pair carries a set of parallel edges
    {
        let ps = pairs(3, false);
        let k = cfg(2);
        c.family(
            "parallel-n3",
            "3 nodes, every ordered pair has one of 4 bundles of parallel edges (none, one, two, three with crossing metrics)",
            pow(4, 6),
            |i, l| {
                let mut dg = Dig(i);
                let mut es = vec![];
                for &(a, b) in &ps {
                    let (a, b) = (IDS[a], IDS[b]);
                    match dg.take(4) {
                        0 => (),
                        1 => es.push(e(a, b, &[2.0, 2.0])),
                        2 => {
                            es.push(e(a, b, &[5.0, 1.0]));
                            es.push(e(a, b, &[1.0, 5.0]));
                        }
                        _ => {
                            es.push(e(a, b, &[3.0, 3.0]));
                            es.push(e(a, b, &[1.0, 1.0]));
                            es.push(e(a, b, &[2.0, 7.0]));
                        }
                    }
                }
                if es.is_empty() {
                    return Ok(());
                }
                let g = build(&k, &es, &nodes_of(&es))?;
                for a in &[[1.0, 0.0], [0.0, 1.0], [1.0, 1.0], [1.0, 3.0]] {
                    all_pairs(&g, &es, &IDS[..3], a, dij, l)?;
                }
                Ok(())
            },
        );
    }
    // 5 nodes sparse: every set of at most k edges
    {
        let ps = pairs(5, false);
        let kmax = c.pick(4, 6);
        let k = cfg(1);
        let subsets = subsets_up_to(ps.len(), kmax);
        let ws = [1.0, 3.0];
        c.family(
            "sparse-n5",
            &format!("5 nodes, every set of at most {} edges, every weighting from {:?}", kmax, ws),
            subsets.len() as u64,
            |i, l| {
                let sub = &subsets[i as usize];
                if sub.is_empty() {
                    return Ok(());
                }
                for wm in 0..(1u32 << sub.len()) {
                    let es: Vec<E> = sub
                        .iter()
                        .enumerate()
                        .map(|(j, &p)| {
                            e(IDS[ps[p as usize].0], IDS[ps[p as usize].1], &[ws[(wm >> j & 1) as usize]])
                        })
                        .collect();
                    let g = build(&k, &es, &nodes_of(&es))?;
                    all_pairs(&g, &es, &IDS[..5], &[1.0], dij, l)?;
                }
                Ok(())
            },
        );
    }
    // weights on other scales
    {
        let ps = pairs(3, false);
        let k = cfg(1);
        let scales = [0.001, 0.25, 1000.0, 123_456.0, 1e7];
        c.family(
            "scales-n3",
            &format!("all digraphs on 3 nodes, weights {{1,2,5}} scaled by {:?}", scales),
            pow(4, 6) * scales.len() as u64,
            |i, l| {
                let s = scales[(i % scales.len() as u64) as usize];
                let w: Vec<Vec<f64>> = [1.0, 2.0, 5.0].iter().map(|w| vec![w * s]).collect();
                let ws: Vec<&[f64]> = w.iter().map(|v| &v[..]).collect();
                let es = dense(i / scales.len() as u64, &ps, &ws, &IDS[..3]);
                if es.is_empty() {
                    return Ok(());
                }
                let g = build(&k, &es, &nodes_of(&es))?;
                all_pairs(&g, &es, &IDS[..3], &[1.0], dij, l)
            },
        );
    }
    // negative alphas: no path, and in particular an answer
    {
        let ps = pairs(3, false);
        let ws: &[&[f64]] = &[&[1.0, 4.0], &[4.0, 1.0]];
        let k = cfg(2);
        c.family(
            "negative-alphas",
            "all digraphs on 3 nodes, 2 metrics; an alpha-vector with a negative entry yields no path",
            pow(3, 6),
            |i, l| {
                let es = dense(i, &ps, ws, &IDS[..3]);
                if es.is_empty() {
                    return Ok(());
                }
                let g = build(&k, &es, &nodes_of(&es))?;
                let nn = g.nodes().count();
                for a in &[[-1.0, 0.0], [0.0, -1.0], [1.0, -0.5], [-3.0, 2.0], [-1.0, -1.0]] {
                    for algo in &[RoutingAlgo::Dijkstra, RoutingAlgo::CHDijkstra] {
                        let mut d = Dijkstra::new();
                        for s in 0..nn {
                            for t in 0..nn {
                                l.step(1);
                                l.eval(1);
                                if query(&mut d, &g, &rcfg(*algo, a), s, t).is_some() {
                                    return Err(format!(
                                        "a path for the alphas {:?}: {}",
                                        a,
                                        show(&es)
                                    ));
                                }
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // larger structured networks, all pairs
    {
        let sizes: Vec<usize> = c.pick(vec![6, 7, 8, 9, 13, 17, 32, 33, 64], vec![6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 25, 32, 33, 48, 64, 65, 100, 128, 150, 257]);
        let k = cfg(1);
        c.family(
            "structured",
            &format!("rings with chords, ladders, grids, stars, complete graphs, binary trees, one-way chains and two-component networks of {:?} nodes, 3 weight patterns each; all node pairs", sizes),
            sizes.len() as u64 * SHAPES * 3,
            |i, l| {
                let mut d = Dig(i);
                let shape = d.take(SHAPES);
                let pat = d.take(3);
                let n = sizes[d.take(sizes.len() as u64) as usize];
                let es = structured(shape, n, pat);
                let mut ids: Vec<i64> = nodes_of(&es).iter().map(|n| n.id).collect();
                ids.sort();
                let g = build(&k, &es, &nodes_of(&es))?;
                all_pairs(&g, &es, &ids, &[1.0], dij, l)
            },
        );
    }
}

pub const SHAPES: u64 = 9;

/// weight of the j-th edge in pattern pat
fn pat_w(pat: u64, j: usize) -> f64 {
    match pat {
        0 => 1.0,
        1 => 1.0 + ((j * 7 + 3) % 11) as f64,
        _ => 1.0 + ((j * 7919 + 104_729) % 97) as f64 * 0.5,
    }
}

pub fn structured(shape: u64, n: usize, pat: u64) -> Vec<E> {
    let mut v: Vec<(usize, usize)> = vec![];
    match shape {
        0 => {
            for i in 0..n {
                v.push((i, (i + 1) % n));
                if i % 3 == 0 {
                    v.push((i, (i + n / 2) % n));
                }
            }
        }
        1 => {
            for i in 0..n {
                if i + 2 < n {
                    v.push((i, i + 2));
                    v.push((i + 2, i));
                }
                if i % 2 == 0 && i + 1 < n {
                    v.push((i, i + 1));
                    v.push((i + 1, i));
                }
            }
        }
        2 => {
            let w = (n as f64).sqrt() as usize;
            for i in 0..n {
                if (i + 1) % w != 0 && i + 1 < n {
                    v.push((i, i + 1));
                    v.push((i + 1, i));
                }
                if i + w < n {
                    v.push((i, i + w));
                    v.push((i + w, i));
                }
            }
        }
        3 => {
            for i in 1..n {
                v.push((0, i));
                v.push((i, 0));
            }
        }
        4 => {
            let m = n.min(24);
            for a in 0..m {
                for b in 0..m {
                    if a != b {
                        v.push((a, b));
                    }
                }
            }
        }
        5 => {
            for i in 1..n {
                v.push(((i - 1) / 2, i));
                v.push((i, (i - 1) / 2));
            }
        }
        6 => {
            // one way, against the order of ids
            for i in 1..n {
                v.push((i, i - 1));
            }
        }
        7 => {
            let h = n / 2;
            for i in 0..h - 1 {
                v.push((i, i + 1));
                v.push((i + 1, i));
            }
            for i in h..n - 1 {
                v.push((i, i + 1));
                v.push((i + 1, i));
            }
        }
        _ => {
            // scattered: deterministic, 3 leaving edges per node
            for i in 0..n {
                for k in 1..4 {
                    let b = (i * (k * 2 + 1) + k * k + 1) % n;
                    if b != i {
                        v.push((i, b));
                    }
                }
            }
        }
    }
    let mut seen = std::collections::HashSet::new();
    let mut out = vec![];
    for (j, (a, b)) in v.into_iter().enumerate() {
        if seen.insert((a, b)) {
            out.push(e(a as i64 * 3 - 20, b as i64 * 3 - 20, &[pat_w(pat, j)]));
        }
    }
    out
}

pub fn subsets_up_to(n: usize, k: usize) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![vec![]];
    let mut cur: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..k {
        let mut next = vec![];
        for s in &cur {
            let lo = s.last().map(|x| x + 1).unwrap_or(0);
            for x in lo..n as u8 {
                let mut t = s.clone();
                t.push(x);
                next.push(t);
            }
        }
        out.extend(next.iter().cloned());
        cur = next;
    }
    out
}
