//! C02: on a contracted network, the CH-Dijkstra (and the plain one) finds what the plain network
//! offers, and shortcuts flatten to real edges.
use crate::{
    c01::{dense, pairs, show, structured, subsets_up_to, SHAPES},
    engine::{guard, perms, pow, Ctx, Dig, Local, Verdict},
    model::*,
};
use osmgraphing::{
    configs::routing::RoutingAlgo,
    network::{EdgeIdx, NodeIdx},
    routing::dijkstra::Dijkstra,
};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    /// a shortcut for every pair of consecutive edges
    Full,
    /// no shortcut if another path is strictly better (or equal) in every metric
    Witness,
}

/// Contracts nodes of `ids` in the given order. Returns all edges (original ones first) and the
/// levels per position of `ids`. Levels are the contraction's order, or, if `ties`, the least
/// levels keeping that order between neighbours.
pub fn contract(base: &[E], ids: &[i64], order: &[usize], mode: Mode, ties: bool) -> (Vec<E>, Vec<usize>) {
    let pos = |id: i64| ids.iter().position(|&x| x == id).unwrap();
    let mut all: Vec<E> = base.to_vec();
    let mut done = vec![false; ids.len()];
    for &v in order {
        let entering: Vec<usize> = (0..all.len())
            .filter(|&i| pos(all[i].dst) == v && pos(all[i].src) != v && !done[pos(all[i].src)])
            .collect();
        let leaving: Vec<usize> = (0..all.len())
            .filter(|&i| pos(all[i].src) == v && pos(all[i].dst) != v && !done[pos(all[i].dst)])
            .collect();
        done[v] = true;
        for &a in &entering {
            for &b in &leaving {
                let (u, w) = (all[a].src, all[b].dst);
                if u == w {
                    continue;
                }
                let m: Vec<f64> = all[a].m.iter().zip(&all[b].m).map(|(x, y)| x + y).collect();
                if mode == Mode::Witness {
                    let dominated = all
                        .iter()
                        .any(|x| x.src == u && x.dst == w && x.m.iter().zip(&m).all(|(p, q)| p <= q));
                    if dominated {
                        continue;
                    }
                    if m.len() == 1 {
                        let rest: Vec<_> = all
                            .iter()
                            .filter(|x| !done[pos(x.src)] && !done[pos(x.dst)])
                            .map(|x| (pos(x.src), pos(x.dst), x.m[0]))
                            .collect();
                        if bellman_ford(ids.len(), &rest, pos(u))[pos(w)] <= m[0] {
                            continue;
                        }
                    }
                } else if all.iter().any(|x| x.src == u && x.dst == w && x.m == m) {
                    continue;
                }
                all.push(E {
                    src: u,
                    dst: w,
                    id: None,
                    m,
                    sc: Some([a, b]),
                });
            }
        }
    }
    let mut level = vec![0; ids.len()];
    for (k, &v) in order.iter().enumerate() {
        if !ties {
            level[v] = k;
        } else {
            let mut lv = 0;
            for x in &all {
                let (a, b) = (pos(x.src), pos(x.dst));
                for (p, q) in &[(a, b), (b, a)] {
                    if *p == v && order[..k].contains(q) {
                        lv = lv.max(level[*q] + 1);
                    }
                }
            }
            level[v] = lv;
        }
    }
    (all, level)
}

/// all queries with both algorithms on the network `all`; reference: edges `base`
pub fn check(
    base: &[E],
    all: &[E],
    levels: &[usize],
    ids: &[i64],
    alphas: &[Vec<f64>],
    l: &mut Local,
) -> Verdict {
    let k = cfg(base[0].m.len());
    let used: Vec<i64> = nodes_of(all).iter().map(|n| n.id).collect();
    let nodes: Vec<N> = ids
        .iter()
        .zip(levels)
        .filter(|(id, _)| used.contains(id))
        .map(|(id, lv)| nl(*id, *lv))
        .collect();
    let whole = || format!("levels {:?}\n{}", ids.iter().zip(levels).collect::<Vec<_>>(), show(all));
    let g = guard(|| build(&k, all, &nodes)).and_then(|x| x).map_err(|m| format!("{} for {}", m, whole()))?;
    let ends = endpoints(&g);
    let nn = g.nodes().count();
    let pos = |id: i64| ids.iter().position(|&x| x == id).unwrap();
    for al in alphas {
        let ref_edges: Vec<_> = base.iter().map(|e| (pos(e.src), pos(e.dst), dot(al, &e.m))).collect();
        let dist: Vec<Vec<f64>> = (0..ids.len()).map(|s| bellman_ford(ids.len(), &ref_edges, s)).collect();
        for &algo in &[RoutingAlgo::CHDijkstra, RoutingAlgo::Dijkstra] {
            let r = rcfg(algo, al);
            let mut d = Dijkstra::new();
            for s in 0..nn {
                for t in 0..nn {
                    let (si, ti) = (pos(g.nodes().id(NodeIdx(s))), pos(g.nodes().id(NodeIdx(t))));
                    let want = dist[si][ti];
                    let ctxt = || format!("{:?} alphas {:?} from id {} to id {}, {}", algo, al, ids[si], ids[ti], whole());
                    l.step(1);
                    l.eval(1);
                    let p = guard(|| query(&mut d, &g, &r, s, t)).map_err(|m| format!("{}: {}", m, ctxt()))?;
                    let p = match p {
                        None => {
                            if want.is_finite() {
                                return Err(format!("no path, but one of cost {} exists: {}", want, ctxt()));
                            }
                            l.outcome(&(s, t, -1i64));
                            continue;
                        }
                        Some(p) => p,
                    };
                    if !want.is_finite() {
                        return Err(format!("a path, but none exists: {}", ctxt()));
                    }
                    let raw = path_edges(&p);
                    let sum = chain(&g, &ends, &raw, s, t).map_err(|m| format!("{}: {}", m, ctxt()))?;
                    if !close(dot(al, &sum), want) {
                        return Err(format!("path costs {} instead of {}: {}", dot(al, &sum), want, ctxt()));
                    }
                    let flat = guard(|| p.try_flatten(&g))
                        .and_then(|x| x.map_err(|e| e.to_string()))
                        .map_err(|m| format!("flattening fails ({}): {}", m, ctxt()))?;
                    let fe = path_edges(&flat);
                    let fsum = chain(&g, &ends, &fe, s, t).map_err(|m| format!("flattened: {}: {}", m, ctxt()))?;
                    if !close(dot(al, &fsum), want) {
                        return Err(format!("flattened path costs {} instead of {}: {}", dot(al, &fsum), want, ctxt()));
                    }
                    if flat.costs().iter().zip(&fsum).any(|(a, b)| !close(*a, *b)) {
                        return Err(format!("flattened path reports {:?} instead of {:?}: {}", flat.costs(), fsum, ctxt()));
                    }
                    for &i in &fe {
                        if g.fwd_edges().is_shortcut(EdgeIdx(i)) {
                            return Err(format!("flattened path contains the shortcut {}: {}", i, ctxt()));
                        }
                        let m = &g.metrics()[EdgeIdx(i)];
                        let (a, b) = (g.nodes().id(NodeIdx(ends[i].0)), g.nodes().id(NodeIdx(ends[i].1)));
                        if !base.iter().any(|e| e.src == a && e.dst == b && e.m.iter().zip(m.iter()).all(|(x, y)| close(*x, *y))) {
                            return Err(format!("flattened path uses an edge which has never been in the base network: {}", ctxt()));
                        }
                    }
                    l.outcome(&(raw, fe));
                }
            }
        }
    }
    Ok(())
}

fn one() -> Vec<Vec<f64>> {
    vec![vec![1.0]]
}

const MODES: [(Mode, bool); 4] = [
    (Mode::Full, false),
    (Mode::Full, true),
    (Mode::Witness, false),
    (Mode::Witness, true),
];

pub fn run(c: &mut Ctx) {
    // 3 nodes
    {
        let ps = pairs(3, true);
        let ws: &[&[f64]] = &[&[1.0], &[3.0]];
        let orders = perms(3);
        c.family(
            "contracted-n3",
            "all digraphs on 3 nodes with self-loops, weights {1,3}; all contraction orders; with and without witness search; unique or minimal levels; both algorithms; all node pairs",
            pow(3, 9) * 6,
            |i, l| {
                let mut d = Dig(i);
                let o = &orders[d.take(6) as usize];
                let base = dense(d.0, &ps, ws, &IDS[..3]);
                if base.is_empty() {
                    return Ok(());
                }
                for &(m, t) in &MODES {
                    let (all, lv) = contract(&base, &IDS[..3], o, m, t);
                    l.sample(|| format!("{:?}", (m, t, o, all.len())));
                    check(&base, &all, &lv, &IDS[..3], &one(), l)?;
                }
                Ok(())
            },
        );
    }
    // 4 nodes
    {
        let ps = pairs(4, false);
        let kmax = c.pick(6, 8);
        let subs: Vec<Vec<u8>> = subsets_up_to(12, kmax).into_iter().filter(|s| s.len() > 2).collect();
        let orders = perms(4);
        let no = orders.len() as u64;
        let quick = c.quick();
        c.family(
            "contracted-n4",
            &format!("4 nodes, every set of 3..={} edges, weights {}; all 24 contraction orders; witness/full, level variants", kmax, if quick {"by 3 patterns over {1,2,5}"} else {"all of {1,3}^m"}),
            subs.len() as u64 * no,
            |i, l| {
                let mut d = Dig(i);
                let o = &orders[d.take(no) as usize];
                let sub = &subs[d.0 as usize];
                let nw = if quick { 3 } else { 1u64 << sub.len() };
                for wm in 0..nw {
                    let base: Vec<E> = sub
                        .iter()
                        .enumerate()
                        .map(|(j, &p)| {
                            let w = if quick {
                                match wm {
                                    0 => 1.0,
                                    1 => [1.0, 2.0, 5.0][j % 3],
                                    _ => [5.0, 1.0, 1.0, 2.0][(p as usize) % 4],
                                }
                            } else {
                                [1.0, 3.0][(wm >> j & 1) as usize]
                            };
                            e(IDS[ps[p as usize].0], IDS[ps[p as usize].1], &[w])
                        })
                        .collect();
                    for &(m, t) in &[(Mode::Full, true), (Mode::Witness, false)] {
                        let (all, lv) = contract(&base, &IDS[..4], o, m, t);
                        check(&base, &all, &lv, &IDS[..4], &one(), l)?;
                    }
                }
                Ok(())
            },
        );
    }
    // values of levels
    {
        let ps = pairs(3, false);
        let ws: &[&[f64]] = &[&[1.0], &[3.0]];
        let orders = perms(3);
        let big = std::usize::MAX;
        let values: Vec<[usize; 3]> = vec![
            [0, 1, 255],
            [0, 255, 256],
            [255, 256, 257],
            [1, 256, 512],
            [127, 128, 129],
            [32_767, 32_768, 32_769],
            [0, 65_535, 65_536],
            [1, 65_536, 131_072],
            [99, 100, 101],
            [999, 1_000, 1_001],
            [9_999, 100_000, 1_000_000],
            [2_147_483_647, 2_147_483_648, 2_147_483_649],
            [0, 4_294_967_295, 4_294_967_296],
            [1, 4_294_967_296, 8_589_934_592],
            [9_007_199_254_740_991, 9_007_199_254_740_992, 9_007_199_254_740_993],
            [0, 1 << 62, 1 << 63],
            [(1 << 63) - 1, 1 << 63, (1 << 63) + 1],
            [big - 2, big - 1, big],
            [0, 1, big],
        ];
        let nv = values.len() as u64;
        c.family(
            "level-values",
            "all digraphs on 3 nodes without self-loops, weights {1,3}; all contraction orders; levels around every power of two and of ten that is a bound of some type, and the greatest ones",
            pow(3, 6) * 6 * nv,
            |i, l| {
                let mut d = Dig(i);
                let o = &orders[d.take(6) as usize];
                let v = &values[d.take(nv) as usize];
                let base = dense(d.0, &ps, ws, &IDS[..3]);
                if base.is_empty() {
                    return Ok(());
                }
                let (all, lv) = contract(&base, &IDS[..3], o, Mode::Full, false);
                let lv: Vec<usize> = lv.iter().map(|&x| v[x]).collect();
                check(&base, &all, &lv, &IDS[..3], &one(), l)
            },
        );
    }
    // 2 metrics
    {
        let ps = pairs(3, false);
        let ws: &[&[f64]] = &[&[1.0, 4.0], &[4.0, 1.0], &[2.0, 2.0]];
        let orders = perms(3);
        let alphas: Vec<Vec<f64>> = vec![vec![1.0, 0.0], vec![0.0, 1.0], vec![1.0, 1.0], vec![0.25, 2.0], vec![3.0, 0.5], vec![0.0, 0.0]];
        c.family(
            "contracted-2metrics",
            "all digraphs on 3 nodes, 2 metrics from {(1,4),(4,1),(2,2)}; all contraction orders; 6 alpha-vectors",
            pow(4, 6) * 6,
            |i, l| {
                let mut d = Dig(i);
                let o = &orders[d.take(6) as usize];
                let base = dense(d.0, &ps, ws, &IDS[..3]);
                if base.is_empty() {
                    return Ok(());
                }
                for &(m, t) in &MODES {
                    let (all, lv) = contract(&base, &IDS[..3], o, m, t);
                    check(&base, &all, &lv, &IDS[..3], &alphas, l)?;
                }
                Ok(())
            },
        );
    }
    // parallel edges, 4 nodes in a line with detours, 2 metrics
    {
        let orders = perms(4);
        let alphas: Vec<Vec<f64>> = vec![vec![1.0, 0.0], vec![0.0, 1.0], vec![1.0, 1.0], vec![2.0, 0.5]];
        c.family(
            "contracted-parallel",
            "4 nodes on a two-way line or ring, every segment with one of 4 bundles of parallel edges (2 metrics); all contraction orders",
            pow(4, 4) * 24,
            |i, l| {
                let mut d = Dig(i);
                let o = &orders[d.take(24) as usize];
                let mut base = vec![];
                for k in 0..4usize {
                    let (a, b) = (IDS[k], IDS[(k + 1) % 4]);
                    match d.take(4) {
                        0 => base.push(e(a, b, &[2.0, 2.0])),
                        1 => {
                            base.push(e(a, b, &[1.0, 5.0]));
                            base.push(e(a, b, &[5.0, 1.0]));
                            base.push(e(b, a, &[1.0, 1.0]));
                        }
                        2 => {
                            base.push(e(a, b, &[3.0, 3.0]));
                            base.push(e(b, a, &[3.0, 3.0]));
                        }
                        _ => base.push(e(b, a, &[1.0, 2.0])),
                    }
                }
                for &(m, t) in &MODES {
                    let (all, lv) = contract(&base, &IDS[..4], o, m, t);
                    check(&base, &all, &lv, &IDS[..4], &alphas, l)?;
                }
                Ok(())
            },
        );
    }
    // the CH-Dijkstra on networks which are not contracted
    {
        let ps = pairs(4, false);
        let ws: &[&[f64]] = &[&[1.0], &[3.0]];
        let total = pow(3, 12);
        let stride = c.pick(5, 1);
        c.family(
            "uncontracted-n4",
            &format!("digraphs on 4 nodes, weights {{1,3}}, no levels, no shortcuts (every {}. of all {}); both algorithms", stride, total),
            total / stride,
            |i, l| {
                let base = dense(i * stride, &ps, ws, &IDS[..4]);
                if base.is_empty() {
                    return Ok(());
                }
                check(&base, &base, &[0, 0, 0, 0], &IDS[..4], &one(), l)
            },
        );
    }
    // structured
    {
        let sizes: Vec<usize> = c.pick(vec![5, 6, 7, 8, 12, 17, 24, 33], vec![5, 6, 7, 8, 9, 10, 12, 16, 17, 24, 25, 33, 40, 48, 64]);
        let norders = 4u64;
        c.family(
            "contracted-structured",
            &format!("rings, ladders, grids, stars, complete graphs, trees, chains, two components of {:?} nodes, 3 weight patterns, 4 contraction orders each, with witness search", sizes),
            sizes.len() as u64 * SHAPES * 3 * norders,
            |i, l| {
                let mut d = Dig(i);
                let shape = d.take(SHAPES);
                let pat = d.take(3);
                let o = d.take(norders);
                let n = sizes[d.take(sizes.len() as u64) as usize];
                let n = if shape == 4 { n.min(10) } else { n };
                let base = structured(shape, n, pat);
                let mut ids: Vec<i64> = nodes_of(&base).iter().map(|n| n.id).collect();
                ids.sort();
                let n = ids.len();
                let order: Vec<usize> = match o {
                    0 => (0..n).collect(),
                    1 => (0..n).rev().collect(),
                    2 => (0..n).filter(|i| i % 2 == 1).chain((0..n).filter(|i| i % 2 == 0)).collect(),
                    _ => {
                        // bit-scattered
                        let mut v: Vec<usize> = (0..n).collect();
                        v.sort_by_key(|x| (x.wrapping_mul(2654435761) % 1009, *x));
                        v
                    }
                };
                let (all, lv) = contract(&base, &ids, &order, Mode::Witness, o % 2 == 1);
                check(&base, &all, &lv, &ids, &one(), l)
            },
        );
    }
}
