//! C04: the built graph is the inserted network.
use crate::{
    c01::{dense, pairs, show, structured, SHAPES},
    engine::{guard, perms, pow, Ctx, Dig, Local, Verdict},
    model::*,
};
use osmgraphing::network::{EdgeIdx, Graph, GraphBuilder, NodeIdx, ProtoEdge};
use std::collections::{BTreeMap, BTreeSet};

type Key = (i64, i64, Option<usize>, Vec<u64>);

fn key(src: i64, dst: i64, id: Option<usize>, m: &[f64]) -> Key {
    // metrics around 0 are stored as 1e-6
    (src, dst, id, m.iter().map(|x| if *x == 0.0 { 1e-6f64.to_bits() } else { x.to_bits() }).collect())
}

/// Compares a graph with the inserted edges and nodes.
pub fn faithful(g: &Graph, es: &[E], ns: &[N], l: &mut Local) -> Verdict {
    let mut want: BTreeMap<Key, usize> = BTreeMap::new();
    for x in es {
        *want.entry(key(x.src, x.dst, x.id, &x.m)).or_insert(0) += 1;
    }
    let ids: BTreeSet<i64> = es.iter().flat_map(|x| vec![x.src, x.dst]).collect();
    // nodes
    let nodes = g.nodes();
    if nodes.count() != ids.len() || nodes.iter().count() != ids.len() {
        return Err(format!("{} nodes instead of {}", nodes.count(), ids.len()));
    }
    for (i, id) in ids.iter().enumerate() {
        let idx = match nodes.idx_from(*id) {
            Ok(idx) => idx,
            Err(_) => return Err(format!("node {} is missing", id)),
        };
        if nodes.id(idx) != *id {
            return Err(format!("node {} is found at {:?}, which has id {}", id, idx, nodes.id(idx)));
        }
        let spec = ns.iter().find(|n| n.id == *id).expect("harness: node spec");
        let co = nodes.coord(idx);
        if !close(co.lat, spec.lat) || !close(co.lon, spec.lon) {
            return Err(format!("node {} lies at {:?} instead of {:?}", id, (co.lat, co.lon), (spec.lat, spec.lon)));
        }
        if nodes.level(idx) != spec.level.unwrap_or(0) {
            return Err(format!("node {} has level {} instead of {:?}", id, nodes.level(idx), spec.level));
        }
        let nd = nodes.create_from(*id).ok_or_else(|| format!("create_from({}) finds nothing", id))?;
        if nd.id() != *id || nd.idx() != idx || !close(nd.coord().lat, spec.lat) || !close(nd.coord().lon, spec.lon) || nd.ch_level() != spec.level.unwrap_or(0) {
            return Err(format!("create_from({}) is {:?}", id, nd));
        }
        let _ = i;
    }
    let all_ids: Vec<i64> = (0..nodes.count()).map(|i| nodes.id(NodeIdx(i))).collect();
    for near in ids.iter().flat_map(|i| vec![i.wrapping_sub(1), i.wrapping_add(1)]).chain(ns.iter().map(|n| n.id)) {
        if !ids.contains(&near) && (nodes.idx_from(near).is_ok() || nodes.create_from(near).is_some()) {
            return Err(format!("node {} has been found, but does not belong to an edge", near));
        }
    }
    // edges
    let (fwd, bwd) = (g.fwd_edges(), g.bwd_edges());
    let m = fwd.count();
    if bwd.count() != m || fwd.iter().count() != m || bwd.iter().count() != m {
        return Err("forward- and backward-graph differ in their number of edges".into());
    }
    let ends = endpoints(g);
    let mut got: BTreeMap<Key, usize> = BTreeMap::new();
    let mut seen_ids = BTreeMap::new();
    for i in 0..m {
        let idx = EdgeIdx(i);
        let met = g.metrics()[idx].to_vec();
        let (a, b) = ends[i];
        if a >= all_ids.len() || b >= all_ids.len() {
            return Err(format!("edge {} has endpoints {:?}", i, ends[i]));
        }
        if fwd.half_edge(idx).metrics().to_vec() != met || bwd.half_edge(idx).metrics().to_vec() != met || fwd.metrics()[idx].to_vec() != met {
            return Err(format!("metrics of edge {} differ between accessors", i));
        }
        if *fwd.half_edge(idx).dst_idx() != b || *bwd.half_edge(idx).dst_idx() != a || fwd.half_edge(idx).idx() != idx {
            return Err(format!("half-edge {} disagrees with the accessor", i));
        }
        if fwd.try_id(idx) != bwd.try_id(idx) {
            return Err(format!("ids of edge {} differ between directions", i));
        }
        if let Some(id) = fwd.try_id(idx) {
            if fwd.id(idx) != id {
                return Err(format!("id of edge {} is {} or {}", i, id, fwd.id(idx)));
            }
            if seen_ids.insert(id, i).is_some() {
                return Err(format!("edge-id {} occurs twice", id));
            }
        }
        *got.entry(key(all_ids[a], all_ids[b], fwd.try_id(idx), &met)).or_insert(0) += 1;
    }
    let mut variants: BTreeMap<(i64, i64, Option<usize>), usize> = BTreeMap::new();
    for k in want.keys() {
        *variants.entry((k.0, k.1, k.2)).or_insert(0) += 1;
    }
    for (k, n) in &want {
        let have = got.get(k).copied().unwrap_or(0);
        // repetitions of an edge without differing parallel edges are removed
        if have > 1 && variants[&(k.0, k.1, k.2)] == 1 {
            return Err(format!("edge {:?} is stored {} times", show_key(k), have));
        }
        if have == 0 {
            return Err(format!("edge {:?} is lost", show_key(k)));
        }
        if have > *n {
            return Err(format!("edge {:?} occurs {} times, but was inserted {} times", show_key(k), have, n));
        }
    }
    for k in got.keys() {
        if !want.contains_key(k) {
            return Err(format!("edge {:?} has never been inserted", show_key(k)));
        }
    }
    for (id, i) in &seen_ids {
        for acc in &[&fwd, &bwd] {
            match acc.try_idx_from(*id) {
                Ok(x) if *x == *i => (),
                other => return Err(format!("edge-id {} leads to {:?} instead of {}", id, other.map(|x| *x).ok(), i)),
            }
            if *acc.idx_from(*id) != *i {
                return Err(format!("idx_from({}) is wrong", id));
            }
        }
    }
    for x in es.iter().filter_map(|x| x.id) {
        for near in &[x.wrapping_add(1), x.wrapping_add(2), x.wrapping_sub(1)] {
            if !seen_ids.contains_key(near) && fwd.try_idx_from(*near).is_ok() {
                return Err(format!("edge-id {} is found, but does not exist", near));
            }
        }
    }
    if seen_ids.is_empty() && fwd.try_idx_from(0).is_ok() {
        return Err("an edge-id is found, though there is none".into());
    }
    // adjacency, both directions
    let mut fmap: Vec<Vec<usize>> = vec![vec![]; all_ids.len()];
    let mut bmap: Vec<Vec<usize>> = vec![vec![]; all_ids.len()];
    for (i, (a, b)) in ends.iter().enumerate() {
        fmap[*a].push(i);
        bmap[*b].push(i);
    }
    for v in 0..all_ids.len() {
        for (acc, map, name, fw) in &[(&fwd, &fmap, "leaving", true), (&bwd, &bmap, "entering", false)] {
            let mut x: Vec<usize> = acc.starting_from(NodeIdx(v)).map(|h| *h.idx()).collect();
            for h in acc.starting_from(NodeIdx(v)) {
                let far = if *fw { ends[*h.idx()].1 } else { ends[*h.idx()].0 };
                if *h.dst_idx() != far {
                    return Err(format!("{} edge {:?} of node {} ends in {:?}", name, h.idx(), all_ids[v], h.dst_idx()));
                }
            }
            x.sort();
            if x != map[v] {
                return Err(format!("{} edges of node {} are {:?} instead of {:?}", name, all_ids[v], x, map[v]));
            }
        }
        if all_ids.len() <= 12 {
            for w in 0..all_ids.len() {
                let ex: Vec<usize> = fmap[v].iter().copied().filter(|i| ends[*i].1 == w).collect();
                match fwd.between(NodeIdx(v), NodeIdx(w)) {
                    None if ex.is_empty() => (),
                    Some(h) if ex.contains(&*h.idx()) => (),
                    o => return Err(format!("between({}, {}) is {:?}, edges are {:?}", v, w, o.map(|h| *h.idx()), ex)),
                }
                match bwd.between(NodeIdx(w), NodeIdx(v)) {
                    None if ex.is_empty() => (),
                    Some(h) if ex.contains(&*h.idx()) => (),
                    o => return Err(format!("backward between({}, {}) is {:?}, edges are {:?}", w, v, o.map(|h| *h.idx()), ex)),
                }
            }
        }
    }
    l.outcome(&(ends, m));
    Ok(())
}

fn show_key(k: &Key) -> (i64, i64, Option<usize>, Vec<f64>) {
    (k.0, k.1, k.2, k.3.iter().map(|b| f64::from_bits(*b)).collect())
}

/// What must come out: a graph (Ok(true)), a rejection (Ok(false)).
pub fn must_build(es: &[E], ns: &[N]) -> bool {
    let mut ids: BTreeMap<usize, Key> = BTreeMap::new();
    for x in es {
        if x.m.iter().any(|m| *m < 0.0 || m.is_nan()) {
            return false;
        }
        if !ns.iter().any(|n| n.id == x.src) || !ns.iter().any(|n| n.id == x.dst) {
            return false;
        }
        if let Some(id) = x.id {
            let k = key(x.src, x.dst, x.id, &x.m);
            if let Some(old) = ids.insert(id, k.clone()) {
                if old != k {
                    return false;
                }
            }
        }
    }
    true
}

pub fn judge(k: &PCfg, es: &[E], ns: &[N], l: &mut Local) -> Verdict {
    let text = || format!("\n{}  nodes {:?}", show(es), ns.iter().map(|n| (n.id, n.level)).collect::<Vec<_>>());
    l.step(es.len() as u64 + ns.len() as u64 + 1);
    l.eval(1);
    let r = guard(|| build(k, es, ns));
    if !must_build(es, ns) {
        return match r {
            Ok(Ok(_)) => Err(format!("an inconsistent network has been accepted: {}", text())),
            _ => {
                l.outcome(&0u8);
                Ok(())
            }
        };
    }
    let g = r.and_then(|x| x).map_err(|m| format!("{} for {}", m, text()))?;
    faithful(&g, es, ns, l).map_err(|m| format!("{}: {}", m, text()))?;
    let shown = guard(|| format!("{}", g)).map_err(|m| format!("printing the graph: {}: {}", m, text()))?;
    if !shown.contains(&format!("number of nodes: {}, number of fwd_edges: {}", g.nodes().count(), g.fwd_edges().count())) {
        return Err(format!("printed counts are wrong: {}", text()));
    }
    Ok(())
}

pub fn run(c: &mut Ctx) {
    // every sequence of inserts
    {
        let ps = pairs(3, true);
        let alpha: Vec<E> = ps
            .iter()
            .flat_map(|(a, b)| vec![e(IDS[*a], IDS[*b], &[1.0]), e(IDS[*a], IDS[*b], &[2.0])])
            .collect();
        let na = alpha.len() as u64;
        let depth = c.pick(4, 5);
        let k = cfg(1);
        for len in 1..=depth {
            c.family(
                &format!("inserts-{}", len),
                &format!("all sequences of {} inserts out of {} edges (3 nodes, self-loops, 2 weights): duplicates, parallel edges, every order", len, na),
                pow(na, len),
                |i, l| {
                    let mut d = Dig(i);
                    let es: Vec<E> = (0..len).map(|_| alpha[d.take(na) as usize].clone()).collect();
                    judge(&k, &es, &nodes_of(&es), l)
                },
            );
        }
    }
    // edge-ids
    {
        let ends: Vec<(usize, usize)> = vec![(0, 1), (1, 0), (1, 2), (2, 2)];
        let idv: Vec<Option<usize>> = vec![None, Some(0), Some(1), Some(7), Some(usize::MAX / 2)];
        let mut alpha = vec![];
        for (a, b) in &ends {
            for id in &idv {
                for w in &[1.0, 2.0] {
                    alpha.push(E { id: *id, ..e(IDS[*a], IDS[*b], &[*w]) });
                }
            }
        }
        let na = alpha.len() as u64;
        let len = c.pick(3, 4);
        let k = cfg(1);
        c.family(
            "edge-ids",
            &format!("all sequences of {} inserts out of {} edges with ids from {:?}: duplicated ids are rejected, ids lead to their edge", len, na, idv),
            pow(na, len),
            |i, l| {
                let mut d = Dig(i);
                let es: Vec<E> = (0..len).map(|_| alpha[d.take(na) as usize].clone()).collect();
                judge(&k, &es, &nodes_of(&es), l)
            },
        );
    }
    // levels: order of edges depends on them
    {
        let ps = pairs(3, false);
        let k = cfg(2);
        let ws: &[&[f64]] = &[&[1.0, 2.0], &[3.0, 1.0]];
        let perms3 = perms(3);
        c.family(
            "levels",
            "all digraphs on 3 nodes, 2 metrics, all levels {none,0,1,2,5}^3, nodes inserted in all orders",
            pow(3, 6) * 125 * 6,
            |i, l| {
                let mut d = Dig(i);
                let o = &perms3[d.take(6) as usize];
                let lv: Vec<Option<usize>> = (0..3).map(|_| [None, Some(0), Some(1), Some(2), Some(5)][d.take(5) as usize]).collect();
                let es = dense(d.0, &ps, ws, &IDS[..3]);
                if es.is_empty() {
                    return Ok(());
                }
                let ns: Vec<N> = o.iter().map(|&x| N { level: lv[x], ..n(IDS[x]) }).collect();
                judge(&k, &es, &ns, l)
            },
        );
    }
    // node insertion: missing, superfluous
    {
        let sets: Vec<Vec<E>> = vec![
            vec![e(-7, 0, &[1.0])],
            vec![e(0, 0, &[1.0])],
            vec![e(-7, 0, &[1.0]), e(0, 3, &[2.0])],
            vec![e(3, -7, &[1.0]), e(11, 0, &[2.0])],
            vec![e(-7, 0, &[1.0]), e(0, 3, &[2.0]), e(3, 11, &[2.0]), e(11, 12, &[2.0])],
        ];
        let k = cfg(1);
        let len = c.pick(5, 6);
        c.family(
            "node-inserts",
            &format!("5 networks; all sequences of {} node-inserts out of 6 nodes: a missing coordinate is rejected, superfluous nodes are ignored", len),
            pow(6, len) * sets.len() as u64,
            |i, l| {
                let mut d = Dig(i);
                let es = &sets[d.take(sets.len() as u64) as usize];
                let ns: Vec<N> = (0..len).map(|_| n(IDS[d.take(6) as usize])).collect();
                let mut eb = GraphBuilder::new(k.clone());
                for x in es {
                    eb.insert(ProtoEdge { id: x.id, src_id: x.src, dst_id: x.dst, metrics: dimvec(&x.m) }).map_err(|e| e.to_string())?;
                }
                let mut nb = eb.next();
                for x in &ns {
                    let used = es.iter().any(|e| e.src == x.id || e.dst == x.id);
                    if nb.insert(proto_node(x)) != used {
                        return Err(format!("inserting node {} answers {} for\n{}", x.id, !used, show(es)));
                    }
                }
                judge(&k, es, &ns, l)
            },
        );
    }
    // metrics
    {
        let vals = [0.0, 1e-6, 1e-5, 0.5, 1.0, 1e9, -1.0, -1e-3, std::f64::NAN];
        let nv = vals.len() as u64;
        let k = cfg(2);
        c.family(
            "metric-values",
            &format!("2 edges with 2 metrics, all values from {:?}: 0 is stored as 1e-6, negative values and NaN are rejected, other values are kept", vals),
            pow(nv, 4) * 2,
            |i, l| {
                let mut d = Dig(i);
                let par = d.take(2) == 1;
                let v: Vec<f64> = (0..4).map(|_| vals[d.take(nv) as usize]).collect();
                let es = vec![
                    e(0, 1, &v[..2]),
                    if par { e(0, 1, &v[2..]) } else { e(1, 0, &v[2..]) },
                ];
                // values closer to each other than the accuracy count as duplicates
                if par && v[0] >= 0.0 && v[1] >= 0.0 && (0..2).all(|k| (v[k] - v[k + 2]).abs() < 2e-6) && es[0].m != es[1].m {
                    return Ok(());
                }
                judge(&k, &es, &nodes_of(&es), l)
            },
        );
    }
    // node-ids over the whole range
    {
        let ids: [i64; 8] = [std::i64::MIN + 2, -9_007_199_254_740_993, -1, 0, 1, 4_294_967_296, 9_007_199_254_740_993, std::i64::MAX - 2];
        let ps = pairs(8, false);
        let np = ps.len() as u64;
        let k = cfg(1);
        let len = 3;
        c.family(
            "id-range",
            &format!("all sequences of {} edges between nodes of ids {:?}", len, ids),
            pow(np, len),
            |i, l| {
                let mut d = Dig(i);
                let es: Vec<E> = (0..len)
                    .map(|j| {
                        let (a, b) = ps[d.take(np) as usize];
                        e(ids[a], ids[b], &[1.0 + j as f64])
                    })
                    .collect();
                judge(&k, &es, &nodes_of(&es), l)
            },
        );
    }
    // larger ones: print-limits (20), many edges per node, several orders of insertion
    {
        let sizes: Vec<usize> = c.pick(vec![6, 18, 19, 20, 21, 22, 40, 64, 100], vec![6, 18, 19, 20, 21, 22, 33, 40, 64, 100, 128, 200, 256, 300]);
        let k = cfg(1);
        c.family(
            "structured",
            &format!("9 shapes of {:?} nodes, edges inserted in 4 orders, with and without ids, with all edges doubled or not", sizes),
            sizes.len() as u64 * SHAPES * 4 * 2 * 2,
            |i, l| {
                let mut d = Dig(i);
                let shape = d.take(SHAPES);
                let ord = d.take(4);
                let with_ids = d.take(2) == 1;
                let dup = d.take(2) == 1;
                let n = sizes[d.take(sizes.len() as u64) as usize];
                let mut es = structured(shape, n, 2);
                let m = es.len();
                if with_ids {
                    for (j, x) in es.iter_mut().enumerate() {
                        x.id = Some((j * 37 + 5) % (m * 2 + 41) * m + j);
                    }
                }
                if dup {
                    es = es.iter().cloned().chain(es.iter().cloned()).collect();
                }
                match ord {
                    1 => es.reverse(),
                    2 => es.sort_by_key(|x| (x.dst, x.src)),
                    3 => {
                        let mm = es.len();
                        let mut v: Vec<(usize, E)> = es.into_iter().enumerate().map(|(j, x)| ((j.wrapping_mul(2654435761)) % (mm * 3 + 1), x)).collect();
                        v.sort_by_key(|x| x.0);
                        es = v.into_iter().map(|x| x.1).collect();
                    }
                    _ => (),
                }
                judge(&k, &es, &nodes_of(&es), l)
            },
        );
    }
    // more edges than are processed in one chunk of memory
    {
        let k = cfg(1);
        let cases = c.pick(1, 3);
        c.hang_limit(400);
        c.family_with(
            "chunked",
            "networks of 2.4, 3.0 and 5.2 million edges (the builder works in chunks of about 2 million): a two-way line",
            cases,
            1,
            |i, l| {
                let m = [2_400_000usize, 3_000_000, 5_200_000][i as usize];
                let mut eb = GraphBuilder::new(k.clone());
                for j in 0..m / 2 {
                    let (a, b) = (j as i64, j as i64 + 1);
                    let w = 1.0 + (j % 1000) as f64;
                    for (s, t, w) in &[(a, b, w), (b, a, w + 0.5)] {
                        eb.insert(ProtoEdge { id: Some(2 * j + (*s > *t) as usize), src_id: *s, dst_id: *t, metrics: dimvec(&[*w]) }).map_err(|e| e.to_string())?;
                    }
                }
                let mut nb = eb.next();
                for j in 0..=(m / 2) as i64 {
                    nb.insert(proto_node(&n(j)));
                }
                let g = nb.next().map_err(|e| e.to_string())?.finalize().map_err(|e| e.to_string())?;
                l.step(m as u64);
                l.eval(m as u64);
                if g.nodes().count() != m / 2 + 1 || g.fwd_edges().count() != m || g.bwd_edges().count() != m {
                    return Err(format!("{} nodes, {} edges", g.nodes().count(), g.fwd_edges().count()));
                }
                let (fwd, bwd, mets) = (g.fwd_edges(), g.bwd_edges(), g.metrics());
                for i in 0..m {
                    let x = EdgeIdx(i);
                    let (a, b) = (*bwd.dst_idx(x), *fwd.dst_idx(x));
                    let j = a.min(b);
                    let w = 1.0 + (j % 1000) as f64 + if a > b { 0.5 } else { 0.0 };
                    if (a + 1 != b && b + 1 != a) || mets[x].to_vec() != vec![w] || fwd.try_id(x) != Some(2 * j + (a > b) as usize) {
                        return Err(format!("edge {} is {}->{} {:?} {:?}", i, a, b, mets[x], fwd.try_id(x)));
                    }
                }
                for v in 0..g.nodes().count() {
                    if g.nodes().id(NodeIdx(v)) != v as i64 {
                        return Err(format!("node-id {} at {}", g.nodes().id(NodeIdx(v)), v));
                    }
                    let deg = if v == 0 || v == m / 2 { 1 } else { 2 };
                    for acc in &[&fwd, &bwd] {
                        if acc.starting_from(NodeIdx(v)).count() != deg {
                            return Err(format!("node {} has {} edges", v, acc.starting_from(NodeIdx(v)).count()));
                        }
                    }
                    for h in fwd.starting_from(NodeIdx(v)) {
                        if *bwd.dst_idx(h.idx()) != v {
                            return Err(format!("edge {:?} does not leave {}", h.idx(), v));
                        }
                    }
                    for h in bwd.starting_from(NodeIdx(v)) {
                        if *fwd.dst_idx(h.idx()) != v {
                            return Err(format!("edge {:?} does not enter {}", h.idx(), v));
                        }
                    }
                }
                Ok(())
            },
        );
        c.hang_limit(60);
    }
}
