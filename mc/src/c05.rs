//! C05: shortcuts keep referring to the edges they replace, and flattening unfolds them.
use crate::{
    c01::show,
    engine::{guard, perms, pow, Ctx, Dig, Local, Verdict},
    model::*,
};
use osmgraphing::{
    network::{EdgeIdx, Graph, NodeIdx},
    routing::paths::Path,
};

/// reference: unfold insertion-index i; None if it never ends
fn unfold(es: &[E], i: usize, depth: usize, out: &mut Vec<usize>) -> Option<()> {
    if depth > es.len() {
        return None;
    }
    match es[i].sc {
        None => out.push(i),
        Some([a, b]) => {
            unfold(es, a, depth + 1, out)?;
            unfold(es, b, depth + 1, out)?;
        }
    }
    Some(())
}

/// does unfolding i ever end?
fn finite(es: &[E]) -> Vec<bool> {
    // least fixpoint
    let mut fin = vec![false; es.len()];
    loop {
        let mut ch = false;
        for i in 0..es.len() {
            if !fin[i] && es[i].sc.map(|[a, b]| fin[a] && fin[b]).unwrap_or(true) {
                fin[i] = true;
                ch = true;
            }
        }
        if !ch {
            return fin;
        }
    }
}

/// Do all shortcuts refer to the edges they are to replace? Contents must be unique.
pub fn refs(g: &Graph, es: &[E], l: &mut Local) -> Verdict {
    let mut by: std::collections::BTreeMap<(i64, i64, Vec<u64>), usize> = Default::default();
    for i in 0..g.fwd_edges().count() {
        let x = EdgeIdx(i);
        let src = g.nodes().id(g.bwd_edges().dst_idx(x));
        let dst = g.nodes().id(g.fwd_edges().dst_idx(x));
        by.insert((src, dst, g.metrics()[x].iter().map(|f| f.to_bits()).collect()), i);
    }
    let at = |x: &E| by.get(&(x.src, x.dst, x.m.iter().map(|f| f.to_bits()).collect())).copied();
    for x in es {
        l.eval(1);
        let i = at(x).ok_or_else(|| format!("edge {:?} is missing", x))?;
        let got = g.fwd_edges().sc_edges(EdgeIdx(i)).map(|s| [*s[0], *s[1]]);
        let want = match x.sc {
            None => None,
            Some([a, b]) => Some([at(&es[a]).ok_or("missing")?, at(&es[b]).ok_or("missing")?]),
        };
        if got != want || g.fwd_edges().is_shortcut(EdgeIdx(i)) != want.is_some() {
            return Err(format!("edge {:?} replaces {:?} instead of {:?}", x, got, want));
        }
    }
    Ok(())
}

fn same(g: &Graph, idx: usize, x: &E) -> bool {
    let m = &g.metrics()[EdgeIdx(idx)];
    let src = g.nodes().id(g.bwd_edges().dst_idx(EdgeIdx(idx)));
    let dst = g.nodes().id(g.fwd_edges().dst_idx(EdgeIdx(idx)));
    src == x.src && dst == x.dst && m.to_vec() == x.m
}

/// Edges of different content (src, dst, metrics) are required to tell them apart; insertions of
/// equal content are duplicates.
fn judge(es: &[E], ns: &[N], l: &mut Local) -> Verdict {
    let k = cfg(es[0].m.len());
    let text = || format!("\n{}  nodes {:?}", show(es), ns.iter().map(|n| (n.id, n.level)).collect::<Vec<_>>());
    l.step(es.len() as u64);
    let g = guard(|| build(&k, es, ns)).and_then(|x| x).map_err(|m| format!("{} for {}", m, text()))?;
    // content -> index
    let at: Vec<usize> = {
        let mut v = vec![];
        for x in es {
            let c: Vec<usize> = (0..g.fwd_edges().count()).filter(|&i| same(&g, i, x)).collect();
            if c.len() != 1 {
                return Err(format!("edge {:?} occurs {} times: {}", x, c.len(), text()));
            }
            v.push(c[0]);
        }
        v
    };
    for (i, x) in es.iter().enumerate() {
        let idx = EdgeIdx(at[i]);
        for acc in &[g.fwd_edges(), g.bwd_edges()] {
            l.eval(1);
            let got = acc.sc_edges(idx).map(|s| [*s[0], *s[1]]);
            let want = x.sc.map(|[a, b]| [at[a], at[b]]);
            if got != want || acc.is_shortcut(idx) != want.is_some() || acc.half_edge(idx).is_shortcut() != want.is_some() || acc.half_edge(idx).sc_edges().map(|s| [*s[0], *s[1]]) != want {
                return Err(format!("edge {:?} (idx {}) replaces {:?} instead of {:?}: {}", x, at[i], got, want, text()));
            }
        }
    }
    guard(|| format!("{}", g)).map_err(|m| format!("printing: {}: {}", m, text()))?;
    // flatten every edge, and the path of all edges
    let fin = finite(es);
    let mut starts: Vec<Vec<usize>> = (0..es.len()).map(|i| vec![i]).collect();
    starts.push(vec![]);
    starts.push((0..es.len()).collect());
    starts.push((0..es.len()).rev().collect());
    // a walk may use an edge repeatedly
    starts.push((0..es.len()).chain(0..es.len()).chain(0..es.len()).collect());
    for st in &starts {
        l.step(1);
        l.eval(1);
        let p = Path::new(NodeIdx(0), 77, NodeIdx(g.nodes().count() - 1), 99, st.iter().map(|&i| EdgeIdx(at[i])).collect());
        let r = guard(|| p.try_flatten(&g)).map_err(|m| format!("flattening {:?}: {}: {}", st, m, text()))?;
        let ends = st.iter().all(|&i| fin[i]);
        match (r, ends) {
            (Err(_), false) => l.outcome(&0),
            (Ok(_), false) => return Err(format!("flattening {:?} ended in spite of a cycle: {}", st, text())),
            (Err(m), true) => return Err(format!("flattening {:?} fails with `{}`: {}", st, m, text())),
            (Ok(f), true) => {
                let mut want = vec![];
                for &i in st {
                    unfold(es, i, 0, &mut want).expect("finite");
                }
                let mut sum = vec![0.0; es[0].m.len()];
                for &i in &want {
                    for (s, m) in sum.iter_mut().zip(&es[i].m) {
                        *s += m;
                    }
                }
                let want: Vec<usize> = want.into_iter().map(|i| at[i]).collect();
                if path_edges(&f) != want {
                    return Err(format!("flattening {:?} yields {:?} instead of {:?}: {}", st, path_edges(&f), want, text()));
                }
                if f.costs().iter().zip(&sum).any(|(a, b)| !close(*a, *b)) || f.costs().len() != sum.len() {
                    return Err(format!("flattened path reports {:?} instead of {:?}: {}", f.costs(), sum, text()));
                }
                if *f.src_idx() != 0 || *f.dst_idx() != g.nodes().count() - 1 {
                    return Err(format!("flattening changes the endpoints: {}", text()));
                }
                l.outcome(&want);
            }
        }
    }
    Ok(())
}

pub fn run(c: &mut Ctx) {
    c.hang_limit(30);
    // every reference structure
    for &k in c.pick(&[2usize, 3, 4][..], &[2, 3, 4, 5][..]) {
        let opts = 1 + (k * k) as u64;
        c.family(
            &format!("references-{}", k),
            &format!("{} edges, each real or a shortcut of any two of them (cycles and self-references included)", k),
            pow(opts, k as u32),
            |i, l| {
                let mut d = Dig(i);
                let es: Vec<E> = (0..k)
                    .map(|j| {
                        let o = d.take(opts) as usize;
                        E {
                            sc: if o == 0 { None } else { Some([(o - 1) / k, (o - 1) % k]) },
                            ..e(IDS[(j * 2) % 3], IDS[(j + 1) % 3], &[1.0 + j as f64])
                        }
                    })
                    .collect();
                judge(&es, &nodes_of(&es), l)
            },
        );
    }
    // every order of insertion, with levels and duplicates
    {
        // 0:a->b 1:b->c 2:c->d 3:a->c=(0,1) 4:a->d=(3,2) 5: b->d=(1,2)
        let ids = [5i64, 2, 9, 7];
        let base = vec![
            e(ids[0], ids[1], &[1.0, 10.0]),
            e(ids[1], ids[2], &[2.0, 20.0]),
            e(ids[2], ids[3], &[4.0, 40.0]),
            E { sc: Some([0, 1]), ..e(ids[0], ids[2], &[3.0, 30.0]) },
            E { sc: Some([3, 2]), ..e(ids[0], ids[3], &[7.0, 70.0]) },
            E { sc: Some([1, 2]), ..e(ids[1], ids[3], &[6.0, 60.0]) },
        ];
        let ps = perms(6);
        let lperms = perms(4);
        let dups = c.pick(7u64, 7 * 7);
        c.family(
            "insertion-orders",
            &format!("3 edges and 3 nested shortcuts, inserted in all 720 orders, {} (a duplicate of any edge inserted at the front or the end), 24 level orders or none", dups),
            720 * 25 * dups * 2,
            |i, l| {
                let mut d = Dig(i);
                let o = &ps[d.take(720) as usize];
                let lv = d.take(25) as usize;
                let front = d.take(2) == 1;
                let mut copies: Vec<usize> = vec![];
                for _ in 0..2 {
                    let x = d.take(7) as usize;
                    if x < 6 {
                        copies.push(x);
                    }
                }
                // position of old edge i in the new list
                let mut list: Vec<usize> = vec![];
                if front {
                    list.extend(&copies);
                    list.extend(o);
                } else {
                    list.extend(o);
                    list.extend(&copies);
                }
                // references alternate between the copies of an edge
                let firsts: Vec<usize> = (0..6).map(|x| list.iter().position(|&y| y == x).unwrap()).collect();
                let lasts: Vec<usize> = (0..6).map(|x| list.iter().rposition(|&y| y == x).unwrap()).collect();
                let es: Vec<E> = list
                    .iter()
                    .enumerate()
                    .map(|(j, &x)| E {
                        sc: base[x].sc.map(|[a, b]| if j % 2 == 0 { [firsts[a], lasts[b]] } else { [lasts[a], firsts[b]] }),
                        ..base[x].clone()
                    })
                    .collect();
                let ns: Vec<N> = (0..4)
                    .map(|v| N { level: if lv == 24 { None } else { Some(lperms[lv][v]) }, ..n(ids[v]) })
                    .collect();
                judge(&es, &ns, l)
            },
        );
    }
    // deep nesting
    {
        let depths: Vec<usize> = c.pick(vec![1, 2, 3, 7, 15, 16, 17, 40, 100, 300], vec![1, 2, 3, 7, 15, 16, 17, 40, 100, 300, 1000, 1500]);
        c.family(
            "deep",
            &format!("chains of {:?} edges unfolded by left-deep, right-deep, balanced and zig-zag shortcuts; shortcuts inserted before, after or between edges", depths),
            depths.len() as u64 * 4 * 3,
            |i, l| {
                let mut d = Dig(i);
                let shape = d.take(4);
                let place = d.take(3);
                let n = depths[d.take(depths.len() as u64) as usize];
                // leaves 0..n, span (i,j)
                struct T {
                    es: Vec<(usize, usize, Option<[usize; 2]>)>,
                }
                let mut t = T { es: (0..n).map(|i| (i, i + 1, None)).collect() };
                fn balanced(t: &mut T, lo: usize, hi: usize) -> usize {
                    if hi - lo == 1 {
                        return lo;
                    }
                    let mid = (lo + hi) / 2;
                    let a = balanced(t, lo, mid);
                    let b = balanced(t, mid, hi);
                    t.es.push((lo, hi, Some([a, b])));
                    t.es.len() - 1
                }
                match shape {
                    0 => {
                        let mut cur = 0;
                        for j in 1..n {
                            t.es.push((0, j + 1, Some([cur, j])));
                            cur = t.es.len() - 1;
                        }
                    }
                    1 => {
                        let mut cur = n - 1;
                        for j in (0..n - 1).rev() {
                            t.es.push((j, n, Some([j, cur])));
                            cur = t.es.len() - 1;
                        }
                    }
                    2 => {
                        balanced(&mut t, 0, n);
                    }
                    _ => {
                        let (mut lo, mut hi) = (n / 2, n / 2 + 1);
                        if n == 1 {
                            lo = 0;
                            hi = 1;
                        }
                        let mut cur = lo;
                        while lo > 0 || hi < n {
                            if lo > 0 {
                                lo -= 1;
                                t.es.push((lo, hi, Some([lo, cur])));
                                cur = t.es.len() - 1;
                            }
                            if hi < n {
                                t.es.push((lo, hi + 1, Some([cur, hi])));
                                hi += 1;
                                cur = t.es.len() - 1;
                            }
                        }
                    }
                }
                // order of insertion
                let m = t.es.len();
                let order: Vec<usize> = match place {
                    0 => (0..m).collect(),
                    1 => (0..m).rev().collect(),
                    _ => (0..m).filter(|x| x % 3 == 1).chain((0..m).filter(|x| x % 3 != 1)).collect(),
                };
                let mut new = vec![0; m];
                for (k, &o) in order.iter().enumerate() {
                    new[o] = k;
                }
                let es: Vec<E> = order
                    .iter()
                    .map(|&o| {
                        let (a, b, s) = t.es[o];
                        E { sc: s.map(|[x, y]| [new[x], new[y]]), ..e(a as i64, b as i64, &[(b - a) as f64]) }
                    })
                    .collect();
                // only the outermost
                judge_deep(&es, n, l)
            },
        );
    }
    c.hang_limit(60);
}

fn judge_deep(es: &[E], n: usize, l: &mut Local) -> Verdict {
    let k = cfg(1);
    let g = guard(|| build(&k, es, &nodes_of(es))).and_then(|x| x)?;
    let ends = endpoints(&g);
    if ends.len() != es.len() {
        return Err(format!("{} edges instead of {}", ends.len(), es.len()));
    }
    for i in 0..ends.len() {
        l.step(1);
        l.eval(1);
        let (a, b) = ends[i];
        let p = Path::new(NodeIdx(a), a as i64, NodeIdx(b), b as i64, vec![EdgeIdx(i)]);
        let f = guard(|| p.try_flatten(&g))?.map_err(|m| format!("flattening {}->{} of a chain of {} edges: {}", a, b, n, m))?;
        let fe = path_edges(&f);
        chain(&g, &ends, &fe, a, b)?;
        if fe.len() != b - a || fe.iter().any(|&x| g.fwd_edges().is_shortcut(EdgeIdx(x))) {
            return Err(format!("flattening {}->{} yields {:?}", a, b, fe));
        }
        if !close(f.costs()[0], (b - a) as f64) {
            return Err(format!("flattened costs {:?} of {}->{}", f.costs(), a, b));
        }
    }
    l.outcome(&ends.len());
    Ok(())
}
