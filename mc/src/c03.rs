//! C03: a router answers as if it were new, whatever it has been asked before.
use crate::{
    c01::{show, structured},
    c02::{contract, Mode},
    engine::{guard, pow, Ctx, Dig, Local, Verdict},
    model::*,
};
use osmgraphing::{configs::routing::RoutingAlgo, network::Graph, routing::dijkstra::Dijkstra};

struct Q {
    g: usize,
    r: RCfg,
    s: usize,
    t: usize,
    fresh: Option<Vec<usize>>,
    text: String,
}

struct Pool {
    graphs: Vec<Graph>,
    qs: Vec<Q>,
}

fn graphs(big: bool) -> Vec<(String, Vec<E>, Vec<N>)> {
    let mut v = vec![];
    let mut add = |es: Vec<E>| {
        let ns = nodes_of(&es);
        v.push((show(&es), es, ns));
    };
    // one node
    add(vec![e(5, 5, &[1.0, 1.0])]);
    // two nodes
    add(vec![e(5, 9, &[1.0, 3.0])]);
    // three, directed ring with a chord
    add(vec![e(0, 1, &[1.0, 7.0]), e(1, 2, &[1.5, 1.0]), e(2, 0, &[4.0, 1.0]), e(0, 2, &[9.0, 1.0])]);
    // the same number of nodes, but other edges and costs
    add(vec![e(5, 5, &[2.0, 1.0]), e(5, 5, &[1.0, 4.0])]);
    add(vec![e(5, 9, &[2.0, 3.0]), e(9, 5, &[1.0, 1.0])]);
    add(vec![e(0, 1, &[8.0, 1.0]), e(1, 2, &[1.5, 1.0]), e(2, 1, &[4.0, 1.0]), e(0, 2, &[9.0, 1.0])]);
    // five, two components
    add(vec![
        e(0, 1, &[1.0, 8.0]),
        e(1, 2, &[2.0, 4.0]),
        e(2, 0, &[3.5, 2.0]),
        e(3, 4, &[1.0, 1.0]),
        e(4, 3, &[2.0, 1.0]),
    ]);
    // four, contracted
    {
        let base = vec![
            e(-7, 0, &[1.0, 5.0]),
            e(0, 3, &[2.0, 6.0]),
            e(3, 11, &[4.0, 7.0]),
            e(11, -7, &[8.5, 1.0]),
            e(0, 11, &[16.25, 2.0]),
            e(11, 3, &[1.0, 1.25]),
        ];
        let (all, lv) = contract(&base, &IDS[..4], &[2, 0, 3, 1], Mode::Full, false);
        let ns = (0..4).map(|i| nl(IDS[i], lv[i])).collect();
        v.push((show(&all), all, ns));
    }
    if big {
        let es = structured(2, 30, 2).into_iter().map(|x| E { m: vec![x.m[0], 100.0 - x.m[0]], ..x }).collect::<Vec<_>>();
        let ns = nodes_of(&es);
        v.push((show(&es), es, ns));
    }
    v
}

fn pool(big: bool, per_graph: &[(usize, usize)], alphas: &[[f64; 2]]) -> Result<Pool, String> {
    let k = cfg(2);
    let mut p = Pool { graphs: vec![], qs: vec![] };
    for (gi, (text, es, ns)) in graphs(big).into_iter().enumerate() {
        let g = guard(|| build(&k, &es, &ns)).and_then(|x| x)?;
        let nn = g.nodes().count();
        for &(s, t) in per_graph {
            if s >= nn || t >= nn {
                continue;
            }
            for &algo in &[RoutingAlgo::Dijkstra, RoutingAlgo::CHDijkstra] {
                for a in alphas {
                    let r = rcfg(algo, a);
                    let mut d = Dijkstra::new();
                    let fresh = guard(|| query(&mut d, &g, &r, s, t))
                        .map_err(|m| format!("{} of a new router: {:?} {:?} {}->{} in\n{}", m, algo, a, s, t, text))?
                        .map(|p| path_edges(&p));
                    p.qs.push(Q {
                        g: gi,
                        r,
                        s,
                        t,
                        fresh,
                        text: format!("{:?} alphas {:?} idx {} -> {} in network {}:\n{}", algo, a, s, t, gi, text),
                    });
                }
            }
        }
        p.graphs.push(g);
    }
    Ok(p)
}

fn seq(p: &Pool, qs: &[usize], l: &mut Local) -> Verdict {
    let mut d = Dijkstra::new();
    for (k, &qi) in qs.iter().enumerate() {
        let q = &p.qs[qi];
        l.step(1);
        l.eval(1);
        let ctxt = || {
            format!(
                "query {} of the sequence\n{}",
                k,
                qs.iter().map(|&x| p.qs[x].text.clone()).collect::<Vec<_>>().join("\n then ")
            )
        };
        let got = guard(|| query(&mut d, &p.graphs[q.g], &q.r, q.s, q.t))
            .map_err(|m| format!("{}: {}", m, ctxt()))?
            .map(|p| path_edges(&p));
        match (&got, &q.fresh) {
            (a, b) if a == b => (),
            // among several cheapest paths, any is fine
            (Some(a), Some(b)) => {
                let (g, ends) = (&p.graphs[q.g], endpoints(&p.graphs[q.g]));
                let cost = |x: &[usize]| chain(g, &ends, x, q.s, q.t).map(|m| dot(&q.r.alphas, &m));
                let (ca, cb) = (cost(a).map_err(|m| format!("{}: {}", m, ctxt()))?, cost(b).map_err(|m| format!("{}: {}", m, ctxt()))?);
                if !close(ca, cb) {
                    return Err(format!("answers {:?} of cost {}, a new router answers {:?} of cost {}: {}", a, ca, b, cb, ctxt()));
                }
            }
            _ => return Err(format!("answers {:?}, a new router answers {:?}: {}", got, q.fresh, ctxt())),
        }
        l.outcome(&(qi, k));
    }
    Ok(())
}

pub fn run(c: &mut Ctx) {
    let ab: &[[f64; 2]] = &[[1.0, 0.0], [0.5, 2.0]];
    let p = pool(false, &[(0, 0), (0, 1), (1, 0), (2, 0), (0, 2), (0, 3), (3, 1), (4, 3)], ab);
    let p = match p {
        Ok(p) => p,
        Err(m) => {
            c.family("new-router", "single queries", 1, |_, _| Err(m.clone()));
            return;
        }
    };
    let nq = p.qs.len() as u64;
    c.family(
        "sequences-2",
        &format!("all sequences of 2 of {} queries over 8 networks of 1 to 5 nodes (1 contracted, some of the same size), 2 algorithms, 2 alpha-vectors, on one router", nq),
        nq * nq,
        |i, l| {
            let mut d = Dig(i);
            let s: Vec<usize> = (0..2).map(|_| d.take(nq) as usize).collect();
            seq(&p, &s, l)
        },
    );
    c.family(
        "sequences-3",
        &format!("all sequences of 3 of {} queries", nq),
        pow(nq, 3),
        |i, l| {
            let mut d = Dig(i);
            let s: Vec<usize> = (0..3).map(|_| d.take(nq) as usize).collect();
            seq(&p, &s, l)
        },
    );
    let p4 = pool(true, &[(0, 2), (1, 0), (3, 1), (29, 2)], &[[1.0, 0.0], [-1.0, 1.0]]).unwrap();
    let nq = p4.qs.len() as u64;
    let len = c.pick(4, 5);
    c.family(
        "sequences-long",
        &format!("all sequences of {} of {} queries (a network of 30 nodes and rejected negative alphas included)", len, nq),
        pow(nq, len),
        |i, l| {
            let mut d = Dig(i);
            let s: Vec<usize> = (0..len).map(|_| d.take(nq) as usize).collect();
            seq(&p4, &s, l)
        },
    );
    // one long history: every ordered pair of queries occurs consecutively
    let pbig = pool(true, &(0..30).flat_map(|s| vec![(s, 0), (s, 7), (29, s)]).collect::<Vec<_>>(), ab).unwrap();
    let n = pbig.qs.len();
    c.family(
        "long-history",
        &format!("histories of {} queries which alternate one query with all others (all ordered pairs of {} queries)", 2 * n, n),
        n as u64,
        |i, l| {
            let mut s = vec![];
            for j in 0..n {
                s.push(i as usize);
                s.push(j);
            }
            seq(&pbig, &s, l)
        },
    );
}
