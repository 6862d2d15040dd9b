//! C12: the balancer's workloads do not depend on the number of threads or their interleaving.
use crate::{
    engine::{set_quiet, Ctx, Local, Verdict},
    model::*,
};
use osmgraphing::{
    configs::routing::{ExploratorAlgo, RoutingAlgo},
    network::{EdgeIdx, Graph, RoutePair},
    routing::{dijkstra, dijkstra::Dijkstra, explorating::ConvexHullExplorator},
};
use rand::SeedableRng;
use schedstd::explore::{explore, look, End, Options, Run};
use sim::balancing::multithreading::Master;
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::Arc,
};

type Route = (i64, i64, usize);

#[derive(Clone, Copy, PartialEq, Debug)]
enum Algo {
    Dijkstra,
    Ch,
    Explorator,
    ChExplorator,
}

struct Case {
    threads: usize,
    routes: Vec<Route>,
    algo: Algo,
    collect: bool,
    reduce: bool,
    bound: u64,
}

/// 1 -> 2 -> 3 -> 4 with two alternatives from 2 to 3, node 9 apart
fn network(algo: Algo) -> (Graph, RCfg) {
    let mut es = vec![e(1, 2, &[1.0, 1.0]), e(2, 3, &[1.0, 4.0]), e(2, 3, &[4.0, 1.0]), e(3, 4, &[2.0, 2.0]), e(4, 1, &[1.0, 2.0]), e(9, 1, &[1.0, 1.0])];
    if let Algo::Ch | Algo::ChExplorator = algo {
        // 2 is contracted
        es.push(E {
            sc: Some([0, 1]),
            ..e(1, 3, &[2.0, 5.0])
        });
        es.push(E {
            sc: Some([0, 2]),
            ..e(1, 3, &[5.0, 2.0])
        });
    }
    let nodes = vec![nl(1, 3), nl(2, 0), nl(3, 2), nl(4, 1), nl(9, 0)];
    let g = build(&cfg(2), &es, &nodes).expect("harness network");
    let r = match algo {
        Algo::Dijkstra => rcfg(RoutingAlgo::Dijkstra, &[1.0, 0.5]),
        Algo::Ch => rcfg(RoutingAlgo::CHDijkstra, &[1.0, 0.5]),
        Algo::Explorator => rcfg(RoutingAlgo::Explorator { algo: ExploratorAlgo::Dijkstra }, &[1.0, 0.5]),
        Algo::ChExplorator => rcfg(RoutingAlgo::Explorator { algo: ExploratorAlgo::CHDijkstra }, &[1.0, 0.5]),
    };
    (g, r)
}

/// flattened paths which may be chosen, as lists of edge-indices
fn allowed(g: &Graph, r: &RCfg, s: i64, t: i64) -> Result<BTreeSet<Vec<usize>>, String> {
    let q = |rc| {
        Ok::<_, String>(dijkstra::Query {
            src_idx: g.nodes().idx_from(s).map_err(|e| e.to_string())?,
            dst_idx: g.nodes().idx_from(t).map_err(|e| e.to_string())?,
            graph: g,
            routing_cfg: rc,
        })
    };
    let list = match r.routing_algo {
        RoutingAlgo::Explorator { algo } => {
            let mut rc = r.clone();
            rc.routing_algo = RoutingAlgo::from(algo);
            ConvexHullExplorator::new().fully_explorate(q(&rc)?, &mut Dijkstra::new())
        }
        _ => Dijkstra::new().compute_best_path(q(r)?).into_iter().collect(),
    };
    Ok(list.into_iter().map(|p| edges_of(&p.flatten(g))).collect())
}

fn edges_of(p: &osmgraphing::routing::paths::Path) -> Vec<usize> {
    p.into_iter().map(|x: &EdgeIdx| **x).collect()
}

struct Seen {
    result: Result<(Vec<usize>, Option<Vec<(i64, i64, Vec<usize>)>>), String>,
    owners: usize,
}

fn quiet() {
    set_quiet(true);
}

fn decide(case: &Case, l: &mut Local) -> Result<BTreeSet<Vec<usize>>, String> {
    let (g, r) = network(case.algo);
    let known = |id: i64| g.nodes().idx_from(id).is_ok();
    let proper = case.routes.iter().all(|x| known(x.0) && known(x.1));
    let mut may: BTreeMap<(i64, i64), BTreeSet<Vec<usize>>> = BTreeMap::new();
    let mut want: BTreeMap<(i64, i64), usize> = BTreeMap::new();
    for x in &case.routes {
        if known(x.0) && known(x.1) {
            let a = allowed(&g, &r, x.0, x.1)?;
            if !a.is_empty() && x.2 > 0 {
                *want.entry((x.0, x.1)).or_default() += x.2;
            }
            may.insert((x.0, x.1), a);
        }
    }
    let fixed = may.values().all(|a| a.len() <= 1);
    let num_edges = g.fwd_edges().count();
    let ids: Vec<i64> = (0..g.nodes().count()).map(|i| g.nodes().id(osmgraphing::network::NodeIdx(i))).collect();
    let arc = Arc::new(g);
    let rc = Arc::new(r);
    let judge = |run: &Run<Seen>| -> Result<(), String> {
        let sched = || format!("\nschedule: {:?}", run.schedule);
        match &run.end {
            Some(End::Deadlock(w)) => return Err(format!("all threads wait forever: {}{}", w, sched())),
            Some(End::Endless) => return Err(format!("the work does not end{}", sched())),
            Some(End::Broken(m)) => return Err(format!("harness: {}", m)),
            Some(End::Pruned) | None => (),
        }
        let seen = match &run.value {
            Some(s) => s,
            None => return if proper { Err(format!("panics{}", sched())) } else { Ok(()) },
        };
        let (loads, paths) = match &seen.result {
            Ok(x) => x,
            Err(_) if !proper || (case.threads == 0 && !case.routes.is_empty()) => return Ok(()),
            Err(m) => return Err(format!("fails: {}{}", m, sched())),
        };
        if !proper {
            return Err(format!("a route between unknown nodes goes unnoticed, workloads {:?}{}", loads, sched()));
        }
        if seen.owners != 1 {
            return Err(format!("the graph has {} owners after the work is done{}", seen.owners, sched()));
        }
        if loads.len() != num_edges {
            return Err(format!("{} workloads for {} edges", loads.len(), num_edges));
        }
        match (case.collect, paths) {
            (false, None) => (),
            (true, Some(paths)) => {
                let mut got: BTreeMap<(i64, i64), usize> = BTreeMap::new();
                let mut sum = vec![0; num_edges];
                for (s, t, p) in paths {
                    *got.entry((*s, *t)).or_default() += 1;
                    match may.get(&(*s, *t)) {
                        Some(a) if a.contains(p) => (),
                        _ => return Err(format!("path {:?} from {} to {} is not among {:?}{}", p, s, t, may, sched())),
                    }
                    for &i in p {
                        sum[i] += 1;
                    }
                }
                if got != want {
                    return Err(format!("routes {:?} instead of {:?}{}", got, want, sched()));
                }
                if sum != *loads {
                    return Err(format!("workloads {:?}, but the chosen paths make {:?}{}", loads, sum, sched()));
                }
            }
            _ => return Err("paths are to be collected if and only if asked for".into()),
        }
        if fixed {
            let mut sum = vec![0; num_edges];
            for (p, &n) in &want {
                for &i in may[p].iter().next().unwrap() {
                    sum[i] += n;
                }
            }
            if sum != *loads {
                return Err(format!("workloads {:?} instead of {:?}{}", loads, sum, sched()));
            }
        } else {
            // all alternatives of a route have the same length
            let total: usize = want.iter().map(|(p, n)| may[p].iter().next().unwrap().len() * n).sum();
            if loads.iter().sum::<usize>() != total {
                return Err(format!("workloads {:?} do not add up to {}{}", loads, total, sched()));
            }
        }
        Ok(())
    };
    let mut outcomes = BTreeSet::new();
    let mut first = None;
    let stats = explore(
        &Options {
            reduce: case.reduce,
            max_steps: 2_000,
            max_executions: case.bound,
            init: quiet,
        },
        || {
            let arc = Arc::clone(&arc);
            // one owner is the harness
            let routes: Vec<_> = case.routes.iter().map(|x| (RoutePair { src: x.0, dst: x.1 }, x.2)).collect();
            let mut rng = rand_pcg::Pcg32::seed_from_u64(42);
            let mut master = match Master::spawn_some(case.threads, &arc, &rc) {
                Ok(m) => m,
                Err(e) => {
                    return Seen {
                        result: Err(e.to_string()),
                        owners: 1,
                    }
                }
            };
            let result = master.work_off(routes, &arc, &mut rng, case.collect);
            look();
            Seen {
                owners: Arc::strong_count(&arc) - 1,
                result: result.map_err(|e| e.to_string()).map(|(w, ps)| {
                    (
                        w,
                        ps.map(|ps| ps.iter().map(|p| (ids[*p.src_idx()], ids[*p.dst_idx()], edges_of(p))).collect()),
                    )
                }),
            }
        },
        |run| {
            l.eval(1);
            if let Some(Seen { result: Ok((w, _)), .. }) = &run.value {
                outcomes.insert(w.clone());
            }
            if first.is_none() {
                first = Some(format!("{:?}", run.schedule));
            }
            judge(run)
        },
    )
    .map_err(|m| format!("{} thread(s), {:?}, {} routes {:?}...: {}", case.threads, case.algo, case.routes.len(), case.routes.iter().rev().take(4).collect::<Vec<_>>(), m))?;
    l.step(stats.steps);
    l.validated += stats.executions;
    if l.verbose {
        println!("{} executions, {} pruned, {} steps, longest {}", stats.executions, stats.pruned, stats.steps, stats.longest);
    }
    l.outcome(&outcomes);
    l.sample(|| format!("{} thread(s), {} routes, {:?}: {} schedules ({} more cut short as equivalent), longest {} steps; first {}", case.threads, case.routes.len(), case.algo, stats.executions, stats.pruned, stats.longest, first.unwrap_or_default().chars().take(400).collect::<String>()));
    Ok(outcomes)
}

/// a mix of routes, distinguishable by what they put on edges
fn routes(n: usize) -> Vec<Route> {
    let ends = [(1, 2), (2, 3), (3, 4), (1, 4), (4, 2), (2, 1), (9, 3)];
    (0..n).map(|i| (ends[i % 7].0, ends[i % 7].1, 1 + (i % 3))).collect()
}

fn case(threads: usize, routes: Vec<Route>, algo: Algo, collect: bool) -> Case {
    Case {
        threads,
        routes,
        algo,
        collect,
        reduce: true,
        bound: 50_000_000,
    }
}

const ALGOS: [Algo; 4] = [Algo::Dijkstra, Algo::Ch, Algo::Explorator, Algo::ChExplorator];

pub fn run(c: &mut Ctx) {
    c.hang_limit(c.pick(600, 3600));

    // big ones first
    let mut v: Vec<(usize, usize, Algo, bool)> = vec![];
    let sizes: [Vec<usize>; 4] = [
        c.pick(vec![400, 300, 250, 249, 151, 150, 149, 81, 80, 79, 51, 50, 49], vec![600, 550, 500, 450, 400, 350, 300, 250, 249, 151, 150, 149, 81, 80, 79, 51, 50, 49]),
        c.pick(vec![88, 86, 85, 84, 83, 82, 81, 80], vec![91, 90, 88, 86, 85, 84, 83, 82, 81, 80]),
        c.pick(vec![163, 162, 161, 160, 82, 81, 80], vec![165, 164, 163, 162, 161, 160, 82, 81, 80]),
        c.pick(vec![241, 161, 81, 80], vec![242, 241, 161, 81, 80]),
    ];
    for t in (0..4).rev() {
        for &n in sizes[t].iter().chain(&[4, 3, 2, 1, 0]) {
            v.push((t + 1, n, Algo::Dijkstra, true));
        }
    }
    c.family("threads-x-routes", "1 to 4 workers x numbers of routes around all chunk borders (the chunk size depends on the schedule), all schedules each", v.len() as u64, |i, l| -> Verdict {
        let (t, n, a, col) = v[i as usize];
        decide(&case(t, routes(n), a, col), l).map(|_| ())
    });

    let mut v = vec![];
    for a in ALGOS {
        for col in [false, true] {
            for (t, n) in c.pick(vec![(2, 83), (1, 151), (3, 161), (2, 3)], vec![(3, 163), (2, 86), (2, 83), (1, 250), (1, 151), (3, 161), (2, 3)]) {
                v.push((t, n, a, col));
            }
        }
    }
    c.family("algorithms", "Dijkstra, CH-Dijkstra and both explorators, with and without collecting paths, all schedules each", v.len() as u64, |i, l| -> Verdict {
        let (t, n, a, col) = v[i as usize];
        decide(&case(t, routes(n), a, col), l).map(|_| ())
    });

    // routes which are driven never, once or often; the first 80 are one chunk
    let k = 4;
    c.family("counts", "all count-vectors {0,1,2,5}^4 of the routes which 2 workers compete for, and of 4 routes in one chunk, all schedules each", 2 * 256, |i, l| -> Verdict {
        let pad = if i < 256 { 79 } else { 0 };
        let mut rs = routes(pad);
        let mut x = i % 256;
        for j in 0..k {
            rs.push(([1, 2, 4, 9][j], [4, 3, 3, 4][j], [0, 1, 2, 5][(x % 4) as usize]));
            x /= 4;
        }
        decide(&case(2, rs, if i % 2 == 0 { Algo::Dijkstra } else { Algo::Ch }, true), l).map(|_| ())
    });

    // nobody gets to 9
    let n = 83;
    c.family("unroutable", "routes without a path at all places (one or two of the last four, and in the first chunk), 2 workers, all schedules each", 4 * 32, |i, l| -> Verdict {
        let mut rs = routes(n);
        for b in 0..5 {
            if i >> b & 1 == 1 {
                let at = if b == 4 { 7 } else { n - 1 - b };
                rs[at] = (1 + b as i64 % 4, 9, 2);
            }
        }
        decide(&case(2, rs, ALGOS[i as usize / 32], true), l).map(|_| ())
    });

    // a route between unknown nodes makes a worker fail
    let mut v = vec![];
    for t in 1..=3 {
        let n: usize = [151, 83, 162][t - 1];
        for n in [n, 5, 1] {
            let mut at = vec![0, n / 2, n - 1, n.saturating_sub(2), n.saturating_sub(3), 79.min(n - 1), 80.min(n - 1)];
            at.sort();
            at.dedup();
            for a in at {
                for side in 0..3 {
                    v.push((t, n, a, side));
                }
            }
        }
    }
    c.family("failing-worker", "an unknown source, destination or both at places around all chunk borders, 1 to 3 workers, all schedules each: never a result with missing work, never endless", v.len() as u64, |i, l| -> Verdict {
        let (t, n, at, side) = v[i as usize];
        let mut rs = routes(n);
        if side != 1 {
            rs[at].0 = 77;
        }
        if side != 0 {
            rs[at].1 = 78;
        }
        decide(&case(t, rs, ALGOS[i as usize % 2 * 2], i % 2 == 0), l).map(|_| ())
    });

    c.family("no-worker", "no worker: an error, or there is nothing to do", 4, |i, l| -> Verdict { decide(&case(0, routes([0, 1, 2, 81][i as usize]), Algo::Dijkstra, true), l).map(|_| ()) });

    // is the reduction sound here?
    let v: Vec<(usize, usize)> = c.pick(vec![(1, 151), (2, 0), (2, 1), (3, 0)], vec![(2, 81), (1, 151), (2, 0), (2, 1), (2, 2), (3, 0)]);
    c.family("unreduced", "all interleavings without any reduction give the same outcomes as the reduced exploration", v.len() as u64, |i, l| -> Verdict {
        let (t, n) = v[i as usize];
        let a = decide(&case(t, routes(n), Algo::Explorator, true), l)?;
        let b = decide(
            &Case {
                reduce: false,
                ..case(t, routes(n), Algo::Explorator, true)
            },
            l,
        )?;
        if a == b {
            Ok(())
        } else {
            Err(format!("harness: {} outcomes with, {} without reduction", a.len(), b.len()))
        }
    });
}
