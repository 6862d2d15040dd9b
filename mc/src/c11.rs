//! C11: route-pairs: what is written is routable, what is read is what the file says.
use crate::{
    c01::{dense, pairs, show},
    c02::{contract, Mode},
    c16::{as_i64, as_usize, lines_of},
    engine::{guard, perms, pow, Ctx, Dig, Local, Verdict},
    fmi::scratch_file,
    model::*,
};
use osmgraphing::{
    configs::{self, routing::RoutingAlgo},
    io,
    network::{Graph, RoutePair},
};
use std::{collections::BTreeSet, fs, path::Path};

fn parse(file: &Path) -> Result<Vec<(i64, i64, usize)>, String> {
    let mut r = rcfg(RoutingAlgo::Dijkstra, &[1.0]);
    r.route_pairs_file = Some(file.to_path_buf());
    guard(|| io::routing::Parser::parse(&r)).and_then(|x| x.map_err(|e| e.to_string())).map(|v| v.into_iter().map(|(p, n)| (p.src, p.dst, n)).collect())
}

fn write(g: &Graph, r: &RCfg, file: &Path, seed: u64, max: usize) -> Result<(), String> {
    let c: configs::writing::routing::Config =
        serde_yaml::from_str(&format!("writing:\n  route-pairs:\n    file: '{}'\n    random_or_all: {{ seed: {}, max_count: {} }}\n", file.display(), seed, max)).unwrap();
    guard(|| io::routing::Writer::write(g, r, &c)).and_then(|x| x.map_err(|e| e.to_string()))
}

/// routable pairs of different nodes
fn routable(es: &[E]) -> BTreeSet<(i64, i64)> {
    let mut reach: BTreeSet<(i64, i64)> = es.iter().map(|x| (x.src, x.dst)).collect();
    loop {
        let mut more = vec![];
        for a in &reach {
            for b in &reach {
                if a.1 == b.0 && !reach.contains(&(a.0, b.1)) {
                    more.push((a.0, b.1));
                }
            }
        }
        if more.is_empty() {
            break;
        }
        reach.extend(more);
    }
    reach.into_iter().filter(|x| x.0 != x.1).collect()
}

#[allow(clippy::too_many_arguments)]
fn written(g: &Graph, r: &RCfg, es: &[E], want: &BTreeSet<(i64, i64)>, seed: u64, max: usize, dir: &Path, l: &mut Local) -> Result<Vec<u8>, String> {
    let text = || format!("seed {}, max_count {}: {}", seed, max, show(es));
    let file = scratch_file(dir, l.worker, "route-pairs");
    write(g, r, &file, seed, max).map_err(|m| format!("writing: {}: {}", m, text()))?;
    l.step(2);
    l.eval(1);
    l.validated += 1;
    let bytes = fs::read(&file).unwrap();
    let got = parse(&file).map_err(|m| format!("reading: {}: {}\n{}", m, text(), String::from_utf8_lossy(&bytes)))?;
    match read(&bytes) {
        Want::Routes(w) if w == got => (),
        _ => return Err(format!("the file is not what has been read, {:?}: {}\n{}", got, text(), String::from_utf8_lossy(&bytes))),
    }
    let set: BTreeSet<(i64, i64)> = got.iter().map(|x| (x.0, x.1)).collect();
    let n = g.nodes().count();
    if set.len() != got.len() {
        return Err(format!("a route is written twice, {:?}: {}", got, text()));
    }
    if let Some(x) = got.iter().find(|x| x.2 != 1) {
        return Err(format!("route {:?} is not to be driven once: {}", x, text()));
    }
    if let Some(x) = set.iter().find(|x| !want.contains(x)) {
        return Err(format!("{:?} is no route: {}", x, text()));
    }
    if got.len() > max {
        return Err(format!("{} routes instead of at most {}: {}", got.len(), max, text()));
    }
    if n * n <= max && set != *want {
        return Err(format!("{:?} instead of all routes {:?}: {}", set, want, text()));
    }
    for x in &got {
        let p = RoutePair { src: x.0, dst: x.1 };
        let (i, d) = (p.into_idx(g), p.into_node(g));
        let e = i.into_node(g);
        if g.nodes().id(i.src) != x.0 || g.nodes().id(i.dst) != x.1 || d.src.id() != x.0 || d.dst.id() != x.1 || e.src.id() != x.0 || e.dst.id() != x.1 {
            return Err(format!("route {:?} is looked up as {:?}, {:?}: {}", x, i.src, i.dst, text()));
        }
    }
    l.outcome(&got);
    Ok(bytes)
}

enum Want {
    Routes(Vec<(i64, i64, usize)>),
    Reject,
    Open,
}

fn read(bytes: &[u8]) -> Want {
    let ls = match lines_of(bytes) {
        Some(ls) => ls,
        None => return Want::Reject,
    };
    let toks: Vec<Vec<&str>> = ls.iter().map(|l| l.split_whitespace().collect()).collect();
    if toks.iter().any(|t| t.is_empty()) {
        return Want::Open;
    }
    let first = match toks.iter().position(|t| t.len() == 1) {
        Some(i) => i,
        None => return Want::Reject,
    };
    let data = toks[first..].iter().position(|t| t.len() != 1).map(|i| i + first).unwrap_or(toks.len());
    let counts: Vec<Option<usize>> = toks[first..data].iter().map(|t| as_usize(t[0])).collect();
    if counts.iter().all(|c| c.is_none()) {
        return Want::Reject;
    }
    if first != 0 || counts.len() != 1 {
        return Want::Open;
    }
    let n = counts[0].unwrap();
    if n > toks.len() - data {
        return Want::Reject;
    }
    let mut v = vec![];
    for t in &toks[data..data + n] {
        if t.len() != 3 {
            return Want::Reject;
        }
        match (as_i64(t[0]), as_i64(t[1]), as_usize(t[2])) {
            (Some(a), Some(b), Some(c)) => v.push((a, b, c)),
            _ => return Want::Reject,
        }
    }
    Want::Routes(v)
}

fn judge(bytes: &[u8], dir: &Path, l: &mut Local) -> Verdict {
    let file = scratch_file(dir, l.worker, "route-pairs");
    fs::write(&file, bytes).unwrap();
    let got = parse(&file);
    l.step(1);
    let text = || String::from_utf8_lossy(bytes).to_string();
    match (read(bytes), got) {
        (Want::Open, r) => l.outcome(&(0, r.is_ok())),
        (Want::Reject, Ok(v)) => return Err(format!("a malformed or incomplete file has been read as {:?}:\n{}", v, text())),
        (Want::Routes(w), Err(m)) => return Err(format!("a proper file of {:?} has been rejected ({}):\n{}", w, m, text())),
        (Want::Routes(w), Ok(v)) if w != v => return Err(format!("{:?} instead of {:?}:\n{}", v, w, text())),
        (Want::Routes(w), Ok(_)) => {
            l.eval(1);
            l.validated += 1;
            l.outcome(&w)
        }
        (Want::Reject, Err(m)) => {
            l.eval(1);
            l.validated += 1;
            l.outcome(&m)
        }
    }
    Ok(())
}

pub fn run(c: &mut Ctx) {
    let dir = c.scratch().to_path_buf();
    let ps = pairs(3, true);
    let k = cfg(1);
    let ws: &[&[f64]] = &[&[1.0], &[3.0]];
    let r = rcfg(RoutingAlgo::Dijkstra, &[1.0]);
    c.family(
        "all-routes",
        "all digraphs on 3 nodes with self-loops, max_count from n*n to beyond: exactly all routes",
        pow(3, 9) * 3,
        |i, l| {
            let mut d = Dig(i);
            let more = [0usize, 1, 1_000_000][d.take(3) as usize];
            let es = dense(d.0, &ps, ws, &IDS[..3]);
            if es.is_empty() {
                return Ok(());
            }
            let g = build(&k, &es, &nodes_of(&es))?;
            let n = g.nodes().count();
            l.sample(|| show(&es));
            written(&g, &r, &es, &routable(&es), 42, n * n + more, &dir, l).map(|_| ())
        },
    );
    let seeds = c.pick(2, 12);
    c.family(
        "random-routes",
        &format!("all digraphs on 3 nodes (no self-loops), max_count 0..n*n-1, {} seeds: a subset, no duplicates, not too many, the same file again for the same seed", seeds),
        pow(3, 6) * 9 * seeds,
        |i, l| {
            let mut d = Dig(i);
            let max = d.take(9) as usize;
            let seed = d.take(seeds);
            let es = dense(d.0, &pairs(3, false), ws, &IDS[..3]);
            if es.is_empty() {
                return Ok(());
            }
            let g = build(&k, &es, &nodes_of(&es))?;
            let n = g.nodes().count();
            if max >= n * n {
                return Ok(());
            }
            let want = routable(&es);
            let a = written(&g, &r, &es, &want, seed, max, &dir, l)?;
            let b = written(&g, &r, &es, &want, seed, max, &dir, l)?;
            if a != b {
                return Err(format!("seed {} yields different files: {}", seed, show(&es)));
            }
            Ok(())
        },
    );
    c.family(
        "enough-routes",
        "strongly connected networks of 20 and 40 nodes: max_count of 0..50 is met exactly, for several seeds",
        2 * 51 * c.pick(2, 8),
        |i, l| {
            let mut d = Dig(i);
            let n = [20i64, 40][d.take(2) as usize];
            let max = d.take(51) as usize;
            let seed = d.0 * 7919 + 1;
            let mut es = vec![];
            for a in 0..n {
                es.push(e(a, (a + 1) % n, &[1.0 + a as f64]));
                es.push(e((a + 1) % n, a, &[2.0]));
            }
            let g = build(&k, &es, &nodes_of(&es))?;
            let want: BTreeSet<(i64, i64)> = (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).filter(|x| x.0 != x.1).collect();
            let bytes = written(&g, &r, &es, &want, seed, max, &dir, l)?;
            match read(&bytes) {
                Want::Routes(v) if v.len() == max => Ok(()),
                _ => Err(format!("{} nodes, all connected, but not {} routes:\n{}", n, max, String::from_utf8_lossy(&bytes))),
            }
        },
    );
    {
        let ps = pairs(3, false);
        let orders = perms(3);
        let rc = rcfg(RoutingAlgo::CHDijkstra, &[1.0]);
        c.family(
            "contracted",
            "all digraphs on 3 nodes, all contraction orders, both algorithms: exactly all routes",
            pow(3, 6) * 6 * 2,
            |i, l| {
                let mut d = Dig(i);
                let o = &orders[d.take(6) as usize];
                let ch = d.take(2) == 1;
                let base = dense(d.0, &ps, ws, &IDS[..3]);
                if base.is_empty() {
                    return Ok(());
                }
                let (all, lv) = contract(&base, &IDS[..3], o, Mode::Full, false);
                let ns: Vec<N> = nodes_of(&all).into_iter().map(|n| N { level: Some(lv[IDS[..3].iter().position(|x| *x == n.id).unwrap()]), ..n }).collect();
                let g = build(&k, &all, &ns)?;
                written(&g, if ch { &rc } else { &r }, &all, &routable(&base), 3, 9, &dir, l).map(|_| ())
            },
        );
    }
    // reading
    let base: Vec<&str> = vec!["4", "-7 0 1", "0 12 3", "12 -7 0", "9223372036854775807 -9223372036854775808 18446744073709551615"];
    let glue = |ls: &[String]| (ls.join("\n") + "\n").into_bytes();
    {
        let deco = ["# comment", "", "#", "#1", "# 2 3 4"];
        c.family(
            "comments",
            &format!("insertions of {:?} at all pairs of places, 3 line-endings", deco),
            (5 * 6 * 5 * 6 * 3) as u64,
            |i, l| {
                let mut d = Dig(i);
                let mut ls: Vec<String> = base.iter().map(|s| s.to_string()).collect();
                let end = d.take(3);
                for _ in 0..2 {
                    let x = deco[d.take(5) as usize];
                    ls.insert(d.take(6) as usize, x.into());
                }
                let b = match end {
                    0 => glue(&ls),
                    1 => (ls.join("\r\n") + "\r\n").into_bytes(),
                    _ => ls.join("\n").into_bytes(),
                };
                judge(&b, &dir, l)
            },
        );
        let cs = ["0", "1", "2", "3", "4", "5", "6", "7", "100", "x", "-1", "4.0", "+4", "", "18446744073709551616"];
        c.family(
            "counts",
            &format!("every subset of the route-lines, declared count from {:?}", cs),
            cs.len() as u64 * 16,
            |i, l| {
                let mut ls = vec![cs[(i / 16) as usize].to_string()];
                ls.extend(base[1..].iter().enumerate().filter(|(j, _)| i % 16 >> j & 1 == 1).map(|x| x.1.to_string()));
                judge(&glue(&ls), &dir, l)
            },
        );
        let toks = ["x", "1", "-1", "+3", "1.5", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "0x1", "1e3", "", "1 2", "\u{e4}", "-", "00"];
        let nt = toks.len() as u64;
        c.family(
            "tokens",
            &format!("every two values of a line replaced by all pairs out of {:?}", toks),
            4 * 9 * nt * nt,
            |i, l| {
                let mut d = Dig(i);
                let (s, t) = (toks[d.take(nt) as usize], toks[d.take(nt) as usize]);
                let (li, a, b) = (d.take(4) as usize, d.take(3) as usize, d.take(3) as usize);
                let mut ls: Vec<String> = base.iter().map(|s| s.to_string()).collect();
                let mut p: Vec<&str> = base[li + 1].split(' ').collect();
                p[a] = s;
                p[b] = t;
                ls[li + 1] = p.join(" ");
                judge(&glue(&ls), &dir, l)
            },
        );
        let file = glue(&base.iter().map(|s| s.to_string()).collect::<Vec<_>>());
        let nf = file.len() as u64;
        c.family("truncated", "cut behind every byte", nf + 1, |i, l| judge(&file[..i as usize], &dir, l));
        let lim = 256;
        c.family(
            "bytes",
            "every byte replaced by, or preceded by, every byte (the declared count is kept below 1000)",
            nf * lim * 2,
            |i, l| {
                let mut d = Dig(i);
                let op = d.take(2);
                let b = d.take(lim) as u8;
                let p = d.0 as usize;
                let mut f = file.clone();
                if op == 0 {
                    f[p] = b
                } else {
                    f.insert(p, b)
                }
                judge(&f, &dir, l)
            },
        );
    }
}
