//! C06: a written network is read back as the same network.
use crate::{
    c01::{dense, pairs, show, structured, SHAPES},
    c02::{contract, Mode},
    c04, c05,
    engine::{guard, perms, pow, Ctx, Dig, Local, Verdict},
    fmi::*,
    model::*,
};
use osmgraphing::network::{EdgeIdx, Graph, NodeIdx};
use std::path::Path;

/// Builds, writes with the columns, reads with the columns, compares.
#[allow(clippy::too_many_arguments)]
fn round_trip(dir: &Path, es: &[E], ns: &[N], nc: &[NC], ec: &[EC], shortcuts: Option<bool>, l: &mut Local) -> Verdict {
    let text = || format!("columns {:?} {:?}, with_shortcuts {:?}, network\n{}", nc, ec, shortcuts, show(es));
    let has_ids = es.iter().all(|e| e.id.is_some());
    let file = scratch_file(dir, l.worker, "fmi");
    let f = file.to_str().unwrap();
    // the graph knows every column
    let dim = es[0].m.len();
    let mut full_ec = vec![EC::Src, EC::Dst, EC::Sc0, EC::Sc1];
    if has_ids {
        full_ec.push(EC::Id);
    }
    full_ec.extend((0..dim).map(EC::M));
    let full_nc = [NC::Id, NC::Level, NC::Lat, NC::Lon];
    let k = cfg_yaml(&parse_text("some.fmi", &full_nc, &full_ec, false, ""));
    let g = guard(|| build(&k, es, ns)).and_then(|x| x).map_err(|m| format!("{}: {}", m, text()))?;
    write_graph(&g, &wcfg(&write_text(f, nc, ec, shortcuts, None))).map_err(|m| format!("writing: {}: {}", m, text()))?;
    l.step(2);
    let pc = cfg_yaml(&parse_text(f, nc, ec, false, ""));
    let g2 = parse_file(pc).map_err(|m| format!("reading: {}: {}\nfile:\n{}", m, text(), std::fs::read_to_string(&file).unwrap_or_default()))?;
    l.eval(1);
    l.validated += 1;
    // expectation
    let keep = shortcuts == Some(true);
    let cols: Vec<usize> = ec.iter().filter_map(|c| if let EC::M(i) = c { Some(*i) } else { None }).collect();
    let has_sc = ec.contains(&EC::Sc0) && ec.contains(&EC::Sc1);
    let want: Vec<E> = es
        .iter()
        .filter(|e| keep || e.sc.is_none())
        .map(|e| E {
            id: if ec.contains(&EC::Id) { e.id } else { None },
            m: cols.iter().map(|&i| e.m[i]).collect(),
            sc: if keep && has_sc { e.sc } else { None },
            ..e.clone()
        })
        .collect();
    let wns: Vec<N> = ns.iter().map(|n| N { level: if nc.contains(&NC::Level) { n.level } else { None }, ..n.clone() }).collect();
    let show_file = || std::fs::read_to_string(&file).unwrap_or_default();
    c04::faithful(&g2, &want, &wns, l).map_err(|m| format!("{}: {}\nfile:\n{}", m, text(), show_file()))?;
    if has_sc || !keep {
        c05::refs(&g2, &want, l).map_err(|m| format!("{}: {}\nfile:\n{}", m, text(), show_file()))?;
    }
    let _ = std::fs::remove_file(&file);
    Ok(())
}

fn approx_same(a: &Graph, b: &Graph) -> Verdict {
    if a.nodes().count() != b.nodes().count() || a.fwd_edges().count() != b.fwd_edges().count() {
        return Err(format!("{} nodes and {} edges instead of {} and {}", b.nodes().count(), b.fwd_edges().count(), a.nodes().count(), a.fwd_edges().count()));
    }
    for i in 0..a.fwd_edges().count() {
        let x = EdgeIdx(i);
        let y = a.fwd_edges().try_id(x).and_then(|id| b.fwd_edges().try_idx_from(id).ok()).ok_or("edge-id is lost")?;
        let ends = |g: &Graph, e: EdgeIdx| (g.nodes().id(g.bwd_edges().dst_idx(e)), g.nodes().id(g.fwd_edges().dst_idx(e)));
        if ends(a, x) != ends(b, y) {
            return Err(format!("edge {} goes {:?} instead of {:?}", i, ends(b, y), ends(a, x)));
        }
        let (ma, mb) = (a.metrics()[x].to_vec(), b.metrics()[y].to_vec());
        if ma.len() != mb.len() || ma.iter().zip(&mb).any(|(p, q)| (p - q).abs() > 1e-9 * p.abs().max(1e-3)) {
            return Err(format!("edge {:?} has metrics {:?} instead of {:?}", ends(a, x), mb, ma));
        }
    }
    for i in 0..a.nodes().count() {
        let (p, q) = (a.nodes().create(NodeIdx(i)), b.nodes().create(NodeIdx(i)));
        if p.id() != q.id() || p.coord().lat != q.coord().lat || p.coord().lon != q.coord().lon {
            return Err(format!("node {:?} instead of {:?}", q, p));
        }
    }
    Ok(())
}

pub fn run(c: &mut Ctx) {
    let dir = c.scratch().to_path_buf();
    let nfull = [NC::Id, NC::Level, NC::Lat, NC::Lon];
    // column layouts
    {
        let base: Vec<EC> = vec![EC::Src, EC::Dst, EC::Id, EC::M(0), EC::M(1), EC::Skip];
        let ps = perms(6);
        let nps = perms(5);
        let nb = [NC::Id, NC::Lat, NC::Lon, NC::Level, NC::Skip];
        let es: Vec<E> = vec![
            E { id: Some(4), ..e(-7, 3, &[1.5, 2.25]) },
            E { id: Some(0), ..e(3, 0, &[0.1, 7.0]) },
            E { id: Some(17), ..e(0, -7, &[123.456, 1e-3]) },
            E { id: Some(2), ..e(3, -7, &[3.0, 4.0]) },
        ];
        let ns = vec![nl(-7, 3), nl(0, 0), nl(3, 12)];
        c.family(
            "edge-columns",
            "all 720 orders of the edge-columns (src, dst, edge-id, 2 metrics, ignored), with each of the last 0..3 optional columns left out",
            720 * 4,
            |i, l| {
                let p = &ps[(i / 4) as usize];
                let drop = i % 4;
                let ec: Vec<EC> = p
                    .iter()
                    .map(|&j| base[j])
                    .filter(|c| match drop {
                        1 => *c != EC::Id,
                        2 => *c != EC::M(1),
                        3 => *c != EC::Skip && *c != EC::M(0),
                        _ => true,
                    })
                    .collect();
                l.sample(|| format!("{:?}", ec));
                round_trip(&dir, &es, &ns, &nfull, &ec, None, l)
            },
        );
        c.family(
            "node-columns",
            "all 120 orders of the node-columns (id, latitude, longitude, level, ignored), with and without level / ignored",
            120 * 3,
            |i, l| {
                let p = &nps[(i / 3) as usize];
                let drop = i % 3;
                let nc: Vec<NC> = p
                    .iter()
                    .map(|&j| nb[j])
                    .filter(|c| match drop {
                        1 => *c != NC::Level,
                        2 => *c != NC::Skip,
                        _ => true,
                    })
                    .collect();
                round_trip(&dir, &es, &ns, &nc, &[EC::Src, EC::Dst, EC::M(0), EC::M(1), EC::Id], Some(false), l)
            },
        );
    }
    // networks
    {
        let ps = pairs(3, true);
        let ws: &[&[f64]] = &[&[0.1, 10.0], &[1.0 / 3.0, 2.0]];
        let total = pow(3, 9);
        let stride = c.pick(3, 1);
        c.family(
            "networks-n3",
            &format!("every {}. of all {} digraphs on 3 nodes with self-loops and 2 metrics; edge-ids; levels", stride, total),
            total / stride,
            |i, l| {
                let mut es = dense(i * stride + i % stride, &ps, ws, &IDS[..3]);
                if es.is_empty() {
                    return Ok(());
                }
                let m = es.len();
                for (j, x) in es.iter_mut().enumerate() {
                    x.id = Some((m - j) * 3);
                }
                let used = nodes_of(&es);
                let ns: Vec<N> = used.into_iter().enumerate().map(|(j, n)| N { level: Some((j * 5) % 7), ..n }).collect();
                round_trip(&dir, &es, &ns, &nfull, &[EC::Id, EC::Src, EC::Dst, EC::M(0), EC::M(1)], None, l)
            },
        );
    }
    // values
    {
        let vals: Vec<f64> = vec![1e-6, 2e-6, 1e-5, 0.1, 1.0 / 3.0, 1.0, 7.0, 123_456.789, 1e15, 1e16, 1e17, 9_007_199_254_740_993.0, 1e21, 1e22, 1.7976931348623157e308, 5e-5, 0.30000000000000004];
        let coords: Vec<f64> = vec![0.0, -0.0, 90.0, -180.0, 48.7786501, -1e-7, 1.0 / 3.0, 179.99999999999997];
        let ids: Vec<i64> = vec![0, 1, -1, std::i64::MAX, std::i64::MIN, 9_007_199_254_740_993, 4_294_967_296];
        let (nv, nc_, ni) = (vals.len() as u64, coords.len() as u64, ids.len() as u64);
        c.family(
            "values",
            &format!("one edge, all metric pairs from {:?}, all coordinates from {:?}, all endpoint-ids from {:?}: read back bit by bit", vals, coords, ids),
            nv * nv + nc_ * nc_ + ni * ni,
            |i, l| {
                let (mut m, mut co, mut id) = ([1.0, 2.0], [3.0, 4.0], [5i64, 6]);
                if i < nv * nv {
                    m = [vals[(i % nv) as usize], vals[(i / nv) as usize]];
                } else if i < nv * nv + nc_ * nc_ {
                    let j = i - nv * nv;
                    co = [coords[(j % nc_) as usize], coords[(j / nc_) as usize]];
                } else {
                    let j = i - nv * nv - nc_ * nc_;
                    id = [ids[(j % ni) as usize], ids[(j / ni) as usize]];
                }
                let es = vec![E { id: Some(9), ..e(id[0], id[1], &m) }];
                let mut ns = vec![N { id: id[0], lat: co[0], lon: co[1], level: Some(1) }];
                if id[0] != id[1] {
                    ns.push(N { id: id[1], lat: co[1], lon: co[0], level: Some(usize::MAX) });
                }
                round_trip_values(&dir, &es, &ns, l)
            },
        );
    }
    // contracted
    {
        let ps = pairs(3, false);
        let ws: &[&[f64]] = &[&[1.0], &[3.5]];
        let orders = perms(3);
        c.family(
            "contracted-n3",
            "all digraphs on 3 nodes, all contraction orders; with and without shortcuts in the file; with and without levels in the file",
            pow(3, 6) * 6 * 4,
            |i, l| {
                let mut d = Dig(i);
                let o = &orders[d.take(6) as usize];
                let sc = d.take(2) == 1;
                let lv_in = d.take(2) == 1;
                let base = dense(d.0, &ps, ws, &IDS[..3]);
                if base.is_empty() {
                    return Ok(());
                }
                let (all, lv) = contract(&base, &IDS[..3], o, Mode::Full, false);
                let ns: Vec<N> = nodes_of(&all).into_iter().map(|n| N { level: Some(lv[IDS[..3].iter().position(|x| *x == n.id).unwrap()]), ..n }).collect();
                let nc: &[NC] = if lv_in { &nfull } else { &[NC::Id, NC::Lat, NC::Lon] };
                round_trip(&dir, &all, &ns, nc, &[EC::Src, EC::Dst, EC::M(0), EC::Sc0, EC::Sc1], Some(sc), l)
            },
        );
        let ps = pairs(4, false);
        let orders = perms(4);
        let subs: Vec<u64> = (0..pow(3, 12)).filter(|x| x % c.pick(4999, 251) == 7).collect();
        let ns_ = subs.len() as u64;
        c.family(
            "contracted-n4",
            &format!("{} digraphs on 4 nodes (equidistant in the enumeration of all), all contraction orders, with shortcuts", ns_),
            ns_ * 24,
            |i, l| {
                let mut d = Dig(i);
                let o = &orders[d.take(24) as usize];
                let base = dense(subs[d.0 as usize], &ps, ws, &IDS[..4]);
                if base.is_empty() {
                    return Ok(());
                }
                let (all, lv) = contract(&base, &IDS[..4], o, Mode::Full, true);
                let ns: Vec<N> = nodes_of(&all).into_iter().map(|n| N { level: Some(lv[IDS[..4].iter().position(|x| *x == n.id).unwrap()]), ..n }).collect();
                round_trip(&dir, &all, &ns, &nfull, &[EC::Src, EC::Dst, EC::M(0), EC::Sc0, EC::Sc1], Some(true), l)
            },
        );
    }
    // normalized networks
    {
        let ps = pairs(3, false);
        let ws: &[&[f64]] = &[&[0.25, 10.0], &[4.0, 2.0]];
        c.family(
            "normalized",
            "all digraphs on 3 nodes, normalized by mean: written denormalized, it is the original network; written as it is and read as normalized, it stays",
            pow(3, 6),
            |i, l| {
                let mut es = dense(i, &ps, ws, &IDS[..3]);
                if es.is_empty() {
                    return Ok(());
                }
                for (j, x) in es.iter_mut().enumerate() {
                    x.id = Some(j);
                }
                let ns = nodes_of(&es);
                let nc = [NC::Id, NC::Lat, NC::Lon];
                let ec = [EC::Id, EC::Src, EC::Dst, EC::M(0), EC::M(1)];
                let plain = build(&cfg_yaml(&parse_text("x.fmi", &nc, &ec, false, "")), &es, &ns)?;
                let norm = build(&cfg_yaml(&parse_text("x.fmi", &nc, &ec, true, "")), &es, &ns)?;
                for (denorm, wanted) in &[(true, &plain), (false, &norm)] {
                    let file = scratch_file(&dir, l.worker, "fmi");
                    let f = file.to_str().unwrap();
                    write_graph(&norm, &wcfg(&write_text(f, &nc, &ec, None, Some(*denorm))))?;
                    let back = parse_file(cfg_yaml(&parse_text(f, &nc, &ec, false, "")))?;
                    l.step(2);
                    l.eval(1);
                    l.validated += 1;
                    approx_same(wanted, &back).map_err(|m| format!("{} (denormalizing: {}): {}", m, denorm, show(&es)))?;
                    let head = std::fs::read_to_string(&file).unwrap();
                    let _ = head;
                }
                // a plain network is not touched by denormalizing
                let file = scratch_file(&dir, l.worker, "fmi");
                let f = file.to_str().unwrap();
                write_graph(&plain, &wcfg(&write_text(f, &nc, &ec, None, Some(true))))?;
                let back = parse_file(cfg_yaml(&parse_text(f, &nc, &ec, false, "")))?;
                l.step(2);
                l.eval(1);
                approx_same(&plain, &back).map_err(|m| format!("{} (denormalizing a plain network): {}", m, show(&es)))?;
                l.outcome(&es.len());
                Ok(())
            },
        );
    }
    // larger ones
    {
        let sizes: Vec<usize> = c.pick(vec![6, 9, 20, 50, 120, 400], vec![6, 9, 20, 50, 120, 250, 400, 1000]);
        c.family(
            "structured",
            &format!("9 shapes of {:?} nodes, 2 weight patterns (files beyond every buffer)", sizes),
            sizes.len() as u64 * SHAPES * 2,
            |i, l| {
                let mut d = Dig(i);
                let shape = d.take(SHAPES);
                let pat = d.take(2) + 1;
                let n = sizes[d.take(sizes.len() as u64) as usize];
                let mut es = structured(shape, n, pat);
                let m = es.len();
                for (j, x) in es.iter_mut().enumerate() {
                    x.id = Some(m * 2 - j);
                }
                let ns: Vec<N> = nodes_of(&es).into_iter().enumerate().map(|(j, n)| N { level: Some(j % 5), ..n }).collect();
                round_trip(&dir, &es, &ns, &nfull, &[EC::Id, EC::Src, EC::Skip, EC::Dst, EC::M(0)], None, l)
            },
        );
    }
}

fn round_trip_values(dir: &Path, es: &[E], ns: &[N], l: &mut Local) -> Verdict {
    round_trip(dir, es, ns, &[NC::Id, NC::Level, NC::Lat, NC::Lon], &[EC::Src, EC::Dst, EC::Id, EC::M(0), EC::M(1)], None, l)?;
    Ok(())
}
