//! C17: the edges-info-export says what the graph says, and merging it brings the values back.
use crate::{
    c01::{dense, pairs, show},
    c02::{contract, Mode},
    engine::{guard, perms, pow, Ctx, Dig, Local, Verdict},
    fmi::*,
    model::*,
};
use osmgraphing::{
    io,
    network::{EdgeIdx, Graph},
};
use std::{fs, path::Path};

const COLS: [&str; 14] = ["edge-id", "src-id", "dst-id", "sc-0", "sc-1", "m0", "m1", "src-idx", "src-lat", "src-lon", "dst-idx", "dst-lat", "dst-lon", "_"];

const GEN: &str = "  generating:\n    nodes: []\n    edges:\n    - meta: { info: SrcIdx, id: src-idx }\n    - meta: { info: SrcLat, id: src-lat }\n    - meta: { info: SrcLon, id: src-lon }\n    - meta: { info: DstIdx, id: dst-idx }\n    - meta: { info: DstLat, id: dst-lat }\n    - meta: { info: DstLon, id: dst-lon }\n";

fn graph(es: &[E], ns: &[N], normalize: bool) -> Result<Graph, String> {
    let ec = [EC::Id, EC::Src, EC::Dst, EC::Sc0, EC::Sc1, EC::M(0), EC::M(1)];
    let k = cfg_yaml(&parse_text("x.fmi", &[NC::Id, NC::Level, NC::Lat, NC::Lon], &ec, normalize, GEN));
    guard(|| build(&k, es, ns)).and_then(|x| x)
}

fn is_float(col: &str) -> bool {
    matches!(col, "m0" | "m1" | "src-lat" | "src-lon" | "dst-lat" | "dst-lon")
}

/// value of a column of the j-th inserted edge; floats as bits
fn cell(g: &Graph, es: &[E], ns: &[N], j: usize, col: &str) -> String {
    let x = &es[j];
    let nd = |id: i64| ns.iter().find(|n| n.id == id).unwrap();
    let rank = |id: i64| {
        let mut ids: Vec<i64> = es.iter().flat_map(|x| vec![x.src, x.dst]).collect();
        ids.sort();
        ids.dedup();
        ids.iter().position(|y| *y == id).unwrap()
    };
    let f = |v: f64| format!("{:x}", v.to_bits());
    // where an inserted edge has gone is found by its id
    let sc = |k: usize| match x.sc {
        None => "-1".to_string(),
        Some(s) => format!("{}", *g.fwd_edges().idx_from(es[s[k]].id.unwrap())),
    };
    match col {
        "edge-id" => format!("{}", x.id.unwrap()),
        "src-id" => format!("{}", x.src),
        "dst-id" => format!("{}", x.dst),
        "sc-0" => sc(0),
        "sc-1" => sc(1),
        "m0" => f(x.m[0]),
        "m1" => f(x.m[1]),
        "src-idx" => format!("{}", rank(x.src)),
        "dst-idx" => format!("{}", rank(x.dst)),
        "src-lat" => f(nd(x.src).lat),
        "src-lon" => f(nd(x.src).lon),
        "dst-lat" => f(nd(x.dst).lat),
        "dst-lon" => f(nd(x.dst).lon),
        _ => "_".into(),
    }
}

fn names<'a>(cols: &[&'a str]) -> Vec<Option<&'a str>> {
    cols.iter().map(|c| if *c == "_" { None } else { Some(*c) }).collect()
}

/// rows of a written file, floats as bits
fn rows(file: &Path, cols: &[&str]) -> Result<Vec<Vec<String>>, String> {
    let text = fs::read_to_string(file).map_err(|e| e.to_string())?;
    let mut ls = text.lines();
    let head: Vec<&str> = ls.next().ok_or("no header")?.split_whitespace().collect();
    if head != cols {
        return Err(format!("header {:?} instead of {:?}", head, cols));
    }
    ls.map(|line| {
        let t: Vec<&str> = line.split_whitespace().collect();
        if t.len() != cols.len() {
            return Err(format!("line `{}` has {} values instead of {}", line, t.len(), cols.len()));
        }
        t.iter()
            .zip(cols)
            .map(|(s, c)| if is_float(c) { s.parse::<f64>().map(|v| format!("{:x}", v.to_bits())).map_err(|_| format!("`{}` is no number", s)) } else { Ok(s.to_string()) })
            .collect()
    })
    .collect()
}

#[allow(clippy::too_many_arguments)]
fn export(g: &Graph, es: &[E], ns: &[N], cols: &[&str], shortcuts: Option<bool>, denorm: Option<bool>, dir: &Path, l: &mut Local) -> Verdict {
    let file = scratch_file(dir, l.worker, "csv");
    let text = || format!("columns {:?}, with_shortcuts {:?}, denormalizing {:?}: {}", cols, shortcuts, denorm, show(es));
    write_edges(g, &ecfg(&edges_text(file.to_str().unwrap(), &names(cols), shortcuts, denorm))).map_err(|m| format!("{}: {}", m, text()))?;
    l.step(1);
    l.eval(1);
    l.validated += 1;
    let mut got = rows(&file, cols).map_err(|m| format!("{}: {}", m, text()))?;
    let mut want: Vec<Vec<String>> = (0..es.len()).filter(|j| shortcuts == Some(true) || es[*j].sc.is_none()).map(|j| cols.iter().map(|c| cell(g, es, ns, j, c)).collect()).collect();
    got.sort();
    want.sort();
    l.outcome(&got);
    if got != want {
        return Err(format!("wrote\n{}\nmissing or different rows: {:?}: {}", fs::read_to_string(&file).unwrap(), want.iter().filter(|r| !got.contains(r)).collect::<Vec<_>>(), text()));
    }
    Ok(())
}

fn with_ids(mut es: Vec<E>) -> Vec<E> {
    let m = es.len();
    for (j, x) in es.iter_mut().enumerate() {
        x.id = Some((m - j) * 5 + 2);
    }
    es
}

fn merge_text(file: &str, cols: &[Option<&str>], header: Option<bool>) -> String {
    let mut s = format!("    - merge:\n        from: '{}'\n", file);
    if let Some(h) = header {
        s += &format!("        with_header-line: {}\n", h);
    }
    s += "        edge-id: edge-id\n        edges-info:\n";
    for c in cols {
        s += &match c {
            Some(c) => format!("        - id: '{}'\n", c),
            None => "        - ignored\n".into(),
        };
    }
    s
}

pub fn run(c: &mut Ctx) {
    let dir = c.scratch().to_path_buf();
    let sample: Vec<E> = vec![
        E { id: Some(4), ..e(-7, 3, &[1.5, 2.25]) },
        E { id: Some(0), ..e(3, 0, &[0.1, 7.0]) },
        E { id: Some(17), ..e(0, -7, &[123.456, 1e-3]) },
        E { id: Some(2), ..e(3, -7, &[3.0, 4.0]) },
        E { id: Some(8), sc: Some([0, 1]), ..e(-7, 0, &[1.6, 9.25]) },
        E { id: Some(9), sc: Some([4, 2]), ..e(-7, -7, &[125.0, 9.5]) },
    ];
    let sns = vec![nl(-7, 3), nl(0, 0), nl(3, 12)];
    {
        let g = match graph(&sample, &sns, false) {
            Ok(g) => g,
            Err(m) => {
                c.family("columns", "", 1, |_, _| Err(m.clone()));
                return;
            }
        };
        let n = COLS.len() as u64;
        c.family(
            "columns",
            &format!("all sequences of 1..3 columns out of {:?}, with and without shortcuts", COLS),
            (n + n * n + n * n * n) * 2,
            |i, l| {
                let sc = i % 2 == 1;
                let mut i = i / 2;
                let mut len = 1;
                while i >= pow(n, len) {
                    i -= pow(n, len);
                    len += 1;
                }
                let mut d = Dig(i);
                let cols: Vec<&str> = (0..len).map(|_| COLS[d.take(n) as usize]).collect();
                l.sample(|| format!("{:?}", cols));
                export(&g, &sample, &sns, &cols, if sc { Some(true) } else { [None, Some(false)][(i % 2) as usize] }, None, &dir, l)
            },
        );
        c.family(
            "unknown-columns",
            "every column replaced by an unknown id, or an id of a node-column: rejected",
            13 * 3,
            |i, l| {
                let mut cols = COLS.to_vec();
                cols[(i / 3) as usize] = ["no-such-id", "lat", "M0"][(i % 3) as usize];
                let file = scratch_file(&dir, l.worker, "csv");
                l.step(1);
                l.eval(1);
                match write_edges(&g, &ecfg(&edges_text(file.to_str().unwrap(), &names(&cols), Some(true), None))) {
                    Ok(_) => Err(format!("columns {:?} have been accepted", cols)),
                    Err(_) => Ok(()),
                }
            },
        );
        c.family(
            "wrong-extension",
            "files of other extensions are rejected and not created",
            6,
            |i, l| {
                let file = dir.join(format!("w{}.{}", l.worker, ["fmi", "txt", "pbf", "csv2", "yaml", "route-pairs"][i as usize]));
                let _ = fs::remove_file(&file);
                l.step(1);
                l.eval(1);
                let r = write_edges(&g, &ecfg(&edges_text(file.to_str().unwrap(), &[Some("edge-id")], None, None)));
                if r.is_ok() || file.exists() {
                    return Err(format!("{} has been written", file.display()));
                }
                Ok(())
            },
        );
        // numbers from outside
        let vals: Vec<usize> = (0..sample.len()).map(|i| [0, 7, 99, 1, 12345678901, 3][i]).collect();
        let fvals = [0.0, 0.1, 1e22, -3.5, 1.0 / 3.0, 5e-324];
        c.family("external-values", "values per edge, usize and f64, with and without shortcuts: written next to the edge's id", 4, |i, l| {
            let file = scratch_file(&dir, l.worker, "csv");
            let sc = i % 2 == 1;
            let k = ecfg(&edges_text(file.to_str().unwrap(), &[Some("edge-id"), Some("m0")], Some(sc), None));
            let r = if i < 2 {
                guard(|| io::network::edges::Writer::write_external_values(&vals, &g, &k)).and_then(|r| r.map_err(|e| e.to_string()))
            } else {
                guard(|| io::network::edges::Writer::write_external_values(&fvals, &g, &k)).and_then(|r| r.map_err(|e| e.to_string()))
            };
            r?;
            l.step(1);
            l.eval(1);
            let mut got = rows(&file, &["edge-id", "m0"])?;
            let mut want: Vec<Vec<String>> = (0..g.fwd_edges().count())
                .filter(|j| sc || !g.fwd_edges().is_shortcut(EdgeIdx(*j)))
                .map(|j| vec![format!("{}", g.fwd_edges().id(EdgeIdx(j))), format!("{:x}", (if i < 2 { vals[j] as f64 } else { fvals[j] }).to_bits())])
                .collect();
            got.sort();
            want.sort();
            if got != want {
                return Err(format!("{:?} instead of {:?}", got, want));
            }
            l.outcome(&got);
            Ok(())
        });
    }
    {
        let ps = pairs(3, true);
        let ws: &[&[f64]] = &[&[0.1, 10.0], &[1.0 / 3.0, 2.0]];
        c.family("networks", "all digraphs on 3 nodes with self-loops and 2 metrics; all columns at once", pow(3, 9), |i, l| {
            let es = with_ids(dense(i, &ps, ws, &IDS[..3]));
            if es.is_empty() {
                return Ok(());
            }
            let ns = nodes_of(&es);
            let g = graph(&es, &ns, false)?;
            export(&g, &es, &ns, &COLS, None, None, &dir, l)
        });
        let ps = pairs(3, false);
        let orders = perms(3);
        let ws: &[&[f64]] = &[&[1.0, 2.0], &[3.5, 1.0]];
        c.family(
            "contracted",
            "all digraphs on 3 nodes, all contraction orders, with and without shortcuts; all columns at once",
            pow(3, 6) * 6 * 2,
            |i, l| {
                let mut d = Dig(i);
                let o = &orders[d.take(6) as usize];
                let sc = d.take(2) == 1;
                let base = dense(d.0, &ps, ws, &IDS[..3]);
                if base.is_empty() {
                    return Ok(());
                }
                let (all, lv) = contract(&base, &IDS[..3], o, Mode::Full, false);
                let all = with_ids(all);
                let ns: Vec<N> = nodes_of(&all).into_iter().map(|n| N { level: Some(lv[IDS[..3].iter().position(|x| *x == n.id).unwrap()]), ..n }).collect();
                let g = graph(&all, &ns, false)?;
                export(&g, &all, &ns, &COLS, Some(sc), None, &dir, l)
            },
        );
        let ws: &[&[f64]] = &[&[0.25, 10.0], &[4.0, 2.0]];
        c.family(
            "normalized",
            "all digraphs on 3 nodes, normalized by mean, exported as they are and denormalized",
            pow(3, 6) * 3,
            |i, l| {
                let denorm = [None, Some(false), Some(true)][(i % 3) as usize];
                let es = with_ids(dense(i / 3, &ps, ws, &IDS[..3]));
                if es.is_empty() {
                    return Ok(());
                }
                let ns = nodes_of(&es);
                let g = graph(&es, &ns, true)?;
                let file = scratch_file(&dir, l.worker, "csv");
                write_edges(&g, &ecfg(&edges_text(file.to_str().unwrap(), &[Some("m1"), Some("edge-id"), Some("m0")], None, denorm)))?;
                l.step(1);
                l.eval(1);
                l.validated += 1;
                let got = rows(&file, &["m1", "edge-id", "m0"])?;
                if got.len() != es.len() {
                    return Err(format!("{} rows for {} edges: {}", got.len(), es.len(), show(&es)));
                }
                let mean = |k: usize| es.iter().map(|x| x.m[k]).sum::<f64>() / es.len() as f64;
                for r in &got {
                    let x = es.iter().find(|x| format!("{}", x.id.unwrap()) == r[1]).ok_or_else(|| format!("no edge has id {}", r[1]))?;
                    for (k, col) in &[(1, 0), (0, 2)] {
                        let v = f64::from_bits(u64::from_str_radix(&r[*col], 16).unwrap());
                        // the repository's default is to denormalize or not; both are told by the option
                        let plain = x.m[*k];
                        let want = if denorm == Some(true) { plain } else { plain / mean(*k) };
                        let dflt = denorm.is_none() && close(v, plain);
                        if !close(v, want) && !dflt {
                            return Err(format!("edge {:?}: metric {} is exported as {} instead of {} (denormalizing: {:?}): {}", x.id, k, v, want, denorm, show(&es)));
                        }
                    }
                }
                l.outcome(&got);
                Ok(())
            },
        );
    }
    // merging
    {
        let es: Vec<E> = sample[..4].to_vec();
        let ns = sns.clone();
        let ro = perms(4);
        let colsets: Vec<Vec<Option<&str>>> = vec![
            vec![Some("edge-id"), Some("m1"), Some("c0")],
            vec![Some("c0"), Some("edge-id")],
            vec![None, Some("m0"), None, Some("edge-id"), Some("c0")],
            vec![Some("c0"), Some("m1"), Some("m0"), Some("edge-id"), None],
            vec![Some("edge-id"), None, Some("c0")],
        ];
        let headers = [None, Some(true), Some(false)];
        let nc = colsets.len() as u64;
        let file_rows = |cols: &[Option<&str>], picked: &[usize], header: Option<bool>| {
            let mut s = String::new();
            if header != Some(false) {
                s += &cols.iter().map(|c| c.unwrap_or("_")).collect::<Vec<_>>().join(" ");
                s += "\n";
            }
            for &j in picked {
                let t: Vec<String> = cols
                    .iter()
                    .map(|c| match c {
                        Some("edge-id") => format!("{}", es[j].id.unwrap()),
                        Some("m0") => format!("{}", 100.25 + j as f64),
                        Some("m1") => format!("{}", 200.5 + j as f64),
                        Some("c0") => format!("{}", 0.1 * (j + 1) as f64),
                        _ => "ignored!".into(),
                    })
                    .collect();
                s += &(t.join(" ") + "\n");
            }
            s
        };
        let merged = |file: &Path, cols: &[Option<&str>], header: Option<bool>, gen_id: bool| {
            let mut gen = String::from("  generating:\n    nodes: []\n    edges:\n    - custom: { id: c0, default: 7.5 }\n");
            gen += &merge_text(file.to_str().unwrap(), cols, header);
            let _ = gen_id;
            let k = cfg_yaml(&parse_text("x.fmi", &[NC::Id, NC::Level, NC::Lat, NC::Lon], &[EC::Id, EC::Src, EC::Dst, EC::M(0), EC::M(1)], false, &gen));
            guard(|| build(&k, &es, &ns)).and_then(|x| x)
        };
        let check = |g: &Graph, cols: &[Option<&str>], picked: &[usize]| -> Verdict {
            for (j, x) in es.iter().enumerate() {
                let idx = g.fwd_edges().idx_from(x.id.unwrap());
                let there = |c: &str| picked.contains(&j) && cols.contains(&Some(c));
                let want = vec![
                    if there("m0") { 100.25 + j as f64 } else { x.m[0] },
                    if there("m1") { 200.5 + j as f64 } else { x.m[1] },
                    if there("c0") { 0.1 * (j + 1) as f64 } else { 7.5 },
                ];
                if g.metrics()[idx].to_vec() != want {
                    return Err(format!("edge {} has metrics {:?} instead of {:?} after merging {:?} (rows {:?})", x.id.unwrap(), g.metrics()[idx], want, cols, picked));
                }
            }
            Ok(())
        };
        c.family(
            "merge",
            "4 edges; 5 column-layouts, all orders of the rows, every subset of the rows, header declared / default / absent, decorated with comments",
            nc * 24 * 16 * 3 * 2,
            |i, l| {
                let mut d = Dig(i);
                let cols = &colsets[d.take(nc) as usize];
                let o = &ro[d.take(24) as usize];
                let keep = d.take(16);
                let header = headers[d.take(3) as usize];
                let deco = d.take(2) == 1;
                let picked: Vec<usize> = o.iter().copied().filter(|j| keep >> j & 1 == 1).collect();
                let mut text = file_rows(cols, &picked, header);
                if deco {
                    text = format!("# head\n\n{}", text.replace('\n', "\n#comment\n\n"));
                }
                let file = scratch_file(&dir, l.worker, "csv");
                fs::write(&file, &text).unwrap();
                let g = merged(&file, cols, header, false).map_err(|m| format!("{}: {:?}\n{}", m, cols, text))?;
                l.step(2);
                l.eval(1);
                l.validated += 1;
                l.outcome(&(picked.clone(), cols.len()));
                check(&g, cols, &picked).map_err(|m| format!("{}\n{}", m, text))
            },
        );
        let bad = ["x", "-4", "1.5", "5", "", "18446744073709551616", "99"];
        c.family(
            "merge-malformed",
            "an edge-id which is unknown or malformed, a value which is no number, a missing column, at every row: rejected",
            4 * (bad.len() as u64 + 4),
            |i, l| {
                let row = (i % 4) as usize;
                let kind = (i / 4) as usize;
                let cols = &colsets[0];
                let mut ls: Vec<String> = file_rows(cols, &[0, 1, 2, 3], Some(true)).lines().map(|s| s.to_string()).collect();
                let mut t: Vec<String> = ls[row + 1].split(' ').map(|s| s.to_string()).collect();
                if kind < bad.len() {
                    t[0] = bad[kind].into();
                } else {
                    match kind - bad.len() {
                        0 => t[1] = "abc".into(),
                        1 => t[2] = "1,5".into(),
                        2 => t.truncate(2),
                        _ => t.truncate(1),
                    }
                }
                ls[row + 1] = t.join(" ");
                let text = ls.join("\n") + "\n";
                let file = scratch_file(&dir, l.worker, "csv");
                fs::write(&file, &text).unwrap();
                l.step(1);
                l.eval(1);
                match merged(&file, cols, Some(true), false) {
                    Ok(_) => Err(format!("accepted:\n{}", text)),
                    Err(_) => Ok(()),
                }
            },
        );
        // export, then merge
        let ps = pairs(3, false);
        let ws: &[&[f64]] = &[&[0.1, 10.0], &[1.0 / 3.0, 2e15]];
        c.family("export-merge", "all digraphs on 3 nodes: metrics exported and merged into the same network without them", pow(3, 6), |i, l| {
            let es = with_ids(dense(i, &ps, ws, &IDS[..3]));
            if es.is_empty() {
                return Ok(());
            }
            let ns = nodes_of(&es);
            let g = graph(&es, &ns, false)?;
            let file = scratch_file(&dir, l.worker, "csv");
            let cols = [Some("m1"), Some("src-id"), Some("edge-id"), Some("m0")];
            write_edges(&g, &ecfg(&edges_text(file.to_str().unwrap(), &cols, None, None)))?;
            let mut gen = String::from("  generating:\n    nodes: []\n    edges:\n    - custom: { id: m0 }\n    - custom: { id: m1, default: 1.0 }\n");
            gen += &merge_text(file.to_str().unwrap(), &[Some("m1"), None, Some("edge-id"), Some("m0")], None);
            let k = cfg_yaml(&parse_text("x.fmi", &[NC::Id, NC::Lat, NC::Lon], &[EC::Id, EC::Src, EC::Dst], false, &gen));
            let bare: Vec<E> = es.iter().map(|x| E { m: vec![], ..x.clone() }).collect();
            let h = guard(|| build(&k, &bare, &ns)).and_then(|x| x).map_err(|m| format!("{}: {}", m, show(&es)))?;
            l.step(3);
            l.eval(1);
            l.validated += 1;
            for x in &es {
                let m = h.metrics()[h.fwd_edges().idx_from(x.id.unwrap())].to_vec();
                if m != x.m {
                    return Err(format!("edge {:?} comes back with {:?}", x, m));
                }
            }
            l.outcome(&es.len());
            Ok(())
        });
    }
}
