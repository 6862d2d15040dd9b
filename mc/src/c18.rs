//! C18: the vehicles exported for SMARTS drive the chosen paths.
use crate::{
    c01::{dense, pairs, show, structured, SHAPES},
    engine::{guard, pow, Ctx, Dig, Local, Verdict},
    fmi::scratch_file,
    model::*,
};
use osmgraphing::{
    configs::{self, routing::RoutingAlgo},
    io,
    network::{EdgeIdx, Graph, NodeIdx},
    routing::{dijkstra::Dijkstra, paths::Path as RPath},
};
use std::{collections::BTreeMap, fs, path::Path};

type Tag = (String, BTreeMap<String, String>, char);

/// Well-formed elements with attributes: start '<', end '/', empty '0', declaration '?'.
fn tags(text: &str) -> Result<Vec<Tag>, String> {
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        if b[i].is_whitespace() {
            i += 1;
            continue;
        }
        if b[i] != '<' {
            return Err(format!("text outside of elements at {}", i));
        }
        i += 1;
        let mut kind = '<';
        if b.get(i) == Some(&'/') || b.get(i) == Some(&'?') {
            kind = b[i];
            i += 1;
        }
        let mut name = String::new();
        while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
            name.push(b[i]);
            i += 1;
        }
        if name.is_empty() {
            return Err(format!("an element without name at {}", i));
        }
        let mut at = BTreeMap::new();
        loop {
            let gap = i;
            while i < b.len() && b[i].is_whitespace() {
                i += 1;
            }
            match b.get(i) {
                None => return Err("an element is not closed".into()),
                Some('>') => {
                    i += 1;
                    break;
                }
                Some('/') if kind == '<' && b.get(i + 1) == Some(&'>') => {
                    kind = '0';
                    i += 2;
                    break;
                }
                Some('?') if kind == '?' && b.get(i + 1) == Some(&'>') => {
                    i += 2;
                    break;
                }
                Some(_) => {
                    if gap == i {
                        return Err(format!("missing space at {}", i));
                    }
                    let mut k = String::new();
                    while i < b.len() && b[i] != '=' && !b[i].is_whitespace() && b[i] != '>' {
                        k.push(b[i]);
                        i += 1;
                    }
                    if b.get(i) != Some(&'=') || b.get(i + 1) != Some(&'"') {
                        return Err(format!("attribute {} is malformed", k));
                    }
                    i += 2;
                    let mut v = String::new();
                    while i < b.len() && b[i] != '"' {
                        if b[i] == '<' {
                            return Err("< in an attribute".into());
                        }
                        v.push(b[i]);
                        i += 1;
                    }
                    i += 1;
                    let v = v.replace("&gt;", ">").replace("&lt;", "<").replace("&quot;", "\"").replace("&amp;", "&");
                    if at.insert(k.clone(), v).is_some() {
                        return Err(format!("attribute {} occurs twice", k));
                    }
                }
            }
        }
        out.push((name, at, kind));
    }
    Ok(out)
}

fn vehicles(text: &str) -> Result<Vec<(String, Vec<i64>)>, String> {
    let ts = tags(text)?;
    let mut v: Vec<(String, Vec<i64>)> = vec![];
    let mut open: Vec<String> = vec![];
    let mut roots = 0;
    for (i, (name, at, kind)) in ts.iter().enumerate() {
        match (kind, name.as_str()) {
            ('?', "xml") if i == 0 => (),
            ('?', _) => return Err("a declaration inside".into()),
            ('/', n) => {
                if open.pop().as_deref() != Some(n) {
                    return Err(format!("{} is closed, but not open", n));
                }
            }
            (k, n) => {
                match (n, open.last().map(|s| s.as_str())) {
                    ("data", None) => roots += 1,
                    ("vehicle", Some("data")) => {
                        for a in &["type", "start_time", "driverProfile"] {
                            if !at.contains_key(*a) {
                                return Err(format!("a vehicle without {}", a));
                            }
                        }
                        v.push((at.get("id").ok_or("a vehicle without id")?.clone(), vec![]));
                    }
                    ("node", Some("vehicle")) => {
                        let id = at.get("id").and_then(|s| s.parse().ok()).ok_or("a node without id")?;
                        v.last_mut().unwrap().1.push(id);
                    }
                    (n, o) => return Err(format!("{} inside of {:?}", n, o)),
                }
                if *k == '<' {
                    open.push(n.into());
                }
            }
        }
    }
    if roots != 1 || !open.is_empty() {
        return Err(format!("{} roots, {:?} not closed", roots, open));
    }
    Ok(v)
}

/// a path together with the ids of the nodes it visits
type Spec = (RPath, Vec<i64>);

fn judge(g: &Graph, es: &[E], ps: &[Spec], dir: &Path, l: &mut Local) -> Verdict {
    let file = scratch_file(dir, l.worker, "xml");
    let c = configs::writing::smarts::Config { file: file.clone() };
    let chosen: Vec<RPath> = ps.iter().map(|p| p.0.clone()).collect();
    let text = || format!("paths {:?}: {}", ps.iter().map(|p| &p.1).collect::<Vec<_>>(), show(es));
    guard(|| io::smarts::Writer::write(&chosen, g, &c)).and_then(|r| r.map_err(|e| e.to_string())).map_err(|m| format!("{}: {}", m, text()))?;
    l.step(1);
    l.eval(ps.len() as u64 + 1);
    l.validated += 1;
    let xml = fs::read_to_string(&file).map_err(|e| e.to_string())?;
    let vs = vehicles(&xml).map_err(|m| format!("{}: {}\n{}", m, text(), xml))?;
    l.outcome(&vs);
    if vs.len() != ps.len() {
        return Err(format!("{} vehicles instead of {}: {}\n{}", vs.len(), ps.len(), text(), xml));
    }
    for (v, p) in vs.iter().zip(ps) {
        let id = format!("{}->{}", p.1[0], p.1[p.1.len() - 1]);
        if v.0 != id {
            return Err(format!("a vehicle is called {} instead of {}: {}\n{}", v.0, id, text(), xml));
        }
        if v.1 != p.1 && !(p.1.len() == 1 && v.1.is_empty()) {
            return Err(format!("vehicle {} drives {:?} instead of {:?}: {}\n{}", id, v.1, p.1, text(), xml));
        }
    }
    Ok(())
}

/// all walks of up to `depth` edges
fn walks(g: &Graph, depth: usize) -> Vec<Spec> {
    let ends = endpoints(g);
    let ids: Vec<i64> = g.nodes().iter().map(|i| g.nodes().id(i)).collect();
    let mut out = vec![];
    let mut cur: Vec<(usize, Vec<usize>)> = (0..ids.len()).map(|s| (s, vec![])).collect();
    for d in 0..=depth {
        for (s, w) in &cur {
            let mut v = vec![ids[*s]];
            v.extend(w.iter().map(|i| ids[ends[*i].1]));
            let t = w.last().map(|i| ends[*i].1).unwrap_or(*s);
            out.push((RPath::new(NodeIdx(*s), ids[*s], NodeIdx(t), ids[t], w.iter().map(|i| EdgeIdx(*i)).collect()), v));
        }
        if d < depth {
            cur = cur
                .into_iter()
                .flat_map(|(s, w)| {
                    let at = w.last().map(|i| ends[*i].1).unwrap_or(s);
                    let nx: Vec<_> = (0..ends.len())
                        .filter(|i| ends[*i].0 == at)
                        .map(|i| {
                            let mut x = w.clone();
                            x.push(i);
                            (s, x)
                        })
                        .collect();
                    nx
                })
                .collect();
        }
    }
    out
}

pub fn run(c: &mut Ctx) {
    let dir = c.scratch().to_path_buf();
    let k = cfg(1);
    let ps = pairs(3, true);
    let depth = c.pick(3, 4);
    c.family(
        "walks",
        &format!("all digraphs on 3 nodes with self-loops: all walks of up to {} edges, in one file", depth),
        pow(2, 9),
        |i, l| {
            let es = dense(i, &ps, &[&[1.0]], &IDS[..3]);
            if es.is_empty() {
                return Ok(());
            }
            let g = build(&k, &es, &nodes_of(&es))?;
            l.sample(|| show(&es));
            judge(&g, &es, &walks(&g, depth), &dir, l)
        },
    );
    {
        let es = vec![e(-7, 0, &[1.0]), e(0, 3, &[1.0]), e(3, -7, &[1.0]), e(0, -7, &[1.0]), e(-7, 0, &[2.0])];
        let g = build(&k, &es, &nodes_of(&es)).expect("builds");
        let ws = walks(&g, 2);
        let n = ws.len() as u64;
        c.family(
            "lists",
            &format!("all lists of 0..3 paths out of {} walks: order and repetition are kept", n),
            1 + n + n * n + n * n * n,
            |i, l| {
                let mut i = i;
                let mut len = 0;
                while i >= pow(n, len) {
                    i -= pow(n, len);
                    len += 1;
                }
                let mut d = Dig(i);
                let chosen: Vec<Spec> = (0..len).map(|_| ws[d.take(n) as usize].clone()).collect();
                judge(&g, &es, &chosen, &dir, l)
            },
        );
    }
    {
        let sizes = c.pick(vec![6, 25], vec![6, 25, 60, 120]);
        c.family(
            "routed",
            &format!("9 shapes of {:?} nodes: all paths found by the router from 4 sources", sizes),
            SHAPES * sizes.len() as u64,
            |i, l| {
                let mut d = Dig(i);
                let shape = d.take(SHAPES);
                let n = sizes[d.0 as usize];
                let es = structured(shape, n, 1);
                let g = build(&k, &es, &nodes_of(&es))?;
                let ends = endpoints(&g);
                let ids: Vec<i64> = g.nodes().iter().map(|i| g.nodes().id(i)).collect();
                let r = rcfg(RoutingAlgo::Dijkstra, &[1.0]);
                let mut dj = Dijkstra::new();
                let mut v = vec![];
                for s in 0..4 {
                    for t in 0..ids.len() {
                        if let Some(p) = query(&mut dj, &g, &r, s, t) {
                            let mut x = vec![ids[s]];
                            x.extend(path_edges(&p).iter().map(|i| ids[ends[*i].1]));
                            v.push((p, x));
                        }
                    }
                }
                judge(&g, &es, &v, &dir, l)
            },
        );
    }
}
