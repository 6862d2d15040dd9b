//! C16: reading a network-file yields the network which the file describes, or a rejection.
use crate::{
    c04, c05,
    engine::{Ctx, Dig, Local, Verdict},
    fmi::*,
    model::*,
};
use std::path::Path;

/// What a text describes, read by a reader of its own.
pub enum Want {
    Net(Vec<E>, Vec<N>),
    Reject,
    /// the format says nothing
    Open,
}

pub fn int(s: &str) -> Option<i128> {
    let (neg, d) = match s.as_bytes().first()? {
        b'-' => (true, &s[1..]),
        b'+' => (false, &s[1..]),
        _ => (false, s),
    };
    if d.is_empty() || d.len() > 30 || !d.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut v: i128 = 0;
    for b in d.bytes() {
        v = v * 10 + (b - b'0') as i128;
    }
    Some(if neg { -v } else { v })
}

pub fn as_i64(s: &str) -> Option<i64> {
    int(s).filter(|v| *v >= std::i64::MIN as i128 && *v <= std::i64::MAX as i128).map(|v| v as i64)
}

pub fn as_usize(s: &str) -> Option<usize> {
    if s.starts_with('-') {
        return None;
    }
    int(s).filter(|v| *v <= std::u64::MAX as i128).map(|v| v as usize)
}

/// decimal numbers: sign, digits, point, exponent
pub fn as_f64(s: &str) -> Option<f64> {
    let t = s.strip_prefix(|c| c == '+' || c == '-').unwrap_or(s);
    let low = t.to_ascii_lowercase();
    if low == "inf" || low == "infinity" || low == "nan" {
        return s.parse().ok();
    }
    let (man, exp) = match low.find('e') {
        Some(i) => (low[..i].to_string(), Some(low[i + 1..].to_string())),
        None => (low.clone(), None),
    };
    if let Some(x) = exp {
        let x = x.strip_prefix(|c| c == '+' || c == '-').unwrap_or(&x);
        if x.is_empty() || !x.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
    }
    let parts: Vec<&str> = man.split('.').collect();
    if parts.len() > 2 || man.bytes().filter(|b| b.is_ascii_digit()).count() == 0 || !man.bytes().all(|b| b.is_ascii_digit() || b == b'.') {
        return None;
    }
    s.parse().ok()
}

pub fn lines_of(bytes: &[u8]) -> Option<Vec<String>> {
    let text = std::str::from_utf8(bytes).ok()?;
    let mut ls: Vec<&str> = text.split('\n').collect();
    if ls.last() == Some(&"") {
        ls.pop();
    }
    Some(ls.into_iter().map(|l| l.strip_suffix('\r').unwrap_or(l)).filter(|l| !l.is_empty() && !l.starts_with('#')).map(|l| l.to_string()).collect())
}

pub fn read(bytes: &[u8], nc: &[NC], ec: &[EC]) -> Want {
    let ls = match lines_of(bytes) {
        Some(ls) => ls,
        None => return Want::Reject,
    };
    let toks: Vec<Vec<&str>> = ls.iter().map(|l| l.split_whitespace().collect()).collect();
    if toks.iter().any(|t| t.is_empty()) {
        return Want::Open;
    }
    let first = match toks.iter().position(|t| t.len() == 1) {
        Some(i) => i,
        None => return Want::Reject,
    };
    let data = toks[first..].iter().position(|t| t.len() != 1).map(|i| i + first).unwrap_or(toks.len());
    let counts: Vec<Option<usize>> = toks[first..data].iter().map(|t| as_usize(t[0])).collect();
    let good: Vec<usize> = counts.iter().filter_map(|c| *c).collect();
    if good.len() < 2 {
        return Want::Reject;
    }
    if good.len() != counts.len() || first != 0 {
        return Want::Open;
    }
    let (n, m) = (good[good.len() - 2], good[good.len() - 1]);
    let have = toks.len() - data;
    if n > have || m > have || n + m > have {
        return Want::Reject;
    }
    let mut ns: Vec<N> = vec![];
    let mut open = false;
    let mut reject = false;
    for t in &toks[data..data + n] {
        if t.len() < nc.len() {
            return Want::Reject;
        }
        let mut x = N { id: 0, lat: 0.0, lon: 0.0, level: None };
        for (c, s) in nc.iter().zip(t) {
            let ok = match c {
                NC::Id => as_i64(s).map(|v| x.id = v).is_some(),
                NC::Level => as_usize(s).map(|v| x.level = Some(v)).is_some(),
                NC::Lat => as_f64(s).map(|v| x.lat = v).is_some(),
                NC::Lon => as_f64(s).map(|v| x.lon = v).is_some(),
                NC::Skip => true,
            };
            if !ok {
                return Want::Reject;
            }
        }
        open |= x.lat.is_nan() || x.lon.is_nan() || ns.iter().any(|y| y.id == x.id);
        ns.push(x);
    }
    let mut es: Vec<E> = vec![];
    for t in &toks[data + n..data + n + m] {
        if t.len() < ec.len() {
            return Want::Reject;
        }
        let mut x = e(0, 0, &[]);
        let (mut s0, mut s1) = (None, None);
        for (c, s) in ec.iter().zip(t) {
            let ok = match c {
                EC::Id => as_usize(s).or_else(|| s.strip_prefix("ch").and_then(as_usize)).map(|v| x.id = Some(v)).is_some(),
                EC::Src => as_i64(s).map(|v| x.src = v).is_some(),
                EC::Dst => as_i64(s).map(|v| x.dst = v).is_some(),
                EC::Sc0 => *s == "-1" || as_usize(s).map(|v| s0 = Some(v)).is_some(),
                EC::Sc1 => *s == "-1" || as_usize(s).map(|v| s1 = Some(v)).is_some(),
                EC::M(_) => as_f64(s).map(|v| x.m.push(v)).is_some(),
                EC::Skip => true,
            };
            if !ok {
                return Want::Reject;
            }
        }
        match (s0, s1) {
            (Some(a), Some(b)) => {
                if a >= m || b >= m {
                    reject = true;
                }
                x.sc = Some([a, b]);
            }
            (None, None) => (),
            _ => open = true,
        }
        es.push(x);
    }
    if !c04::must_build(&es, &ns) || reject {
        return Want::Reject;
    }
    // lines of equal content, no edges, tiny metrics
    let tiny = es.iter().any(|x| x.m.iter().any(|v| *v != 0.0 && *v < 1e-5));
    if open || es.is_empty() || tiny {
        return Want::Open;
    }
    Want::Net(es, ns)
}

pub fn judge(bytes: &[u8], nc: &[NC], ec: &[EC], dir: &Path, l: &mut Local) -> Verdict {
    let want = read(bytes, nc, ec);
    let file = scratch_file(dir, l.worker, "fmi");
    std::fs::write(&file, bytes).unwrap();
    let got = parse_file(cfg_yaml(&parse_text(file.to_str().unwrap(), nc, ec, false, "")));
    l.step(1);
    let text = || format!("columns {:?} {:?}, file:\n{}", nc, ec, String::from_utf8_lossy(bytes));
    match (want, got) {
        (Want::Open, r) => l.outcome(&(0, r.is_ok())),
        (Want::Reject, Ok(g)) => {
            return Err(format!("a file which is malformed or incomplete has been accepted ({} nodes, {} edges): {}", g.nodes().count(), g.fwd_edges().count(), text()));
        }
        (Want::Reject, Err(m)) => {
            l.eval(1);
            l.validated += 1;
            l.outcome(&(1, m.chars().take(40).collect::<String>()))
        }
        (Want::Net(..), Err(m)) => return Err(format!("a proper file has been rejected ({}): {}", m, text())),
        (Want::Net(es, ns), Ok(g)) => {
            l.eval(1);
            l.validated += 1;
            let plain: Vec<E> = es.iter().map(|x| x.clone()).collect();
            c04::faithful(&g, &plain, &ns, l).map_err(|m| format!("{}: {}", m, text()))?;
            let mut keys: Vec<_> = es.iter().map(|x| (x.src, x.dst, x.m.iter().map(|f| f.to_bits()).collect::<Vec<_>>())).collect();
            keys.sort();
            keys.dedup();
            if keys.len() == es.len() && es.iter().all(|x| x.m.iter().all(|v| *v != 0.0)) {
                c05::refs(&g, &es, l).map_err(|m| format!("{}: {}", m, text()))?;
            }
        }
    }
    Ok(())
}

struct Base {
    nc: Vec<NC>,
    ec: Vec<EC>,
    counts: Vec<&'static str>,
    nodes: Vec<&'static str>,
    edges: Vec<&'static str>,
}

impl Base {
    fn lines(&self) -> Vec<String> {
        self.counts.iter().chain(&self.nodes).chain(&self.edges).map(|s| s.to_string()).collect()
    }
}

fn bases() -> Vec<Base> {
    vec![
        Base {
            nc: vec![NC::Id, NC::Lat, NC::Lon],
            ec: vec![EC::Src, EC::Dst, EC::M(0), EC::M(1)],
            counts: vec!["3", "4"],
            nodes: vec!["-7 1.5 2", "0 -3.25 4e1", "12 0 .5"],
            edges: vec!["-7 0 1 2.5", "0 12 3 0.25", "12 -7 7 8", "12 12 1e2 4"],
        },
        Base {
            nc: vec![NC::Id, NC::Skip, NC::Lat, NC::Lon, NC::Skip, NC::Level],
            ec: vec![EC::Id, EC::Src, EC::Skip, EC::Dst, EC::M(0), EC::Sc0, EC::Sc1],
            counts: vec!["1", "3", "5"],
            nodes: vec!["5 x 1 2 y 0", "6 _ 3 4 _ 2", "9 _ 5 6 _ 1"],
            edges: vec!["10 5 a 6 1.5 -1 -1", "ch11 5 b 9 4 0 2", "12 6 c 9 2.5 -1 -1", "0 9 _ 5 3 -1 -1", "7 9 _ 6 4.5 3 0"],
        },
        Base {
            nc: vec![NC::Lon, NC::Lat, NC::Level, NC::Id],
            ec: vec![EC::M(0), EC::Dst, EC::Src],
            counts: vec!["4", "3"],
            nodes: vec!["1 2 3 4", "5 6 7 8", "9 10 11 12", "13 14 15 16"],
            edges: vec!["17 4 8", "18 8 12", "19 12 4"],
        },
    ]
}

fn glue(ls: &[String]) -> Vec<u8> {
    let mut s = ls.join("\n");
    s.push('\n');
    s.into_bytes()
}

pub fn run(c: &mut Ctx) {
    let dir = c.scratch().to_path_buf();
    let bs = bases();
    let nb = bs.len() as u64;
    // lines without meaning
    {
        let deco = ["# comment", "", "#", "#1", "# 2 3 4", "#-7 0 1 2"];
        let nd = deco.len() as u64;
        let places = bs.iter().map(|b| b.lines().len() + 1).max().unwrap() as u64;
        let per = nd * places;
        c.family(
            "comments",
            &format!("3 files, all pairs of insertions of {:?} at all pairs of places, lines ending with LF, CRLF, or without the last LF", deco),
            nb * per * per * 3,
            |i, l| {
                let mut d = Dig(i);
                let b = &bs[d.take(nb) as usize];
                let end = d.take(3);
                let mut ls = b.lines();
                for _ in 0..2 {
                    let x = deco[d.take(nd) as usize];
                    let p = (d.take(places) as usize).min(ls.len());
                    ls.insert(p, x.to_string());
                }
                l.sample(|| format!("{:?}", ls));
                let bytes = match end {
                    0 => glue(&ls),
                    1 => (ls.join("\r\n") + "\r\n").into_bytes(),
                    _ => ls.join("\n").into_bytes(),
                };
                judge(&bytes, &b.nc, &b.ec, &dir, l)
            },
        );
        let seps = ["  ", "\t", " \t ", "   "];
        c.family(
            "separators",
            &format!("3 files, separators {:?}, leading and trailing spaces, superfluous columns and lines at the end", seps),
            nb * seps.len() as u64 * 2 * 2 * 3 * 3,
            |i, l| {
                let mut d = Dig(i);
                let b = &bs[d.take(nb) as usize];
                let s = seps[d.take(seps.len() as u64) as usize];
                let (lead, trail, cols, more) = (d.take(2), d.take(2), d.take(3), d.take(3));
                let k = b.counts.len();
                let mut ls: Vec<String> = b
                    .lines()
                    .iter()
                    .enumerate()
                    .map(|(j, x)| {
                        let mut y = x.replace(' ', s);
                        if lead == 1 {
                            y = format!(" {}", y);
                        }
                        if j >= k {
                            y += &format!("{}extra", s).repeat(cols as usize);
                        }
                        if trail == 1 {
                            y += s;
                        }
                        y
                    })
                    .collect();
                for j in 0..more {
                    ls.push(if j == 0 { b.edges[0].to_string() } else { "no more edges here".into() });
                }
                judge(&glue(&ls), &b.nc, &b.ec, &dir, l)
            },
        );
    }
    // tokens
    {
        let toks = [
            "x", "1", "0", "-1", "+3", "-0", "1.5", ".5", "5.", ".", "-", "+", "1e3", "1e", "e1", "1e400", "-1e400", "-2.5", "NaN", "nan", "inf", "-inf", "Infinity", "ch", "ch4", "ch-4", "c", "CH4", "chx", "9223372036854775807",
            "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "0x10", "1_000", "1,5", "1d", "\u{e4}", "\u{e4}\u{e4}", "\u{1d7d9}", "-7", "12", "5", "4", "2", "3", "-", "''", "00", "007", "--1", "1-1", "99", "a#",
        ];
        let nt = toks.len() as u64;
        // (base, line, column)
        let mut spots = vec![];
        for (bi, b) in bs.iter().enumerate() {
            for (li, ln) in b.lines().iter().enumerate() {
                for ci in 0..ln.split(' ').count() {
                    spots.push((bi, li, ci));
                }
            }
        }
        let put = |b: &Base, subs: &[(usize, usize, &str)]| {
            let mut ls = b.lines();
            for (li, ci, t) in subs {
                let mut p: Vec<&str> = ls[*li].split(' ').collect();
                p[*ci] = t;
                ls[*li] = p.join(" ");
            }
            glue(&ls)
        };
        c.family(
            "tokens",
            &format!("3 files, every value replaced by each of {} texts (numbers of every form and range, letters, umlauts)", nt),
            spots.len() as u64 * nt,
            |i, l| {
                let (bi, li, ci) = spots[(i / nt) as usize];
                let t = toks[(i % nt) as usize];
                judge(&put(&bs[bi], &[(li, ci, t)]), &bs[bi].nc, &bs[bi].ec, &dir, l)
            },
        );
        if !c.quick() {
            let few = ["x", "1", "0", "-1", "1.5", "NaN", "ch4", "12", "5", "6", "9", "\u{e4}"];
            let nf = few.len() as u64;
            let mut two = vec![];
            for a in 0..spots.len() {
                for b in 0..a {
                    if spots[a].0 == spots[b].0 {
                        two.push((a, b));
                    }
                }
            }
            c.family(
                "token-pairs",
                &format!("3 files, every pair of values replaced by all pairs of {:?}", few),
                two.len() as u64 * nf * nf,
                |i, l| {
                    let mut d = Dig(i);
                    let (s, t) = (few[d.take(nf) as usize], few[d.take(nf) as usize]);
                    let (a, b) = two[d.0 as usize];
                    let bi = spots[a].0;
                    judge(&put(&bs[bi], &[(spots[a].1, spots[a].2, s), (spots[b].1, spots[b].2, t)]), &bs[bi].nc, &bs[bi].ec, &dir, l)
                },
            );
        }
        let mut cut = vec![];
        for (bi, li, ci) in &spots {
            cut.push((*bi, *li, *ci));
        }
        c.family(
            "missing-columns",
            "3 files, every line shortened to its first 1, 2, ... values; every value left out; every value doubled",
            cut.len() as u64 * 3,
            |i, l| {
                let (bi, li, ci) = cut[(i / 3) as usize];
                let b = &bs[bi];
                let mut ls = b.lines();
                let mut p: Vec<String> = ls[li].split(' ').map(|s| s.to_string()).collect();
                match i % 3 {
                    0 => p.truncate(ci + 1),
                    1 => {
                        p.remove(ci);
                    }
                    _ => p.insert(ci, p[ci].clone()),
                }
                ls[li] = p.join(" ");
                judge(&glue(&ls), &b.nc, &b.ec, &dir, l)
            },
        );
    }
    // lines
    {
        let total: Vec<u64> = bs.iter().map(|b| 1u64 << b.lines().len()).collect();
        let sum: u64 = total.iter().sum();
        c.family(
            "missing-lines",
            "3 files, every subset of their lines",
            sum,
            |i, l| {
                let (mut i, mut bi) = (i, 0);
                while i >= total[bi] {
                    i -= total[bi];
                    bi += 1;
                }
                let b = &bs[bi];
                let ls: Vec<String> = b.lines().into_iter().enumerate().filter(|(j, _)| i >> j & 1 == 0).map(|x| x.1).collect();
                if ls.is_empty() {
                    return judge(b"", &b.nc, &b.ec, &dir, l);
                }
                judge(&glue(&ls), &b.nc, &b.ec, &dir, l)
            },
        );
        let most = bs.iter().map(|b| b.lines().len()).max().unwrap() as u64;
        c.family(
            "moved-lines",
            "3 files, every two lines swapped, every line copied to every place",
            nb * most * most * 2,
            |i, l| {
                let mut d = Dig(i);
                let b = &bs[d.take(nb) as usize];
                let op = d.take(2);
                let (x, y) = (d.take(most) as usize, d.take(most) as usize);
                let mut ls = b.lines();
                if x >= ls.len() || y >= ls.len() {
                    return Ok(());
                }
                if op == 0 {
                    ls.swap(x, y);
                } else {
                    ls.insert(y, ls[x].clone());
                }
                judge(&glue(&ls), &b.nc, &b.ec, &dir, l)
            },
        );
        let vals = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "100", "4294967296", "9223372036854775807", "18446744073709551615"];
        let nv = vals.len() as u64;
        c.family(
            "counts",
            &format!("3 files, declared node- and edge-counts from {:?}, 1..4 count-lines", vals),
            nb * nv * nv * 4,
            |i, l| {
                let mut d = Dig(i);
                let b = &bs[d.take(nb) as usize];
                let (x, y, k) = (vals[d.take(nv) as usize], vals[d.take(nv) as usize], d.take(4));
                let mut cs = vec!["1", "2", x, y];
                cs.drain(..3 - k as usize);
                let ls: Vec<String> = cs.iter().chain(&b.nodes).chain(&b.edges).map(|s| s.to_string()).collect();
                judge(&glue(&ls), &b.nc, &b.ec, &dir, l)
            },
        );
    }
    // bytes
    {
        let files: Vec<Vec<u8>> = bs
            .iter()
            .map(|b| {
                let mut ls = b.lines();
                ls.insert(0, "# head".into());
                ls.insert(3, "".into());
                glue(&ls)
            })
            .collect();
        let most = files.iter().map(|f| f.len()).max().unwrap() as u64;
        c.family("truncated", "3 files, cut behind every byte", nb * (most + 1), |i, l| {
            let mut d = Dig(i);
            let bi = d.take(nb) as usize;
            let cut = d.0 as usize;
            if cut > files[bi].len() {
                return Ok(());
            }
            judge(&files[bi][..cut], &bs[bi].nc, &bs[bi].ec, &dir, l)
        });
        let subs: Vec<u8> = if c.quick() { b"\n\r #0-.xc\xff\xc3\0e9".to_vec() } else { (0..=255).collect() };
        let nsub = subs.len() as u64;
        c.family(
            "bytes",
            &format!("3 files, every byte replaced by, or preceded by, each of {} bytes; every byte left out", nsub),
            nb * most * (2 * nsub + 1),
            |i, l| {
                let mut d = Dig(i);
                let bi = d.take(nb) as usize;
                let p = d.take(most) as usize;
                let op = d.0;
                if p >= files[bi].len() {
                    return Ok(());
                }
                let mut f = files[bi].clone();
                if op == 2 * nsub {
                    f.remove(p);
                } else if op % 2 == 0 {
                    f[p] = subs[(op / 2) as usize];
                } else {
                    f.insert(p, subs[(op / 2) as usize]);
                }
                judge(&f, &bs[bi].nc, &bs[bi].ec, &dir, l)
            },
        );
    }
    // layouts which cannot be read
    {
        let b = &bs[0];
        let nalpha = [NC::Id, NC::Lat, NC::Lon, NC::Skip];
        c.family(
            "node-layouts",
            "all layouts of 3 node-columns out of (id, lat, lon, ignored): read if complete, rejected otherwise",
            64,
            |i, l| {
                let mut d = Dig(i);
                let nc: Vec<NC> = (0..3).map(|_| nalpha[d.take(4) as usize]).collect();
                layout(b, &nc, &b.ec, &dir, l)
            },
        );
        let ealpha = [EC::Src, EC::Dst, EC::M(0), EC::M(1), EC::Sc0, EC::Sc1, EC::Id, EC::Skip];
        let eb = Base { edges: vec!["0 12 3 2", "12 0 4 1", "-7 0 2 3", "-7 12 5 0"].into_iter().map(|s| s).collect(), ..bases().remove(0) };
        c.family(
            "edge-layouts",
            "all layouts of 4 edge-columns out of (src, dst, 2 metrics, 2 shortcut-indices, edge-id, ignored)",
            8 * 8 * 8 * 8,
            |i, l| {
                let mut d = Dig(i);
                let ec: Vec<EC> = (0..4).map(|_| ealpha[d.take(8) as usize]).collect();
                layout(&eb, &eb.nc, &ec, &dir, l)
            },
        );
    }
}

/// duplicates and missing columns are rejected, in the config or in the file
fn layout(b: &Base, nc: &[NC], ec: &[EC], dir: &Path, l: &mut Local) -> Verdict {
    let bytes = glue(&b.lines());
    let count_n = |c: NC| nc.iter().filter(|x| **x == c).count();
    let count_e = |c: EC| ec.iter().filter(|x| **x == c).count();
    let dup = [NC::Id, NC::Lat, NC::Lon].iter().any(|c| count_n(*c) > 1) || ec.iter().any(|c| *c != EC::Skip && count_e(*c) > 1);
    let bad = dup || [NC::Id, NC::Lat, NC::Lon].iter().any(|c| count_n(*c) == 0) || count_e(EC::Src) == 0 || count_e(EC::Dst) == 0 || count_e(EC::Sc0) + count_e(EC::Sc1) == 1;
    let file = scratch_file(dir, l.worker, "fmi");
    std::fs::write(&file, &bytes).unwrap();
    l.step(1);
    if bad {
        let text = parse_text(file.to_str().unwrap(), nc, ec, false, "");
        l.eval(1);
        l.outcome(&0);
        if let Ok(k) = crate::engine::guard(|| try_cfg_yaml(&text)).and_then(|x| x) {
            if parse_file(k).is_ok() {
                return Err(format!("the layout {:?} {:?} has been accepted", nc, ec));
            }
        }
        return Ok(());
    }
    // every edge needs a metric to be told apart
    if !ec.iter().any(|c| matches!(c, EC::M(_))) {
        return Ok(());
    }
    judge(&bytes, nc, ec, dir, l)
}
