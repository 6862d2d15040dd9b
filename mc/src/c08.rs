//! C08: generated metrics are what the config asks for.
use crate::{
    engine::{guard, pow, Ctx, Dig, Local, Verdict},
    model::*,
};
use osmgraphing::{
    configs::parsing::{edges as pe, generating::edges as ge},
    network::{EdgeIdx, Graph, NodeIdx},
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum U {
    Meters,
    Kilometers,
    Seconds,
    Minutes,
    Hours,
    KilometersPerHour,
    LaneCount,
    F64,
}
use U::*;
const US: [U; 8] = [Meters, Kilometers, Seconds, Minutes, Hours, KilometersPerHour, LaneCount, F64];

impl U {
    /// (dimension, size in the dimension's base unit)
    fn dim(self) -> (char, f64) {
        match self {
            Meters => ('d', 1.0),
            Kilometers => ('d', 1000.0),
            Seconds => ('t', 1.0),
            Minutes => ('t', 60.0),
            Hours => ('t', 3600.0),
            KilometersPerHour => ('v', 1.0),
            LaneCount => ('l', 1.0),
            F64 => ('f', 1.0),
        }
    }
    fn gen(self) -> ge::metrics::UnitInfo {
        use ge::metrics::UnitInfo as G;
        match self {
            Meters => G::Meters,
            Kilometers => G::Kilometers,
            Seconds => G::Seconds,
            Minutes => G::Minutes,
            Hours => G::Hours,
            KilometersPerHour => G::KilometersPerHour,
            LaneCount => G::LaneCount,
            F64 => G::F64,
        }
    }
    fn par(self) -> pe::metrics::UnitInfo {
        use pe::metrics::UnitInfo as P;
        match self {
            Meters => P::Meters,
            Kilometers => P::Kilometers,
            Seconds => P::Seconds,
            Minutes => P::Minutes,
            Hours => P::Hours,
            KilometersPerHour => P::KilometersPerHour,
            LaneCount => P::LaneCount,
            F64 => P::F64,
        }
    }
}

fn convert(a: U, b: U, x: f64) -> Option<f64> {
    let ((da, sa), (db, sb)) = (a.dim(), b.dim());
    if a == b || da == 'f' || db == 'f' {
        Some(x)
    } else if da == db {
        Some(x * sa / sb)
    } else {
        None
    }
}

fn calc(r: U, a: U, x: f64, b: U, y: f64) -> Option<f64> {
    match (r, a, b) {
        (Hours, Kilometers, KilometersPerHour) => Some(x / y),
        (Minutes, Kilometers, KilometersPerHour) => Some(x / y * 60.0),
        (Seconds, Kilometers, KilometersPerHour) => Some(x / y * 3600.0),
        (KilometersPerHour, Kilometers, Hours) => Some(x / y),
        _ => None,
    }
}

fn eq(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * a.abs().max(b.abs())
}

/// distance on the sphere by the chord between two points
pub fn sphere(a: &N, b: &N) -> f64 {
    let v = |n: &N| {
        let (la, lo) = (n.lat.to_radians(), n.lon.to_radians());
        [la.cos() * lo.cos(), la.cos() * lo.sin(), la.sin()]
    };
    let (p, q) = (v(a), v(b));
    let chord = (0..3).map(|i| (p[i] - q[i]) * (p[i] - q[i])).sum::<f64>().sqrt();
    2.0 * 6371.0 * (chord / 2.0).min(1.0).asin()
}

type M = (U, &'static str);

#[derive(Clone, Debug)]
enum Op {
    Custom(Option<U>, &'static str, Option<f64>),
    Haversine(U, &'static str),
    Copy(M, M),
    Convert(M, M),
    Calc(M, M, M),
    Meta(&'static str, &'static str),
}

fn yaml(o: &Op) -> String {
    let m = |x: &M| format!("{{ unit: {:?}, id: {} }}", x.0, x.1);
    match o {
        Op::Custom(u, id, d) => format!(
            "custom: {{ id: {}{}{} }}",
            id,
            u.map(|u| format!(", unit: {:?}", u)).unwrap_or_default(),
            d.map(|d| format!(", default: {:?}", d)).unwrap_or_default()
        ),
        Op::Haversine(u, id) => format!("haversine: {{ unit: {:?}, id: {} }}", u, id),
        Op::Copy(a, b) => format!("copy: {{ from: {}, to: {} }}", m(a), m(b)),
        Op::Convert(a, b) => format!("convert: {{ from: {}, to: {} }}", m(a), m(b)),
        Op::Calc(r, a, b) => format!("calc: {{ result: {}, a: {}, b: {} }}", m(r), m(a), m(b)),
        Op::Meta(i, id) => format!("meta: {{ info: {}, id: {} }}", i, id),
    }
}

const META0: [&str; 2] = ["src-id", "dst-id"];

#[derive(Clone)]
struct St {
    metrics: Vec<(String, U, Vec<f64>)>,
    metas: Vec<(String, String)>,
    with_ids: bool,
}

enum Out {
    Go,
    Reject,
    Open,
}

fn taken(s: &St, id: &str) -> bool {
    s.metrics.iter().any(|m| m.0 == id) || s.metas.iter().any(|m| m.0 == id) || META0.contains(&id)
}

/// one generating step, per the documentation of the config
fn apply(s: &mut St, o: &Op, es: &[E], ns: &[N], initial: &[&str]) -> Out {
    let new_id = match o {
        Op::Custom(_, id, _) | Op::Haversine(_, id) | Op::Meta(_, id) => Some(*id),
        Op::Copy(_, t) => Some(t.1),
        Op::Calc(r, _, _) => Some(r.1),
        Op::Convert(f, t) if f.1 != t.1 => Some(t.1),
        Op::Convert(..) => None,
    };
    if let Some(id) = new_id {
        if taken(s, id) {
            return Out::Reject;
        }
        // an id which has been renamed: whether it is free again is not decided here
        if initial.contains(&id) && !matches!(o, Op::Convert(..)) {
            return Out::Open;
        }
    }
    let find = |s: &St, m: &M| s.metrics.iter().position(|x| x.0 == m.1);
    // a declared unit other than the metric's one: its meaning is not decided here
    let honest = |s: &St, m: &M| find(s, m).map(|i| s.metrics[i].1 == m.0);
    macro_rules! source {
        ($m:expr) => {
            match honest(s, $m) {
                None => return Out::Reject,
                Some(false) => return Out::Open,
                Some(true) => find(s, $m).unwrap(),
            }
        };
    }
    match o {
        Op::Custom(u, id, d) => {
            s.metrics.push((id.to_string(), u.unwrap_or(F64), vec![d.unwrap_or(0.0); es.len()]));
        }
        Op::Haversine(u, id) => {
            if *u != Kilometers {
                return Out::Reject;
            }
            let nd = |i: i64| ns.iter().find(|n| n.id == i).unwrap();
            s.metrics.push((id.to_string(), *u, es.iter().map(|x| sphere(nd(x.src), nd(x.dst))).collect()));
        }
        Op::Copy(f, t) => {
            let i = source!(f);
            let v: Option<Vec<f64>> = s.metrics[i].2.iter().map(|x| convert(f.0, t.0, *x)).collect();
            match v {
                None => return Out::Reject,
                Some(v) => s.metrics.push((t.1.to_string(), t.0, v)),
            }
        }
        Op::Convert(f, t) => {
            let i = source!(f);
            let v: Option<Vec<f64>> = s.metrics[i].2.iter().map(|x| convert(f.0, t.0, *x)).collect();
            match v {
                None => return Out::Reject,
                Some(v) => s.metrics[i] = (t.1.to_string(), t.0, v),
            }
        }
        Op::Calc(r, a, b) => {
            let i = source!(a);
            let j = source!(b);
            let v: Option<Vec<f64>> = (0..es.len()).map(|k| calc(r.0, a.0, s.metrics[i].2[k], b.0, s.metrics[j].2[k])).collect();
            match v {
                None => return Out::Reject,
                Some(v) => s.metrics.push((r.1.to_string(), r.0, v)),
            }
        }
        Op::Meta(i, id) => {
            s.metas.push((id.to_string(), i.to_string()));
            if *i == "EdgeId" {
                s.with_ids = true;
            }
        }
    }
    Out::Go
}

fn gen_text(ops: &[Op]) -> String {
    let mut t = String::from("  generating:\n    nodes: []\n    edges:\n");
    for o in ops {
        t += &format!("    - {}\n", yaml(o));
    }
    if ops.is_empty() {
        t = "  generating:\n    nodes: []\n    edges: []\n".into();
    }
    t
}

fn compare(g: &Graph, s: &St, es: &[E]) -> Verdict {
    let m = &g.cfg().edges.metrics;
    let ids: Vec<&str> = m.ids.iter().map(|i| i.0.as_str()).collect();
    let want: Vec<&str> = s.metrics.iter().map(|x| x.0.as_str()).collect();
    if ids != want {
        return Err(format!("metrics {:?} instead of {:?}", ids, want));
    }
    if g.metrics().dim() != want.len() {
        return Err(format!("dimension {} instead of {}", g.metrics().dim(), want.len()));
    }
    for (k, x) in s.metrics.iter().enumerate() {
        if m.units[k] != x.1.par() {
            return Err(format!("metric {} has unit {:?} instead of {:?}", x.0, m.units[k], x.1));
        }
    }
    let ends = endpoints(g);
    if ends.len() != es.len() {
        return Err("edges are lost".into());
    }
    for (i, (a, b)) in ends.iter().enumerate() {
        let (a, b) = (g.nodes().id(NodeIdx(*a)), g.nodes().id(NodeIdx(*b)));
        let j = es.iter().position(|x| x.src == a && x.dst == b).ok_or("unknown edge")?;
        let got = &g.metrics()[EdgeIdx(i)];
        if got.len() != s.metrics.len() {
            return Err(format!("edge {}->{} has {} metrics instead of {}", a, b, got.len(), s.metrics.len()));
        }
        for (k, x) in s.metrics.iter().enumerate() {
            if !eq(got[k], x.2[j]) {
                return Err(format!("edge {}->{}: {} is {} instead of {}", a, b, x.0, got[k], x.2[j]));
            }
        }
        let want_id = if s.with_ids { Some(i) } else { None };
        if g.fwd_edges().try_id(EdgeIdx(i)) != want_id {
            return Err(format!("edge {} has id {:?} instead of {:?}", i, g.fwd_edges().try_id(EdgeIdx(i)), want_id));
        }
        if s.with_ids && *g.fwd_edges().idx_from(i) != i {
            return Err(format!("generated edge-id {} is not found", i));
        }
    }
    // the config tells the writers which ids there are
    let mut metas: Vec<(String, String)> = vec![];
    let mut mets: Vec<String> = vec![];
    for c in &g.cfg().edges.categories {
        match c {
            pe::Category::Meta { info, id } => metas.push((id.0.clone(), format!("{:?}", info))),
            pe::Category::Metric { unit, id } => {
                match s.metrics.iter().find(|x| x.0 == id.0) {
                    Some(x) if x.1.par() == *unit => (),
                    _ => return Err(format!("the config lists {} of unit {:?}", id.0, unit)),
                }
                mets.push(id.0.clone())
            }
            pe::Category::Ignored => (),
        }
    }
    let mut wm: Vec<(String, String)> = vec![("src-id".into(), "SrcId".into()), ("dst-id".into(), "DstId".into())];
    wm.extend(s.metas.iter().cloned());
    wm.sort();
    metas.sort();
    mets.sort();
    let mut wt: Vec<String> = want.iter().map(|x| x.to_string()).collect();
    wt.sort();
    if metas != wm || mets != wt {
        return Err(format!("the config lists {:?}, {:?} instead of {:?}, {:?}", metas, mets, wm, wt));
    }
    Ok(())
}

const INIT: [(U, &str); 3] = [(Kilometers, "km"), (Seconds, "s"), (KilometersPerHour, "v")];

fn judge(ops: &[Op], es: &[E], ns: &[N], l: &mut Local) -> Verdict {
    let mets: Vec<(String, String)> = INIT.iter().map(|(u, i)| (format!("{:?}", u), i.to_string())).collect();
    let text = cfg_text("x.fmi", &mets, false, &gen_text(ops));
    l.step(ops.len() as u64 + 1);
    let k = match guard(|| try_cfg_yaml(&text)) {
        Ok(Ok(k)) => Ok(k),
        Ok(Err(m)) | Err(m) => Err(m),
    };
    let r = k.and_then(|k| guard(|| build(&k, es, ns)).and_then(|x| x));
    let mut s = St {
        metrics: INIT.iter().enumerate().map(|(k, (u, i))| (i.to_string(), *u, es.iter().map(|x| x.m[k]).collect())).collect(),
        metas: vec![],
        with_ids: false,
    };
    let initial: Vec<&str> = INIT.iter().map(|x| x.1).collect();
    // an id of the file is never free for new metrics, wherever it is asked for
    let mut open = false;
    for o in ops {
        match apply(&mut s, o, es, ns, &initial) {
            Out::Go => (),
            Out::Open => {
                open = true;
                break;
            }
            Out::Reject => {
                l.eval(1);
                l.validated += 1;
                l.outcome(&1u8);
                return match r {
                    Ok(_) => Err(format!("this is accepted, though it is no proper config:\n{}", text)),
                    Err(_) => Ok(()),
                };
            }
        }
    }
    if open {
        l.outcome(&2u8);
        return Ok(());
    }
    // a later id which has been renamed before
    let g = match r {
        Ok(g) => g,
        Err(m) => return Err(format!("{}: a proper config is rejected:\n{}", m, text)),
    };
    l.eval(1);
    l.validated += 1;
    l.outcome(&s.metrics.iter().map(|m| (m.0.clone(), m.2.iter().map(|x| x.to_bits()).collect::<Vec<_>>())).collect::<Vec<_>>());
    l.sample(|| ops.iter().map(yaml).collect::<Vec<_>>().join("; "));
    compare(&g, &s, es).map_err(|m| format!("{}:\n{}", m, text))
}

fn alphabet() -> Vec<Op> {
    use Op::*;
    let km = (Kilometers, "km");
    let v = (KilometersPerHour, "v");
    vec![
        Custom(None, "c0", Some(7.5)),
        Custom(Some(LaneCount), "c0", None),
        Custom(Some(Hours), "hh", Some(0.25)),
        Custom(None, "km", Some(1.0)),
        Haversine(Kilometers, "h"),
        Haversine(Meters, "h2"),
        Copy(km, (Meters, "m")),
        Copy(km, (Kilometers, "k2")),
        Copy((Seconds, "s"), (Hours, "hh")),
        Copy((Seconds, "s"), (Minutes, "mi")),
        Copy(v, (F64, "vf")),
        Copy(km, (Seconds, "bad")),
        Copy((F64, "c0"), (Kilometers, "ck")),
        Copy((F64, "nope"), (F64, "np")),
        Convert(km, (Meters, "km")),
        Convert(km, (Meters, "m")),
        Convert((Seconds, "s"), (Hours, "hh")),
        Convert(v, (F64, "v")),
        Convert(km, (Kilometers, "s")),
        Convert((Hours, "hh"), (Seconds, "sec")),
        Convert((Meters, "m"), (Kilometers, "km")),
        Convert((Kilometers, "h"), (Meters, "h")),
        Calc((Hours, "hh"), km, v),
        Calc((Seconds, "sec"), km, v),
        Calc((Minutes, "mi"), km, v),
        Calc((KilometersPerHour, "w"), km, (Hours, "hh")),
        Calc((Hours, "bad"), (Seconds, "s"), v),
        Calc((Meters, "bad"), km, v),
        Calc((Hours, "h3"), (Kilometers, "h"), v),
        Meta("EdgeId", "edge-id"),
        Meta("SrcIdx", "x"),
        Meta("DstLat", "y"),
        Meta("DstLat", "km"),
        Meta("SrcLon", "src-id"),
        Meta("DstIdx", "c0"),
    ]
}

pub fn run(c: &mut Ctx) {
    let es: Vec<E> = vec![
        e(11, -7, &[1.5, 90.0, 60.0]),
        e(-7, 3, &[0.25, 5400.0, 0.125]),
        e(3, -7, &[1e-3, 7.0, 130.0]),
        e(-7, 11, &[777.0, 0.5, 33.0]),
        e(3, 3, &[3.0, 1.0, 50.0]),
    ];
    let ns: Vec<N> = nodes_of(&es);
    // tables of units
    {
        let xs = [0.0, 1.0, 2.5, 60.0, 1e-7, 1e12, 3599.0];
        c.family("conversions", &format!("all pairs of units, values {:?}: same dimension or F64, refused otherwise", xs), 64, |i, l| {
            let (a, b) = (US[(i / 8) as usize], US[(i % 8) as usize]);
            for &x in &xs {
                let w = convert(a, b, x);
                let g = guard(|| a.gen().try_convert(&b.gen(), x).ok())?;
                let p = guard(|| a.par().try_convert(&b.par(), x).ok())?;
                l.step(2);
                l.eval(2);
                l.validated += 1;
                for (name, r) in &[("generating", g), ("parsing", p)] {
                    let ok = match (w, r) {
                        (Some(w), Some(r)) => eq(w, *r),
                        (None, None) => true,
                        _ => false,
                    };
                    if !ok {
                        return Err(format!("{}: {:?} {} in {:?} is {:?} instead of {:?}", name, x, format!("{:?}", a), b, r, w));
                    }
                }
                l.outcome(&(w.map(|w| w.to_bits()), i));
            }
            Ok(())
        });
        c.family("calculations", "all triples of units, 49 pairs of values: time = distance / speed, speed = distance / time, refused otherwise", 512, |i, l| {
            let mut d = Dig(i);
            let (r, a, b) = (US[d.take(8) as usize], US[d.take(8) as usize], US[d.take(8) as usize]);
            for &x in &xs {
                for &y in &xs {
                    let w = calc(r, a, x, b, y);
                    let g = guard(|| r.gen().try_calc(&a.gen(), x, &b.gen(), y).ok())?;
                    l.step(1);
                    l.eval(1);
                    let ok = match (w, g) {
                        (Some(w), Some(g)) => eq(w, g),
                        (None, None) => true,
                        _ => false,
                    };
                    if !ok {
                        return Err(format!("{:?} from {} {:?} and {} {:?} is {:?} instead of {:?}", r, x, a, y, b, g, w));
                    }
                    l.outcome(&(w.is_some(), i));
                }
            }
            Ok(())
        });
    }
    // single steps of every unit, through the config
    {
        c.family("single-steps", "every category with every unit (pair, triple of units) on metrics of that unit", 8 + 8 + 64 + 64 + 512, |i, l| {
            let i = i as usize;
            // the source metrics are customs of the wanted unit
            let ops = if i < 8 {
                vec![Op::Custom(Some(US[i]), "c0", Some(2.5))]
            } else if i < 16 {
                vec![Op::Haversine(US[i - 8], "c0")]
            } else if i < 80 {
                let (a, b) = (US[(i - 16) / 8], US[(i - 16) % 8]);
                vec![Op::Custom(Some(a), "a", Some(90.0)), Op::Copy((a, "a"), (b, "b"))]
            } else if i < 144 {
                let (a, b) = (US[(i - 80) / 8], US[(i - 80) % 8]);
                vec![Op::Custom(Some(a), "a", Some(90.0)), Op::Convert((a, "a"), (b, "b")), Op::Copy((b, "b"), (F64, "f"))]
            } else {
                let j = i - 144;
                let (r, a, b) = (US[j / 64], US[j / 8 % 8], US[j % 8]);
                vec![Op::Custom(Some(a), "a", Some(90.0)), Op::Custom(Some(b), "b", Some(0.125)), Op::Calc((r, "r"), (a, "a"), (b, "b"))]
            };
            judge(&ops, &es, &ns, l)
        });
    }
    // distances
    {
        let lat = [-90.0, -45.0, -0.5, 0.0, 1e-4, 48.7, 90.0];
        let lon = [-180.0, -90.0, -9.1, 0.0, 1e-4, 9.1, 179.9];
        c.family("distances", &format!("all pairs of coordinates out of {:?} x {:?}", lat, lon), 49 * 49, |i, l| {
            let mut d = Dig(i);
            let mut node = |id| N { id, lat: lat[d.take(7) as usize], lon: lon[d.take(7) as usize], level: None };
            let ns = vec![node(5), node(2)];
            let es = vec![e(5, 2, &[1.0]), e(2, 5, &[1.0])];
            let k = cfg_yaml(&cfg_text("x.fmi", &[("F64".into(), "a".into())], false, &gen_text(&[Op::Haversine(Kilometers, "h")])));
            let g = guard(|| build(&k, &es, &ns)).and_then(|x| x)?;
            l.step(1);
            l.eval(2);
            l.validated += 1;
            let w = sphere(&ns[0], &ns[1]);
            for j in 0..2 {
                let v = g.metrics()[EdgeIdx(j)][1];
                if !((v - w).abs() <= 1e-6 + 1e-7 * w) {
                    return Err(format!("the distance of {:?} and {:?} is {} instead of {}", ns[0], ns[1], v, w));
                }
            }
            l.outcome(&w.to_bits());
            Ok(())
        });
    }
    // nodes
    {
        let infos = ["NodeIdx", "NodeId", "CHLevel"];
        let ids = ["a", "b", "node-id", "lat"];
        let na = 12u64;
        let depth = 3;
        c.family("nodes", "all sequences of 0..3 node-infos (NodeIdx may be generated, NodeId and CHLevel not) with new, repeated and existing ids", (0..=depth).map(|d| pow(na, d)).sum(), |i, l| {
            let (mut i, mut len) = (i, 0);
            while i >= pow(na, len) {
                i -= pow(na, len);
                len += 1;
            }
            let mut d = Dig(i);
            let seq: Vec<(usize, usize)> = (0..len).map(|_| { let x = d.take(na) as usize; (x / 4, x % 4) }).collect();
            let mut t = String::from("  generating:\n    edges: []\n    nodes:\n");
            for (f, n) in &seq {
                t += &format!("    - meta: {{ info: {}, id: {} }}\n", infos[*f], ids[*n]);
            }
            if seq.is_empty() {
                t = "  generating:\n    edges: []\n    nodes: []\n".into();
            }
            let mets: Vec<(String, String)> = INIT.iter().map(|(u, i)| (format!("{:?}", u), i.to_string())).collect();
            let text = cfg_text("x.fmi", &mets, false, &t);
            let r = guard(|| try_cfg_yaml(&text)).and_then(|x| x).and_then(|k| guard(|| build(&k, &es, &ns)).and_then(|x| x));
            l.step(1);
            l.eval(1);
            l.validated += 1;
            let mut used: Vec<&str> = vec!["node-id", "lat", "lon"];
            let mut ok = true;
            for (f, n) in &seq {
                if *f != 0 || used.contains(&ids[*n]) {
                    ok = false;
                    break;
                }
                used.push(ids[*n]);
            }
            l.outcome(&(ok, len));
            match (ok, r) {
                (false, Ok(_)) => Err(format!("this is accepted, though it is no proper config:\n{}", text)),
                (false, Err(_)) => Ok(()),
                (true, Err(m)) => Err(format!("{}: a proper config is rejected:\n{}", m, text)),
                (true, Ok(g)) => {
                    let mut got: Vec<&str> = g
                        .cfg()
                        .nodes
                        .categories
                        .iter()
                        .filter_map(|c| match c {
                            osmgraphing::configs::parsing::nodes::Category::Meta { id, .. } | osmgraphing::configs::parsing::nodes::Category::Metric { id, .. } => Some(id.0.as_str()),
                            _ => None,
                        })
                        .collect();
                    got.sort();
                    used.sort();
                    if got != used {
                        return Err(format!("node-columns {:?} instead of {:?}:\n{}", got, used, text));
                    }
                    Ok(())
                }
            }
        });
    }
    // all sequences of steps
    let al = alphabet();
    let na = al.len() as u64;
    let depth = c.pick(3, 4);
    for len in 0..=depth {
        c.family(
            &format!("steps-{}", len),
            &format!("all sequences of {} out of {} generating steps (custom, haversine, copy, convert, calc, meta; proper and improper ones) on 5 edges", len, na),
            pow(na, len),
            |i, l| {
                let mut d = Dig(i);
                let ops: Vec<Op> = (0..len).map(|_| al[d.take(na) as usize].clone()).collect();
                judge(&ops, &es, &ns, l)
            },
        );
    }
}
