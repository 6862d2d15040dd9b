//! C13: how workloads become the new metric.
use crate::{
    engine::{guard, pow, Ctx, Dig, Local, Verdict},
    model::*,
};
use osmgraphing::{
    configs::balancing::Config,
    defaults::balancing::update_new_metric,
    network::{EdgeIdx, Graph, MetricIdx},
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Method {
    Euler(f64),
    Averaging,
}

#[derive(Clone, Debug)]
struct Opt {
    method: Method,
    min: Option<f64>,
    /// `None`: not in the config
    err: Option<bool>,
    metric: usize,
}

fn config(o: &Opt) -> Config {
    let mut s = String::from("balancing:\n  results-dir: 'r'\n  iter-0-cfg: 'a.yaml'\n  iter-i-cfg: 'b.yaml'\n  number_of_metric-updates: 2\n  multi-ch-constructor:\n    fmi-graph: 'g.fmi'\n    contracted-graph: 'g.ch.fmi'\n    contraction-ratio: '99.8'\n    dimension: 2\n    is_printing_osm-ids: true\n    is_using_external_edge-ids: true\n  monitoring:\n    edges-info:\n      file: 'edges.csv'\n      with_shortcuts: false\n      ids: [{ id: edge-id }]\n");
    s += &format!(
        "  optimizing_with:\n    metric-id: 'm{}'\n    method: {}\n",
        o.metric,
        match o.method {
            Method::Euler(c) => format!("{{ explicit_euler: {{ correction: {:?} }} }}", c),
            Method::Averaging => "averaging".into(),
        }
    );
    if let Some(m) = o.min {
        s += &format!("  min_new_metric: {:?}\n", m);
    }
    if let Some(e) = o.err {
        s += &format!("  throw_err_when_new_metric_is_zero: {}\n", e);
    }
    Config::try_from_str(&s).unwrap_or_else(|e| panic!("harness config: {}\n{}", e, s))
}

#[derive(Clone, Debug, PartialEq)]
struct Net {
    m: Vec<Vec<f64>>,
    means: Option<Vec<f64>>,
}

fn observe(g: &Graph) -> Net {
    let n = g.fwd_edges().count();
    let dim = g.cfg().edges.metrics.units.len();
    Net {
        m: (0..n).map(|i| g.metrics()[EdgeIdx(i)].to_vec()).collect(),
        means: g.metrics().mean(MetricIdx(0)).map(|_| (0..dim).map(|i| g.metrics().mean(MetricIdx(i)).unwrap()).collect()),
    }
}

fn restore(g: &mut Graph, n: &Net) {
    let mut ms = g.metrics_mut();
    for (i, m) in n.m.iter().enumerate() {
        for (k, x) in m.iter().enumerate() {
            ms[EdgeIdx(i)][k] = *x;
        }
    }
    if let (Some(a), Some(b)) = (ms.means(), &n.means) {
        for (x, y) in a.iter_mut().zip(b) {
            *x = *y;
        }
    }
}

enum Want {
    Net(Net),
    Refused,
    /// too close to a threshold to tell
    Open,
}

fn reference(old: &Net, iteration: usize, loads: &[usize], o: &Opt) -> Want {
    let n = loads.len() as f64;
    let mean = loads.iter().map(|&x| x as f64).sum::<f64>() / n;
    if mean == 0.0 {
        return Want::Refused;
    }
    let mut v: Vec<f64> = loads
        .iter()
        .zip(&old.m)
        .map(|(&w, m)| {
            let (w, m) = (w as f64 / mean, m[o.metric]);
            match o.method {
                Method::Euler(c) => (1.0 - c) * m + c * w,
                Method::Averaging => {
                    let k = iteration as f64;
                    m * (k / (k + 1.0)) + w / (k + 1.0)
                }
            }
        })
        .collect();
    match o.min {
        Some(min) => {
            if v.iter().any(|x| (x - min).abs() > 1e-12 && (x - min).abs() < 1e-5) {
                return Want::Open;
            }
            for x in v.iter_mut() {
                if *x < min {
                    *x = min;
                }
            }
        }
        None => {
            if v.iter().any(|x| *x > 1e-12 && *x < 1e-3) {
                return Want::Open;
            }
            if v.iter().any(|x| *x <= 1e-12) && o.err.unwrap_or(true) {
                return Want::Refused;
            }
        }
    }
    let mean = v.iter().sum::<f64>() / n;
    if mean.abs() > 1e-12 && mean.abs() < 1e-3 {
        return Want::Open;
    }
    if mean <= 1e-12 {
        return Want::Refused;
    }
    let mut new = old.clone();
    for (x, m) in v.iter().zip(new.m.iter_mut()) {
        m[o.metric] = x / mean;
    }
    if let Some(means) = new.means.as_mut() {
        means[o.metric] = mean;
    }
    Want::Net(new)
}

fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}

fn same(a: &Net, b: &Net) -> bool {
    a.m.len() == b.m.len()
        && a.m.iter().zip(&b.m).all(|(x, y)| x.iter().zip(y).all(|(p, q)| close(*p, *q)))
        && match (&a.means, &b.means) {
            (None, None) => true,
            (Some(x), Some(y)) => x.iter().zip(y).all(|(p, q)| close(*p, *q)),
            _ => false,
        }
}

/// Does one update and returns whether it has been made.
fn step(g: &mut Graph, iteration: usize, loads: &[usize], o: &Opt, c: &Config, l: &mut Local) -> Result<bool, String> {
    let old = observe(g);
    let r = guard(|| update_new_metric(iteration, &loads.to_vec(), g, c)).and_then(|x| x.map_err(|e| e.to_string()));
    l.step(1);
    l.eval(1);
    l.validated += 1;
    let new = observe(g);
    let text = || format!("iteration {}, workloads {:?}, {:?}, network {:?}", iteration, loads, o, old);
    if let Err(m) = &r {
        if m.starts_with("panic") {
            return Err(format!("{}: {}", m, text()));
        }
        if new != old {
            return Err(format!("refused ({}), but the network has become {:?}: {}", m, new, text()));
        }
    }
    match (reference(&old, iteration, loads, o), r) {
        (Want::Open, r) => Ok(r.is_ok()),
        (Want::Refused, Err(_)) => Ok(false),
        (Want::Refused, Ok(())) => Err(format!("is to be refused, but the network has become {:?}: {}", new, text())),
        (Want::Net(w), Ok(())) => {
            if same(&w, &new) {
                l.outcome(&format!("{:?}", new));
                Ok(true)
            } else {
                Err(format!("the network has become {:?} instead of {:?}: {}", new, w, text()))
            }
        }
        (Want::Net(w), Err(m)) => Err(format!("refused ({}) instead of {:?}: {}", m, w, text())),
    }
}

fn network(old: &[f64], metric: usize, dim: usize, normalize: bool) -> Graph {
    let mets: Vec<(String, String)> = (0..dim).map(|i| ("F64".to_string(), format!("m{}", i))).collect();
    let c = cfg_yaml(&cfg_text("x.fmi", &mets, normalize, ""));
    let mut es: Vec<E> = old
        .iter()
        .enumerate()
        .map(|(i, &x)| {
            let m: Vec<f64> = (0..dim).map(|k| if k == metric { x } else { (1 + i + 3 * k) as f64 }).collect();
            e(i as i64, i as i64 + 1, &m)
        })
        .collect();
    if old.len() >= 3 {
        // the last one is a shortcut
        let last = old.len() - 1;
        es[last].src = 0;
        es[last].dst = 2;
        es[last].sc = Some([0, 1]);
    }
    let nodes = nodes_of(&es);
    build(&c, &es, &nodes).expect("harness network")
}

fn options() -> Vec<Opt> {
    let mut v = vec![];
    for method in [Method::Averaging, Method::Euler(0.0), Method::Euler(0.25), Method::Euler(0.5), Method::Euler(1.0), Method::Euler(1.5), Method::Euler(3.0)] {
        for min in [None, Some(0.0), Some(0.125), Some(1.25)] {
            for err in [None, Some(false), Some(true)] {
                v.push(Opt { method, min, err, metric: 0 });
            }
        }
    }
    v
}

pub fn run(c: &mut Ctx) {
    let opts = options();
    let cfgs: Vec<Vec<Config>> = opts
        .iter()
        .map(|o| {
            (0..3)
                .map(|metric| config(&Opt { metric, ..o.clone() }))
                .collect()
        })
        .collect();

    // one update
    let loads = [0usize, 1, 2, 7, 1000];
    let olds = [0.0, 0.5, 1.0, 4.0];
    let k = c.pick(3, 3);
    let n = pow(5, k) * pow(4, k) * 3 * 2;
    c.family("one-update", "all workloads {0,1,2,7,1000}^3 x all old metrics {0,0.5,1,4}^3 x iterations 0..2 x normalized or not x all 84 methods, minima and treatments of zero", n, |i, l| -> Verdict {
        let mut d = Dig(i);
        let w: Vec<usize> = (0..k).map(|_| loads[d.take(5) as usize]).collect();
        let o: Vec<f64> = (0..k).map(|_| olds[d.take(4) as usize]).collect();
        let iteration = d.take(3) as usize;
        let norm = d.take(2) == 1 && o.iter().sum::<f64>() > 0.0;
        let mut g = network(&o, 0, 1, norm);
        let start = observe(&g);
        for (opt, cfg) in opts.iter().zip(&cfgs) {
            restore(&mut g, &start);
            step(&mut g, iteration, &w, opt, &cfg[0], l)?;
        }
        Ok(())
    });

    let sizes = c.pick(4u32, 5);
    let ws = [0usize, 1, 3];
    let n: u64 = (1..=sizes).map(|k| pow(3, k)).sum::<u64>() * 3 * 3;
    c.family("sizes-and-places", "networks of 1 to 4 (thorough: 5) edges x all workloads {0,1,3}^edges x 1 to 3 metrics x which of them is the new one x all methods", n, |i, l| -> Verdict {
        let mut d = Dig(i);
        let dim = 1 + d.take(3) as usize;
        let metric = d.take(3) as usize;
        if metric >= dim {
            return Ok(());
        }
        let mut rest = d.0;
        let mut k = 1;
        while rest >= pow(3, k) {
            rest -= pow(3, k);
            k += 1;
        }
        let mut d = Dig(rest);
        let w: Vec<usize> = (0..k).map(|_| ws[d.take(3) as usize]).collect();
        let o: Vec<f64> = (0..k).map(|j| 0.5 + j as f64).collect();
        for norm in [false, true] {
            let mut g = network(&o, metric, dim, norm);
            let start = observe(&g);
            for (opt, cfg) in opts.iter().zip(&cfgs) {
                restore(&mut g, &start);
                let opt = Opt { metric, ..opt.clone() };
                step(&mut g, 1, &w, &opt, &cfg[metric], l)?;
            }
        }
        Ok(())
    });

    // histories: the balancer's iterations
    let depth = c.pick(4u32, 5);
    let words: Vec<Vec<usize>> = vec![vec![0, 0, 0], vec![1, 1, 1], vec![2, 0, 1], vec![0, 5, 0], vec![9, 1, 0], vec![1, 2, 3]];
    c.family("iterations", "all sequences of 4 (thorough: 5) updates over 6 workload-vectors, iterations counted from 0, all methods: each step as prescribed, averages are averages of all iterations", pow(6, depth), |i, l| -> Verdict {
        for (opt, cfg) in opts.iter().zip(&cfgs) {
            for norm in [false, true] {
                let mut g = network(&[1.0, 2.0, 3.0], 0, 2, norm);
                let mut d = Dig(i);
                for it in 0..depth as usize {
                    let w = &words[d.take(6) as usize];
                    // a refused update ends the balancing
                    if !step(&mut g, it, w, opt, &cfg[0], l)? {
                        break;
                    }
                }
            }
        }
        Ok(())
    });
}
