//! C19: approximate comparison and linear algebra.
use crate::engine::{guard, pow, Ctx, Dig, Local, Verdict};
use kissunits::geo::Coordinate;
use osmgraphing::{
    approximating::Approx,
    defaults::capacity::DimVec,
    helpers::{self, algebra::Matrix},
};
use std::cmp::Ordering::{self, *};

const TOL: f64 = 0.000_001;

/// `None` between the tolerance and its double
fn want(a: f64, b: f64) -> Option<Ordering> {
    let d = (a - b).abs();
    if a == b || d <= TOL {
        Some(Equal)
    } else if d >= 2.0 * TOL {
        a.partial_cmp(&b)
    } else {
        None
    }
}

fn scalar(a: f64, b: f64, l: &mut Local) -> Verdict {
    let (x, y) = (Approx(a), Approx(b));
    l.step(1);
    l.eval(1);
    let got = guard(|| {
        let mut seen = vec![];
        seen.push((x.partial_cmp(&y), x == y, x != y, x < y, x > y, x <= y, x >= y));
        seen.push((Some(x.cmp(&y)), x == y, x != y, x < y, x > y, x <= y, x >= y));
        let (x, y) = (Approx(&a), Approx(&b));
        seen.push((x.partial_cmp(&y), x == y, x != y, x < y, x > y, x <= y, x >= y));
        let (x, y) = (Approx(Some(a)), Approx(Some(b)));
        seen.push((x.partial_cmp(&y), x == y, x != y, x < y, x > y, x <= y, x >= y));
        // mirrored
        let (y, x) = (Approx(a), Approx(b));
        seen.push((x.partial_cmp(&y).map(|o| o.reverse()), x == y, x != y, x > y, x < y, x >= y, x <= y));
        seen
    })
    .map_err(|p| format!("comparing {:?} and {:?} panics: {}", a, b, p))?;
    let first = got[0];
    if got.iter().any(|g| g != &first) {
        return Err(format!("comparisons of {:?} and {:?} (plain, total, referenced, optional, mirrored) differ: {:?}", a, b, got));
    }
    let o = match first.0 {
        Some(o) => o,
        None => return Err(format!("{:?} and {:?} are not comparable", a, b)),
    };
    let rest = (Some(o), o == Equal, o != Equal, o == Less, o == Greater, o != Greater, o != Less);
    // infinities: only their order is specified
    if a.is_finite() && b.is_finite() && first != rest {
        return Err(format!("comparisons of {:?} and {:?} contradict each other: {:?}", a, b, first));
    }
    if let Some(w) = want(a, b) {
        if w != o {
            return Err(format!("{:?} compared with {:?} is {:?}, expected {:?}", a, b, o, w));
        }
    }
    l.outcome(&(o as i8));
    Ok(())
}

fn dv(v: &[f64]) -> DimVec<f64> {
    DimVec::from_slice(v)
}

fn vector(a: &[f64], b: &[f64], l: &mut Local) -> Verdict {
    l.step(1);
    l.eval(1);
    let cmps: Vec<Ordering> = a.iter().zip(b).map(|(x, y)| Approx(*x).cmp(&Approx(*y))).collect();
    let eq = cmps.iter().all(|c| c == &Equal);
    let le = cmps.iter().all(|c| c != &Greater);
    let ge = cmps.iter().all(|c| c != &Less);
    let lt = cmps.iter().all(|c| c == &Less);
    let gt = cmps.iter().all(|c| c == &Greater);
    let want = (eq, !eq, lt, gt, le, ge);
    let (s, t) = (Approx(a), Approx(b));
    let got = (s == t, s != t, s < t, s > t, s <= t, s >= t);
    if got != want {
        return Err(format!("{:?} and {:?} (slices; eq, ne, lt, gt, le, ge): {:?}, expected {:?}", a, b, got, want));
    }
    let (va, vb) = (dv(a), dv(b));
    let (s, t) = (Approx(&va), Approx(&vb));
    let got = (s == t, s != t, s < t, s > t, s <= t, s >= t);
    if got != want {
        return Err(format!("{:?} and {:?} (vectors; eq, ne, lt, gt, le, ge): {:?}, expected {:?}", a, b, got, want));
    }
    l.outcome(&want);
    Ok(())
}

/// by Laplace's expansion
fn det(m: &[Vec<i64>]) -> i64 {
    if m.is_empty() {
        return 1;
    }
    (0..m.len())
        .map(|c| {
            let minor: Vec<Vec<i64>> = m[1..].iter().map(|r| r.iter().enumerate().filter(|(i, _)| *i != c).map(|(_, v)| *v).collect()).collect();
            m[0][c] * det(&minor) * if c % 2 == 0 { 1 } else { -1 }
        })
        .sum()
}

fn solve(m: &[Vec<i64>], bs: &[Vec<i64>], l: &mut Local) -> Verdict {
    let rows: DimVec<DimVec<f64>> = m.iter().map(|r| r.iter().map(|&v| v as f64).collect()).collect();
    let d = det(m);
    let lu = guard(|| Matrix::from_rows(rows.clone()).lu()).map_err(|p| format!("{:?}: {}", m, p))?;
    for b in bs {
        l.step(1);
        l.eval(1);
        let bf: DimVec<f64> = b.iter().map(|&v| v as f64).collect();
        match guard(|| lu.solve(&bf)).map_err(|p| format!("{:?} x = {:?}: {}", m, b, p))? {
            None if d == 0 => l.outcome(&"singular"),
            None => return Err(format!("{:?} x = {:?} has no solution found, although the determinant is {}", m, b, d)),
            Some(x) => {
                if x.len() != m.len() {
                    return Err(format!("{:?} x = {:?} yields {:?}", m, b, x));
                }
                // nearly singular because of rounding
                if d == 0 {
                    continue;
                }
                for (r, &bv) in m.iter().zip(b) {
                    let s: f64 = r.iter().zip(&x).map(|(&a, x)| a as f64 * x).sum();
                    if !((s - bv as f64).abs() < 1e-9) {
                        return Err(format!("{:?} x = {:?} yields {:?}, which is no solution", m, b, x));
                    }
                }
                l.outcome(&d);
            }
        }
    }
    Ok(())
}

fn all(len: u32, lo: i64, n: u64) -> Vec<Vec<i64>> {
    (0..pow(n, len))
        .map(|i| {
            let mut d = Dig(i);
            (0..len).map(|_| lo + d.take(n) as i64).collect()
        })
        .collect()
}

pub fn run(c: &mut Ctx) {
    let bases = [0.0, 1.0, -1.0, 5.25, 123.456, -0.5, 1e3, -1e6, 1e7, 2e-6, 1e-3, 1.0 / 3.0];
    let k = c.pick(28i64, 60);
    let step = TOL / c.pick(8.0, 16.0);
    let mut values: Vec<f64> = bases.iter().flat_map(|&b| (-k..=k).map(move |i| b + i as f64 * step)).collect();
    values.extend(&[f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, 1e300, -1e300, 1e15, f64::MAX / 4.0, -0.0]);
    let n = values.len() as u64;
    c.family("scalars", "all pairs of values around 12 bases in steps of an eighth (thorough: sixteenth) of the tolerance, and extreme values", n, |i, l| {
        for &b in &values {
            scalar(values[i as usize], b, l)?;
        }
        let a = values[i as usize];
        for (x, y, w) in [(None, None, Equal), (None, Some(a), Less), (Some(a), None, Greater)] {
            l.eval(1);
            if Approx(x).partial_cmp(&Approx(y)) != Some(w) || (Approx(x) == Approx(y)) != (w == Equal) {
                return Err(format!("comparison of {:?} and {:?}", x, y));
            }
        }
        if a.is_finite() && a.abs() < 1e9 {
            let r = Approx(a).approx();
            if !((r - a).abs() <= 0.500_001 * TOL + a.abs() * 1e-15) || !(((r / TOL) - (r / TOL).round()).abs() < 1e-3) {
                return Err(format!("{:?} is rounded to {:?}", a, r));
            }
        }
        Ok(())
    });
    let fine = [0.0, 0.5 * TOL, TOL, 2.5 * TOL, 1.0, 1.0 + TOL / 2.0, -2.0, 1e6];
    let cs: Vec<f64> = fine.to_vec();
    let m = cs.len() as u64;
    let coords = m;
    c.family("coordinates", "all pairs of coordinates over 8 values", pow(coords, 4), |i, l| {
        let mut d = Dig(i);
        let v: Vec<f64> = (0..4).map(|_| cs[d.take(coords) as usize]).collect();
        l.step(1);
        l.eval(1);
        let (p, q) = (Coordinate { lat: v[0], lon: v[1] }, Coordinate { lat: v[2], lon: v[3] });
        let w = Approx(v[0]) == Approx(v[2]) && Approx(v[1]) == Approx(v[3]);
        if (Approx(p) == Approx(q)) != w {
            return Err(format!("coordinates {:?} compared: {}, expected {}", v, !w, w));
        }
        let r = Approx(p).approx();
        if r.lat != Approx(v[0]).approx() || r.lon != Approx(v[1]).approx() {
            return Err(format!("coordinate {:?} is rounded to {:?}", p, r));
        }
        l.outcome(&w);
        Ok(())
    });
    for dim in 1..=4u32 {
        let m = if dim <= 3 { m } else { 5 };
        c.family(&format!("vectors-{}", dim), "all pairs of vectors over 8 (4 dimensions: 5) values", pow(m, 2 * dim), |i, l| {
            let mut d = Dig(i);
            let a: Vec<f64> = (0..dim).map(|_| cs[d.take(m) as usize]).collect();
            let b: Vec<f64> = (0..dim).map(|_| cs[d.take(m) as usize]).collect();
            vector(&a, &b, l)
        });
    }
    let b2 = all(2, -3, 7);
    c.family("systems-2", "all systems of two equations with coefficients -3..3", pow(7, 4), |i, l| {
        let mut d = Dig(i);
        let m: Vec<Vec<i64>> = (0..2).map(|_| (0..2).map(|_| d.take(7) as i64 - 3).collect()).collect();
        solve(&m, &b2, l)
    });
    let b3 = all(3, -1, 3);
    let w = 5u64;
    c.family("systems-3", "all systems of three equations with coefficients -2..2", pow(w, 9), |i, l| {
        let mut d = Dig(i);
        let m: Vec<Vec<i64>> = (0..3).map(|_| (0..3).map(|_| d.take(w) as i64 - (w as i64 - 1) / 2).collect()).collect();
        solve(&m, &b3, l)
    });
    let b4: Vec<Vec<i64>> = all(4, 0, 2);
    c.family("systems-4", "all systems of four equations with coefficients 0, 1", pow(2, 16), |i, l| {
        let m: Vec<Vec<i64>> = (0..4).map(|r| (0..4).map(|k| (i >> (4 * r + k) & 1) as i64).collect()).collect();
        solve(&m, &b4, l)
    });
    c.family("matrices", "all shapes up to 5 x 5", 25, |i, l| {
        let (r, k) = (i as usize / 5 + 1, i as usize % 5 + 1);
        let rows: DimVec<DimVec<f64>> = (0..r).map(|y| (0..k).map(|x| (10 * y + x) as f64).collect()).collect();
        guard(|| {
            let m = Matrix::from_rows(rows.clone());
            for y in 0..r {
                for x in 0..k {
                    if m[(y, x)] != rows[y][x] {
                        return Err(format!("{} x {} matrix: entry ({}, {}) is {}, expected {}", r, k, y, x, m[(y, x)], rows[y][x]));
                    }
                }
            }
            Ok(())
        })
        .unwrap_or_else(|p| Err(format!("{} x {} matrix: {}", r, k, p)))?;
        l.step(1);
        l.eval(1);
        Ok(())
    });
    let len = c.pick(3u32, 4);
    c.family("arithmetic", "all pairs of vectors of up to 3 (thorough: 4) values -2..2", (0..=len).map(|k| pow(25, k)).sum(), |i, l| {
        let (mut i, mut k) = (i, 0);
        while i >= pow(25, k) {
            i -= pow(25, k);
            k += 1;
        }
        let mut d = Dig(i);
        let a: Vec<f64> = (0..k).map(|_| d.take(5) as f64 - 2.0).collect();
        let b: Vec<f64> = (0..k).map(|_| d.take(5) as f64 - 2.0).collect();
        l.step(1);
        l.eval(1);
        let (va, vb) = (dv(&a), dv(&b));
        let sum: Vec<f64> = a.iter().zip(&b).map(|(x, y)| x + y).collect();
        let diff: Vec<f64> = a.iter().zip(&b).map(|(x, y)| x - y).collect();
        let mut acc = va.clone();
        helpers::add_assign(&mut acc, &vb);
        let dot: f64 = a.iter().zip(&b).map(|(x, y)| x * y).sum();
        let le = a.iter().zip(&b).all(|(x, y)| x <= y);
        if helpers::add(&va, &vb).to_vec() != sum || acc.to_vec() != sum || helpers::sub(&va, &vb).to_vec() != diff || helpers::dot_product(&a, &b) != dot || helpers::le(&a, &b) != le {
            return Err(format!(
                "{:?} and {:?}: sum {:?} {:?} difference {:?} product {:?} le {}",
                a,
                b,
                helpers::add(&va, &vb),
                acc,
                helpers::sub(&va, &vb),
                helpers::dot_product(&a, &b),
                helpers::le(&a, &b)
            ));
        }
        l.outcome(&(dot as i64, le));
        Ok(())
    });
}
