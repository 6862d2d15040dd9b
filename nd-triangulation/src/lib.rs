//! Stand-in for the crate `nd-triangulation` (a CGAL binding, which cannot be linked in this
//! sandbox because CGAL is not installed). It offers the same API, restricted to what
//! osmgraphing uses, and enumerates the facets of the convex hull by brute force: every
//! dim-subset of the vertices whose hyperplane has all other vertices on one side.
use std::{cell::RefCell, collections::HashMap, fmt};

#[derive(Debug, PartialEq, Eq)]
#[non_exhaustive]
pub enum TriangulationError {
    WrongDimension { actual_dim: usize, expected_dim: usize },
}

impl fmt::Display for TriangulationError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}

impl std::error::Error for TriangulationError {}

#[derive(Debug)]
pub struct Triangulation {
    dim: usize,
    points: Vec<Vec<f64>>,
    /// duplicates: the vertex that lies on the same coordinates carries the last id (as in CGAL)
    alive: Vec<usize>,
    cell_ids: RefCell<HashMap<Vec<usize>, usize>>,
}

impl Triangulation {
    pub fn new(dim: usize) -> Triangulation {
        Triangulation {
            dim,
            points: Vec::new(),
            alive: Vec::new(),
            cell_ids: RefCell::new(HashMap::new()),
        }
    }

    pub fn add_vertex(&mut self, coords: &[f64]) -> Result<usize, TriangulationError> {
        if coords.len() != self.dim {
            return Err(TriangulationError::WrongDimension {
                actual_dim: coords.len(),
                expected_dim: self.dim,
            });
        }
        let id = self.points.len();
        self.points.push(coords.to_vec());
        let points = &self.points;
        self.alive.retain(|&old| points[old] != points[id]);
        self.alive.push(id);
        Ok(id)
    }

    pub fn convex_hull_cells(&mut self) -> std::vec::IntoIter<Cell> {
        let mut facets: Vec<Vec<usize>> = Vec::new();
        let n = self.alive.len();
        if n <= self.dim {
            // not full-dimensional
            facets.push(self.alive.clone());
        } else {
            let mut pick: Vec<usize> = (0..self.dim).collect();
            loop {
                let ids: Vec<usize> = pick.iter().map(|&i| self.alive[i]).collect();
                if self.is_facet(&ids) {
                    facets.push(ids);
                }
                // next combination
                let mut i = self.dim;
                let mut done = true;
                while i > 0 {
                    i -= 1;
                    if pick[i] < n - (self.dim - i) {
                        pick[i] += 1;
                        for j in i + 1..self.dim {
                            pick[j] = pick[j - 1] + 1;
                        }
                        done = false;
                        break;
                    }
                }
                if done {
                    break;
                }
            }
        }
        let mut ids = self.cell_ids.borrow_mut();
        let cells: Vec<Cell> = facets
            .into_iter()
            .map(|vertices| {
                let next = ids.len() + 1;
                let id = *ids.entry(vertices.clone()).or_insert(next);
                Cell { id, vertices }
            })
            .collect();
        cells.into_iter()
    }

    /// normal of the hyperplane through the points, None if they are affinely dependent
    fn normal(&self, ids: &[usize]) -> Option<Vec<f64>> {
        let d = self.dim;
        // rows: p_i - p_0; find x != 0 with rows * x = 0
        let mut rows: Vec<Vec<f64>> = ids[1..]
            .iter()
            .map(|&i| (0..d).map(|k| self.points[i][k] - self.points[ids[0]][k]).collect())
            .collect();
        let mut pivots: Vec<usize> = Vec::new();
        let mut r = 0;
        for c in 0..d {
            if r == rows.len() {
                break;
            }
            let best = (r..rows.len())
                .max_by(|&a, &b| rows[a][c].abs().partial_cmp(&rows[b][c].abs()).unwrap())
                .unwrap();
            if rows[best][c].abs() < 1e-12 {
                continue;
            }
            rows.swap(r, best);
            let p = rows[r][c];
            for k in 0..d {
                rows[r][k] /= p;
            }
            for o in 0..rows.len() {
                if o != r {
                    let f = rows[o][c];
                    for k in 0..d {
                        rows[o][k] -= f * rows[r][k];
                    }
                }
            }
            pivots.push(c);
            r += 1;
        }
        if r != d - 1 {
            return None;
        }
        let free = (0..d).find(|c| !pivots.contains(c))?;
        let mut x = vec![0.0; d];
        x[free] = 1.0;
        for (row, &c) in pivots.iter().enumerate() {
            x[c] = -rows[row][free];
        }
        Some(x)
    }

    fn is_facet(&self, ids: &[usize]) -> bool {
        if self.dim == 1 {
            let x = self.points[ids[0]][0];
            let lo = self.alive.iter().all(|&i| self.points[i][0] >= x);
            let hi = self.alive.iter().all(|&i| self.points[i][0] <= x);
            return lo || hi;
        }
        let x = match self.normal(ids) {
            Some(x) => x,
            None => return false,
        };
        let scale: f64 = x.iter().map(|v| v.abs()).fold(0.0, f64::max);
        let (mut pos, mut neg) = (false, false);
        for &i in &self.alive {
            let s: f64 = (0..self.dim)
                .map(|k| x[k] * (self.points[i][k] - self.points[ids[0]][k]))
                .sum();
            if s > 1e-9 * scale {
                pos = true
            }
            if s < -1e-9 * scale {
                neg = true
            }
        }
        !(pos && neg)
    }
}

#[derive(Debug, Clone)]
pub struct Cell {
    id: usize,
    vertices: Vec<usize>,
}

impl Cell {
    pub fn id(&self) -> usize {
        self.id
    }

    pub fn vertices(&self) -> std::vec::IntoIter<Vertex> {
        self.vertices
            .iter()
            .map(|&id| Vertex { id })
            .collect::<Vec<_>>()
            .into_iter()
    }
}

#[derive(Debug, Clone, Copy)]
pub struct Vertex {
    id: usize,
}

impl Vertex {
    pub fn id(&self) -> usize {
        self.id
    }
}
