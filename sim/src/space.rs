//! Reference model: functions and families as plain tables over state vectors,
//! and an observer that reads the real diagram through its public node access.

use crate::core::*;
use std::collections::HashMap;

/// Undetermined.
pub const U: i64 = i64::MIN;
/// Not specified by the property at this point (the model adopts what it sees).
pub const X: i64 = i64::MIN + 1;
/// false (true) or undetermined
pub const K0: i64 = i64::MIN + 2;
pub const K1: i64 = i64::MIN + 3;
pub fn vague(v: i64) -> bool {
    v == X || v == K0 || v == K1
}

pub struct Space {
    pub dims: Vec<usize>,
    pub strides: Vec<usize>,
    pub points: Vec<Vec<u8>>,
    pub full: bool,
}

impl Space {
    pub fn full(dims: Vec<usize>) -> Self {
        let mut strides = vec![0; dims.len()];
        let mut n = 1;
        for (i, d) in dims.iter().enumerate() {
            strides[i] = n;
            n *= d;
        }
        let mut points = Vec::with_capacity(n);
        let mut p = vec![0u8; dims.len()];
        for _ in 0..n {
            points.push(p.clone());
            for i in 0..dims.len() {
                p[i] += 1;
                if (p[i] as usize) < dims[i] {
                    break;
                }
                p[i] = 0;
            }
        }
        Space { dims, strides, points, full: true }
    }

    /// Structured and random sample points of a space too large to tabulate.
    pub fn sampled(dims: Vec<usize>, n: usize, rng: &mut Rng) -> Self {
        let k = dims.len();
        let mut points = vec![
            vec![0u8; k],
            dims.iter().map(|&d| (d - 1) as u8).collect::<Vec<u8>>(),
        ];
        while points.len() < n {
            let bias = rng.range(1, 9);
            let p = (0..k)
                .map(|i| {
                    if rng.chance(bias, 10) {
                        rng.below(dims[i] as u64) as u8
                    } else if rng.chance(1, 2) {
                        0
                    } else {
                        (dims[i] - 1) as u8
                    }
                })
                .collect();
            points.push(p);
        }
        Space { strides: vec![0; k], dims, points, full: false }
    }

    pub fn len(&self) -> usize {
        self.points.len()
    }

    pub fn constant(&self, v: i64) -> Vec<i64> {
        vec![v; self.len()]
    }

    pub fn var(&self, v: usize) -> Vec<i64> {
        self.points.iter().map(|p| p[v] as i64).collect()
    }

    pub fn index(&self, p: &[u8]) -> usize {
        debug_assert!(self.full);
        p.iter().zip(&self.strides).map(|(&x, &s)| x as usize * s).sum()
    }
}

/// What a node looks like through the public API.
pub enum View {
    Term(i64),
    Node { var: usize, level: usize, edges: Vec<usize> },
}

pub trait Forest {
    fn view(&self, id: usize) -> R<View>;
}

pub struct GNode {
    pub id: usize,
    pub term: i64,
    pub var: usize, // usize::MAX for terminals
    pub level: usize,
    pub edges: Vec<u32>,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Rule {
    /// a node with all edges equal is elided
    Merge,
    /// a node whose non-zero edges all lead to this terminal is elided
    Suppress(i64),
}

#[derive(Default)]
pub struct Graph {
    pub nodes: Vec<GNode>,
    pub index: HashMap<usize, u32>,
}

impl Graph {
    /// Reads everything reachable from `roots`; fails if the diagram is malformed
    /// (dangling ids, levels that do not strictly descend, wrong edge counts).
    pub fn read<F: Forest + ?Sized>(f: &F, roots: &[usize], dims: &[usize]) -> R<Graph> {
        let mut g = Graph::default();
        for &r in roots {
            g.visit(f, r, dims, usize::MAX)?;
        }
        Ok(g)
    }

    fn visit<F: Forest + ?Sized>(&mut self, f: &F, id: usize, dims: &[usize], above: usize) -> R<u32> {
        if let Some(&i) = self.index.get(&id) {
            let n = &self.nodes[i as usize];
            if n.var != usize::MAX && n.level >= above {
                return Err(format!("diagram is not ordered: node {} at level {} below level {}", id, n.level, above));
            }
            return Ok(i);
        }
        match f.view(id)? {
            View::Term(v) => {
                let i = self.nodes.len() as u32;
                self.nodes.push(GNode { id, term: v, var: usize::MAX, level: 0, edges: vec![] });
                self.index.insert(id, i);
                Ok(i)
            }
            View::Node { var, level, edges } => {
                if level >= above {
                    return Err(format!("diagram is not ordered: node {} at level {} below level {}", id, level, above));
                }
                if edges.len() != dims[var] {
                    return Err(format!("node {} of v{} has {} edges, expected {}", id, var, edges.len(), dims[var]));
                }
                let mut es = Vec::with_capacity(edges.len());
                for e in edges {
                    es.push(self.visit(f, e, dims, level)?);
                }
                let i = self.nodes.len() as u32;
                self.nodes.push(GNode { id, term: 0, var, level, edges: es });
                self.index.insert(id, i);
                Ok(i)
            }
        }
    }

    pub fn terminals(&self) -> usize {
        self.nodes.iter().filter(|n| n.var == usize::MAX).count()
    }

    pub fn eval(&self, root: usize, space: &Space, rule: Rule) -> Vec<i64> {
        let r = self.index[&root] as usize;
        space.points.iter().map(|p| self.eval_point(r, p, rule)).collect()
    }

    fn eval_point(&self, mut i: usize, p: &[u8], rule: Rule) -> i64 {
        let mut used = 0;
        loop {
            let n = &self.nodes[i];
            if n.var == usize::MAX {
                return match rule {
                    Rule::Merge => n.term,
                    Rule::Suppress(d) => {
                        if used == p.iter().filter(|&&x| x != 0).count() {
                            n.term
                        } else {
                            d
                        }
                    }
                };
            }
            let x = p[n.var];
            if x != 0 {
                used += 1;
            }
            i = n.edges[x as usize] as usize;
        }
    }

    /// Reduced by `rule` and free of duplicates.
    pub fn canonical(&self, rule: Rule) -> R {
        let mut seen: HashMap<(usize, &[u32]), usize> = HashMap::new();
        let mut terms: HashMap<i64, usize> = HashMap::new();
        for n in &self.nodes {
            if n.var == usize::MAX {
                if let Some(o) = terms.insert(n.term, n.id) {
                    return Err(format!("two terminals {} and {} with the same value {}", o, n.id, show(n.term)));
                }
                continue;
            }
            let redundant = match rule {
                Rule::Merge => n.edges.iter().all(|&e| e == n.edges[0]),
                Rule::Suppress(d) => n.edges[1..].iter().all(|&e| {
                    let c = &self.nodes[e as usize];
                    c.var == usize::MAX && c.term == d
                }),
            };
            if redundant {
                return Err(format!("node {} of v{} is redundant (not reduced)", n.id, n.var));
            }
            if let Some(o) = seen.insert((n.var, &n.edges), n.id) {
                return Err(format!("nodes {} and {} of v{} are duplicates", o, n.id, n.var));
            }
        }
        Ok(())
    }

    /// The part reachable from `root`.
    pub fn sub(&self, root: usize) -> Graph {
        fn go(g: &Graph, i: u32, r: &mut Graph) -> u32 {
            let n = &g.nodes[i as usize];
            if let Some(&j) = r.index.get(&n.id) {
                return j;
            }
            let edges: Vec<u32> = n.edges.iter().map(|&e| go(g, e, r)).collect();
            let j = r.nodes.len() as u32;
            r.nodes.push(GNode { id: n.id, term: n.term, var: n.var, level: n.level, edges });
            r.index.insert(n.id, j);
            j
        }
        let mut r = Graph::default();
        go(self, self.index[&root], &mut r);
        r
    }

    pub fn nonterminals(&self) -> usize {
        self.nodes.len() - self.terminals()
    }
}

pub fn show(v: i64) -> String {
    match v {
        U => "undet".into(),
        X => "unspecified".into(),
        K0 => "0 or undet".into(),
        K1 => "1 or undet".into(),
        v => v.to_string(),
    }
}

/// Compares an observed table with a specified one; unspecified points match.
pub fn compare(space: &Space, got: &[i64], want: &[i64]) -> Result<(), String> {
    for i in 0..got.len() {
        let fits = match want[i] {
            X => true,
            K0 => got[i] == 0 || got[i] == U,
            K1 => got[i] == 1 || got[i] == U,
            w => got[i] == w,
        };
        if !fits {
            return Err(format!(
                "at {:?}: got {}, expected {}",
                space.points[i],
                show(got[i]),
                show(want[i])
            ));
        }
    }
    Ok(())
}

/// Ways to name variable number n; names may look like other tokens.
const NAMES: [(&str, &str); 10] = [
    ("v", ""),
    ("v", ")"),
    ("load(v", ""),
    ("save(v", ""),
    ("σ", "'"),
    ("x[", "]"),
    ("and_", "_or"),
    ("1v", ""),
    ("True", ""),
    ("&v", "?"),
];
thread_local! {
    static NAMING: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
pub fn set_naming(k: u64) {
    NAMING.with(|n| n.set(k as usize % NAMES.len()));
}
pub fn vname(v: impl std::borrow::Borrow<usize>) -> String {
    let v = v.borrow();
    let (a, b) = NAMES[NAMING.with(|n| n.get())];
    format!("{}{}{}", a, v, b)
}
pub fn unname(label: &str) -> Option<usize> {
    let (a, b) = NAMES[NAMING.with(|n| n.get())];
    label.strip_prefix(a)?.strip_suffix(b)?.parse().ok()
}

pub fn parse_var(label: &str, n: usize) -> R<usize> {
    match unname(label) {
        Some(v) if v < n => Ok(v),
        _ => Err(format!("node carries unknown label {:?}", label)),
    }
}
