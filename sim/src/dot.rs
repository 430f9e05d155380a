//! Reads DOT text back as a graph and compares it with the diagram it shows.
use crate::ensure;
use crate::core::*;
use crate::space::*;
use std::collections::{HashMap, HashSet};
use std::io::{self, Write};

/// Accepts at most `k` bytes per call and reports interruptions in between.
pub struct ShortWriter {
    pub out: Vec<u8>,
    pub rng: Rng,
    pub k: u64,
    pub shorts: u64,
    pub intr: u64,
}
impl Write for ShortWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.rng.chance(1, 4) {
            self.intr += 1;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let n = (self.rng.range(1, self.k.max(1)) as usize).min(b.len());
        if n < b.len() {
            self.shorts += 1;
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Accepts `left` bytes, then fails every call (disk full / broken pipe).
pub struct FailWriter {
    pub left: usize,
    pub zero: bool,
}
impl Write for FailWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.left == 0 {
            if self.zero {
                return Ok(0);
            }
            return Err(io::Error::new(io::ErrorKind::Other, "no space left on device"));
        }
        let n = self.left.min(b.len());
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn quoted(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut it = s.split('"');
    it.next();
    while let (Some(x), _) = (it.next(), it.next()) {
        v.push(x.to_string());
    }
    v
}

/// `g` is the observed diagram, `root` its root id, `default` what omitted edges mean.
pub fn check_dot(text: &str, g: &Graph, root: usize, space: &Space, rule: Rule, want: &[i64]) -> R {
    check_dot_pts(text, g, root, space.dims.len(), &space.points, rule, want)
}

/// The same over any list of points of `nvars` variables.
pub fn check_dot_pts<S: Copy + Into<u32> + PartialEq + std::fmt::Debug>(
    text: &str,
    g: &Graph,
    root: usize,
    nvars: usize,
    points: &[Vec<S>],
    rule: Rule,
    want: &[i64],
) -> R {
    let default = match rule {
        Rule::Merge => U,
        Rule::Suppress(d) => d,
    };
    let mut nodes: HashMap<String, String> = HashMap::new();
    let mut edges: HashMap<(String, usize), String> = HashMap::new();
    let mut has_in: HashSet<String> = HashSet::new();
    let t = text.trim();
    ensure!(t.starts_with("digraph") && t.ends_with('}'), "DOT text is not a complete digraph");
    for line in t.lines().skip(1) {
        let line = line.trim();
        if line == "}" || line.is_empty() {
            continue;
        }
        let q = quoted(line);
        if line.contains("->") {
            ensure!(q.len() >= 3, "unreadable DOT edge {:?}", line);
            let i: usize = q[2].parse().map_err(|_| format!("edge label {:?} in {:?}", q[2], line))?;
            has_in.insert(q[1].clone());
            if edges.insert((q[0].clone(), i), q[1].clone()).is_some() {
                return Err(format!("DOT lists edge {} of {} twice", i, q[0]));
            }
        } else {
            ensure!(q.len() >= 2, "unreadable DOT node {:?}", line);
            if nodes.insert(q[0].clone(), q[1].clone()).is_some() {
                return Err(format!("DOT lists node {} twice", q[0]));
            }
        }
    }
    // expected node and edge counts: the default terminal is drawn only as the root
    let sub = Graph::sub(g, root);
    let ri = sub.index[&root] as usize;
    let omitted = |n: &GNode, i: usize| n.var == usize::MAX && n.term == default && i != ri;
    let want_nodes = sub.nodes.iter().enumerate().filter(|(i, n)| !omitted(n, *i)).count();
    let want_edges: usize = sub
        .nodes
        .iter()
        .map(|n| n.edges.iter().filter(|&&e| !omitted(&sub.nodes[e as usize], e as usize)).count())
        .sum();
    ensure!(nodes.len() == want_nodes, "DOT shows {} nodes, the diagram has {}", nodes.len(), want_nodes);
    ensure!(edges.len() == want_edges, "DOT shows {} edges, the diagram has {}", edges.len(), want_edges);
    for ((a, _), b) in &edges {
        ensure!(nodes.contains_key(a) && nodes.contains_key(b), "DOT edge {} -> {} between unknown nodes", a, b);
    }
    let roots: Vec<&String> = nodes.keys().filter(|n| !has_in.contains(*n)).collect();
    ensure!(roots.len() == 1, "DOT shows {} roots", roots.len());
    for (pi, p) in points.iter().enumerate() {
        let mut cur = roots[0];
        let mut used = 0;
        let v = loop {
            let label = &nodes[cur];
            let var = parse_var(label, nvars).ok();
            match var {
                None => {
                    let t = match label.as_str() {
                        "?" | "*" | "Undet" => U,
                        "F" => 0,
                        "T" => 1,
                        s => s.parse::<i64>().map_err(|_| format!("DOT terminal label {:?}", s))?,
                    };
                    break match rule {
                        Rule::Merge => t,
                        Rule::Suppress(d) => {
                            if used == p.iter().filter(|&&x| x.into() != 0).count() {
                                t
                            } else {
                                d
                            }
                        }
                    };
                }
                Some(v) => {
                    let x = p[v].into() as usize;
                    if x != 0 {
                        used += 1;
                    }
                    match edges.get(&(cur.clone(), x)) {
                        Some(n) => cur = n,
                        None => break default,
                    }
                }
            }
        };
        ensure!(v == want[pi], "DOT graph at {:?}.. gives {}, the node is {}", &p[..p.len().min(40)], show(v), show(want[pi]));
    }
    Ok(())
}
