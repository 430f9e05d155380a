//! World: very many variables or very many states (index and level widths).
//! Diagrams stay thin, so closed forms exist: symmetric functions over up to
//! 66000 binary variables, chains of up to thousands of multi-state variables
//! and single variables with up to 66000 states. Points of interest sit around
//! the powers of two where narrower integers would wrap.
use crate::core::*;
use crate::dot::check_dot_pts;
use crate::engines::{bview, mview, vview, zview};
use crate::ensure;
use crate::ops::*;
use crate::space::*;
use bss::prelude::{BddNode, BssMgr, ZddMgr, ZddNode};
use mddcore::mtmdd2::Node as N2;
use mss::prelude::{MddNode, MssMgr};
use std::collections::{BTreeMap, HashMap, HashSet};

type H = MddNode<SimV>;
type P = Vec<u32>;

pub struct TallW {
    n: usize,
    b: BssMgr,
    xs: Vec<BddNode>,
    pts: Vec<P>,
    bpool: Vec<(BddNode, Vec<i64>)>,
    z: ZddMgr,
    zpool: Vec<(ZddNode, Vec<i64>)>,
    dims: Vec<usize>,
    m: MssMgr<SimV>,
    ms: Vec<H>,
    mpts: Vec<P>,
    /// the points are the whole space, in order
    mfull: bool,
    mpool: Vec<(H, Vec<i64>)>,
    cap: usize,
}

const SPECIAL: [usize; 26] = [
    0, 1, 62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 32767, 32768, 65534, 65535,
    65536, 65537,
];

fn special(n: usize, r: &mut Rng) -> usize {
    if r.chance(1, 4) {
        return r.below(n as u64) as usize;
    }
    let c: Vec<usize> = SPECIAL.iter().copied().chain([n - 1, n.saturating_sub(2)]).filter(|&x| x < n).collect();
    *r.pick(&c)
}

fn mkey(h: &H) -> (u8, usize) {
    match h.get_node() {
        N2::Bool(x) => (0, x),
        N2::Value(x) => (1, x),
    }
}

/// Follows one path of the real diagram.
fn walk(view: &dyn Fn(usize) -> R<View>, root: usize, p: &P, suppress: bool) -> R<i64> {
    let (mut id, mut above, mut used) = (root, usize::MAX, 0);
    loop {
        match view(id)? {
            View::Term(v) => {
                if suppress && used != p.iter().filter(|&&x| x != 0).count() {
                    return Ok(0);
                }
                return Ok(v);
            }
            View::Node { var, level, edges } => {
                ensure!(level < above, "diagram is not ordered at node {}", id);
                let x = p[var] as usize;
                ensure!(x < edges.len(), "node {} of v{} has {} edges", id, var, edges.len());
                used += (x != 0) as usize;
                above = level;
                id = edges[x];
            }
        }
    }
}

fn cmp(got: &[i64], want: &[i64], pts: &[P], what: &str) -> R {
    for i in 0..got.len() {
        if got[i] != want[i] {
            let nz: Vec<(usize, u32)> = pts[i].iter().copied().enumerate().filter(|x| x.1 != 0).take(4).collect();
            return Err(format!("{}: at the point with {:?}.. set, got {}, expected {}", what, nz, show(got[i]), show(want[i])));
        }
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Sym {
    All,
    Any,
    Parity,
    One,
    Two,
}

impl Sym {
    fn at(self, ones: usize, m: usize) -> bool {
        match self {
            Sym::All => ones == m,
            Sym::Any => ones >= 1,
            Sym::Parity => ones % 2 == 1,
            Sym::One => ones == 1,
            Sym::Two => ones >= 2,
        }
    }
}

impl TallW {
    pub fn new(cfg: &Cfg) -> Self {
        let mut r = Rng::new(cfg.get("lay"));
        let n = cfg.us("n").clamp(3, 70000);
        let mut b = BssMgr::new();
        let mut z = ZddMgr::new();
        let mut m = MssMgr::new();
        if cfg.on("thr0") {
            b.bdd().set_gc_threshold(cfg.us("thr0"));
            z.set_gc_threshold(cfg.us("thr0"));
            m.set_gc_threshold(cfg.us("thr0"));
        }
        let xs: Vec<BddNode> = (0..n).map(|v| b.defvar(&vname(v))).collect();
        for v in 0..n {
            z.singleton(&vname(v));
        }
        let mut pts: Vec<P> = vec![vec![0; n], vec![1; n]];
        while pts.len() < if n > 5000 { 14 } else { 30 } {
            let flip = r.chance(1, 3) as u32;
            let mut p = vec![flip; n];
            for _ in 0..r.range(1, 3) {
                p[special(n, &mut r)] = 1 - flip;
            }
            if r.chance(1, 6) {
                for x in &mut p {
                    *x = r.below(2) as u32;
                }
            }
            pts.push(p);
        }
        // multi-state: a chain of many variables, or a fan of many states
        let dims: Vec<usize> = if cfg.on("fan") {
            let mut d = vec![cfg.us("fan").clamp(2, 70000)];
            for _ in 0..cfg.us("mn").min(2) {
                d.push(r.range(2, 400.min(1_000_000 / d[0] as u64).max(2)) as usize);
            }
            d
        } else {
            let threes = *r.pick(&[0, 1, 8, 50, 100]);
            (0..cfg.us("mn").clamp(2, 20000)).map(|_| 2 + r.chance(threes, 100) as usize).collect()
        };
        let mut ms: Vec<H> = vec![];
        // values get their node numbers in any order
        let mut first: Vec<i64> = (0..r.below(7) as i64).collect();
        for i in (1..first.len()).rev() {
            first.swap(i, r.below(i as u64 + 1) as usize);
        }
        let _terms: Vec<H> = first.iter().map(|&v| m.value(SimV(v))).collect();
        for (v, &d) in dims.iter().enumerate() {
            ms.push(m.defvar(&vname(v), d));
        }
        let full: usize = dims.iter().fold(1usize, |a, &d| a.saturating_mul(d));
        let mfull = full <= 70000;
        let mut mpts: Vec<P> = vec![];
        if mfull {
            let mut p = vec![0u32; dims.len()];
            for _ in 0..full {
                mpts.push(p.clone());
                for i in 0..dims.len() {
                    p[i] += 1;
                    if (p[i] as usize) < dims[i] {
                        break;
                    }
                    p[i] = 0;
                }
            }
        } else {
            mpts.push(vec![0; dims.len()]);
            mpts.push(dims.iter().map(|&d| d as u32 - 1).collect());
            while mpts.len() < 40 {
                let top = r.chance(1, 2);
                let mut p: P = dims.iter().map(|&d| if top { d as u32 - 1 } else { 0 }).collect();
                for _ in 0..r.range(1, 4) {
                    let v = special(dims.len(), &mut r);
                    p[v] = special(dims[v], &mut r) as u32;
                }
                if r.chance(1, 5) {
                    for (v, x) in p.iter_mut().enumerate() {
                        *x = r.below(dims[v] as u64) as u32;
                    }
                }
                mpts.push(p);
            }
        }
        TallW { n, b, xs, pts, bpool: vec![], z, zpool: vec![], dims, m, ms, mpts, mfull, mpool: vec![], cap: 5 }
    }

    fn deep(&self) -> bool {
        self.n > 5000
    }

    // ---------------------------------------------------------------- binary
    fn btable(&self, h: &BddNode) -> R<Vec<i64>> {
        let m = h.get_mgr();
        let m = m.borrow();
        let view = |id: usize| bview(&m, id, self.n);
        self.pts.iter().map(|p| walk(&view, h.get_id(), p, false)).collect()
    }
    fn ztable(&self, h: &ZddNode) -> R<Vec<i64>> {
        let m = h.get_mgr();
        let m = m.borrow();
        let view = |id: usize| zview(&m, id, self.n);
        self.pts.iter().map(|p| walk(&view, h.get_id(), p, true)).collect()
    }
    fn mtable(&self, h: &H) -> R<Vec<i64>> {
        let m = h.get_mgr();
        let m = m.borrow();
        let (k, root) = mkey(h);
        let n = self.dims.len();
        let view = |id: usize| if k == 0 { mview(m.mdd(), id, n) } else { vview(m.mtmdd(), id, n) };
        if self.mfull && self.mpts.len() > 2000 {
            // thousands of points on few nodes: read the graph once
            let g = Graph::read(&F(&view), &[root], &self.dims)?;
            return Ok(self.mpts.iter().map(|p| geval(&g, root, p)).collect());
        }
        self.mpts.iter().map(|p| walk(&view, root, p, false)).collect()
    }

    fn vars(&self, r: &mut Rng) -> Vec<usize> {
        let n = self.n;
        let mut v: Vec<usize> = match r.below(5) {
            0 | 1 => (0..n).collect(),
            2 => (0..=special(n, r)).collect(),
            3 => (special(n, r)..n).collect(),
            _ => {
                let k = r.range(2, 7) as usize;
                let o = r.below(k as u64) as usize;
                (0..n).filter(|x| x % k == o).collect()
            }
        };
        if v.is_empty() {
            v.push(0);
        }
        v
    }

    fn symmetric(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let mut r = Rng::new(((s.a[0] as u64) << 32) | s.a[1] as u64);
        let vs = self.vars(&mut r);
        let m = vs.len();
        let kind = *r.pick(&[Sym::All, Sym::Any, Sym::Parity, Sym::One, Sym::Two]);
        ctx.op(["tall-series", "tall-parallel", "tall-parity", "tall-exactly-one", "tall-two"][kind as usize]);
        ctx.note(|| format!("{:?} over {} of {} variables", kind, m, self.n));
        let hs: Vec<BddNode> = vs.iter().map(|&v| self.xs[v].clone()).collect();
        let short = (m * m) < 12_000_000;
        let mut what = "symmetric function";
        let h = match (kind, r.below(3)) {
            (Sym::All, 0) if short => self.b.and(&hs),
            (Sym::Any, 0) if short => self.b.or(&hs),
            (Sym::Two, 0) if short => self.b.kofn(2, &hs),
            (Sym::All | Sym::Any | Sym::Parity, 1) => {
                let (e, t) = match kind {
                    Sym::All => ("1", "&"),
                    Sym::Any => ("0", "|"),
                    _ => ("0", "^"),
                };
                let mut e = e.to_string();
                for v in &vs {
                    e.push_str(&format!(" {} {}", vname(v), t));
                }
                what = "expression";
                self.b.rpn(&e).map_err(|m| format!("expression over {} variables refused: {}", vs.len(), m))?
            }
            _ => {
                let (mut none, mut one, mut two) = (self.b.one(), self.b.zero(), self.b.zero());
                let mut acc = if kind == Sym::All { self.b.one() } else { self.b.zero() };
                for x in &hs {
                    match kind {
                        Sym::All => acc = acc.and(x),
                        Sym::Any => acc = x.or(&acc),
                        Sym::Parity => acc = acc.xor(x),
                        Sym::One => {
                            one = x.ite(&none, &one);
                            none = none.and(&x.not());
                        }
                        Sym::Two => {
                            two = two.or(&x.and(&one));
                            one = one.or(x);
                        }
                    }
                }
                match kind {
                    Sym::One => one,
                    Sym::Two => two,
                    _ => acc,
                }
            }
        };
        drop(hs);
        let t: Vec<i64> =
            self.pts.iter().map(|p| kind.at(vs.iter().filter(|&&v| p[v] == 1).count(), m) as i64).collect();
        let nodes = match kind {
            Sym::All | Sym::Any => m,
            Sym::Parity | Sym::One => 2 * m - 1,
            Sym::Two => {
                if m >= 2 {
                    2 * m - 2
                } else {
                    0
                }
            }
        };
        if ctx.on(CANON | ENUM) {
            let got = h.size().0 as usize;
            ensure!(got == nodes, "{:?} over {} variables has {} nodes, {} expected", kind, m, got, nodes);
        }
        let top = vs[m - 1];
        let free = if nodes == 0 { 0 } else { top + 1 - m };
        if ctx.on(ENUM) {
            ctx.check("closed-form");
            let want: Option<u128> = match kind {
                Sym::All if free < 60 => Some(1 << free),
                Sym::One if free < 40 => Some((m as u128) << free),
                Sym::Parity if m + free < 62 => Some(1 << (m + free - 1)),
                Sym::Any if m + free < 62 => Some(((1u128 << m) - 1) << free),
                Sym::Two if m + free < 62 && m >= 2 => Some(((1u128 << m) - 1 - m as u128) << free),
                _ => None,
            };
            if let Some(w) = want {
                let got = h.bdd_count(&[true]) as u128;
                ensure!(got == w, "{:?} over {} variables (top level {}): count {}, exact {}", kind, m, top, got, w);
            }
        }
        if ctx.on(PROB) {
            self.probability(&h, kind, &vs, &mut r, ctx)?;
        }
        if ctx.on(MINSOL) && (m <= 400 || (matches!(kind, Sym::All | Sym::Any | Sym::Parity))) {
            let (p, c) = (self.b.minpath(&h), self.b.mincut(&h));
            ctx.check("closed-form");
            let monotone = !matches!(kind, Sym::Parity | Sym::One) || m == 1;
            ensure!(
                p.is_some() == monotone && c.is_some() == monotone,
                "{:?} over {} variables: minpath {} / mincut {}",
                kind,
                m,
                p.is_some(),
                c.is_some()
            );
            if let (Some(p), Some(c)) = (p, c) {
                let pairs = m * (m - 1) / 2;
                // paths and cuts: number, size
                let (wp, wc) = match kind {
                    Sym::All => ((1, m), (m, 1)),
                    Sym::Any | Sym::Parity | Sym::One => ((m, 1), (1, m)),
                    Sym::Two => ((pairs, 2), (if m >= 2 { m } else { 0 }, m.max(1) - 1)),
                };
                for (f, w, what) in [(&p, wp, "paths"), (&c, wc, "cuts")] {
                    if kind == Sym::Two && m == 1 {
                        continue;
                    }
                    let got = f.count(&[true]);
                    ensure!(got as usize == w.0, "{:?} over {} variables has {} minimal {}, {} expected", kind, m, got, what, w.0);
                    if w.0 * w.1 < 100_000 && w.0 < 6000 && self.n < 5000 {
                        self.listed(f, w.0, w.1, &vs, what)?;
                    }
                }
            }
        }
        self.bkeep(h, t, s.a[4], what, ctx)
    }

    fn listed(&self, f: &ZddNode, count: usize, len: usize, vs: &[usize], what: &str) -> R {
        let names: HashSet<String> = vs.iter().map(vname).collect();
        let mut seen = HashSet::new();
        for mut s in f.extract(&[true]) {
            ensure!(s.len() == len && s.iter().all(|x| names.contains(x)), "a listed member of the {} has {} elements, {} expected", what, s.len(), len);
            s.sort();
            ensure!(s.windows(2).all(|w| w[0] != w[1]), "an element is repeated in a listed set");
            ensure!(seen.insert(s), "a set is listed twice");
        }
        ensure!(seen.len() == count, "{} {} listed, {} expected", seen.len(), what, count);
        Ok(())
    }

    /// Exact dyadic probabilities: certain components except a few.
    fn probability(&mut self, h: &BddNode, kind: Sym, vs: &[usize], r: &mut Rng, ctx: &mut Ctx) -> R {
        let sure = match kind {
            Sym::All => 1.0,
            Sym::Parity => r.below(2) as f64,
            _ => 0.0,
        };
        let mut p = vec![sure; self.n];
        for _ in 0..r.range(1, 6) {
            let v = vs[special(vs.len(), r)];
            p[v] = r.range(1, 7) as f64 / 8.0;
        }
        // distribution of the number of working components: none, one, more, parity
        let exact = |fix: Option<(usize, f64)>| -> f64 {
            let (mut q0, mut q1, mut odd, mut all) = (1.0, 0.0, 0.0, 1.0);
            for &v in vs {
                let x = match fix {
                    Some((w, y)) if w == v => y,
                    _ => p[v],
                };
                q1 = q1 * (1.0 - x) + q0 * x;
                q0 *= 1.0 - x;
                odd = odd * (1.0 - x) + (1.0 - odd) * x;
                all *= x;
            }
            match kind {
                Sym::All => all,
                Sym::Any => 1.0 - q0,
                Sym::Parity => odd,
                Sym::One => q1,
                Sym::Two => 1.0 - q0 - q1,
            }
        };
        let pv: HashMap<String, f64> = (0..self.n).map(|v| (vname(v), p[v])).collect();
        ctx.check("closed-form-probability");
        let (got, want) = (h.prob(&pv, &[true]), exact(None));
        ensure!((got - want).abs() < 1e-9, "{:?} over {} variables: probability {}, exact {}", kind, vs.len(), got, want);
        if !(kind == Sym::Two && vs.len() == 1) {
            let bm = h.bmeas(&pv, &[true]);
            ensure!(vs.iter().all(|v| bm.contains_key(&vname(v))), "an importance is missing");
            for _ in 0..if self.deep() { 3 } else { 8 } {
                let v = vs[special(vs.len(), r)];
                let w = exact(Some((v, 1.0))) - exact(Some((v, 0.0)));
                let g = bm[&vname(v)];
                ensure!((g - w).abs() < 1e-9, "{:?} over {} variables: importance of v{} is {}, exact {}", kind, vs.len(), v, g, w);
            }
        }
        Ok(())
    }

    fn bkeep(&mut self, h: BddNode, want: Vec<i64>, evict: u32, what: &str, ctx: &mut Ctx) -> R {
        let got = self.btable(&h)?;
        ctx.event(hash_i64s(&got) ^ h.get_id() as u64);
        let size = h.size();
        ctx.state(hash_i64s(&got) ^ size.0 << 40);
        ctx.max_live = ctx.max_live.max(self.b.bdd().live_node_count() as u64);
        if ctx.on(FUNC) || (ctx.on(RPN) && what == "expression") {
            ctx.check("result-at-samples");
            cmp(&got, &want, &self.pts, what)?;
        }
        if ctx.on(CANON) {
            ctx.check("canonical");
            let m = h.get_mgr();
            let m = m.borrow();
            let view = |id: usize| bview(&m, id, self.n);
            let g = Graph::read(&F(&view), &[h.get_id()], &vec![2; self.n])?;
            g.canonical(Rule::Merge).map_err(|e| format!("{}: {}", what, e))?;
        }
        if size.0 as usize <= 8 * self.n {
            if self.bpool.len() >= self.cap {
                let i = evict as usize % self.bpool.len();
                self.bstable(i, ctx)?;
                self.bpool.swap_remove(i);
            }
            self.bpool.push((h, got));
        }
        Ok(())
    }

    fn bstable(&self, i: usize, ctx: &mut Ctx) -> R {
        ctx.check("handle-stable");
        cmp(&self.btable(&self.bpool[i].0)?, &self.bpool[i].1, &self.pts, "a kept binary handle changed")
    }

    fn combine(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if self.bpool.is_empty() {
            return self.symmetric(s, ctx);
        }
        let mut r = Rng::new(((s.a[0] as u64) << 32) | s.a[1] as u64);
        let k = self.bpool.len() as u64;
        let get = |w: &Self, r: &mut Rng| -> (BddNode, Vec<i64>) {
            if r.chance(1, 3) {
                let v = special(w.n, r);
                (w.xs[v].clone(), w.pts.iter().map(|p| p[v] as i64).collect())
            } else {
                w.bpool[r.below(k) as usize].clone()
            }
        };
        let (f, g) = (get(self, &mut r), get(self, &mut r));
        let x = {
            let v = special(self.n, &mut r);
            (self.xs[v].clone(), self.pts.iter().map(|p| p[v] as i64).collect::<Vec<i64>>())
        };
        let zip = |u: fn(i64, i64) -> i64| f.1.iter().zip(&g.1).map(|(&a, &b)| u(a, b)).collect::<Vec<i64>>();
        let op = r.below(5);
        ctx.op(["and", "or", "xor", "not", "ite"][op as usize]);
        let (h, t) = match op {
            0 => (f.0.and(&g.0), zip(|a, b| a & b)),
            1 => (f.0.or(&g.0), zip(|a, b| a | b)),
            2 => (f.0.xor(&g.0), zip(|a, b| a ^ b)),
            3 => (f.0.not(), zip(|a, _| 1 - a)),
            _ => (x.0.ite(&f.0, &g.0), (0..self.pts.len()).map(|i| if x.1[i] == 1 { f.1[i] } else { g.1[i] }).collect()),
        };
        if ctx.on(CANON) {
            ctx.check("identity");
            let o = match op {
                0 => f.0.not().or(&g.0.not()).not(),
                1 => f.0.ite(&self.b.one(), &g.0),
                2 => f.0.ite(&g.0.not(), &g.0),
                3 => f.0.ite(&self.b.zero(), &self.b.one()),
                _ => x.0.and(&f.0).or(&x.0.not().and(&g.0)),
            };
            ensure!(o.get_id() == h.get_id(), "a function reached in two ways is two nodes");
        }
        if ctx.on(ENUM) && !self.deep() {
            let dims = vec![2; self.n];
            let g = {
                let m = h.get_mgr();
                let m = m.borrow();
                Graph::read(&F(&|id| bview(&m, id, self.n)), &[h.get_id()], &dims)?
            };
            ctx.check("count");
            for v in [0, 1] {
                if let Some(want) = exact_count(&g, h.get_id(), &dims, &[v]) {
                    let got = h.bdd_count(&[v == 1]);
                    ensure!(got as u128 == want, "{} vectors with value {}, exact {}", got, v, want);
                }
            }
        }
        self.bkeep(h, t, s.a[4], "combination", ctx)
    }

    // -------------------------------------------------------------- families
    fn family(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let mut r = Rng::new(((s.a[0] as u64) << 32) | s.a[1] as u64);
        let vs = self.vars(&mut r);
        let m = vs.len();
        let kind = r.below(5);
        if kind == 4 {
            return self.boxes(&vs, s, &mut r, ctx);
        }
        ctx.op(["tall-one-set", "tall-singletons", "tall-pairs", "tall-from-sets"][kind as usize]);
        let ones = |p: &P, v: &[usize]| (v.iter().filter(|&&x| p[x] == 1).count(), p.iter().filter(|&&x| x == 1).count());
        let at = |want: &dyn Fn(usize) -> bool| -> Vec<i64> {
            self.pts
                .iter()
                .map(|p| {
                    let (a, b) = ones(p, &vs);
                    (a == b && want(a)) as i64
                })
                .collect()
        };
        let (t, count) = match kind {
            0 => (at(&|a| a == m), 1),
            2 => (at(&|a| a == 2), m * (m - 1) / 2),
            _ => (at(&|a| a == 1), m),
        };
        let h = match kind {
            3 => {
                let mut sets: Vec<Vec<String>> = vs.iter().map(|v| vec![vname(v)]).collect();
                // unions of one-element families one by one: quadratic
                if sets.len() > 1500 {
                    sets.truncate(1500);
                }
                let h = self.z.from_sets(&sets);
                if sets.len() < m {
                    let mut h = h;
                    for &v in &vs[sets.len()..] {
                        h = h.union(&self.z.singleton(&vname(v)));
                    }
                    h
                } else {
                    h
                }
            }
            0 => {
                let mut h = self.z.base();
                for &v in &vs {
                    h = h.product(&self.z.singleton(&vname(v)));
                }
                h
            }
            _ => {
                let (mut one, mut two) = (self.z.empty(), self.z.empty());
                for &v in &vs {
                    let x = self.z.singleton(&vname(v));
                    if kind == 2 {
                        two = two.union(&one.product(&x));
                    }
                    one = one.union(&x);
                }
                if kind == 2 {
                    two
                } else {
                    one
                }
            }
        };
        self.zkeep(h, t, Some(count), s.a[4], ctx)
    }

    /// One element (or none, where allowed) out of each group: as many members
    /// as a count can hold.
    fn boxes(&mut self, vs: &[usize], s: &Step, r: &mut Rng, ctx: &mut Ctx) -> R {
        ctx.op("tall-boxes");
        let mut count = 1u64;
        let mut groups: Vec<(&[usize], bool)> = vec![];
        let mut rest = vs;
        loop {
            let k = r.range(1, 6) as usize;
            let none = r.chance(1, 3);
            let Some(c) = count.checked_mul((k + none as usize) as u64) else { break };
            if k > rest.len() || c > 1 << 62 || groups.len() >= 400 {
                break;
            }
            groups.push((&rest[..k], none));
            rest = &rest[k..];
            count = c;
        }
        let mut h = self.z.base();
        for (g, none) in groups.iter().rev() {
            let mut e = if *none { self.z.base() } else { self.z.empty() };
            for &v in g.iter() {
                e = e.union(&self.z.singleton(&vname(v)));
            }
            h = h.product(&e);
        }
        let t = self
            .pts
            .iter()
            .map(|p| {
                let all = p.iter().filter(|&&x| x == 1).count();
                let ks: Vec<usize> = groups.iter().map(|(g, _)| g.iter().filter(|&&v| p[v] == 1).count()).collect();
                (ks.iter().sum::<usize>() == all && groups.iter().zip(&ks).all(|(g, &k)| k == 1 || k == 0 && g.1)) as i64
            })
            .collect();
        if ctx.on(FUNC) && !groups.is_empty() {
            // members, and sets one element away from a member
            ctx.check("result-at-members");
            let m = h.get_mgr();
            let m = m.borrow();
            let view = |id: usize| zview(&m, id, self.n);
            for i in 0..12 {
                let mut p: P = vec![0; self.n];
                for (g, none) in &groups {
                    if !(*none && r.chance(1, 3)) {
                        p[*r.pick(g)] = 1;
                    }
                }
                let mut want = 1;
                if i % 3 == 2 {
                    let (g, none) = groups[special(groups.len(), r)];
                    let v = *r.pick(g);
                    p[v] = 1 - p[v];
                    let k = g.iter().filter(|&&v| p[v] == 1).count();
                    want = (k == 1 || k == 0 && none) as i64;
                }
                let got = walk(&view, h.get_id(), &p, true)?;
                ensure!(got == want, "a family of boxes has {} for a set that gives {}", got, want);
            }
        }
        self.zkeep(h, t, Some(count as usize), s.a[4], ctx)
    }

    fn zcombine(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if self.zpool.is_empty() {
            return self.family(s, ctx);
        }
        let mut r = Rng::new(((s.a[0] as u64) << 32) | s.a[1] as u64);
        let k = self.zpool.len() as u64;
        let f = self.zpool[r.below(k) as usize].clone();
        let g = self.zpool[r.below(k) as usize].clone();
        let zip = |u: fn(i64, i64) -> i64| f.1.iter().zip(&g.1).map(|(&a, &b)| u(a, b)).collect::<Vec<i64>>();
        let op = r.below(4);
        ctx.op(["union", "intersect", "setdiff", "product-divide"][op as usize]);
        let (h, t) = match op {
            0 => (f.0.union(&g.0), zip(|a, b| a | b)),
            1 => (f.0.intersect(&g.0), zip(|a, b| a & b)),
            2 => (f.0.setdiff(&g.0), zip(|a, b| a & (1 - b))),
            _ => {
                let v = special(self.n, &mut r);
                let x = self.z.singleton(&vname(v));
                // the members without v, with v added and removed again
                let with = f.0.divide(&x).product(&x);
                let rest = f.0.setdiff(&with);
                let back = rest.product(&x).divide(&x);
                ensure!(back.get_id() == rest.get_id(), "(F * v{}) / v{} is node {}, F is {}", v, v, back.get_id(), rest.get_id());
                (rest, (0..self.pts.len()).map(|i| if self.pts[i][v] == 1 { 0 } else { f.1[i] }).collect())
            }
        };
        if ctx.on(ENUM) && op < 3 {
            let c = |h: &ZddNode| h.count(&[true]);
            let (a, b, i) = (c(&f.0), c(&g.0), c(&f.0.intersect(&g.0)));
            let w = [a + b - i, i, a - i][op as usize];
            ensure!(c(&h) == w, "family count {}, exact {}", c(&h), w);
        }
        self.zkeep(h, t, None, s.a[4], ctx)
    }

    fn zkeep(&mut self, h: ZddNode, want: Vec<i64>, count: Option<usize>, evict: u32, ctx: &mut Ctx) -> R {
        let got = self.ztable(&h)?;
        ctx.event(hash_i64s(&got) ^ h.get_id() as u64);
        if ctx.on(FUNC) {
            ctx.check("result-at-samples");
            cmp(&got, &want, &self.pts, "family")?;
        }
        if ctx.on(CANON) {
            ctx.check("canonical");
            let m = h.get_mgr();
            let m = m.borrow();
            let view = |id: usize| zview(&m, id, self.n);
            let g = Graph::read(&F(&view), &[h.get_id()], &vec![2; self.n])?;
            g.canonical(Rule::Suppress(0))?;
        }
        if let (true, Some(c)) = (ctx.on(ENUM), count) {
            ctx.check("closed-form");
            let n = h.count(&[true]) as usize;
            ensure!(n == c, "family has {} sets, exact {}", n, c);
            if c < 2000 && c * self.n < 400_000 {
                let k = h.extract(&[true]).count();
                ensure!(k == c, "{} sets listed of {}", k, c);
            }
        }
        if h.size().0 as usize <= 8 * self.n {
            if self.zpool.len() >= self.cap {
                let i = evict as usize % self.zpool.len();
                ctx.check("handle-stable");
                cmp(&self.ztable(&self.zpool[i].0)?, &self.zpool[i].1, &self.pts, "a kept family handle changed")?;
                self.zpool.swap_remove(i);
            }
            self.zpool.push((h, got));
        }
        Ok(())
    }

    // ------------------------------------------------------------ multistate
    fn fan(&self) -> bool {
        self.dims.len() <= 3
    }

    fn mpick(&self, r: &mut Rng) -> (H, Vec<i64>) {
        if self.mpool.is_empty() || r.chance(1, 2) {
            let v = special(self.dims.len(), r);
            (self.ms[v].clone(), self.mpts.iter().map(|p| p[v] as i64).collect())
        } else {
            self.mpool[r.below(self.mpool.len() as u64) as usize].clone()
        }
    }

    /// Chains of many variables.
    fn chain(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if self.fan() {
            return self.fanstep(s, ctx);
        }
        let mut r = Rng::new(((s.a[0] as u64) << 32) | s.a[1] as u64);
        let n = self.dims.len();
        let vs: Vec<usize> = match r.below(4) {
            0 | 1 => (0..n).collect(),
            2 => (0..=special(n, &mut r)).collect(),
            _ => (special(n, &mut r)..n).collect(),
        };
        let m = vs.len();
        if r.chance(1, 4) {
            return self.capped(vs, r, s.a[4], ctx);
        }
        let kind = r.below(5);
        ctx.op(["tall-min", "tall-max", "tall-mdd-series", "tall-mdd-parallel", "tall-mdd-parity"][kind as usize]);
        ctx.note(|| format!("kind {} over {} of {}", kind, m, n));
        let hs: Vec<H> = vs.iter().map(|&v| self.ms[v].clone()).collect();
        let one = self.m.value(SimV(1));
        let mut what = "chain";
        let up = |x: &H| MddNode::ge(x, &one);
        let mut h = if kind < 2 { hs[0].clone() } else { up(&hs[0]) };
        if kind < 2 && m * m < 4_000_000 && r.chance(1, 2) {
            h = if kind == 0 { self.m.min(&hs) } else { self.m.max(&hs) };
        } else if kind < 4 && r.chance(1, 2) {
            what = "expression";
            let vars: HashMap<String, usize> = self.dims.iter().enumerate().map(|(v, &d)| (vname(v), d)).collect();
            let t = ["min", "max", "&&", "||"][kind as usize];
            let mut e = String::new();
            for (i, v) in vs.iter().enumerate() {
                e.push_str(&format!("{} {} {} ", vname(v), if kind < 2 { "" } else { "1 >=" }, if i > 0 { t } else { "" }));
            }
            h = self.m.rpn(&e, &vars).map_err(|x| format!("expression over {} variables refused: {}", m, x))?;
        } else {
            for x in &hs[1..] {
                h = match kind {
                    0 => MddNode::min(&h, x),
                    1 => MddNode::max(&h, x),
                    2 => h.and(&up(x)),
                    3 => h.or(&up(x)),
                    _ => h.xor(&up(x)),
                };
            }
        }
        drop(hs);
        let t: Vec<i64> = self
            .mpts
            .iter()
            .map(|p| {
                let it = vs.iter().map(|&v| p[v] as i64);
                match kind {
                    0 => it.min().unwrap(),
                    1 => it.max().unwrap(),
                    2 => it.map(|x| x.min(1)).min().unwrap(),
                    3 => it.map(|x| x.min(1)).max().unwrap(),
                    _ => it.map(|x| x.min(1)).sum::<i64>() % 2,
                }
            })
            .collect();
        let ds: Vec<usize> = vs.iter().map(|&v| self.dims[v]).collect();
        if ctx.on(MINSOL) && m <= 1200 {
            ctx.check("closed-form");
            let (p, c) = (self.m.minpath(&h), self.m.mincut(&h));
            let monotone = kind < 4 || m == 1;
            ensure!(p.is_some() == monotone && c.is_some() == monotone, "kind {} over {} variables: minpath {}, mincut {}", kind, m, p.is_some(), c.is_some());
            if let (Some(p), Some(c)) = (p, c) {
                let lo = *ds.iter().min().unwrap() as i64 - 1;
                let hi = *ds.iter().max().unwrap() as i64 - 1;
                // label -> number of minimal and maximal vectors with that value
                let mut w: Vec<(i64, u64, u64)> = vec![];
                match kind {
                    0 => {
                        for v in 0..=lo {
                            w.push((v, 1, if v == lo { 1 } else { m as u64 }));
                        }
                    }
                    1 => {
                        for v in 0..=hi {
                            let k = ds.iter().filter(|&&d| d as i64 > v).count() as u64;
                            w.push((v, if v == 0 { 1 } else { k }, 1));
                        }
                    }
                    // minimal vectors with value 1, maximal ones with value 0
                    2 => w = vec![(0, 1, m as u64), (1, 1, 1)],
                    _ => w = vec![(0, 1, 1), (1, m as u64, 1)],
                }
                for (v, np, nc) in w {
                    let ss: HashSet<SimV> = [SimV(v)].into_iter().collect();
                    for (f, k, what) in [(&p, np, "minimal path"), (&c, nc, "minimal cut")] {
                        let got = f.count(&ss);
                        ensure!(got == k, "kind {} over {} variables: {} {} vectors with value {}, exact {}", kind, m, got, what, v, k);
                        if k * n as u64 <= 40_000 {
                            let mut x = 0;
                            for a in f.extract(&ss) {
                                x += 1;
                                ensure!(a.len() == n, "a {} vector mentions {} of {} variables", what, a.len(), n);
                                let val = self.value_of(&a, &vs, kind)?;
                                ensure!(val == v, "a {} vector filed under {} has value {}", what, v, val);
                            }
                            ensure!(x == k, "{} {} vectors listed of {}", x, what, k);
                        }
                    }
                }
            }
        }
        if ctx.on(PROB) {
            // certain components except a few
            let base = if kind == 0 || kind == 2 { usize::MAX } else { 0 };
            let mut p: Vec<Vec<f64>> = self
                .dims
                .iter()
                .map(|&d| (0..d).map(|j| (j == base.min(d - 1)) as u8 as f64).collect())
                .collect();
            let mut open = vec![];
            for _ in 0..r.range(1, 4) {
                let v = vs[special(m, &mut r)];
                if !open.contains(&v) {
                    open.push(v);
                    p[v] = if self.dims[v] == 2 { vec![0.25, 0.75] } else { vec![0.125, 0.5, 0.375] };
                }
            }
            let target = r.below(3) as i64;
            let target = if kind >= 2 { target % 2 } else { target };
            let exact = |fix: Option<(usize, usize)>| -> f64 {
                // enumerate the open variables only
                let fixed = |v: usize| fix.filter(|f| f.0 == v).map(|f| f.1);
                let mut acc: BTreeMap<i64, f64> = BTreeMap::new();
                let mut first = true;
                for &v in &vs {
                    let mut next: BTreeMap<i64, f64> = BTreeMap::new();
                    for j in 0..self.dims[v] {
                        let w = match fixed(v) {
                            Some(k) => (k == j) as u8 as f64,
                            None => p[v][j],
                        };
                        if w == 0.0 {
                            continue;
                        }
                        let x = if kind >= 2 { (j as i64).min(1) } else { j as i64 };
                        if first {
                            *next.entry(x).or_insert(0.0) += w;
                        } else {
                            for (a, q) in &acc {
                                let y = match kind {
                                    0 | 2 => x.min(*a),
                                    1 | 3 => x.max(*a),
                                    _ => x ^ *a,
                                };
                                *next.entry(y).or_insert(0.0) += w * q;
                            }
                        }
                    }
                    acc = next;
                    first = false;
                }
                acc.get(&target).copied().unwrap_or(0.0)
            };
            let pv: HashMap<String, Vec<f64>> = p.iter().enumerate().map(|(v, x)| (vname(v), x.clone())).collect();
            ctx.check("closed-form-probability");
            let (got, want) = (h.prob(&pv, &[SimV(target)]), exact(None));
            ensure!((got - want).abs() < 1e-9, "kind {} over {} variables: P({}) is {}, exact {}", kind, m, target, got, want);
            let bm = h.bmeas(&pv, &[SimV(target)]);
            for _ in 0..4 {
                let v = vs[special(m, &mut r)];
                let Some(g) = bm.get(&vname(v)) else { return Err(format!("the importance of v{} is missing", v)) };
                ensure!(g.len() == self.dims[v] - 1, "the importance of v{} has {} entries", v, g.len());
                for j in 1..self.dims[v] {
                    let w = exact(Some((v, j))) - exact(Some((v, j - 1)));
                    ensure!((g[j - 1] - w).abs() < 1e-9, "importance {} of v{} is {}, exact {}", j, v, g[j - 1], w);
                }
            }
        }
        self.mcount(&h, &mut r, ctx)?;
        self.mkeep(h, t, s.a[4], what, ctx)
    }

    /// The number of components that work, capped: several values, each reached from many levels.
    fn capped(&mut self, mut vs: Vec<usize>, mut r: Rng, evict: u32, ctx: &mut Ctx) -> R {
        vs.truncate(1200);
        let cap = r.range(2, 5) as i64;
        let k = self.m.value(SimV(cap));
        let (zero, one) = (self.m.value(SimV(0)), self.m.value(SimV(1)));
        let mut h = zero.clone();
        ctx.op("tall-capped-sum");
        ctx.note(|| format!("working of {} variables, capped at {}", vs.len(), cap));
        for &v in &vs {
            let up = MddNode::ge(&self.ms[v], &one).ite(&one, &zero);
            h = MddNode::min(&h.add(&up), &k);
        }
        let mut t: Vec<i64> = self.mpts.iter().map(|p| vs.iter().map(|&v| (p[v] as i64).min(1)).sum::<i64>().min(cap)).collect();
        if r.chance(1, 3) {
            let c = r.range(1, cap as u64) as i64;
            let b = self.m.value(SimV(c));
            h = if r.chance(1, 2) {
                t.iter_mut().for_each(|x| *x = (*x >= c) as i64);
                MddNode::ge(&h, &b)
            } else {
                t.iter_mut().for_each(|x| *x = (*x == c) as i64);
                MddNode::eq(&h, &b)
            };
        }
        self.mcount(&h, &mut r, ctx)?;
        self.mkeep(h, t, evict, "capped sum", ctx)
    }

    /// Counts from an own pass over the diagram, levels being variable numbers here.
    fn mcount(&self, h: &H, r: &mut Rng, ctx: &mut Ctx) -> R {
        if !ctx.on(ENUM) {
            return Ok(());
        }
        let n = self.dims.len();
        let (k, root) = mkey(h);
        let g = {
            let m = h.get_mgr();
            let m = m.borrow();
            let view = |id: usize| if k == 0 { mview(m.mdd(), id, n) } else { vview(m.mtmdd(), id, n) };
            Graph::read(&F(&view), &[root], &self.dims)?
        };
        let vals: Vec<i64> = g.nodes.iter().filter(|x| x.var == usize::MAX).map(|x| x.term).collect();
        for _ in 0..vals.len().min(3) + 1 {
            let set: Vec<i64> = vals.iter().copied().filter(|_| r.chance(1, 2)).collect();
            if set.iter().any(|&v| v == U || k == 0 && v != 0 && v != 1) {
                continue;
            }
            ctx.check("count");
            let Some(want) = exact_count(&g, root, &self.dims, &set) else { continue };
            let ss: HashSet<SimV> = set.iter().map(|&v| SimV(v)).collect();
            let got = h.mdd_count(&ss);
            ensure!(got as u128 == want, "{} vectors with a value in {:?}, exact {}", got, set, want);
            if want * n as u128 <= 60_000 && h.get_level().is_some() {
                let top = h.get_level().unwrap();
                let mut seen = HashSet::new();
                for a in h.mdd_extract(&ss) {
                    let mut p: P = vec![0; n];
                    for (v, x) in p.iter_mut().enumerate().take(top + 1) {
                        let Some(&y) = a.get(&vname(v)) else { return Err(format!("a vector does not mention v{}", v)) };
                        ensure!(y < self.dims[v], "state {} of v{} is out of range", y, v);
                        *x = y as u32;
                    }
                    let y = geval(&g, root, &p);
                    ensure!(set.contains(&y), "a vector listed for {:?} has value {}", set, y);
                    ensure!(seen.insert(p), "a vector is listed twice");
                }
                ensure!(seen.len() as u128 == want, "{} vectors listed, {} exist", seen.len(), want);
            }
        }
        Ok(())
    }

    fn value_of(&self, a: &HashMap<String, usize>, vs: &[usize], kind: u64) -> R<i64> {
        let mut xs = vec![];
        for v in vs {
            let Some(&x) = a.get(&vname(v)) else { return Err(format!("a vector does not mention v{}", v)) };
            ensure!(x < self.dims[*v], "state {} of v{} is out of range", x, v);
            xs.push(if kind >= 2 { x.min(1) as i64 } else { x as i64 });
        }
        Ok(match kind {
            0 | 2 => *xs.iter().min().unwrap(),
            1 | 3 => *xs.iter().max().unwrap(),
            _ => xs.iter().sum::<i64>() % 2,
        })
    }

    /// Operations on variables with very many states.
    fn fanstep(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let mut r = Rng::new(((s.a[0] as u64) << 32) | s.a[1] as u64);
        let (f, tf) = self.mpick(&mut r);
        let d0 = self.dims[0];
        let (g, tg) = if r.chance(1, 3) && f.size().2 < 600_000 {
            self.mpick(&mut r)
        } else {
            let c = special(d0, &mut r) as i64;
            (self.m.value(SimV(c)), vec![c; self.mpts.len()])
        };
        if f.size().2.max(1) * g.size().2.max(1) > 2_000_000 {
            return Ok(());
        }
        let zip = |u: &dyn Fn(i64, i64) -> i64| tf.iter().zip(&tg).map(|(&a, &b)| u(a, b)).collect::<Vec<i64>>();
        let (kf, kg) = (mkey(&f).0, mkey(&g).0);
        let (h, t, name): (H, Vec<i64>, &'static str) = match (kf, kg) {
            (1, 1) => match r.below(9) {
                0 => (f.add(&g), zip(&|a, b| a + b), "add"),
                1 => (f.sub(&g), zip(&|a, b| a - b), "sub"),
                2 => (MddNode::min(&f, &g), zip(&|a, b| a.min(b)), "min"),
                3 => (MddNode::max(&f, &g), zip(&|a, b| a.max(b)), "max"),
                4 => (MddNode::ge(&f, &g), zip(&|a, b| (a >= b) as i64), "ge"),
                5 => (MddNode::lt(&f, &g), zip(&|a, b| (a < b) as i64), "lt"),
                6 => (MddNode::eq(&f, &g), zip(&|a, b| (a == b) as i64), "eq"),
                7 => (MddNode::ne(&f, &g), zip(&|a, b| (a != b) as i64), "ne"),
                _ => {
                    let c = special(d0, &mut r) as i64;
                    let b = MddNode::ge(&f, &self.m.value(SimV(c)));
                    (b.ite(&g, &f), zip(&|a, b| if a >= c { b } else { a }), "ite")
                }
            },
            (0, 0) => match r.below(4) {
                0 => (f.and(&g), zip(&|a, b| a & b), "and"),
                1 => (f.or(&g), zip(&|a, b| a | b), "or"),
                2 => (f.xor(&g), zip(&|a, b| a ^ b), "xor"),
                _ => (f.not(), zip(&|a, _| 1 - a), "not"),
            },
            (0, _) => {
                let c = special(d0, &mut r) as i64;
                (f.ite(&g, &self.m.value(SimV(c))), zip(&|a, b| if a == 1 { b } else { c }), "ite")
            }
            _ => return Ok(()),
        };
        if t.iter().any(|x| x.abs() > 1_000_000_000) {
            return Ok(());
        }
        ctx.op(name);
        ctx.note(|| format!("fan {} of {:?} and {:?}", name, mkey(&f), mkey(&g)));
        drop(f);
        drop(g);
        self.mqueries(&h, &t, &mut r, ctx)?;
        self.mkeep(h, t, s.a[4], name, ctx)
    }

    /// Counts, probabilities, minimal vectors against the whole table.
    fn mqueries(&mut self, h: &H, t: &[i64], r: &mut Rng, ctx: &mut Ctx) -> R {
        if !self.mfull {
            return Ok(());
        }
        let above: usize = match h.get_level() {
            None => self.mpts.len(),
            Some(l) => self.dims[l + 1..].iter().product(),
        };
        let mut hist: BTreeMap<i64, u64> = BTreeMap::new();
        for &x in t {
            *hist.entry(x).or_insert(0) += 1;
        }
        let vals: Vec<i64> = hist.keys().copied().collect();
        if ctx.on(ENUM) {
            ctx.check("count");
            for _ in 0..3 {
                let v = vals[special(vals.len(), r)];
                let ss: HashSet<SimV> = [SimV(v)].into_iter().collect();
                let want = hist[&v] / above as u64;
                let got = h.mdd_count(&ss);
                ensure!(got == want, "{} vectors with value {}, exact {}", got, v, want);
                if self.mpts.len() <= 70000 {
                    let mut seen = HashSet::new();
                    for a in h.mdd_extract(&ss) {
                        let (mut at, mut stride) = (0, 1);
                        for (v, &d) in self.dims.iter().enumerate().take(h.get_level().map_or(0, |l| l + 1)) {
                            let Some(&x) = a.get(&vname(v)) else { return Err(format!("a vector does not mention v{}", v)) };
                            ensure!(x < d, "state {} of v{} is out of range", x, v);
                            at += x * stride;
                            stride *= d;
                        }
                        ensure!(t.get(at) == Some(&v), "vector {} is listed for value {}", at, v);
                        ensure!(seen.insert(at), "vector {} is listed twice", at);
                    }
                    ensure!(seen.len() as u64 == want, "{} vectors listed, {} exist", seen.len(), want);
                }
            }
            let all: HashSet<SimV> = vals.iter().map(|&v| SimV(v)).collect();
            let got = h.mdd_count(&all);
            ensure!(got as usize == t.len() / above, "{} vectors in all, exact {}", got, t.len() / above);
        }
        if ctx.on(PROB) {
            ctx.check("probability");
            let p: Vec<Vec<f64>> = self
                .dims
                .iter()
                .map(|&d| {
                    let mut x = vec![0.0; d];
                    for _ in 0..8 {
                        x[special(d, r)] += 0.125;
                    }
                    x
                })
                .collect();
            let v = if r.chance(1, 4) {
                vals[special(vals.len(), r)]
            } else {
                // a value that has positive probability
                let w: Vec<usize> = (0..t.len()).filter(|&i| self.mpts[i].iter().enumerate().all(|(v, &x)| p[v][x as usize] > 0.0)).collect();
                t[*r.pick(&w)]
            };
            let exact = |fix: Option<usize>| -> f64 {
                let mut s = 0.0;
                for (i, q) in self.mpts.iter().enumerate() {
                    if t[i] != v || fix.map_or(false, |j| q[0] as usize != j) {
                        continue;
                    }
                    let mut w = 1.0;
                    for (k, &x) in q.iter().enumerate() {
                        if k > 0 || fix.is_none() {
                            w *= p[k][x as usize];
                        }
                    }
                    s += w;
                }
                s
            };
            let pv: HashMap<String, Vec<f64>> = p.iter().enumerate().map(|(v, x)| (vname(v), x.clone())).collect();
            let mut hh = h.clone();
            let (got, want) = (hh.prob(&pv, &[SimV(v)]), exact(None));
            ensure!((got - want).abs() < 1e-9, "P(value {}) is {}, exact {}", v, got, want);
            let bm = hh.bmeas(&pv, &[SimV(v)]);
            if let Some(g) = bm.get(&vname(0)) {
                let d = self.dims[0];
                ensure!(g.len() == d - 1, "the importance of v0 has {} entries, expected {}", g.len(), d - 1);
                for _ in 0..6 {
                    let j = special(d - 1, r) + 1;
                    let w = exact(Some(j)) - exact(Some(j - 1));
                    ensure!((g[j - 1] - w).abs() < 1e-9, "importance {} of v0 is {}, exact {}", j, g[j - 1], w);
                }
            }
        }
        if ctx.on(MINSOL) && self.dims.len() == 1 && self.dims[0] <= 3000 {
            ctx.check("closed-form");
            let monotone = t.windows(2).all(|w| w[0] <= w[1]);
            let (p, c) = (self.m.minpath(h), self.m.mincut(h));
            ensure!(p.is_some() == monotone && c.is_some() == monotone, "minpath {}, mincut {}, monotone {}", p.is_some(), c.is_some(), monotone);
            if let (Some(p), Some(c)) = (p, c) {
                ensure!(p.labels() == vals.iter().map(|&v| SimV(v)).collect::<Vec<_>>(), "labels of the minimal paths differ from the values");
                for _ in 0..4 {
                    let v = vals[special(vals.len(), r)];
                    let ss: HashSet<SimV> = [SimV(v)].into_iter().collect();
                    let lo = t.iter().position(|&x| x == v).unwrap();
                    let hi = t.iter().rposition(|&x| x == v).unwrap();
                    for (f, x, what) in [(&p, lo, "path"), (&c, hi, "cut")] {
                        let l: Vec<HashMap<String, usize>> = f.extract(&ss).collect();
                        ensure!(
                            l.len() == 1 && l[0].len() == 1 && l[0].get(&vname(0)) == Some(&x) && f.count(&ss) == 1,
                            "minimal {} vectors with value {}: {:?}, exact {}",
                            what,
                            v,
                            l,
                            x
                        );
                    }
                }
            }
        }
        Ok(())
    }

    fn mkeep(&mut self, h: H, want: Vec<i64>, evict: u32, what: &str, ctx: &mut Ctx) -> R {
        let got = self.mtable(&h)?;
        ctx.event(hash_i64s(&got) ^ mkey(&h).1 as u64);
        ctx.state(hash_i64s(&got) ^ mkey(&h).1 as u64);
        ctx.max_live = ctx.max_live.max(self.m.live_node_count() as u64);
        if ctx.on(FUNC) || (ctx.on(RPN) && what == "expression") {
            ctx.check("result-at-samples");
            cmp(&got, &want, &self.mpts, what)?;
        }
        if ctx.on(CANON) {
            ctx.check("canonical");
            let m = h.get_mgr();
            let m = m.borrow();
            let (k, root) = mkey(&h);
            let n = self.dims.len();
            let view = |id: usize| if k == 0 { mview(m.mdd(), id, n) } else { vview(m.mtmdd(), id, n) };
            let g = Graph::read(&F(&view), &[root], &self.dims)?;
            g.canonical(Rule::Merge).map_err(|e| format!("{}: {}", what, e))?;
        }
        let size = h.size();
        if size.0 as usize <= 20 * self.dims.len() + 400 && size.2 < 1_000_000 {
            if self.mpool.len() >= self.cap {
                let i = evict as usize % self.mpool.len();
                self.mstable(i, ctx)?;
                self.mpool.swap_remove(i);
            }
            self.mpool.push((h, got));
        }
        Ok(())
    }

    fn mstable(&self, i: usize, ctx: &mut Ctx) -> R {
        ctx.check("handle-stable");
        cmp(&self.mtable(&self.mpool[i].0)?, &self.mpool[i].1, &self.mpts, "a kept multi-state handle changed")
    }

    fn meta(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let mut r = Rng::new(s.a[0] as u64);
        ctx.op("redeclare");
        for _ in 0..6 {
            let v = special(self.n, &mut r);
            let x = self.b.defvar(&vname(v));
            ctx.check("redeclare");
            ensure!(
                x.get_id() == self.xs[v].get_id() && x.get_level() == Some(v) && x.get_label() == Some(vname(v)),
                "variable v{} is redeclared as another node, level or label",
                v
            );
            let v = special(self.dims.len(), &mut r);
            let x = self.m.defvar(&vname(v), self.dims[v]);
            ensure!(
                mkey(&x) == mkey(&self.ms[v]) && x.get_level() == Some(v) && x.get_label() == Some(vname(v)),
                "multi-state variable v{} is redeclared as another node, level or label",
                v
            );
        }
        if ctx.on(META) {
            let o = self.b.get_varorder();
            ensure!(o.len() == self.n && (0..self.n).all(|v| o[v] == vname(v)), "the variable order is wrong");
            let o = self.m.get_varorder();
            ensure!(
                o.len() == self.dims.len() && (0..o.len()).all(|v| o[v] == (vname(v), self.dims[v])),
                "the multi-state variable order is wrong"
            );
        }
        Ok(())
    }

    fn all(&mut self, ctx: &mut Ctx) -> R {
        for i in 0..self.bpool.len() {
            self.bstable(i, ctx)?;
        }
        for i in 0..self.mpool.len() {
            self.mstable(i, ctx)?;
        }
        for (h, t) in &self.zpool {
            ctx.check("handle-stable");
            cmp(&self.ztable(h)?, t, &self.pts, "a kept family handle changed")?;
        }
        Ok(())
    }
}

struct F<'a>(&'a dyn Fn(usize) -> R<View>);
impl<'a> Forest for F<'a> {
    fn view(&self, id: usize) -> R<View> {
        (self.0)(id)
    }
}

/// The number of assignments of the variables up to the root with a value in `set`;
/// None when it or a summand is too large to be counted in the machine word.
fn exact_count(g: &Graph, root: usize, dims: &[usize], set: &[i64]) -> Option<u128> {
    const BIG: u128 = 1 << 100;
    // children come before their parents
    let mut c: Vec<u128> = Vec::with_capacity(g.nodes.len());
    let below = |n: &GNode| if n.var == usize::MAX { 0 } else { n.level + 1 };
    for n in &g.nodes {
        if n.var == usize::MAX {
            c.push(set.contains(&n.term) as u128);
            continue;
        }
        let mut sum = 0u128;
        for &e in &n.edges {
            let mut x = c[e as usize];
            if x > 0 {
                for d in &dims[below(&g.nodes[e as usize])..n.level] {
                    x = (x * *d as u128).min(BIG);
                }
            }
            sum = (sum + x).min(BIG);
        }
        c.push(sum);
    }
    let x = c[g.index[&root] as usize];
    (x <= 1 << 62).then_some(x)
}

fn geval(g: &Graph, root: usize, p: &P) -> i64 {
    let mut i = g.index[&root] as usize;
    loop {
        let n = &g.nodes[i];
        if n.var == usize::MAX {
            return n.term;
        }
        i = n.edges[p[n.var] as usize] as usize;
    }
}

impl World for TallW {
    fn step(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        match s.op {
            0 => self.symmetric(s, ctx),
            1 => self.combine(s, ctx),
            2 => self.family(s, ctx),
            3 => self.zcombine(s, ctx),
            4 => self.chain(s, ctx),
            5 => self.fanstep_or_combine(s, ctx),
            6 => {
                ctx.fault("explicit-gc");
                self.b.bdd().gc(&[]);
                self.m.gc(&[]);
                self.all(ctx)
            }
            7 => {
                ctx.fault("cache-clear");
                self.b.clear_cache();
                self.m.clear_cache();
                self.z.clear_cache();
                Ok(())
            }
            8 => self.meta(s, ctx),
            10 => self.dots(s, ctx),
            _ => {
                let i = s.a[0] as usize;
                match s.a[1] % 3 {
                    0 if !self.bpool.is_empty() => {
                        self.bpool.swap_remove(i % self.bpool.len());
                    }
                    1 if !self.mpool.is_empty() => {
                        self.mpool.swap_remove(i % self.mpool.len());
                    }
                    _ if !self.zpool.is_empty() => {
                        self.zpool.swap_remove(i % self.zpool.len());
                    }
                    _ => {}
                }
                Ok(())
            }
        }
    }

    fn finish(&mut self, ctx: &mut Ctx) -> R {
        self.all(ctx)
    }
}

impl TallW {
    /// DOT text of a tall or fanned-out diagram, read back as a graph.
    fn dots(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let i = s.a[0] as usize;
        let n = self.n;
        ctx.op("tall-dot");
        match s.a[1] % 3 {
            0 if !self.bpool.is_empty() => {
                let (h, t) = &self.bpool[i % self.bpool.len()];
                let g = {
                    let m = h.get_mgr();
                    let m = m.borrow();
                    Graph::read(&F(&|id| bview(&m, id, n)), &[h.get_id()], &vec![2; n])?
                };
                ctx.check("dot-graph");
                check_dot_pts(&h.dot(), &g, h.get_id(), n, &self.pts, Rule::Merge, t)
            }
            1 if !self.zpool.is_empty() => {
                let (h, t) = &self.zpool[i % self.zpool.len()];
                let g = {
                    let m = h.get_mgr();
                    let m = m.borrow();
                    Graph::read(&F(&|id| zview(&m, id, n)), &[h.get_id()], &vec![2; n])?
                };
                ctx.check("dot-graph");
                check_dot_pts(&h.dot(), &g, h.get_id(), n, &self.pts, Rule::Suppress(0), t)
            }
            2 if !self.mpool.is_empty() => {
                let (h, t) = &self.mpool[i % self.mpool.len()];
                let (k, root) = mkey(h);
                let mn = self.dims.len();
                let g = {
                    let m = h.get_mgr();
                    let m = m.borrow();
                    let view = |id: usize| if k == 0 { mview(m.mdd(), id, mn) } else { vview(m.mtmdd(), id, mn) };
                    Graph::read(&F(&view), &[root], &self.dims)?
                };
                let text = h.dot();
                ctx.check("dot-graph");
                let few: Vec<usize> = (0..t.len()).step_by(t.len() / 300 + 1).collect();
                let pts: Vec<P> = few.iter().map(|&x| self.mpts[x].clone()).collect();
                let want: Vec<i64> = few.iter().map(|&x| t[x]).collect();
                check_dot_pts(&text, &g, root, mn, &pts, Rule::Merge, &want)
            }
            _ => Ok(()),
        }
    }

    fn fanstep_or_combine(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if self.fan() {
            return self.fanstep(s, ctx);
        }
        if self.mpool.is_empty() {
            return self.chain(s, ctx);
        }
        let mut r = Rng::new(((s.a[0] as u64) << 32) | s.a[1] as u64);
        let (f, tf) = self.mpick(&mut r);
        let (g, tg) = self.mpick(&mut r);
        if f.size().0 * g.size().0 > 40_000_000 {
            return Ok(());
        }
        let zip = |u: fn(i64, i64) -> i64| tf.iter().zip(&tg).map(|(&a, &b)| u(a, b)).collect::<Vec<i64>>();
        let op = r.below(3);
        let (h, t) = match (mkey(&f).0, mkey(&g).0) {
            (1, 1) => match op {
                0 => (MddNode::min(&f, &g), zip(|a, b| a.min(b))),
                1 => (MddNode::max(&f, &g), zip(|a, b| a.max(b))),
                _ => (MddNode::ge(&f, &g), zip(|a, b| (a >= b) as i64)),
            },
            (0, 0) => match op {
                0 => (f.and(&g), zip(|a, b| a & b)),
                1 => (f.or(&g), zip(|a, b| a | b)),
                _ => (f.xor(&g), zip(|a, b| a ^ b)),
            },
            (0, _) => (f.ite(&g, &self.m.value(SimV(7))), zip(|a, b| if a == 1 { b } else { 7 })),
            _ => return Ok(()),
        };
        ctx.op("tall-combine");
        drop(f);
        drop(g);
        self.mcount(&h, &mut r, ctx)?;
        self.mkeep(h, t, s.a[4], "combination", ctx)
    }
}

pub fn gen_tall(rng: &mut Rng, cfg: &Cfg) -> Vec<Step> {
    let w = [8, 8, 4, 4, 6, 6, 2, 1, 2, 2, if cfg.on("w_dot") { 8 } else { 0 }];
    let tot: u64 = w.iter().sum();
    (0..cfg.us("steps").max(1))
        .map(|_| {
            let mut x = rng.below(tot);
            let mut op = 0;
            for (i, &k) in w.iter().enumerate() {
                if x < k {
                    op = i as u16;
                    break;
                }
                x -= k;
            }
            Step { op, a: [rng.next() as u32, rng.next() as u32, rng.next() as u32, rng.next() as u32, rng.next() as u32] }
        })
        .collect()
}
