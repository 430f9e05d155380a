//! World: large structures with known closed forms and algebraic identities.
//! One binary manager, one multi-state manager and one family manager live
//! through the whole run; results are checked at sampled state vectors and by
//! exact counts, probabilities, sizes and enumeration.
use crate::core::*;
use crate::dot::check_dot;
use crate::engines::{bview, mview, vview, zview};
use crate::ensure;
use crate::ops::*;
use crate::space::*;
use bss::prelude::{BddNode, BssMgr, ZddMgr, ZddNode};
use mddcore::mtmdd2::Node as N2;
use mss::prelude::{MddNode, MssMgr};
use std::collections::{BTreeMap, HashMap, HashSet};

struct BF<'a>(&'a bddcore::prelude::BddManager, usize);
impl<'a> Forest for BF<'a> {
    fn view(&self, id: usize) -> R<View> {
        bview(self.0, id, self.1)
    }
}
struct ZF<'a>(&'a bddcore::prelude::ZddManager, usize);
impl<'a> Forest for ZF<'a> {
    fn view(&self, id: usize) -> R<View> {
        zview(self.0, id, self.1)
    }
}
struct MF<'a>(&'a mddcore::mtmdd2::MtMdd2Manager<SimV>, u8, usize);
impl<'a> Forest for MF<'a> {
    fn view(&self, id: usize) -> R<View> {
        if self.1 == 0 {
            mview(self.0.mdd(), id, self.2)
        } else {
            vview(self.0.mtmdd(), id, self.2)
        }
    }
}

type H = MddNode<SimV>;

pub struct LargeW {
    b: BssMgr,
    bn: usize,
    bsp: Space,
    /// level -> variable
    border: Vec<usize>,
    bpool: Vec<(BddNode, Vec<i64>)>,
    m: MssMgr<SimV>,
    msp: Space,
    morder: Vec<usize>,
    mpool: Vec<(H, Vec<i64>)>,
    z: ZddMgr,
    zn: usize,
    zdims: Vec<usize>,
    zpool: Vec<(ZddNode, Vec<i64>)>,
    zsp: Space,
    cap: usize,
    limit: usize,
    nodecap: usize,
    /// the collector's floor and the largest reachable set seen
    floor: usize,
    rmax: usize,
    live: usize,
}

fn binom(n: u64, k: u64) -> u128 {
    if k > n {
        return 0;
    }
    let mut r = 1u128;
    for i in 0..k.min(n - k) {
        r = r * (n - i) as u128 / (i + 1) as u128;
    }
    r
}

fn shuffle<T>(v: &mut [T], r: &mut Rng) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i as u64 + 1) as usize);
    }
}

fn mkey(h: &H) -> (u8, usize) {
    match h.get_node() {
        N2::Bool(x) => (0, x),
        N2::Value(x) => (1, x),
    }
}

impl LargeW {
    pub fn new(cfg: &Cfg, _seed: u64) -> Self {
        let mut r = Rng::new(cfg.get("lay"));
        let bn = cfg.us("bn").clamp(4, 60);
        let mn = cfg.us("mn").clamp(2, 24);
        let zn = cfg.us("zn").clamp(4, 40);
        let md = cfg.get("md").clamp(2, 60);
        let dims: Vec<usize> = (0..mn).map(|_| r.range(2, md) as usize).collect();
        let bsp = Space::sampled(vec![2; bn], 40, &mut r);
        let msp = Space::sampled(dims.clone(), 40, &mut r);
        let zsp = Space::sampled(vec![2; zn], 40, &mut r);
        let mut border: Vec<usize> = (0..bn).collect();
        shuffle(&mut border, &mut r);
        let mut morder: Vec<usize> = (0..mn).collect();
        shuffle(&mut morder, &mut r);
        let mut b = BssMgr::new();
        let mut m = MssMgr::new();
        for &v in &border {
            b.defvar(&vname(v));
        }
        for &v in &morder {
            m.defvar(&vname(v), dims[v]);
        }
        let mut floor = 1 << 16;
        if cfg.on("thr0") {
            floor = cfg.us("thr0");
            b.bdd().set_gc_threshold(floor);
            m.set_gc_threshold(floor);
        }
        let z = ZddMgr::new();
        if cfg.on("thr0") {
            z.set_gc_threshold(floor);
        }
        LargeW {
            b,
            bn,
            bsp,
            border,
            bpool: vec![],
            m,
            msp,
            morder,
            mpool: vec![],
            z,
            zn,
            zdims: vec![2; zn],
            zpool: vec![],
            zsp,
            cap: cfg.us("cap").max(3),
            limit: 4000,
            nodecap: 6000,
            floor,
            rmax: 0,
            live: 0,
        }
    }

    // ------------------------------------------------------------ observing
    fn bgraph(&self, h: &BddNode) -> R<Graph> {
        let m = h.get_mgr();
        let m = m.borrow();
        Graph::read(&BF(&m, self.bn), &[h.get_id()], &self.bsp.dims)
    }
    fn zgraph(&self, h: &ZddNode) -> R<Graph> {
        let m = h.get_mgr();
        let m = m.borrow();
        Graph::read(&ZF(&m, self.zn), &[h.get_id()], &self.zdims)
    }
    fn mgraph(&self, h: &H) -> R<Graph> {
        let m = h.get_mgr();
        let m = m.borrow();
        let (k, id) = mkey(h);
        Graph::read(&MF(&m, k, self.msp.dims.len()), &[id], &self.msp.dims)
    }
    fn mtable(&self, h: &H) -> R<Vec<i64>> {
        Ok(self.mgraph(h)?.eval(mkey(h).1, &self.msp, Rule::Merge))
    }

    fn memory(&mut self, extra: &[usize], ctx: &mut Ctx) -> R {
        let live = self.b.bdd().live_node_count();
        if live < self.live {
            ctx.fault("auto-gc");
        }
        self.live = live;
        ctx.max_live = ctx.max_live.max(live as u64);
        if !ctx.on(GC) {
            return Ok(());
        }
        let Some(m) = self.bpool.first().map(|p| p.0.get_mgr()) else { return Ok(()) };
        let m = m.borrow();
        let mut roots: Vec<usize> = self.bpool.iter().map(|p| p.0.get_id()).collect();
        roots.extend_from_slice(extra);
        let g = Graph::read(&BF(&m, self.bn), &roots, &self.bsp.dims)?;
        self.rmax = self.rmax.max(g.nodes.len() + self.bn + 3);
        let bound = self.floor.max(2 * self.rmax);
        ensure!(live <= bound, "{} live nodes exceed the bound {}", live, bound);
        Ok(())
    }

    /// Checks a binary result at the samples, its shape, and its counts.
    fn bresult(&mut self, h: BddNode, want: Vec<i64>, evict: u32, what: &str, ctx: &mut Ctx) -> R {
        let g = self.bgraph(&h).map_err(|e| format!("{}: {}", what, e))?;
        let got = g.eval(h.get_id(), &self.bsp, Rule::Merge);
        ctx.event(hash_i64s(&got) ^ g.nodes.len() as u64);
        ctx.state(hash_i64s(&got) ^ ((g.nodes.len() as u64) << 32));
        if ctx.on(FUNC) || (ctx.on(RPN) && what == "expression") {
            ctx.check("result-at-samples");
            compare(&self.bsp, &got, &want).map_err(|e| format!("{} {}", what, e))?;
        }
        if ctx.on(CANON) {
            ctx.check("canonical");
            g.canonical(Rule::Merge).map_err(|e| format!("{}: {}", what, e))?;
        }
        if ctx.on(ENUM) {
            let s = h.size();
            ctx.check("size");
            let e: usize = g.nodes.iter().map(|n| n.edges.len()).sum();
            ensure!(
                s.0 as usize == g.nonterminals() && s.1 as usize == g.terminals() && s.2 as usize == e,
                "{}: size is {:?}, the diagram has {} nodes, {} terminals, {} edges",
                what,
                s,
                g.nonterminals(),
                g.terminals(),
                e
            );
            let c = self.exact(&g, h.get_id());
            let (one, zero) = (h.bdd_count(&[true]) as u128, h.bdd_count(&[false]) as u128);
            ctx.check("count");
            ensure!(one == c.1 && zero == c.0, "{}: counts are {} and {}, exact values {} and {}", what, one, zero, c.1, c.0);
        }
        if ctx.on(PROB) {
            let pv: HashMap<String, f64> = (0..self.bn).map(|v| (vname(v), 0.5)).collect();
            let p = h.prob(&pv, &[true]);
            let c = self.exact(&g, h.get_id());
            let want = c.1 as f64 / (c.0 + c.1) as f64;
            ctx.check("probability");
            ensure!((p - want).abs() < 1e-9, "{}: probability {} should be {}", what, p, want);
        }
        self.memory(&[h.get_id()], ctx)?;
        if g.nodes.len() <= self.limit {
            if self.bpool.len() >= self.cap {
                let i = evict as usize % self.bpool.len();
                let (h, t) = &self.bpool[i];
                let now = self.bgraph(h)?.eval(h.get_id(), &self.bsp, Rule::Merge);
                ctx.check("handle-stable");
                ensure!(now == *t, "handle to node {} changed its meaning", h.get_id());
                self.bpool.swap_remove(i);
            }
            self.bpool.push((h, want));
        }
        Ok(())
    }

    /// Assignments of the variables up to the top one, by outcome, from the
    /// observed graph (an independent count).
    fn exact(&self, g: &Graph, root: usize) -> (u128, u128) {
        let mut c: Vec<(u128, u128)> = Vec::with_capacity(g.nodes.len());
        // children precede parents in a Graph
        for n in &g.nodes {
            if n.var == usize::MAX {
                c.push(if n.term == 1 { (0, 1) } else { (1, 0) });
                continue;
            }
            let mut s = (0, 0);
            for &e in &n.edges {
                let m = &g.nodes[e as usize];
                let gap = if m.var == usize::MAX { n.level } else { n.level - m.level - 1 };
                let x = c[e as usize];
                s = (s.0 + (x.0 << gap), s.1 + (x.1 << gap));
            }
            c.push(s);
        }
        c[g.index[&root] as usize]
    }

    fn bvar(&mut self, v: usize) -> (BddNode, Vec<i64>) {
        (self.b.defvar(&vname(v)), self.bsp.var(v))
    }

    fn subset(&self, r: &mut Rng, lo: usize, hi: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..self.bn).collect();
        shuffle(&mut v, r);
        v.truncate(r.range(lo.min(self.bn) as u64, hi.min(self.bn) as u64) as usize);
        v
    }

    fn level(&self, v: usize) -> usize {
        self.border.iter().position(|&x| x == v).unwrap()
    }

    /// Free variables below the top one that are not in the set.
    fn free(&self, vs: &[usize]) -> usize {
        let top = vs.iter().map(|&v| self.level(v)).max().unwrap();
        top + 1 - vs.len()
    }

    fn kofn(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let mut r = Rng::new(((s.a[0] as u64) << 32) | s.a[1] as u64);
        let mut vs = self.subset(&mut r, 3, 60);
        let n = vs.len();
        // in variable order, reversed, or shuffled
        match r.below(3) {
            0 => vs.sort_by_key(|&v| self.level(v)),
            1 => vs.sort_by_key(|&v| usize::MAX - self.level(v)),
            _ => {
                vs.truncate(24);
            }
        }
        let n = n.min(vs.len());
        let k = match r.below(5) {
            0 => 1,
            1 => n,
            _ => r.range(1, n as u64) as usize,
        };
        let hs: Vec<BddNode> = vs.iter().map(|&v| self.bvar(v).0).collect();
        ctx.op("large-kofn");
        ctx.note(|| format!("kofn {} of {}", k, n));
        let h = self.b.kofn(k, &hs);
        if ctx.on(ENUM) {
            ctx.check("closed-form");
            let want: u128 = (k..=n).map(|i| binom(n as u64, i as u64)).sum::<u128>() << self.free(&vs);
            let got = h.bdd_count(&[true]) as u128;
            ensure!(got == want, "{}-of-{} has {} satisfying assignments, exact value {}", k, n, got, want);
            let sz = h.size();
            ensure!(sz.0 == (k * (n + 1 - k)) as u64, "{}-of-{} has {} nodes, {} expected", k, n, sz.0, k * (n + 1 - k));
            let d = h.dual();
            ensure!(
                d.get_id() == self.b.kofn(n + 1 - k, &hs).get_id(),
                "the dual of {}-of-{} is not {}-of-{}",
                k,
                n,
                n + 1 - k,
                n
            );
        }
        if ctx.on(ENUM | MINSOL) {
            if n <= 40 {
                let (p, c) = (self.b.minpath(&h), self.b.mincut(&h));
                let (Some(p), Some(c)) = (p, c) else { return Err(format!("{}-of-{} is called non-monotone", k, n)) };
                ensure!(
                    p.count(&[true]) as u128 == binom(n as u64, k as u64),
                    "{}-of-{} has {} minimal paths",
                    k,
                    n,
                    p.count(&[true])
                );
                ensure!(
                    c.count(&[true]) as u128 == binom(n as u64, (n + 1 - k) as u64),
                    "{}-of-{} has {} minimal cuts",
                    k,
                    n,
                    c.count(&[true])
                );
                if binom(n as u64, k as u64) < 3000 {
                    let mut seen = HashSet::new();
                    let names: HashSet<String> = vs.iter().map(|v| vname(v)).collect();
                    for mut s in p.extract(&[true]) {
                        ensure!(s.len() == k && s.iter().all(|x| names.contains(x)), "minimal path {:?} of {}-of-{}", s, k, n);
                        s.sort();
                        ensure!(seen.insert(s), "a minimal path is listed twice");
                    }
                    ensure!(seen.len() as u128 == binom(n as u64, k as u64), "{} minimal paths listed", seen.len());
                }
            }
        }
        if ctx.on(PROB) {
            // dyadic, identical components: exact binomial tail up to rounding
            let p = r.range(1, 7) as f64 / 8.0;
            let pv: HashMap<String, f64> = (0..self.bn).map(|v| (vname(v), p)).collect();
            let got = h.prob(&pv, &[true]);
            let want: f64 = (k..=n).map(|i| binom(n as u64, i as u64) as f64 * p.powi(i as i32) * (1.0 - p).powi((n - i) as i32)).sum();
            ctx.check("closed-form-probability");
            ensure!((got - want).abs() < 1e-9, "{}-of-{} at {}: probability {}, exact {}", k, n, p, got, want);
            let bm = h.bmeas(&pv, &[true]);
            let imp = binom(n as u64 - 1, k as u64 - 1) as f64 * p.powi(k as i32 - 1) * (1.0 - p).powi((n - k) as i32);
            for v in &vs {
                let x = bm.get(&vname(v)).copied();
                ensure!(x.map_or(false, |x| (x - imp).abs() < 1e-9), "importance of v{} in {}-of-{} is {:?}, exact {}", v, k, n, x, imp);
            }
        }
        let t = self.bsp.points.iter().map(|p| (vs.iter().filter(|&&v| p[v] == 1).count() >= k) as i64).collect();
        drop(hs);
        self.bresult(h, t, s.a[4], "k-of-n", ctx)
    }

    fn chains(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let mut r = Rng::new(((s.a[0] as u64) << 32) | s.a[1] as u64);
        let vs = self.subset(&mut r, 2, 60);
        let n = vs.len() as u32;
        let hs: Vec<BddNode> = vs.iter().map(|&v| self.bvar(v).0).collect();
        let kind = s.a[2] % 4;
        ctx.op(["series", "parallel", "parity", "rpn-chain"][kind as usize]);
        let free = self.free(&vs);
        let (h, t, want): (BddNode, Vec<i64>, u128) = match kind {
            0 => (
                self.b.and(&hs),
                self.bsp.points.iter().map(|p| vs.iter().all(|&v| p[v] == 1) as i64).collect(),
                1 << free,
            ),
            1 => (
                self.b.or(&hs),
                self.bsp.points.iter().map(|p| vs.iter().any(|&v| p[v] == 1) as i64).collect(),
                ((1u128 << n) - 1) << free,
            ),
            2 => {
                let mut h = self.b.zero();
                for x in &hs {
                    h = h.xor(x);
                }
                (
                    h,
                    self.bsp.points.iter().map(|p| (vs.iter().filter(|&&v| p[v] == 1).count() % 2) as i64).collect(),
                    (1u128 << (n - 1)) << free,
                )
            }
            _ => {
                // the same parity written as one long expression with sharing
                let mut e = "0".to_string();
                for (i, v) in vs.iter().enumerate() {
                    e.push_str(&format!(" save(s{}) {} ^", i, vname(v)));
                }
                let h = self.b.rpn(&e).map_err(|m| format!("long expression refused: {}", m))?;
                (
                    h,
                    self.bsp.points.iter().map(|p| (vs.iter().filter(|&&v| p[v] == 1).count() % 2) as i64).collect(),
                    (1u128 << (n - 1)) << free,
                )
            }
        };
        if ctx.on(ENUM) {
            ctx.check("closed-form");
            let got = h.bdd_count(&[true]) as u128;
            ensure!(got == want, "count of a chain of {} is {}, exact {}", n, got, want);
        }
        drop(hs);
        self.bresult(h, t, s.a[4], if kind == 3 { "expression" } else { "chain" }, ctx)
    }

    /// Disjoint pairs in a bad variable order: exponentially many nodes.
    fn pairs(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let mut r = Rng::new(((s.a[0] as u64) << 32) | s.a[1] as u64);
        let n = r.range(2, 10).min(self.bn as u64 / 2) as usize;
        let lv: Vec<usize> = self.border[..2 * n].to_vec();
        ctx.op("bad-order-pairs");
        let mut h = self.b.zero();
        let mut t = self.bsp.constant(0);
        for i in 0..n {
            let (x, tx) = self.bvar(lv[i]);
            let (y, ty) = self.bvar(lv[n + i]);
            h = h.or(&x.and(&y));
            for j in 0..t.len() {
                t[j] |= tx[j] & ty[j];
            }
        }
        if ctx.on(ENUM) {
            ctx.check("closed-form");
            let got = h.bdd_count(&[true]) as u128;
            let want = (1u128 << (2 * n)) - 3u128.pow(n as u32);
            ensure!(got == want, "{} pairs: count {}, exact {}", n, got, want);
            ensure!(h.size().0 == (1u64 << (n + 1)) - 2, "{} pairs: {} nodes, {} expected", n, h.size().0, (1u64 << (n + 1)) - 2);
            if want < 5000 {
                let mut seen = HashSet::new();
                for mut a in h.bdd_extract(&[true]) {
                    a.sort();
                    ensure!(seen.insert(a), "an assignment is listed twice");
                }
                ensure!(seen.len() as u128 == want, "{} assignments listed, {} exist", seen.len(), want);
            }
        }
        self.bresult(h, t, s.a[4], "pairs", ctx)
    }

    fn combine(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if self.bpool.is_empty() {
            return self.chains(s, ctx);
        }
        let n = self.bpool.len();
        let (i, j, k) = (s.a[1] as usize % n, s.a[2] as usize % n, s.a[3] as usize % n);
        let op = [Op::And, Op::Or, Op::Xor, Op::Not, Op::Ite][s.a[0] as usize % 5];
        let (f, g, h) = (&self.bpool[i], &self.bpool[j], &self.bpool[k]);
        let size = |x: &BddNode| x.size().0 as usize;
        if size(&f.0) * size(&g.0) > self.nodecap * 40 || (op == Op::Ite && size(&f.0) * size(&g.0) * size(&h.0) > self.nodecap * 400) {
            return Ok(());
        }
        ctx.op(op.name());
        ctx.note(|| format!("{} {} {} {}", op.name(), f.0.get_id(), g.0.get_id(), h.0.get_id()));
        let (res, t) = match op {
            Op::And => (f.0.and(&g.0), op.spec(&[&f.1, &g.1], &self.bsp, 0)),
            Op::Or => (f.0.or(&g.0), op.spec(&[&f.1, &g.1], &self.bsp, 0)),
            Op::Xor => (f.0.xor(&g.0), op.spec(&[&f.1, &g.1], &self.bsp, 0)),
            Op::Not => (f.0.not(), op.spec(&[&f.1], &self.bsp, 0)),
            _ => (f.0.ite(&g.0, &h.0), op.spec(&[&f.1, &g.1, &h.1], &self.bsp, 0)),
        };
        if ctx.on(CANON) {
            // the same function reached another way is the same node
            ctx.check("identity");
            let other = match op {
                Op::And => f.0.not().or(&g.0.not()).not(),
                Op::Or => g.0.ite(&g.0, &f.0),
                Op::Xor => f.0.and(&g.0.not()).or(&g.0.and(&f.0.not())),
                Op::Not => f.0.ite(&self.b.zero(), &self.b.one()),
                _ => f.0.and(&g.0).or(&f.0.not().and(&h.0)),
            };
            ensure!(other.get_id() == res.get_id(), "{} reached in two ways gives nodes {} and {}", op.name(), res.get_id(), other.get_id());
        }
        let ids = [f.0.get_id(), g.0.get_id()];
        // temporaries of the second way are also part of the reachable peak
        self.rmax = self.rmax.max(self.b.bdd().live_node_count());
        let _ = ids;
        self.bresult(res, t, s.a[4], op.name(), ctx)
    }

    // ------------------------------------------------------------ multistate
    fn mresult(&mut self, h: H, want: Vec<i64>, evict: u32, what: &str, ctx: &mut Ctx) -> R {
        let g = self.mgraph(&h).map_err(|e| format!("{}: {}", what, e))?;
        let got = g.eval(mkey(&h).1, &self.msp, Rule::Merge);
        ctx.event(hash_i64s(&got) ^ g.nodes.len() as u64);
        if ctx.on(FUNC) {
            ctx.check("result-at-samples");
            compare(&self.msp, &got, &want).map_err(|e| format!("{} {}", what, e))?;
        }
        if ctx.on(CANON) {
            ctx.check("canonical");
            g.canonical(Rule::Merge).map_err(|e| format!("{}: {}", what, e))?;
        }
        if ctx.on(ENUM | PROB) {
            let d = self.distribution(&g, mkey(&h).1);
            let tot: u128 = d.values().fold(0u128, |a, b| a.saturating_add(*b));
            if ctx.on(ENUM) && tot < 1 << 62 {
                ctx.check("count");
                for (v, c) in d.iter().take(6) {
                    let ss: HashSet<SimV> = [SimV(*v)].into_iter().collect();
                    let got = h.mdd_count(&ss) as u128;
                    ensure!(got == *c, "{}: {} vectors with value {}, exact {}", what, got, v, c);
                }
            }
            if ctx.on(PROB) && tot < u128::MAX {
                let pv = self.uniform();
                if let Some((v, c)) = d.iter().nth(evict as usize % d.len().max(1)) {
                    let mut hh = h.clone();
                    let p = hh.prob(&pv, &[SimV(*v)]);
                    let want = *c as f64 / tot as f64;
                    ctx.check("probability");
                    ensure!((p - want).abs() < 1e-9, "{}: P(value {}) is {}, exact {}", what, v, p, want);
                }
            }
        }
        ctx.max_live = ctx.max_live.max(self.m.live_node_count() as u64);
        if g.nodes.len() <= self.limit {
            if self.mpool.len() >= self.cap {
                let i = evict as usize % self.mpool.len();
                let t = self.mtable(&self.mpool[i].0)?;
                ctx.check("handle-stable");
                ensure!(t == self.mpool[i].1, "handle changed its meaning");
                self.mpool.swap_remove(i);
            }
            self.mpool.push((h, want));
        }
        Ok(())
    }

    /// Vectors of the variables up to the top one, by value.
    fn distribution(&self, g: &Graph, root: usize) -> BTreeMap<i64, u128> {
        // number of states of all variables on levels [lo, hi)
        let span = |lo: usize, hi: usize| -> u128 {
            self.morder[lo..hi].iter().map(|&v| self.msp.dims[v] as u128).fold(1u128, |a, b| a.saturating_mul(b))
        };
        let mut c: Vec<BTreeMap<i64, u128>> = Vec::with_capacity(g.nodes.len());
        for n in &g.nodes {
            let mut m = BTreeMap::new();
            if n.var == usize::MAX {
                m.insert(n.term, 1);
            } else {
                for &e in &n.edges {
                    let k = &g.nodes[e as usize];
                    let f = if k.var == usize::MAX { span(0, n.level) } else { span(k.level + 1, n.level) };
                    for (v, x) in &c[e as usize] {
                        let y = m.entry(*v).or_insert(0u128);
                        *y = y.saturating_add(x.saturating_mul(f));
                    }
                }
            }
            c.push(m);
        }
        c.swap_remove(g.index[&root] as usize)
    }

    fn uniform(&self) -> HashMap<String, Vec<f64>> {
        self.msp.dims.iter().enumerate().map(|(v, &k)| (vname(v), vec![1.0 / k as f64; k])).collect()
    }

    /// Number of vectors of these variables by the sum of their states.
    fn convolve(&self, vs: &[usize], without: Option<usize>) -> BTreeMap<i64, u128> {
        let mut d: BTreeMap<i64, u128> = [(0, 1)].into_iter().collect();
        for &v in vs.iter().filter(|&&v| Some(v) != without) {
            let mut e = BTreeMap::new();
            for (x, c) in &d {
                for y in 0..self.msp.dims[v] as i64 {
                    *e.entry(x + y).or_insert(0u128) += c;
                }
            }
            d = e;
        }
        d
    }

    /// A sum strictly increases in every state: all vectors with sum v are minimal (and
    /// maximal) among themselves; "sum >= k" has the vectors with sum k as minimal paths
    /// and those with sum k - 1 as minimal cuts.
    fn mfamilies(&mut self, h: &H, vs: &[usize], k: Option<i64>, ctx: &mut Ctx) -> R {
        let d = self.convolve(vs, None);
        if d.values().any(|&c| c > 1 << 60) || h.size().2 > 12_000 {
            return Ok(());
        }
        let max = *d.keys().last().unwrap();
        let (p, c) = (self.m.minpath(h), self.m.mincut(h));
        ctx.op("large-minimal-vectors");
        ctx.check("closed-form");
        let (Some(p), Some(c)) = (p, c) else { return Err("a monotone function is called non-monotone".into()) };
        let one = |v: i64| -> HashSet<SimV> { [SimV(v)].into_iter().collect() };
        match k {
            None => {
                for (v, n) in &d {
                    let (a, b) = (p.count(&one(*v)) as u128, c.count(&one(*v)) as u128);
                    ensure!(a == *n && b == *n, "sum {}: {} minimal path and {} minimal cut vectors, exact {}", v, a, b, n);
                }
            }
            Some(k) if 0 < k && k <= max => {
                let (a, b) = (p.count(&one(1)) as u128, c.count(&one(0)) as u128);
                ensure!(a == d[&k] && b == d[&(k - 1)], "sum >= {}: {} minimal path and {} minimal cut vectors, exact {} and {}", k, a, b, d[&k], d[&(k - 1)]);
                if a < 300 {
                    let mut seen = HashSet::new();
                    for x in p.extract(&one(1)) {
                        let t: usize = x.values().sum();
                        ensure!(x.len() == self.msp.dims.len() && t as i64 == k, "minimal path vector with sum {} for sum >= {}", t, k);
                        let mut x: Vec<(String, usize)> = x.into_iter().collect();
                        x.sort();
                        ensure!(seen.insert(x), "a minimal path vector is listed twice");
                    }
                    ensure!(seen.len() as u128 == a, "{} of {} minimal path vectors listed", seen.len(), a);
                }
            }
            _ => {}
        }
        Ok(())
    }

    fn msum(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let mut r = Rng::new(((s.a[0] as u64) << 32) | s.a[1] as u64);
        let mut vs: Vec<usize> = (0..self.msp.dims.len()).collect();
        shuffle(&mut vs, &mut r);
        vs.truncate(r.range(1, 14).min(vs.len() as u64) as usize);
        let kind = s.a[2] % 4;
        ctx.op(["large-sum", "large-min", "large-max", "large-threshold"][kind as usize]);
        let dims = self.msp.dims.clone();
        let hs: Vec<H> = vs.iter().map(|&v| self.m.defvar(&vname(v), dims[v])).collect();
        let mut h = hs[0].clone();
        let mut t = self.msp.var(vs[0]);
        for (x, &v) in hs.iter().zip(&vs).skip(1) {
            let tx = self.msp.var(v);
            match kind {
                1 => {
                    h = MddNode::min(&h, x);
                    t = Op::Min.spec(&[&t, &tx], &self.msp, 0);
                }
                2 => {
                    h = MddNode::max(&h, x);
                    t = Op::Max.spec(&[&t, &tx], &self.msp, 0);
                }
                _ => {
                    h = h.add(x);
                    t = Op::Add.spec(&[&t, &tx], &self.msp, 0);
                }
            }
        }
        if kind == 1 || kind == 2 {
            let n = if kind == 1 { self.m.min(&hs) } else { self.m.max(&hs) };
            ensure!(mkey(&n) == mkey(&h), "n-ary min/max differs from the binary ones");
        }
        if kind == 0 && ctx.on(ENUM) {
            let d = self.convolve(&vs, None);
            let lv: Vec<usize> = vs.iter().map(|v| self.morder.iter().position(|o| o == v).unwrap()).collect();
            let top = *lv.iter().max().unwrap();
            let free: f64 = (0..top).filter(|l| !lv.contains(l)).map(|l| self.msp.dims[self.morder[l]] as f64).product();
            let tot: f64 = d.values().sum::<u128>() as f64 * free;
            if tot < 1e18 {
                ctx.check("closed-form");
                for (v, c) in &d {
                    let ss: HashSet<SimV> = [SimV(*v)].into_iter().collect();
                    let got = h.mdd_count(&ss);
                    ensure!(got as u128 == c * free as u128, "sum {}: {} vectors, exact {}", v, got, c * free as u128);
                }
                if tot < 4000.0 {
                    let all: HashSet<SimV> = d.keys().map(|&v| SimV(v)).collect();
                    let n = h.mdd_extract(&all).count();
                    ensure!(n as f64 == tot, "{} vectors listed, {} exist", n, tot);
                }
            }
        }
        if kind == 0 && ctx.on(PROB) {
            let pv = self.uniform();
            let v = *r.pick(&vs);
            let (d, k) = (self.convolve(&vs, Some(v)), self.msp.dims[v]);
            let tot: f64 = d.values().map(|&c| c as f64).sum();
            let at = |x: i64| d.get(&x).map_or(0.0, |&c| c as f64 / tot);
            let t = r.below(1 + vs.iter().map(|&v| dims[v] as u64 - 1).sum::<u64>()) as i64;
            ctx.check("closed-form-probability");
            let bm = h.bmeas(&pv, &[SimV(t)]);
            let g = bm.get(&vname(v)).cloned().unwrap_or_default();
            ensure!(g.len() == k - 1, "the importance of v{} has {} entries, expected {}", v, g.len(), k - 1);
            for j in 1..k {
                let w = at(t - j as i64) - at(t - j as i64 + 1);
                ensure!((g[j - 1] - w).abs() < 1e-9, "importance {} of v{} for sum {} is {}, exact {}", j, v, t, g[j - 1], w);
            }
        }
        if kind == 0 && ctx.on(MINSOL) {
            self.mfamilies(&h, &vs, None, ctx)?;
        }
        if kind == 3 {
            let k = r.below(1 + vs.iter().map(|&v| dims[v] as u64 - 1).sum::<u64>()) as i64;
            let c = self.m.value(SimV(k));
            h = MddNode::ge(&h, &c);
            t = Op::Ge.spec(&[&t, &self.msp.constant(k)], &self.msp, 0);
            if ctx.on(MINSOL) {
                self.mfamilies(&h, &vs, Some(k), ctx)?;
            }
            if ctx.on(CANON) {
                let hi = h.not().not();
                ensure!(mkey(&hi) == mkey(&h), "double negation gives another node");
            }
        }
        drop(hs);
        self.mresult(h, t, s.a[4], "multi-state chain", ctx)
    }

    fn mcombine(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if self.mpool.is_empty() {
            return self.msum(s, ctx);
        }
        let n = self.mpool.len();
        let (f, g) = (&self.mpool[s.a[1] as usize % n], &self.mpool[s.a[2] as usize % n]);
        if f.0.size().0 * g.0.size().0 > 40 * self.nodecap as u64 {
            return Ok(());
        }
        let (kf, kg) = (mkey(&f.0).0, mkey(&g.0).0);
        let ops: &[Op] = match (kf, kg) {
            (1, 1) => &[Op::Add, Op::Min, Op::Max, Op::Lt, Op::Ge, Op::Eq, Op::Sub],
            (0, 0) => &[Op::And, Op::Or, Op::Xor],
            (0, 1) => &[Op::VIte],
            _ => return Ok(()),
        };
        let op = ops[s.a[0] as usize % ops.len()];
        ctx.op(op.name());
        let (h, t) = match op {
            Op::Add => (f.0.add(&g.0), op.spec(&[&f.1, &g.1], &self.msp, 0)),
            Op::Sub => (f.0.sub(&g.0), op.spec(&[&f.1, &g.1], &self.msp, 0)),
            Op::Min => (MddNode::min(&f.0, &g.0), op.spec(&[&f.1, &g.1], &self.msp, 0)),
            Op::Max => (MddNode::max(&f.0, &g.0), op.spec(&[&f.1, &g.1], &self.msp, 0)),
            Op::Lt => (MddNode::lt(&f.0, &g.0), op.spec(&[&f.1, &g.1], &self.msp, 0)),
            Op::Ge => (MddNode::ge(&f.0, &g.0), op.spec(&[&f.1, &g.1], &self.msp, 0)),
            Op::Eq => (MddNode::eq(&f.0, &g.0), op.spec(&[&f.1, &g.1], &self.msp, 0)),
            Op::And => (f.0.and(&g.0), op.spec(&[&f.1, &g.1], &self.msp, 0)),
            Op::Or => (f.0.or(&g.0), op.spec(&[&f.1, &g.1], &self.msp, 0)),
            Op::Xor => (f.0.xor(&g.0), op.spec(&[&f.1, &g.1], &self.msp, 0)),
            _ => {
                let z = self.m.value(SimV(-1));
                (f.0.ite(&g.0, &z), op.spec(&[&f.1, &g.1, &self.msp.constant(-1)], &self.msp, 0))
            }
        };
        self.mresult(h, t, s.a[4], op.name(), ctx)
    }

    // -------------------------------------------------------------- families
    fn zresult(&mut self, h: ZddNode, want: Option<Vec<i64>>, count: Option<u128>, evict: u32, what: &str, ctx: &mut Ctx) -> R {
        let g = self.zgraph(&h).map_err(|e| format!("{}: {}", what, e))?;
        let got = g.eval(h.get_id(), &self.zsp, Rule::Suppress(0));
        ctx.event(hash_i64s(&got) ^ g.nodes.len() as u64);
        if let (true, Some(w)) = (ctx.on(FUNC), &want) {
            ctx.check("result-at-samples");
            compare(&self.zsp, &got, w).map_err(|e| format!("{} {}", what, e))?;
        }
        if ctx.on(CANON) {
            ctx.check("canonical");
            g.canonical(Rule::Suppress(0)).map_err(|e| format!("{}: {}", what, e))?;
        }
        if ctx.on(ENUM) {
            ctx.check("count");
            let n = h.count(&[true]) as u128;
            let e = Self::zexact(&g, h.get_id());
            ensure!(n == e && count.map_or(true, |c| c == n), "{}: family has {} sets, exact {} (closed form {:?})", what, n, e, count);
            if n < 2000 {
                let mut seen = HashSet::new();
                for mut s in h.extract(&[true]) {
                    s.sort();
                    ensure!(seen.insert(s), "{}: a set is listed twice", what);
                }
                ensure!(seen.len() as u128 == n, "{}: {} sets listed of {}", what, seen.len(), n);
            }
        }
        if g.nodes.len() <= self.limit {
            if self.zpool.len() >= self.cap {
                let i = evict as usize % self.zpool.len();
                let (h, t) = &self.zpool[i];
                let now = self.zgraph(h)?.eval(h.get_id(), &self.zsp, Rule::Suppress(0));
                ctx.check("handle-stable");
                ensure!(now == *t, "family handle changed its meaning");
                self.zpool.swap_remove(i);
            }
            self.zpool.push((h, got));
        }
        Ok(())
    }

    fn zexact(g: &Graph, root: usize) -> u128 {
        let mut c: Vec<u128> = Vec::with_capacity(g.nodes.len());
        for n in &g.nodes {
            c.push(if n.var == usize::MAX { (n.term == 1) as u128 } else { n.edges.iter().map(|&e| c[e as usize]).sum() });
        }
        c[g.index[&root] as usize]
    }

    fn zbuild(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let mut r = Rng::new(((s.a[0] as u64) << 32) | s.a[1] as u64);
        let mut vs: Vec<usize> = (0..self.zn).collect();
        shuffle(&mut vs, &mut r);
        vs.truncate(r.range(2, self.zn as u64) as usize);
        let n = vs.len();
        let out = |p: &Vec<u8>, vs: &[usize]| p.iter().enumerate().any(|(v, &x)| x == 1 && !vs.contains(&v));
        if s.a[2] % 2 == 0 {
            ctx.op("power-set");
            let mut h = self.z.base();
            for &v in &vs {
                let one = self.z.singleton(&vname(v));
                let opt = one.union(&self.z.base());
                h = h.product(&opt);
            }
            let t = self.zsp.points.iter().map(|p| !out(p, &vs) as i64).collect();
            self.zresult(h, Some(t), Some(1u128 << n), s.a[4], "power set", ctx)
        } else {
            // all k-subsets by dynamic programming
            let k = r.range(1, 6).min(n as u64) as usize;
            ctx.op("k-subsets");
            let mut row: Vec<ZddNode> = (0..=k).map(|i| if i == 0 { self.z.base() } else { self.z.empty() }).collect();
            for &v in &vs {
                let one = self.z.singleton(&vname(v));
                for i in (1..=k).rev() {
                    row[i] = row[i].union(&row[i - 1].product(&one));
                }
            }
            let t = self
                .zsp
                .points
                .iter()
                .map(|p| (!out(p, &vs) && p.iter().filter(|&&x| x == 1).count() == k) as i64)
                .collect();
            let h = row.pop().unwrap();
            drop(row);
            self.zresult(h, Some(t), Some(binom(n as u64, k as u64)), s.a[4], "k-subsets", ctx)
        }
    }

    fn zcombine(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if self.zpool.is_empty() {
            return self.zbuild(s, ctx);
        }
        let n = self.zpool.len();
        let (f, g) = (&self.zpool[s.a[1] as usize % n], &self.zpool[s.a[2] as usize % n]);
        if f.0.size().0 * g.0.size().0 > 10 * self.nodecap as u64 {
            return Ok(());
        }
        let cf = f.0.count(&[true]) as u128;
        let cg = g.0.count(&[true]) as u128;
        let ci = f.0.intersect(&g.0).count(&[true]) as u128;
        let (h, t, c, name) = match s.a[0] % 4 {
            0 => (f.0.union(&g.0), Some(Op::ZUnion.spec(&[&f.1, &g.1], &self.zsp, 0)), Some(cf + cg - ci), "union"),
            1 => (f.0.intersect(&g.0), Some(Op::ZIntersect.spec(&[&f.1, &g.1], &self.zsp, 0)), Some(ci), "intersect"),
            2 => (f.0.setdiff(&g.0), Some(Op::ZSetdiff.spec(&[&f.1, &g.1], &self.zsp, 0)), Some(cf - ci), "setdiff"),
            _ => {
                // multiplying by a fresh element and dividing again is the identity
                let v = vname(s.a[3] as usize % self.zn);
                let one = self.z.singleton(&v);
                let has = self.zgraph(&f.0)?.nodes.iter().any(|x| x.var != usize::MAX && vname(x.var) == v);
                let p = f.0.product(&one);
                let q = p.divide(&one);
                if !has && ctx.on(FUNC) {
                    ctx.check("product-then-divide");
                    ensure!(q.get_id() == f.0.get_id(), "(F * x) / x is node {}, F is {}", q.get_id(), f.0.get_id());
                }
                (p, None, if has { None } else { Some(cf) }, "product")
            }
        };
        ctx.op(name);
        self.zresult(h, t, c, s.a[4], name, ctx)
    }

    fn all(&mut self, ctx: &mut Ctx) -> R {
        for (h, t) in &self.bpool {
            ctx.check("handle-stable");
            ensure!(self.bgraph(h)?.eval(h.get_id(), &self.bsp, Rule::Merge) == *t, "binary handle changed its meaning");
        }
        for (h, t) in &self.mpool {
            ctx.check("handle-stable");
            ensure!(self.mtable(h)? == *t, "multi-state handle changed its meaning");
        }
        for (h, t) in &self.zpool {
            ctx.check("handle-stable");
            ensure!(self.zgraph(h)?.eval(h.get_id(), &self.zsp, Rule::Suppress(0)) == *t, "family handle changed its meaning");
        }
        Ok(())
    }
}

impl LargeW {
    fn dots(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let i = s.a[0] as usize;
        ctx.op("large-dot");
        ctx.check("dot-graph");
        match s.a[1] % 3 {
            0 if !self.bpool.is_empty() => {
                let (h, t) = &self.bpool[i % self.bpool.len()];
                check_dot(&h.dot(), &self.bgraph(h)?, h.get_id(), &self.bsp, Rule::Merge, t)
            }
            1 if !self.zpool.is_empty() => {
                let (h, t) = &self.zpool[i % self.zpool.len()];
                check_dot(&h.dot(), &self.zgraph(h)?, h.get_id(), &self.zsp, Rule::Suppress(0), t)
            }
            2 if !self.mpool.is_empty() => {
                let (h, t) = &self.mpool[i % self.mpool.len()];
                let m = h.get_mgr();
                let (k, root) = mkey(h);
                let g = Graph::read(&MF(&m.borrow(), k, self.msp.dims.len()), &[root], &self.msp.dims)?;
                check_dot(&h.dot(), &g, root, &self.msp, Rule::Merge, t)
            }
            _ => Ok(()),
        }
    }
}

impl World for LargeW {
    fn step(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        match s.op {
            0 => self.kofn(s, ctx),
            1 => self.chains(s, ctx),
            2 => self.pairs(s, ctx),
            3 => self.combine(s, ctx),
            4 => self.msum(s, ctx),
            5 => self.mcombine(s, ctx),
            6 => self.zbuild(s, ctx),
            7 => self.zcombine(s, ctx),
            8 => {
                ctx.fault("explicit-gc");
                self.b.bdd().gc(&[]);
                self.m.gc(&[]);
                self.live = self.b.bdd().live_node_count();
                self.all(ctx)
            }
            9 => {
                ctx.fault("cache-clear");
                self.b.clear_cache();
                self.m.clear_cache();
                self.z.clear_cache();
                Ok(())
            }
            11 => self.dots(s, ctx),
            _ => {
                let n = self.bpool.len() + self.mpool.len() + self.zpool.len();
                if n > 0 {
                    let i = s.a[0] as usize % n;
                    if i < self.bpool.len() {
                        self.bpool.swap_remove(i);
                    } else if i < self.bpool.len() + self.mpool.len() {
                        let i = i - self.bpool.len();
                        self.mpool.swap_remove(i);
                    } else {
                        let i = i - self.bpool.len() - self.mpool.len();
                        self.zpool.swap_remove(i);
                    }
                }
                Ok(())
            }
        }
    }

    fn finish(&mut self, ctx: &mut Ctx) -> R {
        self.all(ctx)
    }
}

pub fn gen_large(rng: &mut Rng, cfg: &Cfg) -> Vec<Step> {
    let w = [6, 4, 3, 14, 5, 6, 4, 6, rng.below(4), rng.below(3), rng.below(4), if cfg.on("w_dot") { 10 } else { 0 }];
    let tot: u64 = w.iter().sum();
    (0..cfg.us("steps").max(1))
        .map(|_| {
            let mut x = rng.below(tot);
            let mut op = 3;
            for (i, &k) in w.iter().enumerate() {
                if x < k {
                    op = i as u16;
                    break;
                }
                x -= k;
            }
            Step { op, a: [rng.next() as u32, rng.next() as u32, rng.next() as u32, rng.next() as u32, rng.next() as u32] }
        })
        .collect()
}
