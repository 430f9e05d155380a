//! World: diagrams with deep sharing (layered automata over many variables).
//! Their size is linear in the number of variables while the number of paths
//! is exponential, so every operation and query must exploit the sharing. Each
//! call runs under a budget of executed basic blocks (see `tick`).
use crate::core::*;
use crate::engines::{bview, mview, vview, zview};
use crate::ops::SimV;
use crate::space::*;
use crate::tick::measured;
use bss::prelude::{BddNode, BssMgr, ZddMgr, ZddNode};
use mddcore::mtmdd2::Node as N2;
use mss::prelude::{MddNode, MssMgr, ZmddNode};
use std::collections::{HashMap, HashSet};

type H = MddNode<SimV>;

struct BF<'a>(&'a bddcore::prelude::BddManager, usize);
impl<'a> Forest for BF<'a> {
    fn view(&self, id: usize) -> R<View> {
        bview(self.0, id, self.1)
    }
}
struct ZF<'a>(&'a bddcore::prelude::ZddManager, usize);
impl<'a> Forest for ZF<'a> {
    fn view(&self, id: usize) -> R<View> {
        zview(self.0, id, self.1)
    }
}
struct MF<'a>(&'a mddcore::mtmdd2::MtMdd2Manager<SimV>, u8, usize);
impl<'a> Forest for MF<'a> {
    fn view(&self, id: usize) -> R<View> {
        if self.1 == 0 {
            mview(self.0.mdd(), id, self.2)
        } else {
            vview(self.0.mtmdd(), id, self.2)
        }
    }
}

fn mkey(h: &H) -> (u8, usize) {
    match h.get_node() {
        N2::Bool(x) => (0, x),
        N2::Value(x) => (1, x),
    }
}

pub struct WorkW {
    b: BssMgr,
    bn: usize,
    bh: Vec<usize>,
    bpool: Vec<(BddNode, bool)>,
    z: ZddMgr,
    zn: usize,
    zpool: Vec<ZddNode>,
    m: MssMgr<SimV>,
    dims: Vec<usize>,
    mh: Vec<usize>,
    mpool: Vec<(H, bool)>,
    fpool: Vec<ZmddNode<SimV>>,
    cap: usize,
    big: bool,
    maxn: usize,
    pairs: usize,
}

pub fn gen_work(rng: &mut Rng, cfg: &Cfg) -> Vec<Step> {
    let mut v = vec![];
    for _ in 0..cfg.get("steps") {
        // builders early and often enough that every pool fills
        let op = *rng.pick(&[0u16, 0, 1, 2, 2, 2, 3, 3, 3, 4, 5, 5, 6, 7, 7, 8, 8, 8, 9, 9, 9, 10, 11, 12, 13]);
        let mut a = [0u32; 5];
        for x in &mut a {
            *x = rng.next() as u32;
        }
        v.push(Step { op, a });
    }
    v
}

/// Crowds: wide automata of thousands of nodes that share as deeply.
const WIDE: [u64; 8] = [5, 9, 20, 40, 90, 150, 250, 400];

impl WorkW {
    pub fn new(cfg: &Cfg, _seed: u64) -> Self {
        let mut r = Rng::new(cfg.get("lay"));
        let bn = cfg.us("bn").clamp(4, 44);
        let mn = cfg.us("mn").clamp(2, 34);
        let zn = cfg.us("zn").clamp(4, 40);
        let dims: Vec<usize> = (0..mn).map(|_| r.range(2, 3) as usize).collect();
        let mut b = BssMgr::new();
        let mut m = MssMgr::new();
        let mut z = ZddMgr::new();
        let bh = (0..bn).map(|v| b.defvar(&format!("v{}", v)).get_header().unwrap()).collect();
        let mh = (0..mn).map(|v| m.defvar(&format!("v{}", v), dims[v]).get_header().unwrap()).collect();
        for v in 0..zn {
            z.singleton(&format!("v{}", v));
        }
        if cfg.on("thr0") {
            let t = cfg.us("thr0");
            b.bdd().set_gc_threshold(t);
            m.set_gc_threshold(t);
            z.set_gc_threshold(t);
        }
        WorkW {
            b,
            bn,
            bh,
            bpool: vec![],
            z,
            zn,
            zpool: vec![],
            m,
            dims,
            mh,
            mpool: vec![],
            fpool: vec![],
            cap: cfg.us("cap").max(3),
            big: cfg.on("big"),
            maxn: if cfg.on("big") { 30000 } else { 400 },
            pairs: if cfg.on("big") { 20000 } else { 4000 },
        }
    }

    fn run<T>(&mut self, what: &'static str, ctx: &mut Ctx, f: impl FnOnce(&mut Self) -> T) -> T {
        ctx.op(what);
        ctx.check("work-budget");
        ctx.note(|| what.to_string());
        let (x, n) = measured(what, || f(self));
        ctx.ticks += n;
        ctx.max_ticks = ctx.max_ticks.max(n);
        x
    }

    fn bsize(&self, h: &BddNode) -> R<usize> {
        let m = h.get_mgr();
        let m = m.borrow();
        Ok(Graph::read(&BF(&m, self.bn), &[h.get_id()], &vec![2; self.bn])?.nodes.len())
    }
    fn zsize(&self, h: &ZddNode) -> R<usize> {
        let m = h.get_mgr();
        let m = m.borrow();
        Ok(Graph::read(&ZF(&m, self.zn), &[h.get_id()], &vec![2; self.zn])?.nodes.len())
    }
    fn msize(&self, h: &H) -> R<usize> {
        let m = h.get_mgr();
        let m = m.borrow();
        let (k, id) = mkey(h);
        Ok(Graph::read(&MF(&m, k, self.dims.len()), &[id], &self.dims)?.nodes.len())
    }

    fn bkeep(&mut self, h: BddNode, mono: bool, evict: u32, ctx: &mut Ctx) -> R {
        let n = self.bsize(&h)?;
        ctx.event(n as u64 ^ 0xb000);
        ctx.state(n as u64 ^ (h.get_id() as u64) << 20);
        if n <= self.maxn {
            if self.bpool.len() >= self.cap {
                let i = evict as usize % self.bpool.len();
                self.bpool.swap_remove(i);
                ctx.fault("handle-drop");
            }
            self.bpool.push((h, mono));
        }
        Ok(())
    }
    fn mkeep(&mut self, h: H, mono: bool, evict: u32, ctx: &mut Ctx) -> R {
        let n = self.msize(&h)?;
        ctx.event(n as u64 ^ 0xa000);
        ctx.state(n as u64 ^ (h.get_id() as u64) << 20);
        if n <= self.maxn {
            if self.mpool.len() >= self.cap {
                let i = evict as usize % self.mpool.len();
                self.mpool.swap_remove(i);
                ctx.fault("handle-drop");
            }
            self.mpool.push((h, mono));
        }
        Ok(())
    }
    fn zkeep(&mut self, h: ZddNode, evict: u32, ctx: &mut Ctx) -> R {
        let n = self.zsize(&h)?;
        ctx.event(n as u64 ^ 0x9000);
        if n <= self.maxn.min(1200) {
            if self.zpool.len() >= self.cap {
                let i = evict as usize % self.zpool.len();
                self.zpool.swap_remove(i);
                ctx.fault("handle-drop");
            }
            self.zpool.push(h);
        }
        Ok(())
    }

    // ---------------------------------------------------------- construction
    /// A random layered automaton; state s of layer l is a node on variable l.
    fn bladder(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let mut r = Rng::new(((s.a[0] as u64) << 32) | s.a[1] as u64);
        let w = if self.big { *r.pick(&WIDE) } else { r.range(2, 4) } as usize;
        let mut cur: Vec<BddNode> = (0..w).map(|i| if i % 2 == 0 { self.b.zero() } else { self.b.one() }).collect();
        for l in 0..self.bn {
            if l > 3 && r.chance(1, 8) {
                continue; // a skipped level
            }
            let h = self.bh[l];
            let mut next = vec![];
            for i in 0..w {
                // a permutation on one edge keeps all states reachable
                let (x, y) = (&cur[(i + 1) % w], &cur[r.below(w as u64) as usize]);
                next.push(if r.chance(1, 2) { self.b.create_node(h, x, y) } else { self.b.create_node(h, y, x) });
            }
            cur = next;
        }
        ctx.op("build-automaton");
        let h = cur.swap_remove(0);
        drop(cur);
        self.bkeep(h, false, s.a[2], ctx)
    }

    /// A weighted threshold (monotone), layer by layer.
    fn bthreshold(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let mut r = Rng::new(((s.a[0] as u64) << 32) | s.a[1] as u64);
        let k = if self.big { r.range(2, self.bn as u64) } else { r.range(2, 7) } as usize;
        // cur[j]: "j more needed"
        let mut cur: Vec<BddNode> = (0..=k).map(|j| if j == 0 { self.b.one() } else { self.b.zero() }).collect();
        for l in 0..self.bn {
            let w = r.range(1, 2) as usize;
            cur = (0..=k).map(|j| self.b.create_node(self.bh[l], &cur[j], &cur[j.saturating_sub(w)])).collect();
        }
        ctx.op("build-threshold");
        let h = cur.swap_remove(k);
        self.bkeep(h, true, s.a[2], ctx)
    }

    fn zladder(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let mut r = Rng::new(((s.a[0] as u64) << 32) | s.a[1] as u64);
        let w = if self.big { *r.pick(&WIDE[..3]) } else { r.range(2, 3) } as usize;
        let mut cur: Vec<ZddNode> = (0..w).map(|i| if i == 0 { self.z.base() } else { self.z.empty() }).collect();
        for l in 0..self.zn {
            let x = self.z.singleton(&format!("v{}", l));
            let mut next = vec![];
            for i in 0..w {
                let (lo, hi) = (cur[r.below(w as u64) as usize].clone(), cur[(i + 1) % w].clone());
                let t = self.run("product", ctx, |_| x.product(&hi));
                next.push(self.run("union", ctx, |_| lo.union(&t)));
            }
            cur = next;
        }
        let h = cur.swap_remove(0);
        drop(cur);
        self.zkeep(h, s.a[2], ctx)
    }

    fn mladder(&mut self, s: &Step, mono: bool, ctx: &mut Ctx) -> R {
        let mut r = Rng::new(((s.a[0] as u64) << 32) | s.a[1] as u64);
        let boolean = r.chance(1, 2);
        let w = if self.big && !mono { *r.pick(&WIDE) } else { r.range(2, if mono { 9 } else { 4 }) } as usize;
        let term = |m: &MssMgr<SimV>, i: usize| {
            if boolean {
                m.boolean(if mono { i + 1 == w } else { i % 2 == 1 })
            } else {
                m.value(SimV(i as i64 + 1))
            }
        };
        let mut cur: Vec<H> = (0..w).map(|i| term(&self.m, i)).collect();
        for l in 0..self.dims.len() {
            let d = self.dims[l];
            let mut next = vec![];
            let c = r.range(1, 2) as usize;
            for i in 0..w {
                let edges: Vec<H> = (0..d)
                    .map(|j| {
                        if mono {
                            cur[(i + (j + c - 1) / c).min(w - 1)].clone()
                        } else if j == 0 {
                            cur[(i + 1) % w].clone()
                        } else {
                            cur[r.below(w as u64) as usize].clone()
                        }
                    })
                    .collect();
                next.push(self.m.create_node(self.mh[l], &edges));
            }
            cur = next;
        }
        ctx.op("build-multistate");
        let h = cur.swap_remove(0);
        drop(cur);
        self.mkeep(h, mono, s.a[2], ctx)
    }

    // ------------------------------------------------------------- operations
    fn bop(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if self.bpool.is_empty() {
            return self.bladder(s, ctx);
        }
        let n = self.bpool.len();
        let (f, g, h) = (
            self.bpool[s.a[0] as usize % n].0.clone(),
            self.bpool[s.a[1] as usize % n].0.clone(),
            self.bpool[s.a[2] as usize % n].0.clone(),
        );
        let (x, y, z) = (self.bsize(&f)?, self.bsize(&g)?, self.bsize(&h)?);
        let lv = self.bn;
        let kind = s.a[3] % 12;
        if x * y / lv > self.pairs || (kind == 4 && x * y * z > if self.big { 700_000 } else { 4000 * lv * lv }) {
            return Ok(());
        }
        let mgr = f.get_mgr();
        let raw = |id: usize, ctx: &mut Ctx| ctx.event(id as u64);
        let (fi, gi) = (f.get_id(), g.get_id());
        match kind {
            0 => {
                let t = self.run("and", ctx, |_| f.and(&g));
                self.bkeep(t, false, s.a[4], ctx)?
            }
            1 => {
                let t = self.run("or", ctx, |_| f.or(&g));
                self.bkeep(t, false, s.a[4], ctx)?
            }
            2 => {
                let t = self.run("xor", ctx, |_| f.xor(&g));
                self.bkeep(t, false, s.a[4], ctx)?
            }
            3 => {
                let t = self.run("not", ctx, |_| f.not());
                self.bkeep(t, false, s.a[4], ctx)?
            }
            4 => {
                let t = self.run("ite", ctx, |_| f.ite(&g, &h));
                self.bkeep(t, false, s.a[4], ctx)?
            }
            5 => raw(self.run("imp", ctx, |_| mgr.borrow_mut().imp(fi, gi)), ctx),
            6 => raw(self.run("nand", ctx, |_| mgr.borrow_mut().nand(fi, gi)), ctx),
            7 => raw(self.run("nor", ctx, |_| mgr.borrow_mut().nor(fi, gi)), ctx),
            8 => raw(self.run("xnor", ctx, |_| mgr.borrow_mut().xnor(fi, gi)), ctx),
            9 => {
                let l = [f, g];
                let t = self.run("n-ary-and", ctx, |w| w.b.and(&l));
                self.bkeep(t, false, s.a[4], ctx)?
            }
            10 => {
                let l = [f, g];
                let t = self.run("n-ary-or", ctx, |w| w.b.or(&l));
                self.bkeep(t, false, s.a[4], ctx)?
            }
            _ => {
                let n = self.bn;
                let k = 1 + s.a[0] as usize % n;
                let hs: Vec<BddNode> = (0..n).map(|v| self.b.defvar(&format!("v{}", v))).collect();
                let t = self.run("kofn", ctx, |w| w.b.kofn(k, &hs));
                drop(hs);
                self.bkeep(t, true, s.a[4], ctx)?
            }
        }
        Ok(())
    }

    fn bquery(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if self.bpool.is_empty() {
            return self.bladder(s, ctx);
        }
        let (f, mono) = self.bpool[s.a[0] as usize % self.bpool.len()].clone();
        let pv: HashMap<String, f64> = (0..self.bn).map(|v| (format!("v{}", v), 0.5)).collect();
        let ss = [[true].as_slice(), &[false], &[true, false]][s.a[1] as usize % 3];
        match s.a[3] % 11 {
            9 | 10 => {
                // the next item, or the end, is found within the budget each time
                let ss = [[true].as_slice(), &[false], &[]][s.a[1] as usize % 3];
                let mut it = self.run("enumerate-start", ctx, |_| f.bdd_extract(ss));
                for _ in 0..6 {
                    let x = self.run("enumerate-next", ctx, |_| it.next());
                    ctx.event(x.as_ref().map_or(0, |x| x.len() as u64));
                    if x.is_none() {
                        break;
                    }
                }
            }
            0 => {
                let c = self.run("bdd_count", ctx, |_| f.bdd_count(ss));
                ctx.event(c)
            }
            1 => {
                let p: f64 = self.run("prob", ctx, |_| f.prob(&pv, ss));
                ctx.event(p.to_bits())
            }
            2 => {
                let m = self.run("bmeas", ctx, |_| f.bmeas(&pv, ss));
                ctx.event(m.len() as u64)
            }
            3 => {
                let c = self.run("size", ctx, |_| f.size());
                ctx.event(c.0)
            }
            4 => {
                let c = self.run("dot", ctx, |_| f.dot());
                ctx.event(c.len() as u64)
            }
            5 => {
                let d = self.run("dual", ctx, |_| f.dual());
                self.bkeep(d, mono, s.a[4], ctx)?
            }
            6 | 7 => {
                // non-monotone structures are refused within the budget as well
                let cut = s.a[3] % 11 == 7;
                let what = if cut { "mincut" } else { "minpath" };
                if self.bsize(&f)? > 200 {
                    return Ok(());
                }
                let z = self.run(what, ctx, |w| if cut { w.b.mincut(&f) } else { w.b.minpath(&f) });
                ctx.event(z.is_some() as u64);
                if let Some(z) = z {
                    let c = self.run("family-count", ctx, |_| z.count(&[true]));
                    ctx.event(c);
                    self.run("family-size", ctx, |_| z.size());
                    let mut it = z.extract(&[true]);
                    for _ in 0..4 {
                        let x = self.run("family-next", ctx, |_| it.next());
                        ctx.event(x.map_or(0, |x| x.len() as u64));
                    }
                }
            }
            _ => {
                let n = self.run("gc", ctx, |w| w.b.bdd().gc(&[]));
                ctx.fault("gc");
                ctx.event(n as u64)
            }
        }
        Ok(())
    }

    fn zop(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if self.zpool.is_empty() {
            return self.zladder(s, ctx);
        }
        let n = self.zpool.len();
        let (f, g) = (self.zpool[s.a[0] as usize % n].clone(), self.zpool[s.a[1] as usize % n].clone());
        if self.zsize(&f)? * self.zsize(&g)? / self.zn > self.pairs.min(16000) {
            return Ok(());
        }
        let x = self.z.singleton(&format!("v{}", s.a[2] as usize % self.zn));
        let y = self.z.singleton(&format!("v{}", s.a[4] as usize % self.zn));
        let t = match s.a[3] % 11 {
            0 => self.run("union", ctx, |_| f.union(&g)),
            1 => self.run("intersect", ctx, |_| f.intersect(&g)),
            2 => self.run("setdiff", ctx, |_| f.setdiff(&g)),
            3 => self.run("product", ctx, |_| f.product(&x)),
            4 => self.run("divide", ctx, |_| f.divide(&x)),
            5 => {
                let d = x.union(&y);
                self.run("divide", ctx, |_| f.divide(&d))
            }
            6 => {
                let c = self.run("family-count", ctx, |_| f.count(&[true]));
                ctx.event(c);
                return Ok(());
            }
            9 | 10 => {
                // the next member, or the end, is found within the budget each time
                let ss = [[true].as_slice(), &[false], &[], &[true, false]][s.a[2] as usize % 4];
                let mut it = self.run("family-enumerate-start", ctx, |_| f.extract(ss));
                for _ in 0..6 {
                    let x = self.run("family-enumerate-next", ctx, |_| it.next());
                    ctx.event(x.as_ref().map_or(0, |x| x.len() as u64));
                    if x.is_none() {
                        break;
                    }
                }
                return Ok(());
            }
            7 => {
                let c = self.run("family-size", ctx, |_| f.size());
                ctx.event(c.0);
                return Ok(());
            }
            _ => {
                let c = self.run("family-dot", ctx, |_| f.dot());
                ctx.event(c.len() as u64);
                return Ok(());
            }
        };
        self.zkeep(t, s.a[4], ctx)
    }

    fn mop(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if self.mpool.is_empty() {
            return self.mladder(s, false, ctx);
        }
        let n = self.mpool.len();
        let at = |i: usize| self.mpool[s.a[i] as usize % n].0.clone();
        let (f, g, h) = (at(0), at(1), at(2));
        let (x, y, z) = (self.msize(&f)?, self.msize(&g)?, self.msize(&h)?);
        let lv = self.dims.len();
        if x * y / lv > self.pairs * 5 / 8 {
            return Ok(());
        }
        if f.is_boolean() && g.is_boolean() == h.is_boolean() && s.a[3] % 3 == 0 {
            if x * y * z > if self.big { 700_000 } else { 2500 * lv * lv } {
                return Ok(());
            }
            let t = self.run("ite", ctx, |_| f.ite(&g, &h));
            return self.mkeep(t, false, s.a[4], ctx);
        }
        if f.is_boolean() != g.is_boolean() {
            return Ok(());
        }
        let k = s.a[3] / 3;
        let l = [f.clone(), g.clone()];
        let t = if f.is_boolean() {
            match k % 9 {
                0 => self.run("mdd-and", ctx, |_| f.and(&g)),
                1 => self.run("mdd-or", ctx, |_| f.or(&g)),
                2 => self.run("mdd-xor", ctx, |_| f.xor(&g)),
                3 => self.run("mdd-not", ctx, |_| f.not()),
                4 => self.run("mdd-eq", ctx, |_| f.eq(&g)),
                5 => self.run("mdd-ne", ctx, |_| f.ne(&g)),
                6 => self.run("mdd-n-ary-and", ctx, |w| w.m.and(&l)),
                7 => self.run("mdd-n-ary-or", ctx, |w| w.m.or(&l)),
                _ => {
                    let (m, a, b) = (f.get_mgr(), f.get_id(), g.get_id());
                    let mut m = m.borrow_mut();
                    let i = self.run("mdd-replace", ctx, |_| {
                        let d = m.mdd_mut();
                        (d.replace(a, b), d.imp(a, b), d.nand(a, b), d.nor(a, b), d.xnor(a, b))
                    });
                    ctx.event(i.0 as u64);
                    return Ok(());
                }
            }
        } else {
            match k % 14 {
                0 => self.run("add", ctx, |_| f.add(&g)),
                1 => self.run("sub", ctx, |_| f.sub(&g)),
                2 => self.run("mul", ctx, |_| f.mul(&g)),
                3 => self.run("div", ctx, |_| f.div(&g)),
                4 => self.run("min", ctx, |_| f.min(&g)),
                5 => self.run("max", ctx, |_| f.max(&g)),
                6 => self.run("eq", ctx, |_| f.eq(&g)),
                7 => self.run("ne", ctx, |_| f.ne(&g)),
                8 => self.run("lt", ctx, |_| f.lt(&g)),
                9 => self.run("le", ctx, |_| f.le(&g)),
                10 => self.run("gt", ctx, |_| f.gt(&g)),
                11 => self.run("ge", ctx, |_| f.ge(&g)),
                12 => self.run("n-ary-min", ctx, |w| w.m.min(&l)),
                _ => {
                    let (m, a, b) = (f.get_mgr(), f.get_id(), g.get_id());
                    let mut m = m.borrow_mut();
                    let i = self.run("value-replace", ctx, |_| {
                        let d = m.mtmdd_mut();
                        (d.replace(a, b), d.rem(a, b))
                    });
                    ctx.event(i.0 as u64);
                    return Ok(());
                }
            }
        };
        self.mkeep(t, false, s.a[4], ctx)
    }

    fn mquery(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if self.mpool.is_empty() {
            return self.mladder(s, true, ctx);
        }
        let (mut f, _) = self.mpool[s.a[0] as usize % self.mpool.len()].clone();
        let pv: HashMap<String, Vec<f64>> =
            self.dims.iter().enumerate().map(|(v, &k)| (format!("v{}", v), vec![1.0 / k as f64; k])).collect();
        let vals: Vec<SimV> = (0..=2).map(|i| SimV((s.a[1] as i64 + i) % 4)).collect();
        let set: HashSet<SimV> = vals.iter().cloned().collect();
        match s.a[3] % 10 {
            8 | 9 => {
                let k = s.a[1] as i64 / 4 % 12;
                let set: HashSet<SimV> = if s.a[2] % 2 == 0 { [SimV(k)].into_iter().collect() } else { set };
                let mut it = self.run("mss-enumerate-start", ctx, |_| f.mdd_extract(&set));
                for _ in 0..6 {
                    let x = self.run("mss-enumerate-next", ctx, |_| it.next());
                    ctx.event(x.as_ref().map_or(0, |x| x.len() as u64));
                    if x.is_none() {
                        break;
                    }
                }
            }
            0 => {
                let c = self.run("mdd_count", ctx, |_| f.mdd_count(&set));
                ctx.event(c)
            }
            1 => {
                let p: f64 = self.run("mss-prob", ctx, |_| f.prob(&pv, &vals));
                ctx.event(p.to_bits())
            }
            2 => {
                let m = self.run("mss-bmeas", ctx, |_| f.bmeas(&pv, &vals));
                ctx.event(m.len() as u64)
            }
            3 => {
                let c = self.run("mss-size", ctx, |_| f.size());
                ctx.event(c.0)
            }
            4 => {
                let c = self.run("mss-dot", ctx, |_| f.dot());
                ctx.event(c.len() as u64)
            }
            5 | 6 => {
                let cut = s.a[3] % 10 == 6;
                let what = if cut { "mss-mincut" } else { "mss-minpath" };
                if self.msize(&f)? > 320 {
                    return Ok(());
                }
                let z = self.run(what, ctx, |w| if cut { w.m.mincut(&f) } else { w.m.minpath(&f) });
                ctx.event(z.is_some() as u64);
                if let Some(z) = z {
                    if self.fpool.len() >= 3 {
                        let i = s.a[4] as usize % self.fpool.len();
                        self.fpool.swap_remove(i);
                    }
                    self.fpool.push(z);
                }
            }
            _ => {
                let n = self.run("mss-gc", ctx, |w| w.m.gc(&[]));
                ctx.fault("gc");
                ctx.event(n.0 as u64)
            }
        }
        Ok(())
    }

    fn family(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if self.fpool.is_empty() {
            return self.mladder(s, true, ctx);
        }
        let n = self.fpool.len();
        let (f, g) = (self.fpool[s.a[0] as usize % n].clone(), self.fpool[s.a[1] as usize % n].clone());
        let set: HashSet<SimV> = (0..12).map(SimV).collect();
        match s.a[3] % 7 {
            5 | 6 => {
                let set: HashSet<SimV> = if s.a[2] % 2 == 0 { [SimV(s.a[1] as i64 % 12)].into_iter().collect() } else { set };
                let mut it = self.run("zmdd-enumerate-start", ctx, |_| f.extract(&set));
                for _ in 0..6 {
                    let x = self.run("zmdd-enumerate-next", ctx, |_| it.next());
                    ctx.event(x.as_ref().map_or(0, |x| x.len() as u64));
                    if x.is_none() {
                        break;
                    }
                }
            }
            0 => {
                let t = self.run("zmdd-intersect", ctx, |_| f.intersect(&g));
                ctx.event(t.get_id() as u64)
            }
            1 => {
                let t = self.run("zmdd-setdiff", ctx, |_| f.setdiff(&g));
                ctx.event(t.get_id() as u64)
            }
            2 => {
                let c = self.run("zmdd-count", ctx, |_| f.count(&set));
                ctx.event(c)
            }
            3 => {
                let c = self.run("zmdd-labels", ctx, |_| f.labels());
                ctx.event(c.len() as u64)
            }
            _ => {
                let c = self.run("zmdd-dot", ctx, |_| f.dot());
                ctx.event(c.len() as u64)
            }
        }
        Ok(())
    }

    /// The same ladder as one long expression with saved sub-results.
    fn rpn(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let mut r = Rng::new(((s.a[0] as u64) << 32) | s.a[1] as u64);
        let mut e = "v0".to_string();
        for v in 1..self.bn {
            e.push_str(&format!(" v{} {}", v, r.pick(&["&", "|", "^", "^"])));
        }
        let h = self.run("rpn", ctx, |w| w.b.rpn(&e)).map_err(|m| format!("expression refused: {}", m))?;
        self.bkeep(h, false, s.a[4], ctx)
    }
}

impl World for WorkW {
    fn step(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        match s.op {
            0 => self.bladder(s, ctx),
            1 => self.bthreshold(s, ctx),
            2 => self.bop(s, ctx),
            3 => self.bquery(s, ctx),
            4 => self.zladder(s, ctx),
            5 => self.zop(s, ctx),
            6 => self.mladder(s, true, ctx),
            7 => self.mladder(s, false, ctx),
            8 => self.mop(s, ctx),
            9 => self.mquery(s, ctx),
            10 => self.family(s, ctx),
            11 => self.rpn(s, ctx),
            12 => {
                ctx.fault("cache-clear");
                if s.a[0] % 2 == 0 {
                    self.b.clear_cache();
                } else {
                    self.m.clear_cache();
                }
                Ok(())
            }
            _ => {
                ctx.fault("handle-drop");
                match s.a[0] % 3 {
                    0 => drop(self.bpool.pop()),
                    1 => drop(self.mpool.pop()),
                    _ => drop(self.zpool.pop()),
                }
                Ok(())
            }
        }
    }
    fn finish(&mut self, _: &mut Ctx) -> R {
        Ok(())
    }
}
