//! World: the default automatic collection. No threshold is set, so the four
//! handle managers (BDD, ZDD, MDD, ZMDD) collect at their built-in floor; runs
//! are long enough to cross it several times with a few large handles kept.
use crate::core::*;
use crate::engines::{bview, mview, vview, zmview, zview};
use crate::ensure;
use crate::ops::*;
use crate::space::*;
use bss::prelude::{BddNode, BssMgr, ZddMgr, ZddNode};
use mddcore::mtmdd2::Node as N2;
use mss::prelude::{MddNode, MssMgr, ZmddNode};

type H = MddNode<SimV>;
type F = ZmddNode<SimV>;
const FLOOR: usize = 1 << 16;
const ZRULE: Rule = Rule::Suppress(U);

struct V<G: Fn(usize) -> R<View>>(G);
impl<G: Fn(usize) -> R<View>> Forest for V<G> {
    fn view(&self, id: usize) -> R<View> {
        (self.0)(id)
    }
}

/// Number of nodes reachable from `roots`.
fn reach(roots: &[usize], view: impl Fn(usize) -> R<View>) -> R<usize> {
    let mut seen: Vec<bool> = vec![];
    let mut todo: Vec<usize> = roots.to_vec();
    let mut n = 0;
    while let Some(i) = todo.pop() {
        if i >= seen.len() {
            seen.resize((i + 1).next_power_of_two(), false);
        }
        if !seen[i] {
            seen[i] = true;
            n += 1;
            if let View::Node { edges, .. } = view(i)? {
                todo.extend(edges);
            }
        }
    }
    Ok(n)
}

/// What is known about one arena.
#[derive(Default)]
struct Arena {
    live: usize,
    rmax: usize,
    gcs: u64,
}

impl Arena {
    /// `reach` reads the set reachable from all handles alive now.
    fn observe(&mut self, name: &str, live: usize, reach: impl FnOnce() -> R<usize>, ctx: &mut Ctx) -> R {
        let dropped = live < self.live;
        ctx.max_live = ctx.max_live.max(live as u64);
        if dropped {
            ctx.fault(match name {
                "BDD" => "auto-gc-at-default-floor-bdd",
                "ZDD" => "auto-gc-at-default-floor-zdd",
                "MDD" => "auto-gc-at-default-floor-mdd",
                _ => "auto-gc-at-default-floor-zmdd",
            });
            self.gcs += 1;
        }
        if ctx.on(GC) && (dropped || (live > FLOOR / 2 && live != self.live)) {
            let r = reach()?;
            self.rmax = self.rmax.max(r);
            ctx.check("auto-gc-bound");
            let bound = FLOOR.max(2 * self.rmax);
            ensure!(live <= bound, "{}: {} live nodes exceed the bound {} (reachable {}, at most {})", name, live, bound, r, self.rmax);
            if dropped {
                ctx.check("gc-exact");
                ensure!(live == r, "{}: after automatic collection {} nodes are alive, {} reachable", name, live, r);
            }
        }
        self.live = live;
        Ok(())
    }
}

pub struct FloorW {
    b: BssMgr,
    bsp: Space,
    bvars: Vec<usize>,
    bpool: Vec<(BddNode, Vec<i64>)>,
    ba: Arena,
    z: ZddMgr,
    zpool: Vec<(ZddNode, Vec<i64>)>,
    za: Arena,
    m: MssMgr<SimV>,
    msp: Space,
    mvars: Vec<(u8, usize)>,
    mpool: Vec<(H, Vec<i64>, Vec<i64>)>,
    ma: Arena,
    fpool: Vec<(F, Vec<i64>)>,
    fa: Arena,
    cap: usize,
}

fn key(h: &H) -> (u8, usize) {
    match h.get_node() {
        N2::Bool(x) => (0, x),
        N2::Value(x) => (1, x),
    }
}

pub fn gen_floor(rng: &mut Rng, cfg: &Cfg) -> Vec<Step> {
    // one family of steps dominates a run, so that its floor is crossed
    let main = rng.below(4) as u16;
    (0..cfg.get("steps"))
        .map(|_| {
            let op = match rng.below(20) {
                0 => rng.below(3) as u16,
                1..=3 if main == 3 => 6,
                4..=7 if main == 3 => 2,
                _ if main == 3 => 7,
                1..=2 => 3 + main,
                3 if main == 2 => 6,
                4..=8 if main == 2 => 7,
                9..=11 if main == 2 => 6,
                4..=6 => 3 + main,
                _ => main,
            };
            let mut a = [0u32; 5];
            for x in &mut a {
                *x = rng.next() as u32;
            }
            Step { op, a }
        })
        .collect()
}

impl FloorW {
    pub fn new(cfg: &Cfg) -> Self {
        let mut r = Rng::new(cfg.get("lay"));
        let bn = cfg.us("bn").clamp(6, 26);
        let mn = cfg.us("mn").clamp(3, 9);
        let bsp = Space::sampled(vec![2; bn], 30, &mut r);
        let msp = Space::sampled(vec![3; mn], 30, &mut r);
        let (mut b, mut z, mut m) = (BssMgr::new(), ZddMgr::new(), MssMgr::new());
        let bvars = (0..bn).map(|v| b.defvar(&format!("v{}", v)).get_id()).collect();
        for v in 0..bn {
            z.singleton(&format!("v{}", v));
        }
        let mvars = (0..mn).map(|v| key(&m.defvar(&format!("v{}", v), 3))).collect();
        let (bl, zl, ml) = (b.bdd().live_node_count(), z.live_node_count(), m.live_node_count());
        FloorW {
            b,
            bsp,
            bvars,
            bpool: vec![],
            ba: Arena { live: bl, rmax: 0, gcs: 0 },
            z,
            zpool: vec![],
            za: Arena { live: zl, rmax: 0, gcs: 0 },
            m,
            msp,
            mvars,
            mpool: vec![],
            ma: Arena { live: ml, rmax: 0, gcs: 0 },
            fpool: vec![],
            fa: Arena::default(),
            cap: cfg.us("cap").clamp(1, 8),
        }
    }

    fn perm(&self, s: &Step, n: usize) -> (Rng, Vec<usize>) {
        let mut r = Rng::new(((s.a[0] as u64) << 32) | s.a[1] as u64);
        let mut v: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            v.swap(i, r.below(i as u64 + 1) as usize);
        }
        // pairs between the two halves of the order make the diagrams large
        if r.chance(2, 3) {
            let (lo, hi): (Vec<usize>, Vec<usize>) = v.iter().partition(|&&x| x < n / 2);
            v = lo.iter().zip(&hi).flat_map(|(a, b)| [*a, *b]).chain(hi.get(lo.len()).copied()).collect();
        }
        (r, v)
    }

    // ------------------------------------------------------------------- BDD
    fn bsee(&mut self, tmp: &[&BddNode], ctx: &mut Ctx) -> R {
        let n = self.bsp.dims.len();
        let live = self.b.bdd().live_node_count();
        let (pool, vars) = (&self.bpool, &self.bvars);
        self.ba.observe(
            "BDD",
            live,
            || {
                let m = tmp[0].get_mgr();
                let m = m.borrow();
                let mut r: Vec<usize> = pool.iter().map(|p| p.0.get_id()).chain(tmp.iter().map(|t| t.get_id())).collect();
                r.extend(vars);
                r.extend([m.zero(), m.one(), m.undet()]);
                Ok(reach(&r, |i| bview(&m, i, n))?)
            },
            ctx,
        )
    }
    fn beval(&self, h: &BddNode) -> R<Vec<i64>> {
        let n = self.bsp.dims.len();
        let m = h.get_mgr();
        let m = m.borrow();
        let g = Graph::read(&V(|i| bview(&m, i, n)), &[h.get_id()], &self.bsp.dims)?;
        Ok(g.eval(h.get_id(), &self.bsp, Rule::Merge))
    }
    /// A disjunction of conjunctions (or exclusive-ors) of pairs in a random order.
    fn bbuild(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let n = self.bsp.dims.len();
        let (mut r, p) = self.perm(s, n);
        ctx.op("floor-bdd");
        let mut acc = self.b.zero();
        let mut t = self.bsp.constant(0);
        for c in p.chunks(2).filter(|c| c.len() == 2) {
            let (x, y) = (self.b.defvar(&format!("v{}", c[0])), self.b.defvar(&format!("v{}", c[1])));
            let (tx, ty) = (self.bsp.var(c[0]), self.bsp.var(c[1]));
            let xor = r.chance(1, 3);
            let q = if xor { x.xor(&y) } else { x.and(&y) };
            self.bsee(&[&acc, &x, &y, &q], ctx)?;
            let old = acc;
            acc = if xor { old.xor(&q) } else { old.or(&q) };
            self.bsee(&[&acc, &old, &x, &y, &q], ctx)?;
            for i in 0..t.len() {
                t[i] = if xor { t[i] ^ tx[i] ^ ty[i] } else { t[i] | (tx[i] & ty[i]) };
            }
        }
        let got = self.beval(&acc)?;
        ctx.event(hash_i64s(&got));
        ctx.state(hash_i64s(&got) ^ acc.get_id() as u64);
        ctx.check("result-at-samples");
        ensure!(got == t, "pairs evaluate wrongly after many collections");
        if self.bpool.len() >= self.cap {
            let i = s.a[2] as usize % self.bpool.len();
            self.bpool.swap_remove(i);
            ctx.fault("handle-drop");
        }
        if s.a[3] % 3 != 0 {
            self.bpool.push((acc, t));
        }
        Ok(())
    }
    fn bcombine(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if self.bpool.len() < 2 {
            return self.bbuild(s, ctx);
        }
        ctx.op("floor-bdd-combine");
        let n = self.bpool.len();
        let (f, tf) = self.bpool[s.a[0] as usize % n].clone();
        let (g, tg) = self.bpool[s.a[1] as usize % n].clone();
        if f.size().0 * g.size().0 > 4_000_000 {
            return Ok(());
        }
        let k = s.a[2] % 3;
        let h = match k {
            0 => f.and(&g),
            1 => f.or(&g),
            _ => f.not(),
        };
        self.bsee(&[&f, &g, &h], ctx)?;
        let t: Vec<i64> = (0..tf.len())
            .map(|i| match k {
                0 => tf[i] & tg[i],
                1 => tf[i] | tg[i],
                _ => 1 - tf[i],
            })
            .collect();
        let got = self.beval(&h)?;
        ctx.event(hash_i64s(&got));
        ensure!(got == t, "combination evaluates wrongly after many collections");
        if s.a[3] % 2 == 0 && h.size().0 < 3000 {
            if self.bpool.len() >= self.cap {
                self.bpool.swap_remove(s.a[4] as usize % n);
                ctx.fault("handle-drop");
            }
            self.bpool.push((h, t));
        }
        Ok(())
    }

    // ------------------------------------------------------------------- ZDD
    fn zsee(&mut self, tmp: &[&ZddNode], ctx: &mut Ctx) -> R {
        let n = self.bsp.dims.len();
        let live = self.z.live_node_count();
        let pool = &self.zpool;
        self.za.observe(
            "ZDD",
            live,
            || {
                let m = tmp[0].get_mgr();
                let m = m.borrow();
                let mut r: Vec<usize> = pool.iter().map(|p| p.0.get_id()).chain(tmp.iter().map(|t| t.get_id())).collect();
                r.extend([m.zero(), m.one(), m.undet()]);
                Ok(reach(&r, |i| zview(&m, i, n))?)
            },
            ctx,
        )
    }
    fn zeval(&self, h: &ZddNode) -> R<Vec<i64>> {
        let n = self.bsp.dims.len();
        let m = h.get_mgr();
        let m = m.borrow();
        let g = Graph::read(&V(|i| zview(&m, i, n)), &[h.get_id()], &self.bsp.dims)?;
        Ok(g.eval(h.get_id(), &self.bsp, Rule::Suppress(0)))
    }
    /// All unions of disjoint pairs: each pair is entirely in or out.
    fn zbuild(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let n = self.bsp.dims.len();
        let (mut r, p) = self.perm(s, n);
        ctx.op("floor-zdd");
        let mut acc = self.z.base();
        let mut t = self.bsp.constant(1);
        let k = r.range(8, 13) as usize;
        for (j, c) in p.chunks(2).filter(|c| c.len() == 2).enumerate() {
            let (tx, ty) = (self.bsp.var(c[0]), self.bsp.var(c[1]));
            if j >= k {
                for i in 0..t.len() {
                    t[i] &= (1 - tx[i]) & (1 - ty[i]);
                }
                continue;
            }
            let x = self.z.singleton(&format!("v{}", c[0]));
            self.zsee(&[&acc, &x], ctx)?;
            let y = self.z.singleton(&format!("v{}", c[1]));
            self.zsee(&[&acc, &x, &y], ctx)?;
            let q = x.product(&y);
            self.zsee(&[&acc, &x, &y, &q], ctx)?;
            let old = acc;
            let more = old.product(&q);
            self.zsee(&[&old, &x, &y, &q, &more], ctx)?;
            acc = old.union(&more);
            self.zsee(&[&old, &x, &y, &q, &more, &acc], ctx)?;
            for i in 0..t.len() {
                t[i] &= (tx[i] == ty[i]) as i64;
            }
        }
        if n % 2 == 1 {
            let tx = self.bsp.var(p[n - 1]);
            for i in 0..t.len() {
                t[i] &= 1 - tx[i];
            }
        }
        let got = self.zeval(&acc)?;
        ctx.event(hash_i64s(&got));
        ctx.state(hash_i64s(&got) ^ acc.get_id() as u64);
        ensure!(got == t, "family of pair unions is wrong after many collections");
        ensure!(acc.count(&[true]) == 1 << k.min(n / 2), "family of pair unions has {} members", acc.count(&[true]));
        if self.zpool.len() >= self.cap {
            let i = s.a[2] as usize % self.zpool.len();
            self.zpool.swap_remove(i);
            ctx.fault("handle-drop");
        }
        if s.a[3] % 3 != 0 {
            self.zpool.push((acc, t));
        }
        Ok(())
    }
    fn zcombine(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if self.zpool.len() < 2 {
            return self.zbuild(s, ctx);
        }
        ctx.op("floor-zdd-combine");
        let n = self.zpool.len();
        let (f, tf) = self.zpool[s.a[0] as usize % n].clone();
        let (g, tg) = self.zpool[s.a[1] as usize % n].clone();
        let k = s.a[2] % 3;
        let h = match k {
            0 => f.intersect(&g),
            1 => f.union(&g),
            _ => f.setdiff(&g),
        };
        self.zsee(&[&f, &g, &h], ctx)?;
        let t: Vec<i64> = (0..tf.len())
            .map(|i| match k {
                0 => tf[i] & tg[i],
                1 => tf[i] | tg[i],
                _ => tf[i] & (1 - tg[i]),
            })
            .collect();
        let got = self.zeval(&h)?;
        ctx.event(hash_i64s(&got));
        ensure!(got == t, "combined family is wrong after many collections");
        if s.a[3] % 2 == 0 && h.size().0 < 3000 {
            if self.zpool.len() >= self.cap {
                self.zpool.swap_remove(s.a[4] as usize % n);
                ctx.fault("handle-drop");
            }
            self.zpool.push((h, t));
        }
        Ok(())
    }

    // ------------------------------------------------------------- MDD, ZMDD
    fn msee(&mut self, tmp: &[&H], ctx: &mut Ctx) -> R {
        let n = self.msp.dims.len();
        let live = self.m.live_node_count();
        let (pool, vars) = (&self.mpool, &self.mvars);
        self.ma.observe(
            "MDD",
            live,
            || {
                let m = tmp[0].get_mgr();
                let m = m.borrow();
                let all: Vec<(u8, usize)> =
                    pool.iter().map(|p| key(&p.0)).chain(tmp.iter().map(|t| key(t))).chain(vars.iter().copied()).collect();
                let of = |k: u8| all.iter().filter(move |x| x.0 == k).map(|x| x.1).collect::<Vec<usize>>();
                let (mut b, mut v) = (of(0), of(1));
                b.extend([m.mdd().zero(), m.mdd().one(), m.mdd().undet()]);
                v.push(m.mtmdd().undet());
                Ok(reach(&b, |i| mview(m.mdd(), i, n))?
                    + reach(&v, |i| vview(m.mtmdd(), i, n))?)
            },
            ctx,
        )
    }
    fn meval(&self, h: &H) -> R<Vec<i64>> {
        let n = self.msp.dims.len();
        let m = h.get_mgr();
        let m = m.borrow();
        let (_, id) = key(h);
        let g = Graph::read(&V(|i| vview(m.mtmdd(), i, n)), &[id], &self.msp.dims)?;
        Ok(g.eval(id, &self.msp, Rule::Merge))
    }
    fn fsee(&mut self, tmp: &[&F], ctx: &mut Ctx) -> R {
        let n = self.msp.dims.len();
        let z = tmp[0].get_mgr();
        let live = z.borrow().live_node_count();
        let pool = &self.fpool;
        self.fa.observe(
            "ZMDD",
            live,
            || {
                let m = z.borrow();
                let mut r: Vec<usize> = pool.iter().map(|p| p.0.get_id()).chain(tmp.iter().map(|t| t.get_id())).collect();
                r.push(m.undet());
                Ok(reach(&r, |i| zmview(&m, i, n))?)
            },
            ctx,
        )
    }
    fn feval(&self, h: &F) -> R<Vec<i64>> {
        let n = self.msp.dims.len();
        let m = h.get_mgr();
        let m = m.borrow();
        let g = Graph::read(&V(|i| zmview(&m, i, n)), &[h.get_id()], &self.msp.dims)?;
        Ok(g.eval(h.get_id(), &self.msp, ZRULE))
    }
    /// A weighted sum whose values are all different: every vector is the only
    /// minimal (and maximal) one of its value.
    fn mbuild(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let n = self.msp.dims.len();
        let (_, p) = self.perm(s, n);
        ctx.op("floor-mdd");
        let mut w: Vec<i64> = p.iter().map(|&e| 3i64.pow(e as u32)).collect();
        if let (true, Some(q)) = (s.a[3] % 2 == 0, self.mpool.iter().find(|q| !q.2.is_empty())) {
            // like an earlier one, so that the two agree on many vectors
            w = q.2.clone();
            w.swap(s.a[0] as usize % n, s.a[1] as usize % n);
        }
        let mut acc = self.m.value(SimV(0));
        self.msee(&[&acc], ctx)?;
        for v in 0..n {
            let x = self.m.defvar(&format!("v{}", v), 3);
            let c = self.m.value(SimV(w[v]));
            let q = x.mul(&c);
            self.msee(&[&acc, &x, &c, &q], ctx)?;
            let old = acc;
            acc = old.add(&q);
            self.msee(&[&old, &acc, &x, &c, &q], ctx)?;
        }
        let t: Vec<i64> = self.msp.points.iter().map(|p| (0..n).map(|v| p[v] as i64 * w[v]).sum()).collect();
        let got = self.meval(&acc)?;
        ctx.event(hash_i64s(&got));
        ctx.state(hash_i64s(&got) ^ acc.get_id() as u64);
        ensure!(got == t, "weighted sum evaluates wrongly after many collections");
        if self.mpool.len() >= self.cap {
            let i = s.a[2] as usize % self.mpool.len();
            self.mpool.swap_remove(i);
            ctx.fault("handle-drop");
        }
        self.mpool.push((acc, t, w));
        Ok(())
    }
    fn mcombine(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if self.mpool.is_empty() {
            return self.mbuild(s, ctx);
        }
        ctx.op("floor-mdd-combine");
        let n = self.mpool.len();
        let (f, tf, _) = self.mpool[s.a[0] as usize % n].clone();
        let (g, tg, _) = self.mpool[s.a[1] as usize % n].clone();
        let h = if s.a[2] % 2 == 0 { f.min(&g) } else { f.max(&g) };
        self.msee(&[&f, &g, &h], ctx)?;
        let t: Vec<i64> = (0..tf.len()).map(|i| if s.a[2] % 2 == 0 { tf[i].min(tg[i]) } else { tf[i].max(tg[i]) }).collect();
        let got = self.meval(&h)?;
        ctx.event(hash_i64s(&got));
        ensure!(got == t, "minimum or maximum evaluates wrongly after many collections");
        if s.a[3] % 2 == 0 {
            if self.mpool.len() >= self.cap {
                self.mpool.swap_remove(s.a[4] as usize % n);
                ctx.fault("handle-drop");
            }
            self.mpool.push((h, t, vec![]));
        }
        Ok(())
    }
    fn fbuild(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if self.mpool.is_empty() {
            return self.mbuild(s, ctx);
        }
        // only sums have known minimal vectors
        let Some((f, _, w)) = self.mpool.iter().cycle().skip(s.a[0] as usize % self.mpool.len()).take(self.mpool.len()).find(|p| !p.2.is_empty()).cloned() else {
            return self.mbuild(s, ctx);
        };
        let n = w.len();
        let cut = s.a[1] % 2 == 1;
        ctx.op(if cut { "floor-mincut" } else { "floor-minpath" });
        let z = if cut { self.m.mincut(&f) } else { self.m.minpath(&f) };
        let Some(z) = z else { return Err("a weighted sum is called non-monotone".into()) };
        self.ma.live = self.m.live_node_count(); // these calls need not collect the MDD manager
        self.fsee(&[&z], ctx)?;
        let t: Vec<i64> = self
            .msp
            .points
            .iter()
            .map(|p| (0..n).map(|v| if cut { 2 - p[v] as i64 } else { p[v] as i64 } * w[v]).sum())
            .collect();
        let got = self.feval(&z)?;
        ctx.event(hash_i64s(&got));
        ctx.state(hash_i64s(&got) ^ z.get_id() as u64);
        ensure!(got == t, "minimal vectors of a weighted sum are wrong after many collections");
        if self.fpool.len() >= self.cap {
            let i = s.a[2] as usize % self.fpool.len();
            self.fpool.swap_remove(i);
            ctx.fault("handle-drop");
        }
        if s.a[3] % 3 != 0 {
            self.fpool.push((z, t));
        }
        Ok(())
    }
    fn fcombine(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if self.fpool.len() < 2 {
            return self.fbuild(s, ctx);
        }
        ctx.op("floor-zmdd-combine");
        let n = self.fpool.len();
        let (i, j) = (s.a[0] as usize % n, s.a[1] as usize % n);
        // another family, if there is one
        let j = (j..j + n).map(|x| x % n).find(|&x| self.fpool[x].0.get_id() != self.fpool[i].0.get_id()).unwrap_or(j);
        let (f, tf) = self.fpool[i].clone();
        let (g, tg) = self.fpool[j].clone();
        for k in 0..3 {
            let k = (k + s.a[2]) % 3;
            let (h, t): (F, Vec<i64>) = match k {
                0 => (f.intersect(&g), (0..tf.len()).map(|i| if tf[i] == tg[i] { tf[i] } else { U }).collect()),
                1 => (f.setdiff(&g), (0..tf.len()).map(|i| if tf[i] != tg[i] { tf[i] } else { U }).collect()),
                _ => (g.setdiff(&f), (0..tf.len()).map(|i| if tf[i] != tg[i] { tg[i] } else { U }).collect()),
            };
            self.fsee(&[&f, &g, &h], ctx)?;
            let got = self.feval(&h)?;
            ctx.event(hash_i64s(&got));
            ensure!(got == t, "combined vector family is wrong after many collections");
            if s.a[3] >> k & 1 == 0 {
                if self.fpool.len() >= self.cap {
                    let n = self.fpool.len();
                    self.fpool.swap_remove((s.a[4] as usize >> k) % n);
                    ctx.fault("handle-drop");
                }
                self.fpool.push((h, t));
            }
        }
        Ok(())
    }

    fn stable(&mut self, ctx: &mut Ctx) -> R {
        for (h, t) in &self.bpool {
            ctx.check("handle-stable");
            ensure!(self.beval(h)? == *t, "BDD handle {} changed its meaning", h.get_id());
        }
        for (h, t) in &self.zpool {
            ctx.check("handle-stable");
            ensure!(self.zeval(h)? == *t, "ZDD handle {} changed its meaning", h.get_id());
        }
        for (h, t, _) in &self.mpool {
            ctx.check("handle-stable");
            ensure!(self.meval(h)? == *t, "MDD handle {} changed its meaning", h.get_id());
        }
        for (h, t) in &self.fpool {
            ctx.check("handle-stable");
            ensure!(self.feval(h)? == *t, "ZMDD handle {} changed its meaning", h.get_id());
        }
        Ok(())
    }
}

impl World for FloorW {
    fn step(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let gcs = |w: &Self| w.ba.gcs + w.za.gcs + w.ma.gcs + w.fa.gcs;
        let before = gcs(self);
        match s.op {
            0 => self.bbuild(s, ctx)?,
            1 => self.zbuild(s, ctx)?,
            2 => self.fbuild(s, ctx)?,
            3 => self.bcombine(s, ctx)?,
            4 => self.zcombine(s, ctx)?,
            5 => self.mcombine(s, ctx)?,
            6 => self.mbuild(s, ctx)?,
            _ => self.fcombine(s, ctx)?,
        }
        if gcs(self) != before || s.a[4] % 16 == 0 {
            self.stable(ctx)?;
        }
        Ok(())
    }
    fn finish(&mut self, ctx: &mut Ctx) -> R {
        self.stable(ctx)
    }
}
