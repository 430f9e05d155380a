//! World: a standalone manager of set families (bss::ZddMgr).
use crate::core::*;
use crate::ensure;
use crate::space::*;
use crate::zpart::*;
use bss::prelude::ZddMgr;
use std::rc::Rc;

pub const SINGLE: u16 = 0;
pub const SETS: u16 = 1;
pub const BASE: u16 = 2;
pub const BIN: u16 = 3;
pub const DROP: u16 = 4;
pub const CLONE: u16 = 5;
pub const THRESH: u16 = 6;
pub const CLEAR: u16 = 7;
pub const QUERY: u16 = 8;
pub const EXTRACT: u16 = 9;
pub const ADVANCE: u16 = 10;
pub const CUT: u16 = 11;
pub const CHECK: u16 = 12;
pub const META_: u16 = 13;

pub struct ZddW {
    pub mgr: ZddMgr,
    pub z: ZPart,
    declared: Vec<usize>,
    thr: usize,
}

impl ZddW {
    pub fn new(cfg: &Cfg) -> Self {
        let n = cfg.us("nvars").clamp(1, 9);
        let space = Rc::new(Space::full(vec![2; n]));
        let mgr = ZddMgr::new();
        let mut z = ZPart::new(space, cfg.us("cap").max(4));
        if cfg.on("thr0") {
            mgr.set_gc_threshold(cfg.us("thr0"));
            z.floor = cfg.us("thr0");
        }
        ZddW { mgr, z, declared: vec![], thr: cfg.us("thr").max(1) }
    }

    fn declare(&mut self, v: usize) {
        if !self.declared.contains(&v) {
            self.declared.push(v);
        }
    }

    fn levels(&self, ctx: &mut Ctx) -> R {
        if !ctx.on(META) {
            return Ok(());
        }
        for p in &self.z.pool {
            if let Some(l) = p.h.get_label() {
                ctx.check("level");
                let v = parse_var(&l, self.z.space.dims.len())?;
                let want = self.declared.iter().position(|&d| d == v);
                ensure!(p.h.get_level() == want, "element {} is on level {:?}, expected {:?}", l, p.h.get_level(), want);
            }
        }
        ensure!(self.mgr.size().0 == self.declared.len(), "{} elements declared, {} headers", self.declared.len(), self.mgr.size().0);
        Ok(())
    }
}

impl World for ZddW {
    fn step(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let n = self.z.space.dims.len();
        self.z.pre(&self.mgr);
        match s.op {
            SINGLE => {
                let v = s.a[0] as usize % n;
                self.declare(v);
                ctx.op("singleton");
                ctx.note(|| format!("singleton v{}", v));
                let h = self.mgr.singleton(&vname(v));
                let mut t = self.z.space.constant(0);
                t[1 << v] = 1;
                self.z.accept(&self.mgr, h, Some(t), 0, s.a[4], "singleton", ctx)?;
            }
            SETS => {
                let mut r = Rng::new(((s.a[0] as u64) << 32) | s.a[1] as u64);
                let mut t = self.z.space.constant(0);
                let mut sets: Vec<Vec<String>> = vec![];
                let mut slack = n + 3;
                for _ in 0..r.below(7) {
                    let mut m = 0usize;
                    let mut set = vec![];
                    for _ in 0..r.below(n as u64 + 1) {
                        let v = r.below(n as u64) as usize;
                        self.declare(v);
                        m |= 1 << v;
                        set.push(vname(v));
                    }
                    slack += set.len() + 1;
                    t[m] = 1;
                    sets.push(set);
                }
                ctx.op("from_sets");
                ctx.note(|| format!("from_sets {:?}", sets));
                let h = self.mgr.from_sets(&sets);
                self.z.accept(&self.mgr, h, Some(t), slack, s.a[4], "from_sets", ctx)?;
            }
            BASE => {
                let one = s.a[0] % 2 == 1;
                ctx.op("constant-family");
                let h = match (one, s.a[1] % 2) {
                    (true, 0) => self.mgr.base(),
                    (true, _) => self.mgr.one(),
                    (false, 0) => self.mgr.empty(),
                    (false, _) => self.mgr.zero(),
                };
                let mut t = self.z.space.constant(0);
                t[0] = one as i64;
                self.z.accept(&self.mgr, h, Some(t), 0, s.a[4], "constant family", ctx)?;
            }
            BIN => self.z.binop(&self.mgr, s, false, ctx)?,
            CUT => self.z.binop(&self.mgr, s, true, ctx)?,
            DROP => {
                if !self.z.pool.is_empty() {
                    ctx.op("drop");
                    let i = s.a[0] as usize % self.z.pool.len();
                    self.z.drop_at(i, ctx)?;
                }
            }
            CLONE => {
                let z = &mut self.z;
                if !z.pool.is_empty() && z.pool.len() < z.cap {
                    ctx.op("clone");
                    let i = s.a[0] as usize % z.pool.len();
                    crowd(&z.pool[i].h, s.a[3], ctx);
                    let (h, t) = (z.pool[i].h.clone(), z.pool[i].t.clone());
                    z.pool.push(ZEnt { h, t });
                }
            }
            THRESH => {
                ctx.fault("gc-threshold-change");
                let t = s.a[0] as usize % (self.thr * 4);
                self.mgr.set_gc_threshold(t);
                self.z.floor = t;
            }
            CLEAR => {
                ctx.fault("cache-clear");
                for _ in 0..=storm(s.a[3], ctx) {
                    self.mgr.clear_cache();
                }
                if ctx.on(LOSS) {
                    ctx.check("cache-cleared");
                    let n = self.mgr.size().2;
                    ensure!(n == 0, "{} remembered results right after the caches were cleared", n);
                }
            }
            QUERY => self.z.queries(s, ctx)?,
            EXTRACT => self.z.start_iter(s, ctx)?,
            ADVANCE => self.z.advance(s, ctx)?,
            META_ => self.levels(ctx)?,
            _ => self.z.check_all(ctx)?,
        }
        if ctx.events % 4 == 0 {
            let mut h = 0u64;
            for p in &self.z.pool {
                h = h.wrapping_add(mix(hash_i64s(&p.t) ^ ((p.h.get_id() as u64) << 20)));
            }
            ctx.state(h);
        }
        Ok(())
    }
    fn fingerprint(&self) -> u64 {
        let mut v: Vec<i64> = self.z.pool.iter().map(|p| p.h.get_id() as i64).collect();
        let b = self.mgr.size();
        v.extend([b.0, b.1, self.mgr.live_node_count()].map(|x| x as i64));
        hash_i64s(&v)
    }

    fn finish(&mut self, ctx: &mut Ctx) -> R {
        self.z.check_all(ctx)?;
        self.levels(ctx)?;
        while !self.z.iters.is_empty() {
            self.z.advance(&Step { op: ADVANCE, a: [0, 11, 1, 0, 0] }, ctx)?;
        }
        Ok(())
    }
}

pub fn gen_zdd(rng: &mut Rng, cfg: &Cfg) -> Vec<Step> {
    let w = [
        (SINGLE, 10),
        (SETS, 10),
        (BASE, 3),
        (BIN, 40),
        (DROP, rng.below(10)),
        (CLONE, rng.below(4)),
        (THRESH, cfg.get("w_thr")),
        (CLEAR, cfg.get("w_clear")),
        (QUERY, cfg.get("w_enum").max(cfg.get("w_meta")).max(cfg.get("w_dot"))),
        (EXTRACT, cfg.get("w_enum") / 2 + 1),
        (ADVANCE, cfg.get("w_enum") + 2),
        (CUT, cfg.get("w_cut")),
        (CHECK, 2),
        (META_, cfg.get("w_meta")),
    ];
    let tot: u64 = w.iter().map(|x| x.1).sum();
    (0..cfg.us("steps"))
        .map(|i| {
            let mut x = rng.below(tot);
            let mut op = BIN;
            if i < 3 {
                op = if i == 0 { SETS } else { SINGLE };
            } else {
                for &(o, k) in &w {
                    if x < k {
                        op = o;
                        break;
                    }
                    x -= k;
                }
            }
            Step { op, a: [rng.next() as u32, rng.next() as u32, rng.next() as u32, rng.next() as u32, rng.next() as u32] }
        })
        .collect()
}
