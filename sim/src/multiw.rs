//! World: several managers used in an interleaving chosen by the scheduler.
//! Each task is a whole simulated user of one manager; afterwards every task is
//! repeated alone and must have seen exactly the same results, node identities
//! and statistics at every one of its steps.
use crate::core::*;
use crate::ensure;
use crate::props;
use bss::prelude::{BssMgr, ZddMgr};
use mss::prelude::MssMgr;
use crate::ops::SimV;
use std::collections::{HashMap, HashSet};

struct Task {
    plan: Plan,
    world: Box<dyn World>,
    ctx: Ctx,
    seam: Seam,
    done: Vec<usize>,
    prints: Vec<u64>,
}

const TASK_ORACLES: u32 = FUNC | META;

fn fresh(plan: &Plan) -> (Box<dyn World>, Ctx, Seam) {
    let w = props::build(plan).expect("task world");
    (w, Ctx::new(TASK_ORACLES), Seam::leave())
}

impl Task {
    fn new(plan: Plan) -> Self {
        let (world, ctx, seam) = fresh(&plan);
        Task { plan, world, ctx, seam, done: vec![], prints: vec![] }
    }

    fn run(&mut self, i: usize) -> R {
        let s = self.plan.steps[i];
        std::mem::take(&mut self.seam).enter();
        self.ctx.step = self.done.len();
        let r = self.world.step(&s, &mut self.ctx);
        self.seam = Seam::leave();
        r?;
        self.done.push(i);
        self.prints.push(mix(self.ctx.digest ^ self.world.fingerprint()));
        Ok(())
    }
}

pub struct MultiW {
    tasks: Vec<Task>,
}

impl MultiW {
    pub fn new(cfg: &Cfg, seed: u64) -> Self {
        let mut r = Rng::new(cfg.get("lay"));
        let kinds = [
            "bss", "mss", "zdd", "bss", "mss", "core-bdd", "core-zdd", "core-mdd", "core-mt", "core-mt2", "core-zm",
        ];
        let k = r.range(2, 4);
        let mut tasks: Vec<Task> = vec![];
        for i in 0..k {
            // sometimes the same kind and even the same plan as the first task
            let mut t = if i > 0 && r.chance(1, 3) {
                tasks[0].plan.clone()
            } else {
                let world = *r.pick(&kinds);
                let mut c = props::swarm("C20", world, &mut r);
                c.set("names", cfg.get("names")); // one naming per simulated process
                c.set("steps", cfg.get("steps").max(10));
                c.set("sampled", 0);
                let steps = props::steps(world, &mut r, &c);
                Plan { prop: "C20".into(), world: world.into(), seed: seed ^ i, cfg: c, steps }
            };
            if cfg.on("thr0") && t.cfg.on("thr0") {
                t.cfg.set("thr0", cfg.get("thr0"));
            }
            tasks.push(Task::new(t));
        }
        arm(0, 0, 0, 0, 0);
        MultiW { tasks }
    }

    /// A manager that disappears under its handles, clones and iterators.
    fn orphans(&self, s: &Step, ctx: &mut Ctx) -> R {
        let mut r = Rng::new(((s.a[0] as u64) << 32) | s.a[1] as u64);
        ctx.fault("manager-dropped-under-handles");
        ctx.check("orphans");
        let n = r.range(1, 5) as usize;
        match s.a[2] % 3 {
            0 => {
                let mut m = BssMgr::new();
                if r.chance(1, 2) {
                    m.bdd().set_gc_threshold(1 + r.below(16) as usize);
                }
                let mut hs: Vec<_> = (0..n).map(|i| m.defvar(&format!("v{}", i))).collect();
                for _ in 0..r.below(6) {
                    let (a, b) = (r.below(hs.len() as u64) as usize, r.below(hs.len() as u64) as usize);
                    let x = if r.chance(1, 2) { hs[a].and(&hs[b]) } else { hs[a].or(&hs[b]) };
                    hs.push(x);
                }
                let last = hs.last().unwrap().clone();
                let mut it = last.bdd_extract(&[true, false]);
                let first = it.next();
                let z = m.minpath(&last);
                let zit = z.as_ref().map(|z| z.extract(&[true]));
                drop(m);
                let c: Vec<_> = hs.iter().map(|h| h.clone()).collect();
                let zc = z.clone();
                ensure!(c.iter().zip(&hs).all(|(a, b)| a.get_id() == b.get_id()), "a clone of an orphaned handle differs");
                ensure!(first.is_some() || n == 0, "no assignment at all");
                let orders = r.next();
                if orders & 1 == 0 {
                    drop(hs);
                    drop(it);
                    drop(c);
                } else {
                    drop(c);
                    drop(hs);
                    drop(it);
                }
                drop(zit);
                drop(z);
                drop(zc);
            }
            1 => {
                let mut m: MssMgr<SimV> = MssMgr::new();
                if r.chance(1, 2) {
                    m.set_gc_threshold(1 + r.below(16) as usize);
                }
                let mut hs: Vec<_> = (0..n).map(|i| m.defvar(&format!("v{}", i), 2 + i % 3)).collect();
                for _ in 0..r.below(6) {
                    let (a, b) = (r.below(hs.len() as u64) as usize, r.below(hs.len() as u64) as usize);
                    let x = if r.chance(1, 2) { hs[a].add(&hs[b]) } else { hs[a].max(&hs[b]) };
                    hs.push(x);
                }
                let last = hs.last().unwrap().clone();
                let ss: HashSet<SimV> = (0..4).map(SimV).collect();
                let mut it = last.mdd_extract(&ss);
                let _ = it.next();
                let z = m.minpath(&last);
                let zit = z.as_ref().map(|z| z.extract(&ss));
                drop(m);
                let c: Vec<_> = hs.iter().map(|h| h.clone()).collect();
                let zc = z.clone();
                if r.chance(1, 2) {
                    drop(hs);
                    drop(c);
                } else {
                    drop(c);
                    drop(hs);
                }
                drop(it);
                drop(zit);
                drop(z);
                drop(zc);
            }
            _ => {
                let mut m = ZddMgr::new();
                if r.chance(1, 2) {
                    m.set_gc_threshold(1 + r.below(16) as usize);
                }
                let mut hs: Vec<_> = (0..n).map(|i| m.singleton(&format!("v{}", i))).collect();
                for _ in 0..r.below(6) {
                    let (a, b) = (r.below(hs.len() as u64) as usize, r.below(hs.len() as u64) as usize);
                    let x = if r.chance(1, 2) { hs[a].union(&hs[b]) } else { hs[a].product(&hs[b]) };
                    hs.push(x);
                }
                let mut it = hs.last().unwrap().extract(&[true]);
                let _ = it.next();
                drop(m);
                let c: Vec<_> = hs.iter().map(|h| h.clone()).collect();
                drop(hs);
                drop(it);
                drop(c);
            }
        }
        Ok(())
    }

    /// Handles of two managers must not be confused by ids that coincide.
    fn redeclare(&self, s: &Step, ctx: &mut Ctx) -> R {
        ctx.op("redeclare");
        ctx.check("stable-variables");
        let mut r = Rng::new(((s.a[0] as u64) << 32) | s.a[1] as u64);
        let mut a = BssMgr::new();
        let mut b = BssMgr::new();
        let mut order: Vec<String> = vec![];
        let mut ids: HashMap<String, (usize, usize)> = HashMap::new();
        for _ in 0..r.range(1, 12) {
            let l = format!("v{}", r.below(6));
            let (x, y) = (a.defvar(&l), b.defvar(&l));
            if !order.contains(&l) {
                order.push(l.clone());
            }
            let e = *ids.entry(l.clone()).or_insert((x.get_id(), y.get_id()));
            ensure!(e == (x.get_id(), y.get_id()), "declaring {} again gave another variable", l);
            ensure!(x.get_label() == Some(l.clone()), "variable {} is labelled {:?}", l, x.get_label());
            ensure!(
                x.get_level() == order.iter().position(|o| *o == l),
                "variable {} is on level {:?}",
                l,
                x.get_level()
            );
            ensure!(a.get_varorder() == b.get_varorder(), "equal histories, different orders");
        }
        Ok(())
    }
}

impl World for MultiW {
    fn step(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        match s.op {
            0 => {
                let t = s.a[0] as usize % self.tasks.len();
                let m = self.tasks[t].plan.steps.len();
                if m == 0 {
                    return Ok(());
                }
                ctx.op("task-step");
                ctx.fault("task-switch");
                let i = s.a[1] as usize % m;
                ctx.note(|| format!("task {} ({}) runs its step {}", t, self.tasks[t].plan.world, i));
                if ctx.trace.is_some() {
                    self.tasks[t].ctx.trace = Some(vec![]);
                }
                let r = self.tasks[t].run(i);
                if let Some(tr) = self.tasks[t].ctx.trace.take() {
                    for l in tr {
                        ctx.note(|| l);
                    }
                }
                r.map_err(|e| format!("task {} ({}): {}", t, self.tasks[t].plan.world, e))?;
                let p = *self.tasks[t].prints.last().unwrap();
                ctx.event(p);
                ctx.state(p);
            }
            1 => self.orphans(s, ctx)?,
            _ => self.redeclare(s, ctx)?,
        }
        Ok(())
    }

    fn finish(&mut self, ctx: &mut Ctx) -> R {
        for (i, t) in self.tasks.iter().enumerate() {
            let (mut w, mut c, seam) = fresh(&t.plan);
            seam.enter();
            for (j, &k) in t.done.iter().enumerate() {
                c.step = j;
                w.step(&t.plan.steps[k], &mut c).map_err(|e| format!("task {} alone: {}", i, e))?;
                ctx.check("solo-vs-interleaved");
                ensure!(
                    t.prints[j] == mix(c.digest ^ w.fingerprint()),
                    "task {} ({}) behaves differently alone than beside other managers, from its step {} on",
                    i,
                    t.plan.world,
                    j
                );
            }
            for (k, n) in &c.ops {
                *ctx.ops.entry(k).or_insert(0) += n;
            }
            for (k, n) in &c.faults {
                *ctx.faults.entry(k).or_insert(0) += n;
            }
            Seam::leave();
        }
        Ok(())
    }
}

pub fn gen_multi(rng: &mut Rng, cfg: &Cfg) -> Vec<Step> {
    let burst = rng.range(1, 6);
    let mut v = vec![];
    let mut task = 0u32;
    let mut pos = [0u32; 12];
    while v.len() < cfg.us("steps").max(1) {
        if rng.chance(1, burst) {
            task = rng.below(12) as u32;
        }
        let p = &mut pos[task as usize];
        let x = rng.below(60);
        let op = if x == 0 {
            1
        } else if x == 1 {
            2
        } else {
            0
        };
        let a = if op == 0 { [task, *p, 0, 0, 0] } else { [rng.next() as u32, rng.next() as u32, rng.next() as u32, 0, 0] };
        if op == 0 {
            *p += 1;
        }
        v.push(Step { op, a });
    }
    v
}
