//! World 1: one raw engine, a pool of kept nodes, explicit collections.
use crate::core::*;
use crate::dot::*;
use crate::engines::*;
use crate::ensure;
use crate::ops::*;
use crate::space::*;
use std::rc::Rc;

pub const HEADER: u16 = 0;
pub const CONST: u16 = 1;
pub const NODE: u16 = 2;
pub const OP: u16 = 3;
pub const DROP: u16 = 4;
pub const GCC: u16 = 5;
pub const CLEAR: u16 = 6;
pub const CUTOP: u16 = 7;
pub const CHECK: u16 = 8;
pub const DOTS: u16 = 9;
pub const DOTBAD: u16 = 10;
pub const VAR: u16 = 11;
pub const BURST: u16 = 12;
pub const BADCALL: u16 = 13;

pub struct Ent {
    pub id: Id,
    pub t: Rc<Vec<i64>>,
}

pub struct Core<E: Engine> {
    pub e: E,
    pub space: Rc<Space>,
    levels: Vec<usize>,
    headers: Vec<Option<usize>>,
    declared: Vec<usize>,
    order: Vec<usize>,
    pool: Vec<Ent>,
    cap: usize,
    ops: Vec<Op>,
    undet: bool,
    wild: bool,
    max_nodes: usize,
    slots: Vec<usize>,
    pub log: Vec<u64>,
    gcs: u64,
}

/// Geometric-ish small number from raw bits.
pub fn geo(x: u32, max: u64) -> u64 {
    let z = (x >> 8).leading_zeros().saturating_sub(8) as u64; // 0 with p=1/2, ...
    let hi = (max >> z.min(16)).max(1);
    1 + (x as u64) % hi
}

impl<E: Engine> Core<E> {
    pub fn new(cfg: &Cfg) -> Self {
        let n = cfg.us("nvars").max(1);
        let mut lay = Rng::new(cfg.get("lay"));
        let dims: Vec<usize> = (0..n)
            .map(|_| if E::BINARY { 2 } else { lay.range(2, cfg.get("maxdim").max(2)) as usize })
            .collect();
        let full = cfg.get("sampled") == 0;
        let space = if full {
            // keep the table small whatever the configuration says
            let mut d = dims;
            while d.iter().product::<usize>() > 4096 {
                d.pop();
            }
            Space::full(d)
        } else {
            Space::sampled(dims, cfg.us("sampled").max(8), &mut lay)
        };
        let n = space.dims.len();
        // levels: a permutation, optionally with gaps
        let mut levels: Vec<usize> = vec![0; n];
        let mut perm: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            perm.swap(i, lay.below(i as u64 + 1) as usize);
        }
        let gap = cfg.get("gap");
        let mut l = lay.below(gap + 1) as usize;
        for &v in &perm {
            levels[v] = l;
            l += 1 + lay.below(gap + 1) as usize;
        }
        let mut order: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            order.swap(i, lay.below(i as u64 + 1) as usize);
        }
        let mask = cfg.get("mask");
        let mut ops: Vec<Op> =
            E::OPS.iter().enumerate().filter(|(i, _)| mask == 0 || mask >> (i % 60) & 1 == 1).map(|(_, o)| *o).collect();
        if ops.is_empty() {
            ops = E::OPS.to_vec();
        }
        let mut w = Core {
            e: E::new(),
            space: Rc::new(space),
            levels,
            headers: vec![None; n],
            declared: vec![],
            order,
            pool: vec![],
            cap: cfg.us("cap").max(4),
            ops,
            undet: cfg.on("undet"),
            wild: cfg.on("wild"),
            max_nodes: if full { usize::MAX } else { 1500 },
            slots: vec![],
            log: vec![],
            gcs: 0,
        };
        for _ in 0..cfg.us("v0").max(1) {
            w.declare();
        }
        w.slots = w.e.arenas().iter().map(|a| a.0).collect();
        w
    }

    fn n(&self) -> usize {
        self.space.dims.len()
    }

    fn declare(&mut self) {
        let k = self.declared.len();
        if k < self.n() {
            let v = self.order[k];
            let h = self.e.header(self.levels[v], &vname(v), self.space.dims[v]);
            self.headers[v] = Some(h);
            self.declared.push(v);
        }
    }

    fn val(&self, kind: u8, a: u32) -> i64 {
        if self.undet && a % 7 == 0 {
            return U;
        }
        let a = a / 7;
        if kind == 0 {
            return (a % 2) as i64;
        }
        if self.wild {
            let xs = [0, 1, -1, 2, i32::MAX as i64, i32::MIN as i64, i32::MAX as i64 - 1, 65536, -65535, 7];
            if a % 3 != 0 {
                return xs[(a / 3) as usize % xs.len()];
            }
            return ((a.wrapping_mul(2654435761)) as i32) as i64;
        }
        (a % 9) as i64 - 2
    }

    pub fn observe(&self, id: Id) -> R<(Graph, Vec<i64>)> {
        let g = Graph::read(&At(&self.e, id.0, self.n()), &[id.1], &self.space.dims)?;
        let t = g.eval(id.1, &self.space, E::rule(id.0));
        Ok((g, t))
    }

    fn accept(&mut self, id: Id, want: Option<Vec<i64>>, evict: u32, what: &str, ctx: &mut Ctx) -> R {
        let (g, got) = self.observe(id).map_err(|e| format!("{}: {}", what, e))?;
        if let Some(w) = &want {
            if ctx.on(FUNC) {
                ctx.check("result-vs-model");
                compare(&self.space, &got, w).map_err(|e| format!("{} {}", what, e))?;
            }
        }
        let h = hash_i64s(&got);
        ctx.event(h);
        self.log.push(h);
        if ctx.on(CANON) {
            ctx.check("identity");
            for p in &self.pool {
                if p.id.0 != id.0 {
                    continue;
                }
                if p.id.1 == id.1 {
                    ensure!(*p.t == got, "{}: node {} now stands for two functions", what, id.1);
                } else if self.space.full {
                    ensure!(*p.t != got, "{}: nodes {} and {} are equal but distinct", what, p.id.1, id.1);
                }
            }
            g.canonical(E::rule(id.0)).map_err(|e| format!("{}: {}", what, e))?;
        }
        if g.nodes.len() > self.max_nodes {
            return Ok(());
        }
        self.put(Ent { id, t: Rc::new(got) }, evict, ctx)
    }

    fn put(&mut self, e: Ent, evict: u32, ctx: &mut Ctx) -> R {
        if self.pool.len() >= self.cap {
            self.drop_at(evict as usize % self.pool.len(), ctx)?;
        }
        self.pool.push(e);
        Ok(())
    }

    fn drop_at(&mut self, i: usize, ctx: &mut Ctx) -> R {
        self.verify(i, ctx)?;
        self.pool.swap_remove(i);
        Ok(())
    }

    fn verify(&self, i: usize, ctx: &mut Ctx) -> R {
        ctx.check("kept-node-stable");
        let p = &self.pool[i];
        let (_, t) = self.observe(p.id).map_err(|e| format!("kept node {}: {}", p.id.1, e))?;
        ensure!(t == *p.t, "kept node {} of {} changed its meaning", p.id.1, E::NAME);
        Ok(())
    }

    pub fn check_all(&self, ctx: &mut Ctx) -> R {
        for (ki, &k) in E::KINDS.iter().enumerate() {
            let roots: Vec<usize> = self.pool.iter().filter(|p| p.id.0 == k).map(|p| p.id.1).collect();
            let g = Graph::read(&At(&self.e, k, self.n()), &roots, &self.space.dims)?;
            let _ = ki;
            for p in self.pool.iter().filter(|p| p.id.0 == k) {
                ctx.check("kept-node-stable");
                let t = g.eval(p.id.1, &self.space, E::rule(k));
                ensure!(t == *p.t, "kept node {} of {} changed its meaning", p.id.1, E::NAME);
            }
            if ctx.on(CANON) {
                ctx.check("canonical-forest");
                g.canonical(E::rule(k))?;
            }
        }
        Ok(())
    }

    fn reachable(&self, ki: usize) -> R<usize> {
        let k = E::KINDS[ki];
        let mut roots: Vec<usize> = self.pool.iter().filter(|p| p.id.0 == k).map(|p| p.id.1).collect();
        roots.extend(self.e.permanent(k));
        Ok(Graph::read(&At(&self.e, k, self.n()), &roots, &self.space.dims)?.nodes.len())
    }

    fn gc(&mut self, dup: u32, again: u32, ctx: &mut Ctx) -> R {
        let mut roots: Vec<Id> = self.pool.iter().map(|p| p.id).collect();
        if dup % 3 == 0 {
            let r = roots.clone();
            roots.extend(r.iter().rev());
        }
        if dup % 5 == 0 {
            for &k in E::KINDS {
                roots.extend(self.e.permanent(k).into_iter().map(|x| (k, x)));
            }
        }
        for _ in 0..storm(again, ctx) {
            self.e.gc(&roots);
        }
        let ret = self.e.gc(&roots);
        self.gcs += 1;
        ctx.fault("explicit-gc");
        self.check_all(ctx)?;
        if ctx.on(GC) {
            let ar = self.e.arenas();
            for (ki, &(slots, live)) in ar.iter().enumerate() {
                ctx.check("gc-exact");
                let want = self.reachable(ki)?;
                ensure!(live == want, "after gc {} nodes are alive, {} are reachable ({})", live, want, E::NAME);
                ensure!(
                    ret[ki] == slots - live,
                    "gc reported {} reclaimed slots, {} are free ({})",
                    ret[ki],
                    slots - live,
                    E::NAME
                );
            }
            let tot: usize = ar.iter().map(|a| a.1).sum();
            ensure!(self.e.total_live() == tot, "live_node_count {} differs from the sum {}", self.e.total_live(), tot);
        }
        Ok(())
    }

    fn arenas(&mut self, ctx: &mut Ctx) -> R {
        let ar = self.e.arenas();
        for (ki, &(slots, live)) in ar.iter().enumerate() {
            ctx.max_live = ctx.max_live.max(live as u64);
            if ctx.on(GC) && slots > self.slots[ki] {
                ctx.check("growth-only-when-full");
                ensure!(
                    live == slots,
                    "arena grew from {} to {} slots although {} slots are free ({})",
                    self.slots[ki],
                    slots,
                    slots - live,
                    E::NAME
                );
            }
            self.slots[ki] = slots;
        }
        Ok(())
    }

    fn operand(&self, kind: u8, raw: u32) -> Option<usize> {
        let c: Vec<usize> = (0..self.pool.len()).filter(|&i| self.pool[i].id.0 == kind).collect();
        if c.is_empty() {
            None
        } else {
            Some(c[raw as usize % c.len()])
        }
    }

    fn do_op(&mut self, s: &Step, cut: bool, ctx: &mut Ctx) -> R {
        let op = self.ops[s.a[0] as usize % self.ops.len()];
        let (sig, _) = op.sig();
        let mut ix = vec![];
        for (j, &k) in sig.iter().enumerate() {
            match self.operand(k, s.a[1 + j]) {
                Some(i) => ix.push(i),
                None => return Ok(()),
            }
        }
        if op == Op::ZDivide && !self.pool[ix[1]].t.iter().any(|&x| x == 1) {
            return Ok(());
        }
        let k = if op == Op::MBaseline { self.val(1, s.a[4] / 7 * 7 + 1) } else { s.a[4] as i64 };
        let ids: Vec<Id> = ix.iter().map(|&i| self.pool[i].id).collect();
        let want = {
            let ts: Vec<&[i64]> = ix.iter().map(|&i| self.pool[i].t.as_slice()).collect();
            op.spec(&ts, &self.space, k)
        };
        ctx.op(op.name());
        ctx.note(|| format!("{}{} {:?} k={}", if cut { "cut? " } else { "" }, op.name(), ids, k));
        if cut {
            let before = fault_counts();
            FAULTS.with(|f| {
                let mut f = f.borrow_mut();
                if E::KINDS.contains(&1) && s.a[4] & 1 == 1 {
                    f.arith_in = geo(s.a[4], 64);
                } else {
                    f.cut_in = geo(s.a[4], 256);
                }
            });
            let e = &mut self.e;
            let r = maybe_cut(|| e.apply(op, &ids, k));
            let after = fault_counts();
            ctx.faults_n("cut-at-memo-access", after.2 - before.2);
            ctx.faults_n("value-arithmetic-panic", after.3 - before.3);
            match r {
                None => {
                    ctx.event(3);
                    return self.check_all(ctx);
                }
                Some(id) => return self.accept(id, Some(want), s.a[4], op.name(), ctx),
            }
        }
        let id = self.e.apply(op, &ids, k);
        ensure!(id.0 == op.sig().1, "{} returned the wrong kind of node", op.name());
        self.accept(id, Some(want), s.a[4], op.name(), ctx)
    }

    fn make_node(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let v = self.declared[s.a[0] as usize % self.declared.len()];
        let k = E::KINDS[s.a[1] as usize % E::KINDS.len()];
        let lv = self.levels[v];
        let below: Vec<usize> = (0..self.pool.len())
            .filter(|&i| {
                self.pool[i].id.0 == k
                    && self.e.level(self.pool[i].id).map_or(true, |l| l < lv)
            })
            .collect();
        if below.is_empty() {
            return Ok(());
        }
        let d = self.space.dims[v];
        if matches!(E::rule(k), Rule::Suppress(_)) && !self.space.full {
            return Ok(());
        }
        let mut r = Rng::new(((s.a[2] as u64) << 32) | s.a[3] as u64);
        // mostly few distinct children, so that sharing and reductions happen
        let few: Vec<usize> = (0..2).map(|_| below[r.below(below.len() as u64) as usize]).collect();
        let ch: Vec<usize> = (0..d)
            .map(|_| if r.chance(1, 2) { few[r.below(2) as usize] } else { below[r.below(below.len() as u64) as usize] })
            .collect();
        let ids: Vec<usize> = ch.iter().map(|&i| self.pool[i].id.1).collect();
        let sp = self.space.clone();
        let want: Vec<i64> = sp
            .points
            .iter()
            .enumerate()
            .map(|(i, p)| {
                let x = p[v] as usize;
                match E::rule(k) {
                    Rule::Merge => self.pool[ch[x]].t[i],
                    Rule::Suppress(_) => self.pool[ch[x]].t[i - x * sp.strides[v]],
                }
            })
            .collect();
        ctx.op("create_node");
        ctx.note(|| format!("create_node v{} {:?}", v, ids));
        let id = self.e.node(self.headers[v].unwrap(), k, &ids);
        self.accept(id, Some(want), s.a[4], "create_node", ctx)
    }

    fn constant(&mut self, k: u8, v: i64, evict: u32, ctx: &mut Ctx) -> R {
        ctx.op("constant");
        ctx.note(|| format!("constant {}", show(v)));
        let id = self.e.constant(k, v);
        // Under suppression a terminal is the family holding only the all-zero vector.
        let want = match E::rule(k) {
            Rule::Merge => self.space.constant(v),
            Rule::Suppress(d) => {
                let mut t = self.space.constant(d);
                if self.space.full {
                    t[0] = v;
                }
                t
            }
        };
        self.accept(id, Some(want), evict, "constant", ctx)
    }

    /// The plain variable: value x (or bit x, or {x = 1}) of one variable.
    fn variable(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let v = self.declared[s.a[0] as usize % self.declared.len()];
        let k = E::KINDS[s.a[1] as usize % E::KINDS.len()];
        let d = self.space.dims[v];
        let vals: Vec<i64> = (0..d)
            .map(|x| match (k, E::rule(k)) {
                (0, _) if E::BINARY => x as i64,
                (0, _) => ((s.a[2] >> (x % 16)) & 1) as i64,
                (_, Rule::Suppress(_)) if x == 0 && s.a[3] % 2 == 0 => U,
                _ => {
                    if self.wild && s.a[3] % 3 == 0 {
                        self.val(1, s.a[2].wrapping_mul(x as u32 + 3) | 1)
                    } else {
                        x as i64
                    }
                }
            })
            .collect();
        let ids: Vec<usize> = vals.iter().map(|&x| self.e.constant(k, x).1).collect();
        let sp = self.space.clone();
        let want: Vec<i64> = sp
            .points
            .iter()
            .map(|p| match E::rule(k) {
                Rule::Merge => vals[p[v] as usize],
                Rule::Suppress(dv) => {
                    if p.iter().enumerate().all(|(i, &x)| i == v || x == 0) {
                        vals[p[v] as usize]
                    } else {
                        dv
                    }
                }
            })
            .collect();
        ctx.op("variable");
        ctx.note(|| format!("variable v{} as {:?}", v, vals));
        let id = self.e.node(self.headers[v].unwrap(), k, &ids);
        self.accept(id, Some(want), s.a[4], "variable", ctx)
    }

    fn dot(&mut self, s: &Step, bad: bool, ctx: &mut Ctx) -> R {
        if self.pool.is_empty() {
            return Ok(());
        }
        let p = &self.pool[s.a[0] as usize % self.pool.len()];
        let (id, t) = (p.id, p.t.clone());
        let mut plain: Vec<u8> = vec![];
        self.e.dot(id, &mut plain);
        ctx.op("dot");
        if ctx.on(DOT) {
            ctx.check("dot-graph");
            let text = String::from_utf8(plain.clone()).map_err(|_| "DOT output is not UTF-8".to_string())?;
            let (g, _) = self.observe(id)?;
            check_dot(&text, &g, id.1, &self.space, E::rule(id.0), &t)?;
            let mut w = ShortWriter { out: vec![], rng: Rng::new(s.a[1] as u64), k: 1 + s.a[2] as u64 % 7, shorts: 0, intr: 0 };
            self.e.dot(id, &mut w);
            ctx.faults_n("short-write", w.shorts);
            ctx.faults_n("interrupted-write", w.intr);
            ensure!(w.out == plain, "DOT output through a slow writer differs");
        }
        if bad {
            let left = s.a[3] as usize % (plain.len() + 1);
            let mut w = FailWriter { left, zero: s.a[2] % 4 == 0 };
            let e = &self.e;
            let r = may_panic(|| e.dot(id, &mut w));
            ctx.fault("failing-writer");
            if ctx.on(DOT) && left < plain.len() {
                ensure!(r.is_err(), "DOT output to a failing writer was silently lost");
            }
            self.check_all(ctx)?;
        }
        Ok(())
    }
}

impl<E: Engine> World for Core<E> {
    fn step(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        match s.op {
            HEADER => {
                ctx.op("header");
                self.declare();
            }
            CONST => {
                let k = E::KINDS[s.a[0] as usize % E::KINDS.len()];
                let mut v = self.val(k, s.a[1]);
                if E::NAME == "zdd" && v == U {
                    v = 1;
                }
                self.constant(k, v, s.a[4], ctx)?
            }
            VAR => self.variable(s, ctx)?,
            NODE => self.make_node(s, ctx)?,
            OP => self.do_op(s, false, ctx)?,
            CUTOP => self.do_op(s, true, ctx)?,
            BURST => {
                // many operations in a row whose results are dropped at once
                let mut r = Rng::new(((s.a[0] as u64) << 32) | s.a[1] as u64);
                for _ in 0..s.a[2] % 12 {
                    let t = Step { op: OP, a: [r.next() as u32, r.next() as u32, r.next() as u32, r.next() as u32, u32::MAX] };
                    let before = self.pool.len();
                    self.do_op(&t, false, ctx)?;
                    if self.pool.len() > before {
                        self.pool.pop();
                    }
                }
            }
            DROP => {
                if !self.pool.is_empty() {
                    ctx.op("drop");
                    self.drop_at(s.a[0] as usize % self.pool.len(), ctx)?;
                }
            }
            GCC => {
                ctx.op("gc");
                ctx.note(|| "gc".into());
                self.gc(s.a[0], s.a[3], ctx)?
            }
            CLEAR => {
                ctx.op("clear_cache");
                ctx.fault("cache-clear");
                ctx.note(|| "clear_cache".into());
                for _ in 0..=storm(s.a[3], ctx) {
                    self.e.clear();
                }
                if ctx.on(LOSS) {
                    ctx.check("cache-cleared");
                    let n = self.e.cached();
                    ensure!(n == 0, "{} remembered results right after the caches were cleared", n);
                }
            }
            CHECK => self.check_all(ctx)?,
            DOTS => self.dot(s, false, ctx)?,
            DOTBAD => self.dot(s, true, ctx)?,
            BADCALL => {
                if let Some(r) = self.e.bad_call(&self.pool.iter().map(|p| p.id).collect::<Vec<_>>(), s.a[0]) {
                    ctx.fault(if r.is_err() { "invalid-request-panic" } else { "invalid-request" });
                    self.check_all(ctx)?;
                }
            }
            _ => {}
        }
        self.arenas(ctx)?;
        if ctx.events % 4 == 0 {
            let mut h = 0u64;
            for p in &self.pool {
                h = h.wrapping_add(mix(hash_i64s(&p.t) ^ p.id.1 as u64));
            }
            ctx.state(h);
        }
        Ok(())
    }

    fn fingerprint(&self) -> u64 {
        let mut v: Vec<i64> = self.pool.iter().map(|p| ((p.id.0 as i64) << 40) | p.id.1 as i64).collect();
        for (s, l) in self.e.arenas() {
            v.push(s as i64);
            v.push(l as i64);
        }
        hash_i64s(&v)
    }

    fn finish(&mut self, ctx: &mut Ctx) -> R {
        self.check_all(ctx)?;
        if ctx.on(GC) {
            self.gc(1, 3, ctx)?;
            self.pool.clear();
            self.gc(1, 3, ctx)?;
        }
        Ok(())
    }
}

/// Seeded schedule for a raw-engine world.
pub fn gen_core(rng: &mut Rng, cfg: &Cfg) -> Vec<Step> {
    let n = cfg.us("steps").max(1);
    let w: [(u16, u64); 13] = [
        (HEADER, 2),
        (CONST, 3 + rng.below(3)),
        (VAR, 6 + rng.below(8)),
        (NODE, rng.below(10)),
        (OP, 40),
        (DROP, rng.below(12)),
        (GCC, cfg.get("w_gc")),
        (CLEAR, cfg.get("w_clear")),
        (CUTOP, cfg.get("w_cut")),
        (CHECK, 1),
        (DOTS, cfg.get("w_dot")),
        (DOTBAD, cfg.get("w_dotbad")),
        (BURST, cfg.get("w_burst")),
    ];
    let mut w = w.to_vec();
    w.push((BADCALL, cfg.get("w_bad")));
    let tot: u64 = w.iter().map(|x| x.1).sum();
    (0..n)
        .map(|i| {
            let mut x = rng.below(tot);
            let mut op = OP;
            if i < 3 {
                op = if i == 0 { CONST } else { VAR };
            } else {
                for &(o, ww) in &w {
                    if x < ww {
                        op = o;
                        break;
                    }
                    x -= ww;
                }
            }
            Step { op, a: [rng.next() as u32, rng.next() as u32, rng.next() as u32, rng.next() as u32, rng.next() as u32] }
        })
        .collect()
}

/// The same schedule on an undisturbed engine and on one whose memo tables are
/// hostile; every result must be the same function.
pub struct Twin<E: Engine> {
    a: Core<E>,
    b: Core<E>,
    actx: Ctx,
    fb: Seam,
}

impl<E: Engine> Twin<E> {
    pub fn new(cfg: &Cfg, seed: u64) -> Self {
        arm(0, 0, 0, 0, 0);
        let a = Core::new(cfg);
        let fb = Seam::new(seed, cfg);
        fb.enter();
        let b = Core::new(cfg);
        let fb = Seam::leave();
        Twin { a, b, actx: Ctx::new(0), fb }
    }
}

impl<E: Engine> World for Twin<E> {
    fn step(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        arm(0, 0, 0, 0, 0);
        if s.op != CLEAR {
            self.actx.step = ctx.step;
            self.a.step(s, &mut self.actx).map_err(|e| format!("undisturbed run: {}", e))?;
        }
        std::mem::take(&mut self.fb).enter();
        let r = self.b.step(s, ctx);
        self.fb = Seam::leave();
        r?;
        ctx.check("twin-results");
        ensure!(
            self.a.log == self.b.log,
            "result {} differs between the undisturbed run and the run with lossy memo tables",
            self.a.log.iter().zip(&self.b.log).position(|(x, y)| x != y).unwrap_or(self.a.log.len().min(self.b.log.len()))
        );
        Ok(())
    }
    fn finish(&mut self, ctx: &mut Ctx) -> R {
        self.a.check_all(ctx)?;
        let r = self.b.finish(ctx);
        std::mem::take(&mut self.fb).enter();
        r
    }
}
