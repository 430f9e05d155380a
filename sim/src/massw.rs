//! World: whole forests at scale, node by node. A shadow forest (what was
//! created, as plain data) predicts every node identity, which slots a
//! collection frees, and what survives it; thousands of nodes are created,
//! dropped and recycled per step.
use crate::core::*;
use crate::engines::*;
use crate::ensure;
use crate::ops::*;
use crate::space::*;
use std::collections::HashMap;

enum Slot {
    None,
    Term(i64),
    Node(u32, Box<[u32]>),
}

struct Shadow {
    k: u8,
    boolean: bool,
    slots: Vec<Slot>,
    uniq: HashMap<(u32, Box<[u32]>), u32>,
    vals: HashMap<i64, u32>,
    /// live ids: terminals first, then by level
    by_level: Vec<Vec<u32>>,
}

impl Shadow {
    fn add(&mut self, id: usize, lv: usize, s: Slot) {
        while self.slots.len() <= id {
            self.slots.push(Slot::None);
        }
        self.slots[id] = s;
        self.by_level[lv].push(id as u32);
    }
    fn live(&self) -> usize {
        self.by_level.iter().map(|l| l.len()).sum()
    }
}

pub struct MassW<E: Engine> {
    e: E,
    space: Space,
    hs: Vec<usize>,
    kinds: Vec<Shadow>,
    spread: u64,
    cap: usize,
    slots: Vec<usize>,
    over: bool,
}

pub fn gen_mass(rng: &mut Rng, cfg: &Cfg) -> Vec<Step> {
    (0..cfg.get("steps"))
        .map(|_| {
            let mut a = [0u32; 5];
            for x in &mut a {
                *x = rng.next() as u32;
            }
            let op = match rng.below(10) {
                0..=3 => 0,
                4..=6 => 1,
                7 => 2,
                8 => 3,
                _ => 4,
            };
            Step { op, a }
        })
        .collect()
}

impl<E: Engine> MassW<E> {
    pub fn new(cfg: &Cfg) -> Self {
        let mut r = Rng::new(cfg.get("lay"));
        let n = cfg.us("n").clamp(1, 12);
        let dims: Vec<usize> =
            (0..n).map(|_| if E::BINARY { 2 } else { r.range(2, cfg.get("d").clamp(2, 6)) as usize }).collect();
        let mut e = E::new();
        // headers may be declared in any order
        let mut order: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            order.swap(i, r.below(i as u64 + 1) as usize);
        }
        let mut hs = vec![0; n];
        for v in order {
            hs[v] = e.header(v, &format!("v{}", v), dims[v]);
        }
        let space = Space::sampled(dims, 12, &mut r);
        let mut kinds = vec![];
        for &k in E::KINDS {
            let p = e.permanent(k);
            let mut s = Shadow {
                k,
                boolean: p.len() == 3,
                slots: vec![],
                uniq: HashMap::new(),
                vals: HashMap::new(),
                by_level: vec![vec![]; n + 1],
            };
            let vals = if p.len() == 3 { vec![0, 1, U] } else { vec![U] };
            for v in vals {
                let id = e.constant(k, v);
                s.add(id.1, 0, Slot::Term(v));
                s.vals.insert(v, id.1 as u32);
            }
            kinds.push(s);
        }
        let slots = e.arenas().iter().map(|a| a.0).collect();
        MassW { e, space, hs, kinds, spread: cfg.get("spread").max(2), cap: cfg.us("cap").max(100), slots, over: false }
    }


    fn view_is(&self, ki: usize, id: u32) -> R {
        let k = self.kinds[ki].k;
        let v = self.e.view(k, id as usize, self.hs.len())?;
        let ok = match (&v, &self.kinds[ki].slots[id as usize]) {
            (View::Term(a), Slot::Term(b)) => a == b,
            (View::Node { var, level, edges }, Slot::Node(l, ch)) => {
                *var == *l as usize && *level == *l as usize && edges.len() == ch.len() && edges.iter().zip(ch.iter()).all(|(a, b)| *a == *b as usize)
            }
            _ => false,
        };
        ensure!(ok, "node {} of {} is not the node that was created under this id", id, E::NAME);
        Ok(())
    }

    fn growth(&mut self, ctx: &mut Ctx) -> R {
        for (ki, (slots, live)) in self.e.arenas().into_iter().enumerate() {
            ctx.max_live = ctx.max_live.max(live as u64);
            if ctx.on(GC) && slots > self.slots[ki] {
                ensure!(
                    live == slots,
                    "arena grew from {} to {} slots although {} are free ({})",
                    self.slots[ki],
                    slots,
                    slots - live,
                    E::NAME
                );
            }
            self.slots[ki] = slots;
        }
        Ok(())
    }

    fn identity(&mut self, ctx: &mut Ctx, msg: impl FnOnce() -> String) -> R {
        if ctx.on(CANON) {
            return Err(msg());
        }
        // another property's business: nothing more can be predicted in this run
        self.over = true;
        Ok(())
    }

    fn constant(&mut self, ki: usize, v: i64, ctx: &mut Ctx) -> R<u32> {
        let k = self.kinds[ki].k;
        let id = self.e.constant(k, v).1 as u32;
        match self.kinds[ki].vals.get(&v).copied() {
            Some(x) if x == id => {}
            Some(x) => self.identity(ctx, || format!("value {} is node {} and again node {} ({})", v, x, id, E::NAME))?,
            None => self.fresh(ki, id, 0, Slot::Term(v), ctx)?,
        }
        Ok(id)
    }

    fn fresh(&mut self, ki: usize, id: u32, lv: usize, s: Slot, ctx: &mut Ctx) -> R {
        let sh = &mut self.kinds[ki];
        if !matches!(sh.slots.get(id as usize), None | Some(Slot::None)) {
            let same = match (&sh.slots[id as usize], &s) {
                (Slot::Term(a), Slot::Term(b)) => a == b,
                (Slot::Node(l, c), Slot::Node(m, d)) => l == m && c == d,
                _ => false,
            };
            ensure!(same, "a new node was given id {}, which is a live node ({})", id, E::NAME);
            return self.identity(ctx, || format!("node {} exists twice", id));
        }
        match &s {
            Slot::Term(v) => {
                sh.vals.insert(*v, id);
            }
            Slot::Node(l, c) => {
                sh.uniq.insert((*l, c.clone()), id);
            }
            Slot::None => {}
        }
        sh.add(id as usize, lv, s);
        self.view_is(ki, id)
    }

    fn node(&mut self, ki: usize, l: usize, ch: Vec<u32>, ctx: &mut Ctx) -> R<u32> {
        let k = self.kinds[ki].k;
        let uch: Vec<usize> = ch.iter().map(|&x| x as usize).collect();
        let id = self.e.node(self.hs[l], k, &uch).1 as u32;
        let red = match E::rule(k) {
            Rule::Merge => ch.iter().all(|&c| c == ch[0]),
            Rule::Suppress(d) => {
                let z = self.kinds[ki].vals[&d];
                ch[1..].iter().all(|&c| c == z)
            }
        };
        if red {
            if id != ch[0] {
                self.identity(ctx, || format!("a redundant node was not elided: {} over {:?} ({})", id, ch, E::NAME))?;
            }
            return Ok(id);
        }
        let key = (l as u32, ch.into_boxed_slice());
        match self.kinds[ki].uniq.get(&key).copied() {
            Some(x) if x == id => {}
            Some(x) => self.identity(ctx, || format!("the node {:?} is {} and again {} ({})", key, x, id, E::NAME))?,
            None => self.fresh(ki, id, l + 1, Slot::Node(key.0, key.1), ctx)?,
        }
        Ok(id)
    }

    fn grow(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let mut r = Rng::new(((s.a[0] as u64) << 32) | s.a[1] as u64);
        let ki = s.a[2] as usize % self.kinds.len();
        let room = self.cap.saturating_sub(self.kinds[ki].live());
        let many = (r.range(1, self.cap as u64) as usize).min(room);
        ctx.op("mass-create");
        ctx.note(|| format!("create {} nodes in {} kind {}", many, E::NAME, self.kinds[ki].k));
        if !self.kinds[ki].boolean {
            for _ in 0..(many as u64 / r.range(2, 40)).max(2) {
                let v = r.below(self.spread) as i64;
                self.constant(ki, v, ctx)?;
                if self.over {
                    return Ok(());
                }
            }
        }
        let n = self.hs.len();
        for i in 0..many {
            let l = if r.chance(1, 3) { 0 } else { r.below(n as u64) as usize };
            let d = self.space.dims[l];
            let mut ch: Vec<u32> = Vec::with_capacity(d);
            for j in 0..d {
                if j > 0 && r.chance(1, 4) {
                    let c = ch[j - 1];
                    ch.push(c);
                    continue;
                }
                let sh = &self.kinds[ki];
                let mut lv = l;
                if r.chance(1, 3) {
                    lv = r.below(l as u64 + 1) as usize;
                }
                while sh.by_level[lv].is_empty() {
                    lv -= 1;
                }
                let pool = &sh.by_level[lv];
                let c = pool[r.below(pool.len() as u64) as usize];
                // undetermined parts have their own worlds
                let skip = !matches!(E::rule(sh.k), Rule::Suppress(U)) && matches!(sh.slots[c as usize], Slot::Term(U));
                ch.push(if skip { sh.by_level[0][(sh.by_level[0].len() > 1 && sh.by_level[0][0] == c) as usize] } else { c });
            }
            self.node(ki, l, ch, ctx)?;
            if self.over {
                return Ok(());
            }
            if i % 64 == 0 {
                self.growth(ctx)?;
            }
        }
        ctx.check("mass-identity");
        self.growth(ctx)
    }

    fn gc(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let mut r = Rng::new(((s.a[0] as u64) << 32) | s.a[1] as u64);
        let share = *r.pick(&[0u64, 0, 1, 8, 64, 256, 512, 900, 1024]);
        let top_only = r.chance(1, 3);
        let mut roots: Vec<Id> = vec![];
        for sh in &self.kinds {
            for (lv, ids) in sh.by_level.iter().enumerate() {
                if top_only && lv + 1 < sh.by_level.len() {
                    continue;
                }
                for &id in ids {
                    if r.below(1024) < share {
                        roots.push((sh.k, id as usize));
                    }
                }
            }
        }
        for i in (1..roots.len()).rev() {
            roots.swap(i, r.below(i as u64 + 1) as usize);
        }
        ctx.op("mass-gc");
        ctx.fault("explicit-gc");
        ctx.note(|| format!("gc with {} roots", roots.len()));
        let ret = self.e.gc(&roots);
        let ar = self.e.arenas();
        for ki in 0..self.kinds.len() {
            let mut keep = vec![false; self.kinds[ki].slots.len()];
            let mut stack: Vec<u32> = roots.iter().filter(|x| x.0 == self.kinds[ki].k).map(|x| x.1 as u32).collect();
            stack.extend(self.e.permanent(self.kinds[ki].k).iter().map(|&x| x as u32));
            let mut cnt = 0;
            while let Some(x) = stack.pop() {
                if std::mem::replace(&mut keep[x as usize], true) {
                    continue;
                }
                cnt += 1;
                if let Slot::Node(_, c) = &self.kinds[ki].slots[x as usize] {
                    stack.extend(c.iter());
                }
            }
            let sh = &mut self.kinds[ki];
            for l in &mut sh.by_level {
                l.retain(|&x| keep[x as usize]);
            }
            for (i, x) in sh.slots.iter_mut().enumerate() {
                if !keep[i] {
                    match std::mem::replace(x, Slot::None) {
                        Slot::Term(v) => {
                            sh.vals.remove(&v);
                        }
                        Slot::Node(l, c) => {
                            sh.uniq.remove(&(l, c));
                        }
                        Slot::None => {}
                    }
                }
            }
            if ctx.on(GC) {
                ctx.check("gc-exact");
                let (slots, live) = ar[ki];
                ensure!(live == cnt, "after gc {} nodes are alive, {} are reachable ({})", live, cnt, E::NAME);
                ensure!(ret[ki] == slots - live, "gc reported {} reclaimed slots, {} are free ({})", ret[ki], slots - live, E::NAME);
            }
            ctx.event(cnt as u64 ^ (ar[ki].0 as u64) << 32);
            ctx.state(hash_i64s(&[ki as i64, cnt as i64, ar[ki].0 as i64]));
        }
        self.survivors(ctx)
    }

    fn survivors(&self, ctx: &mut Ctx) -> R {
        ctx.check("mass-survivors");
        for ki in 0..self.kinds.len() {
            for l in &self.kinds[ki].by_level {
                for &id in l {
                    self.view_is(ki, id)?;
                }
            }
        }
        Ok(())
    }

    /// Creating what exists finds it.
    fn recreate(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let mut r = Rng::new(((s.a[0] as u64) << 32) | s.a[1] as u64);
        let share = *r.pick(&[64u64, 1024]);
        ctx.op("mass-recreate");
        for ki in 0..self.kinds.len() {
            let ids: Vec<u32> = self.kinds[ki].by_level.iter().flatten().copied().filter(|_| r.below(1024) < share).collect();
            let before = self.kinds[ki].live();
            for id in ids {
                match &self.kinds[ki].slots[id as usize] {
                    Slot::Term(v) => {
                        let v = *v;
                        self.constant(ki, v, ctx)?;
                    }
                    Slot::Node(l, c) => {
                        let (l, c) = (*l as usize, c.to_vec());
                        self.node(ki, l, c, ctx)?;
                    }
                    Slot::None => {}
                }
                if self.over {
                    return Ok(());
                }
            }
            ensure!(self.kinds[ki].live() == before, "creating existing nodes made new ones");
        }
        ctx.check("mass-recreate");
        self.growth(ctx)
    }

    /// One operation on two or three of the thousands of diagrams.
    fn apply(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let ops: Vec<Op> = E::OPS
            .iter()
            .copied()
            .filter(|o| {
                !matches!(
                    o,
                    Op::BadBool | Op::BadValue | Op::BadIteB | Op::BadIteV | Op::MBaseline | Op::ZProduct | Op::ZDivide
                )
            })
            .collect();
        let op = ops[s.a[0] as usize % ops.len()];
        let mut r = Rng::new(((s.a[1] as u64) << 32) | s.a[2] as u64);
        let n = self.hs.len();
        let (mut args, mut tables) = (vec![], vec![]);
        for &k in op.sig().0 {
            let ki = E::KINDS.iter().position(|&x| x == k).unwrap();
            let sh = &self.kinds[ki];
            let mut lv = r.below(n as u64 + 1) as usize;
            while sh.by_level[lv].is_empty() {
                lv -= 1;
            }
            let id = sh.by_level[lv][r.below(sh.by_level[lv].len() as u64) as usize] as usize;
            let g = Graph::read(&At(&self.e, k, n), &[id], &self.space.dims)?;
            if g.nodes.len() > 1500 || (E::rule(k) != Rule::Suppress(U) && g.nodes.iter().any(|x| x.var == usize::MAX && x.term == U)) {
                return Ok(());
            }
            tables.push(g.eval(id, &self.space, E::rule(k)));
            args.push((k, id));
        }
        ctx.op(op.name());
        ctx.note(|| format!("{} {} on {:?}", E::NAME, op.name(), args));
        let id = self.e.apply(op, &args, 0);
        let ki = E::KINDS.iter().position(|&x| x == id.0).unwrap();
        let g = Graph::read(&At(&self.e, id.0, n), &[id.1], &self.space.dims)?;
        if ctx.on(FUNC) {
            let refs: Vec<&[i64]> = tables.iter().map(|t| t.as_slice()).collect();
            let want = op.spec(&refs, &self.space, 0);
            ctx.check("result-at-samples");
            compare(&self.space, &g.eval(id.1, &self.space, E::rule(id.0)), &want).map_err(|e| format!("{} of {} {}", op.name(), E::NAME, e))?;
        }
        // children precede parents in a Graph
        for x in &g.nodes {
            let i = x.id as u32;
            if x.var == usize::MAX {
                match self.kinds[ki].vals.get(&x.term).copied() {
                    Some(o) if o == i => {}
                    Some(o) => self.identity(ctx, || format!("value {} is node {} and node {}", show(x.term), o, i))?,
                    None => self.fresh(ki, i, 0, Slot::Term(x.term), ctx)?,
                }
            } else {
                let c: Box<[u32]> = x.edges.iter().map(|&e| g.nodes[e as usize].id as u32).collect();
                match self.kinds[ki].uniq.get(&(x.level as u32, c.clone())).copied() {
                    Some(o) if o == i => {}
                    Some(o) => self.identity(ctx, || format!("the node {:?} of level {} is {} and {}", c, x.level, o, i))?,
                    None => self.fresh(ki, i, x.level + 1, Slot::Node(x.level as u32, c), ctx)?,
                }
            }
            if self.over {
                return Ok(());
            }
        }
        self.growth(ctx)
    }
}

impl<E: Engine> World for MassW<E> {
    fn step(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if self.over {
            return Ok(());
        }
        match s.op {
            0 => self.grow(s, ctx),
            1 => self.gc(s, ctx),
            2 => self.recreate(s, ctx),
            3 => {
                for i in 0..20u32 {
                    let mut t = s.clone();
                    t.a[0] = t.a[0].wrapping_add(i * 7);
                    t.a[1] ^= i.wrapping_mul(0x9E37_79B9);
                    self.apply(&t, ctx)?;
                    if self.over {
                        return Ok(());
                    }
                }
                Ok(())
            }
            _ => {
                ctx.fault("clear-cache");
                self.e.clear();
                Ok(())
            }
        }
    }
    fn finish(&mut self, ctx: &mut Ctx) -> R {
        if self.over {
            return Ok(());
        }
        self.survivors(ctx)
    }
}
