//! Set-family handles (bss::ZddNode) with their model, shared by two worlds.
use crate::core::*;
use crate::dot::check_dot;
use crate::engines::zview;
use crate::ensure;
use crate::ops::*;
use crate::space::*;
use bddcore::prelude::ZddManager;
use bss::prelude::{ZddMgr, ZddNode, ZddPath};
use std::collections::HashSet;
use std::rc::Rc;

pub struct ZEnt {
    pub h: ZddNode,
    pub t: Rc<Vec<i64>>,
}

pub struct ZIter {
    it: ZddPath,
    id: usize,
    t: Rc<Vec<i64>>,
    seen: HashSet<usize>,
    total: u64,
    done: bool,
    exact: bool,
    yielded: u64,
}

struct ZF<'a>(&'a ZddManager, usize);
impl<'a> Forest for ZF<'a> {
    fn view(&self, id: usize) -> R<View> {
        zview(self.0, id, self.1)
    }
}

pub struct ZPart {
    pub pool: Vec<ZEnt>,
    pub iters: Vec<ZIter>,
    pub space: Rc<Space>,
    pub cap: usize,
    pub floor: usize,
    pub rmax: usize,
    slots: usize,
    live: usize,
}

pub const RULE: Rule = Rule::Suppress(0);

impl ZPart {
    pub fn new(space: Rc<Space>, cap: usize) -> Self {
        ZPart { pool: vec![], iters: vec![], space, cap, floor: 1 << 16, rmax: 0, slots: 3, live: 3 }
    }

    fn n(&self) -> usize {
        self.space.dims.len()
    }

    pub fn graph(&self, m: &ZddManager, roots: &[usize]) -> R<Graph> {
        Graph::read(&ZF(m, self.n()), roots, &self.space.dims)
    }

    fn roots(&self) -> Vec<usize> {
        self.pool.iter().map(|p| p.h.get_id()).chain(self.iters.iter().map(|i| i.id)).collect()
    }

    /// Notes the arena as it is before a step.
    pub fn pre(&mut self, mgr: &ZddMgr) {
        self.live = mgr.live_node_count();
        self.slots = mgr.size().1;
    }

    pub fn check_all(&self, ctx: &mut Ctx) -> R {
        if self.pool.is_empty() {
            return Ok(());
        }
        let z = self.pool[0].h.get_mgr();
        let m = z.borrow();
        let g = self.graph(&m, &self.roots())?;
        for p in &self.pool {
            ctx.check("handle-stable");
            let t = g.eval(p.h.get_id(), &self.space, RULE);
            ensure!(t == *p.t, "set family handle {} changed its meaning", p.h.get_id());
        }
        if ctx.on(CANON) {
            ctx.check("canonical-forest");
            g.canonical(RULE)?;
        }
        Ok(())
    }

    fn reachable(&self, m: &ZddManager, extra: &[usize]) -> R<usize> {
        let mut r = self.roots();
        r.extend_from_slice(extra);
        r.extend([m.zero(), m.one(), m.undet()]);
        Ok(self.graph(m, &r)?.nodes.len())
    }

    /// After an operation that returned `id` (its handle is alive).
    pub fn memory(&mut self, mgr: &ZddMgr, id: usize, slack: usize, ctx: &mut Ctx, h: &ZddNode) -> R {
        let live = mgr.live_node_count();
        let slots = mgr.size().1;
        ctx.max_live = ctx.max_live.max(live as u64);
        if ctx.on(GC) {
            let z = h.get_mgr();
            let r = self.reachable(&z.borrow(), &[id])?;
            self.rmax = self.rmax.max(r + slack);
            ctx.check("auto-gc-bound");
            let bound = self.floor.max(2 * self.rmax);
            ensure!(live <= bound, "{} live ZDD nodes exceed the bound {} (threshold {}, reachable {})", live, bound, self.floor, r);
            if live < self.live {
                ctx.fault("auto-gc");
                if slack == 0 {
                    ctx.check("gc-exact");
                    ensure!(live == r, "after automatic collection {} ZDD nodes are alive, {} reachable", live, r);
                }
            }
            if slots > self.slots && slack == 0 {
                ensure!(live == slots || live == r, "ZDD arena grew to {} slots although {} are free", slots, slots - live);
            }
        } else if live < self.live {
            ctx.fault("auto-gc");
        }
        self.live = live;
        self.slots = slots;
        Ok(())
    }

    pub fn accept(&mut self, mgr: &ZddMgr, h: ZddNode, want: Option<Vec<i64>>, slack: usize, evict: u32, what: &str, ctx: &mut Ctx) -> R {
        let id = h.get_id();
        let (g, got) = {
            let z = h.get_mgr();
            let m = z.borrow();
            let g = self.graph(&m, &[id]).map_err(|e| format!("{}: {}", what, e))?;
            let t = g.eval(id, &self.space, RULE);
            (g, t)
        };
        if let Some(w) = &want {
            if ctx.on(FUNC) || ctx.on(MINSOL) {
                ctx.check("family-vs-model");
                compare(&self.space, &got, w).map_err(|e| format!("{} {}", what, e))?;
            }
        }
        ctx.event(hash_i64s(&got));
        if ctx.on(CANON) {
            ctx.check("identity");
            for p in &self.pool {
                let same = p.h.get_id() == id;
                ensure!(same == (*p.t == got), "{}: family identity and equality disagree for nodes {} and {}", what, p.h.get_id(), id);
                ensure!(same == p.h.eq(&h), "{}: eq() disagrees with identity", what);
            }
            g.canonical(RULE).map_err(|e| format!("{}: {}", what, e))?;
        }
        if ctx.on(META) {
            let any = got.iter().any(|&x| x == 1);
            ensure!(h.is_zero() == !any, "{}: is_zero() is wrong", what);
            ensure!(h.is_one() == (got[0] == 1 && got.iter().filter(|&&x| x == 1).count() == 1), "{}: is_one() is wrong", what);
        }
        self.memory(mgr, id, slack, ctx, &h)?;
        if self.pool.len() >= self.cap {
            let i = evict as usize % self.pool.len();
            self.drop_at(i, ctx)?;
        }
        self.pool.push(ZEnt { h, t: Rc::new(got) });
        Ok(())
    }

    pub fn drop_at(&mut self, i: usize, ctx: &mut Ctx) -> R {
        let p = &self.pool[i];
        {
            let z = p.h.get_mgr();
            let m = z.borrow();
            ctx.check("handle-stable");
            let t = self.graph(&m, &[p.h.get_id()])?.eval(p.h.get_id(), &self.space, RULE);
            ensure!(t == *p.t, "set family handle {} changed its meaning", p.h.get_id());
        }
        self.pool.swap_remove(i);
        Ok(())
    }

    pub fn binop(&mut self, mgr: &ZddMgr, s: &Step, cut: bool, ctx: &mut Ctx) -> R {
        if self.pool.is_empty() {
            return Ok(());
        }
        let op = [Op::ZUnion, Op::ZIntersect, Op::ZSetdiff, Op::ZProduct, Op::ZDivide][s.a[0] as usize % 5];
        let i = s.a[1] as usize % self.pool.len();
        let j = s.a[2] as usize % self.pool.len();
        let (f, g) = (&self.pool[i], &self.pool[j]);
        if op == Op::ZDivide && !g.t.iter().any(|&x| x == 1) {
            return Ok(());
        }
        ctx.op(op.name());
        ctx.note(|| format!("{}{} {} {}", if cut { "cut? " } else { "" }, op.name(), f.h.get_id(), g.h.get_id()));
        let want = op.spec(&[&f.t, &g.t], &self.space, 0);
        let run = || match op {
            Op::ZUnion => f.h.union(&g.h),
            Op::ZIntersect => f.h.intersect(&g.h),
            Op::ZSetdiff => f.h.setdiff(&g.h),
            Op::ZProduct => f.h.product(&g.h),
            _ => f.h.divide(&g.h),
        };
        let r = if cut {
            let b = fault_counts().2;
            FAULTS.with(|x| x.borrow_mut().cut_in = crate::corew::geo(s.a[4], 128));
            let r = maybe_cut(run);
            ctx.faults_n("cut-at-memo-access", fault_counts().2 - b);
            match r {
                None => {
                    return self.check_all(ctx);
                }
                Some(h) => h,
            }
        } else {
            run()
        };
        self.accept(mgr, r, Some(want), 0, s.a[4], op.name(), ctx)
    }

    pub fn queries(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if self.pool.is_empty() {
            return Ok(());
        }
        let i = s.a[0] as usize % self.pool.len();
        let p = &self.pool[i];
        let sets = p.t.iter().filter(|&&x| x == 1).count() as u64;
        match s.a[1] % 4 {
            0 => {
                ctx.op("zdd-count");
                if ctx.on(ENUM) {
                    ctx.check("family-count");
                    let c = p.h.count(&[true]);
                    ensure!(c == sets, "family has {} sets, count says {}", sets, c);
                    ensure!(p.h.count(&[true, true]) == sets, "naming the outcome twice changes the count");
                    ensure!(p.h.count(&[]) == 0, "count of no outcome is not 0");
                }
            }
            1 => {
                ctx.op("zdd-size");
                if ctx.on(ENUM) {
                    let z = p.h.get_mgr();
                    let g = self.graph(&z.borrow(), &[p.h.get_id()])?;
                    let e: usize = g.nodes.iter().map(|n| n.edges.len()).sum();
                    let want = (g.nonterminals() as u64, g.terminals() as u64, e as u64);
                    ctx.check("size");
                    ensure!(p.h.size() == want, "size() is {:?}, the diagram is {:?}", p.h.size(), want);
                }
            }
            2 => {
                ctx.op("zdd-dot");
                if ctx.on(DOT) {
                    let z = p.h.get_mgr();
                    let g = self.graph(&z.borrow(), &[p.h.get_id()])?;
                    ctx.check("dot-graph");
                    check_dot(&p.h.dot(), &g, p.h.get_id(), &self.space, RULE, &p.t)?;
                }
            }
            _ => {
                ctx.op("zdd-children");
                let lv = p.h.get_level();
                if let Some((c0, c1)) = p.h.get_children() {
                    if ctx.on(META) {
                        ctx.check("children");
                        let v = parse_var(&p.h.get_label().ok_or("no label")?, self.n())?;
                        ensure!(lv.is_some(), "no level");
                        let st = self.space.strides[v];
                        let z = p.h.get_mgr();
                        let m = z.borrow();
                        for (x, c) in [(0usize, &c0), (1, &c1)] {
                            let t = self.graph(&m, &[c.get_id()])?.eval(c.get_id(), &self.space, RULE);
                            for (q, pt) in self.space.points.iter().enumerate() {
                                let w = if pt[v] == 0 { p.t[q + x * st] } else { 0 };
                                ensure!(t[q] == w, "child {} of v{} is wrong at {:?}", x, v, pt);
                            }
                        }
                    }
                    let t0 = {
                        let z = p.h.get_mgr();
                        let m = z.borrow();
                        self.graph(&m, &[c0.get_id()])?.eval(c0.get_id(), &self.space, RULE)
                    };
                    if self.pool.len() < self.cap {
                        self.pool.push(ZEnt { h: c0, t: Rc::new(t0) });
                    }
                } else if ctx.on(META) {
                    ensure!(lv.is_none() && p.h.get_label().is_none() && p.h.get_header().is_none(), "a terminal has a level or label");
                }
            }
        }
        Ok(())
    }

    pub fn start_iter(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if self.pool.is_empty() || self.iters.len() >= 3 {
            return Ok(());
        }
        ctx.op("zdd-extract");
        let i = s.a[0] as usize % self.pool.len();
        let p = &self.pool[i];
        let exact = s.a[1] % 8 != 0;
        let ss: &[bool] = match s.a[1] % 8 {
            0 => &[true, false],
            1 => &[true, true],
            _ => &[true],
        };
        let it = p.h.extract(ss);
        let total = p.h.count(ss);
        self.iters.push(ZIter { it, id: p.h.get_id(), t: p.t.clone(), seen: HashSet::new(), total, done: false, exact, yielded: 0 });
        if s.a[2] % 2 == 0 {
            ctx.fault("handle-dropped-under-iterator");
            self.pool.swap_remove(i);
        }
        Ok(())
    }

    pub fn advance(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if self.iters.is_empty() {
            return Ok(());
        }
        let n = self.n();
        let k = s.a[0] as usize % self.iters.len();
        ctx.op("zdd-iterate");
        ctx.fault("iterator-suspended");
        let enm = ctx.on(ENUM) || ctx.on(FUNC);
        let it = &mut self.iters[k];
        if enm {
            ctx.check("iterator-len");
            ensure!(it.it.len() == it.total, "iterator length {} changed to {}", it.total, it.it.len());
        }
        for _ in 0..1 + s.a[1] % 12 {
            match it.it.next() {
                None => {
                    if enm && !it.done {
                        ensure!(it.yielded == it.total, "iterator yielded {} sets, count was {}", it.yielded, it.total);
                        if it.exact {
                            let want = it.t.iter().filter(|&&x| x == 1).count();
                            ensure!(it.seen.len() == want, "iterator yielded {} of {} sets", it.seen.len(), want);
                        }
                    }
                    it.done = true;
                    break;
                }
                Some(set) => {
                    ensure!(!it.done, "iterator yielded a set after its end");
                    it.yielded += 1;
                    if !enm {
                        continue;
                    }
                    ctx.check("iterator-item");
                    let mut idx = 0;
                    for l in &set {
                        let v = parse_var(l, n)?;
                        let b = self.space.strides[v];
                        ensure!(idx / b % 2 == 0, "set {:?} lists v{} twice", set, v);
                        idx += b;
                    }
                    if it.exact {
                        ensure!(it.t[idx] == 1, "iterator yielded {:?}, which is not in the family", set);
                        ensure!(it.seen.insert(idx), "iterator yielded {:?} twice", set);
                    }
                }
            }
        }
        if self.iters[k].done || s.a[2] % 16 == 0 {
            self.iters.swap_remove(k);
        }
        Ok(())
    }
}
