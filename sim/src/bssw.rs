//! World 2: the binary handle layer (bss::BssMgr) with automatic collection.
use crate::core::*;
use crate::corew::geo;
use crate::dot::check_dot;
use crate::engines::bview;
use crate::ensure;
use crate::ops::*;
use crate::space::*;
use crate::zpart::*;
use bddcore::prelude::BddManager;
use bss::prelude::{BddNode, BddPath, BssMgr};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub const DEFVAR: u16 = 0;
pub const CONST: u16 = 1;
pub const BIN: u16 = 2;
pub const NARY: u16 = 3;
pub const KOFN: u16 = 4;
pub const DUAL: u16 = 5;
pub const RPNOK: u16 = 6;
pub const RPNBAD: u16 = 7;
pub const NODE: u16 = 8;
pub const CLONE: u16 = 9;
pub const DROP: u16 = 10;
pub const GCC: u16 = 11;
pub const THRESH: u16 = 12;
pub const CLEAR: u16 = 13;
pub const PROBS: u16 = 14;
pub const COUNT: u16 = 15;
pub const EXTRACT: u16 = 16;
pub const ADVANCE: u16 = 17;
pub const MINP: u16 = 18;
pub const ZBIN: u16 = 19;
pub const ZDROP: u16 = 20;
pub const ZTHRESH: u16 = 21;
pub const ZQUERY: u16 = 22;
pub const ZEXTRACT: u16 = 23;
pub const ZADVANCE: u16 = 24;
pub const SIZES: u16 = 25;
pub const KIDS: u16 = 26;
pub const METAS: u16 = 27;
pub const DOTS: u16 = 28;
pub const CUT: u16 = 29;
pub const PROBCUT: u16 = 30;
pub const CHECK: u16 = 31;
pub const ZCLONE: u16 = 32;
pub const BURST: u16 = 33;
pub const MONO: u16 = 34;
pub const ZCUT: u16 = 35;
pub const ZCONST: u16 = 36;
pub const EVENT: u16 = 37;

pub struct BEnt {
    pub h: BddNode,
    pub t: Rc<Vec<i64>>,
}

struct BIter {
    it: BddPath,
    id: usize,
    t: Rc<Vec<i64>>,
    ss: Vec<bool>,
    level: Option<usize>,
    seen: HashSet<usize>,
    total: u64,
    done: bool,
    /// every vector so far was looked at
    whole: bool,
}

struct BF<'a>(&'a BddManager, usize);
impl<'a> Forest for BF<'a> {
    fn view(&self, id: usize) -> R<View> {
        bview(self.0, id, self.1)
    }
}

pub struct BssW {
    pub mgr: BssMgr,
    pub space: Rc<Space>,
    declared: Vec<usize>, // in declaration order: level -> variable
    order: Vec<usize>,
    pub pool: Vec<BEnt>,
    iters: Vec<BIter>,
    cap: usize,
    floor: usize,
    rmax: usize,
    live: usize,
    slots: usize,
    pub z: ZPart,
    max_nodes: usize,
    varnodes: HashMap<usize, usize>,
    small: u64,
}

fn sub(s: &Step, j: usize) -> Rng {
    Rng::new(((s.a[j] as u64) << 32) ^ s.a[4] as u64 ^ ((j as u64) << 17))
}

impl BssW {
    pub fn new(cfg: &Cfg) -> Self {
        let n = cfg.us("nvars").clamp(1, 64);
        let mut lay = Rng::new(cfg.get("lay"));
        let space = if cfg.get("sampled") == 0 {
            Space::full(vec![2; n.min(11)])
        } else {
            Space::sampled(vec![2; n], cfg.us("sampled"), &mut lay)
        };
        let n = space.dims.len();
        let mut order: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            order.swap(i, lay.below(i as u64 + 1) as usize);
        }
        let space = Rc::new(space);
        let mgr = BssMgr::new();
        let mut w = BssW {
            mgr,
            space: space.clone(),
            declared: vec![],
            order,
            pool: vec![],
            iters: vec![],
            cap: cfg.us("cap").max(4),
            floor: 1 << 16,
            rmax: 0,
            live: 3,
            slots: 3,
            z: ZPart::new(space, cfg.us("zcap").max(3)),
            max_nodes: if cfg.get("sampled") == 0 { usize::MAX } else { 3000 },
            varnodes: HashMap::new(),
            small: cfg.get("thr").max(1),
        };
        for _ in 0..cfg.us("v0").max(1) {
            w.declare_next();
        }
        if cfg.on("thr0") {
            w.mgr.bdd().set_gc_threshold(cfg.us("thr0"));
            w.floor = cfg.us("thr0");
        }
        w
    }

    fn n(&self) -> usize {
        self.space.dims.len()
    }

    fn declare_next(&mut self) -> Option<(usize, BddNode)> {
        let v = *self.order.iter().find(|v| !self.declared.contains(v))?;
        Some((v, self.defvar(v)))
    }

    fn defvar(&mut self, v: usize) -> BddNode {
        if !self.declared.contains(&v) {
            self.declared.push(v);
        }
        self.mgr.defvar(&vname(v))
    }

    pub fn graph(&self, m: &BddManager, roots: &[usize]) -> R<Graph> {
        Graph::read(&BF(m, self.n()), roots, &self.space.dims)
    }

    pub fn table(&self, h: &BddNode) -> R<(Graph, Vec<i64>)> {
        let z = h.get_mgr();
        let m = z.borrow();
        let g = self.graph(&m, &[h.get_id()])?;
        let t = g.eval(h.get_id(), &self.space, Rule::Merge);
        Ok((g, t))
    }

    fn roots(&self) -> Vec<usize> {
        let mut r: Vec<usize> = self.pool.iter().map(|p| p.h.get_id()).collect();
        r.extend(self.iters.iter().map(|i| i.id));
        r
    }

    fn any_mgr(&self) -> Option<Rc<std::cell::RefCell<BddManager>>> {
        self.pool.first().map(|p| p.h.get_mgr())
    }

    pub fn check_all(&self, ctx: &mut Ctx) -> R {
        if let Some(z) = self.any_mgr() {
            let m = z.borrow();
            let g = self.graph(&m, &self.roots())?;
            for p in &self.pool {
                ctx.check("handle-stable");
                let t = g.eval(p.h.get_id(), &self.space, Rule::Merge);
                ensure!(t == *p.t, "handle to node {} changed its meaning", p.h.get_id());
            }
            if ctx.on(CANON) {
                ctx.check("canonical-forest");
                g.canonical(Rule::Merge)?;
            }
        }
        self.z.check_all(ctx)
    }

    /// Reachable from handles, iterators, variables and terminals.
    fn reachable(&self, m: &BddManager, extra: &[usize]) -> R<usize> {
        let mut r = self.roots();
        r.extend_from_slice(extra);
        r.extend([m.zero(), m.one(), m.undet()]);
        r.extend(self.varnodes.values());
        Ok(self.graph(m, &r)?.nodes.len())
    }

    fn pre(&mut self) {
        self.live = self.mgr.bdd().live_node_count();
        self.slots = self.mgr.size().1;
        self.z.pre(self.mgr.zdd());
    }

    fn memory(&mut self, h: &BddNode, extra: &[usize], slack: usize, exact: bool, ctx: &mut Ctx) -> R {
        let live = self.mgr.bdd().live_node_count();
        let slots = self.mgr.size().1;
        ctx.max_live = ctx.max_live.max(live as u64);
        if live < self.live {
            ctx.fault("auto-gc");
        }
        if ctx.on(GC) {
            let z = h.get_mgr();
            let mut ex = extra.to_vec();
            ex.push(h.get_id());
            let r = self.reachable(&z.borrow(), &ex)?;
            self.rmax = self.rmax.max(r + slack);
            ctx.check("auto-gc-bound");
            let bound = self.floor.max(2 * self.rmax);
            ensure!(
                live <= bound,
                "{} live BDD nodes exceed the bound {} (threshold {}, largest reachable set {})",
                live, bound, self.floor, self.rmax
            );
            if exact {
                if live < self.live {
                    ctx.check("gc-exact");
                    ensure!(live == r, "after automatic collection {} BDD nodes are alive, {} reachable", live, r);
                }
                if slots > self.slots {
                    ensure!(live == slots || live == r, "BDD arena grew to {} slots although {} are free", slots, slots - live);
                }
            }
        }
        Ok(())
    }

    fn accept(&mut self, h: BddNode, want: Vec<i64>, evict: u32, what: &str, wrapped: bool, ctx: &mut Ctx) -> R {
        let id = h.get_id();
        let (g, got) = self.table(&h).map_err(|e| format!("{}: {}", what, e))?;
        if ctx.on(FUNC) {
            ctx.check("result-vs-model");
            compare(&self.space, &got, &want).map_err(|e| format!("{} {}", what, e))?;
        }
        ctx.event(hash_i64s(&got));
        if ctx.on(CANON) {
            ctx.check("identity");
            for p in &self.pool {
                let same = p.h.get_id() == id;
                ensure!(same == p.h.eq(&h), "{}: eq() disagrees with identity", what);
                if same {
                    ensure!(*p.t == got, "{}: node {} stands for two functions", what, id);
                } else if self.space.full {
                    ensure!(*p.t != got, "{}: nodes {} and {} are equal but distinct", what, p.h.get_id(), id);
                }
            }
            g.canonical(Rule::Merge).map_err(|e| format!("{}: {}", what, e))?;
        }
        if wrapped {
            self.memory(&h, &[], 0, true, ctx)?;
        }
        if g.nodes.len() > self.max_nodes {
            return Ok(());
        }
        if self.pool.len() >= self.cap {
            let i = evict as usize % self.pool.len();
            self.drop_at(i, ctx)?;
        }
        self.pool.push(BEnt { h, t: Rc::new(got) });
        Ok(())
    }

    fn drop_at(&mut self, i: usize, ctx: &mut Ctx) -> R {
        let (_, t) = self.table(&self.pool[i].h)?;
        ctx.check("handle-stable");
        ensure!(t == *self.pool[i].t, "handle to node {} changed its meaning", self.pool[i].h.get_id());
        self.pool.swap_remove(i);
        Ok(())
    }

    fn pick(&self, raw: u32) -> Option<usize> {
        if self.pool.is_empty() {
            None
        } else {
            Some(raw as usize % self.pool.len())
        }
    }

    fn bin(&mut self, s: &Step, ctx: &mut Ctx) -> R<Option<(BddNode, Vec<i64>, &'static str)>> {
        let Some(i) = self.pick(s.a[1]) else { return Ok(None) };
        let j = self.pick(s.a[2]).unwrap();
        let k = self.pick(s.a[3]).unwrap();
        let (f, g, h) = (&self.pool[i], &self.pool[j], &self.pool[k]);
        let op = [Op::And, Op::Or, Op::Xor, Op::Not, Op::Ite, Op::And, Op::Or, Op::Ite][s.a[0] as usize % 8];
        ctx.op(op.name());
        ctx.note(|| format!("{} {} {} {}", op.name(), f.h.get_id(), g.h.get_id(), h.h.get_id()));
        let want = match op {
            Op::Not => op.spec(&[&f.t], &self.space, 0),
            Op::Ite => op.spec(&[&f.t, &g.t, &h.t], &self.space, 0),
            _ => op.spec(&[&f.t, &g.t], &self.space, 0),
        };
        let r = match op {
            Op::And => f.h.and(&g.h),
            Op::Or => f.h.or(&g.h),
            Op::Xor => f.h.xor(&g.h),
            Op::Not => f.h.not(),
            _ => f.h.ite(&g.h, &h.h),
        };
        Ok(Some((r, want, op.name())))
    }

    fn some(&self, r: &mut Rng, max: u64) -> Vec<usize> {
        let m = r.below(max + 1);
        (0..m).map(|_| r.below(self.pool.len() as u64) as usize).collect()
    }

    fn nary(&mut self, s: &Step, ctx: &mut Ctx) -> Option<(BddNode, Vec<i64>, &'static str)> {
        if self.pool.is_empty() {
            return None;
        }
        let mut r = sub(s, 0);
        let ix = self.some(&mut r, 6);
        let hs: Vec<BddNode> = ix.iter().map(|&i| self.pool[i].h.clone()).collect();
        let cnt: Vec<usize> =
            (0..self.space.len()).map(|p| ix.iter().filter(|&&i| self.pool[i].t[p] == 1).count()).collect();
        let m = ix.len();
        Some(if s.op == KOFN {
            // A threshold far beyond the number of operands is merely never reached.
            let k = match r.below(24) {
                0 => usize::MAX - r.below(2) as usize,
                1 => usize::MAX >> r.range(1, 8),
                _ => r.below(m as u64 + 2) as usize,
            };
            ctx.op("kofn");
            ctx.note(|| format!("kofn {} of {:?}", k, hs.iter().map(|h| h.get_id()).collect::<Vec<_>>()));
            (self.mgr.kofn(k, &hs), cnt.iter().map(|&c| (c >= k) as i64).collect(), "kofn")
        } else if r.chance(1, 2) {
            ctx.op("nary-and");
            (self.mgr.and(&hs), cnt.iter().map(|&c| (c == m) as i64).collect(), "nary-and")
        } else {
            ctx.op("nary-or");
            (self.mgr.or(&hs), cnt.iter().map(|&c| (c > 0) as i64).collect(), "nary-or")
        })
    }

    // ------------------------------------------------------------------ rpn
    /// Random expression; `only` restricts variables to declared ones.
    fn expr(&self, r: &mut Rng, depth: u32, only: bool, saved: &mut Vec<String>, out: &mut Vec<String>) {
        let leaf = depth == 0 || r.chance(1, 4);
        if leaf {
            let x = r.below(20);
            if x == 0 {
                out.push(r.pick(&["0", "False", "1", "True"]).to_string());
            } else if x < 4 && !saved.is_empty() {
                out.push(format!("load({})", r.pick(saved)));
            } else {
                let v = if only {
                    *r.pick(&self.declared)
                } else {
                    r.below(self.n() as u64) as usize
                };
                out.push(vname(v));
            }
        } else {
            match r.below(6) {
                0 => {
                    self.expr(r, depth - 1, only, saved, out);
                    out.push("~".into());
                }
                1 => {
                    for _ in 0..3 {
                        self.expr(r, depth - 1, only, saved, out);
                    }
                    out.push("?".into());
                }
                _ => {
                    self.expr(r, depth - 1, only, saved, out);
                    self.expr(r, depth - 1, only, saved, out);
                    out.push(r.pick(&["&", "|", "^", "&", "|"]).to_string());
                }
            }
        }
        if r.chance(1, 6) {
            let name = r.pick(&SAVE_NAMES).to_string();
            out.push(format!("save({})", name));
            if !saved.contains(&name) {
                saved.push(name);
            }
        }
    }

    /// The expression step by step on handles; `None` = it must be refused.
    fn machine(&mut self, toks: &[String], keep: &mut Vec<BddNode>) -> Option<BddNode> {
        let mut st: Vec<BddNode> = vec![];
        let mut cache: HashMap<String, BddNode> = HashMap::new();
        for t in toks {
            let h = match t.as_str() {
                "0" | "False" => self.mgr.zero(),
                "1" | "True" => self.mgr.one(),
                "~" => st.pop()?.not(),
                "&" | "|" | "^" => {
                    let b = st.pop()?;
                    let a = st.pop()?;
                    match t.as_str() {
                        "&" => a.and(&b),
                        "|" => a.or(&b),
                        _ => a.xor(&b),
                    }
                }
                "?" => {
                    let e = st.pop()?;
                    let t = st.pop()?;
                    let c = st.pop()?;
                    c.ite(&t, &e)
                }
                s if s.starts_with("save(") && s.ends_with(")") => {
                    cache.insert(s[5..s.len() - 1].to_string(), st.last()?.clone());
                    continue;
                }
                s if s.starts_with("load(") && s.ends_with(")") => cache.get(&s[5..s.len() - 1])?.clone(),
                s => {
                    let v: usize = unname(s).unwrap();
                    let h = self.defvar(v);
                    self.varnodes.insert(v, h.get_id());
                    h
                }
            };
            keep.push(h.clone());
            st.push(h);
        }
        if st.len() == 1 {
            st.pop()
        } else {
            None
        }
    }

    /// The expression on tables, for programs that must be accepted.
    fn machine_t(&self, toks: &[String]) -> Option<Vec<i64>> {
        let mut st: Vec<Vec<i64>> = vec![];
        let mut cache: HashMap<String, Vec<i64>> = HashMap::new();
        for t in toks {
            let h = match t.as_str() {
                "0" | "False" => self.space.constant(0),
                "1" | "True" => self.space.constant(1),
                "~" => Op::Not.spec(&[&st.pop()?], &self.space, 0),
                "&" | "|" | "^" => {
                    let b = st.pop()?;
                    let a = st.pop()?;
                    let op = match t.as_str() {
                        "&" => Op::And,
                        "|" => Op::Or,
                        _ => Op::Xor,
                    };
                    op.spec(&[&a, &b], &self.space, 0)
                }
                "?" => {
                    let e = st.pop()?;
                    let t = st.pop()?;
                    let c = st.pop()?;
                    Op::Ite.spec(&[&c, &t, &e], &self.space, 0)
                }
                s if s.starts_with("save(") && s.ends_with(")") => {
                    cache.insert(s[5..s.len() - 1].to_string(), st.last()?.clone());
                    continue;
                }
                s if s.starts_with("load(") && s.ends_with(")") => cache.get(&s[5..s.len() - 1])?.clone(),
                s => self.space.var(unname(s).unwrap()),
            };
            st.push(h);
        }
        if st.len() == 1 {
            st.pop()
        } else {
            None
        }
    }

    fn text(r: &mut Rng, toks: &[String]) -> String {
        let mut s = String::new();
        if r.chance(1, 8) {
            s.push_str("  ");
        }
        for (i, t) in toks.iter().enumerate() {
            if i > 0 {
                s.push_str(r.pick(&[" ", " ", " ", "  ", "\t", "\n"]));
            }
            s.push_str(t);
        }
        if r.chance(1, 8) {
            s.push('\n');
        }
        s
    }

    fn rpn(&mut self, s: &Step, bad: bool, cut: bool, ctx: &mut Ctx) -> R {
        let mut r = sub(s, 0);
        let mut toks = vec![];
        let mut saved = vec![];
        let depth = 2 + (s.a[1] % 4);
        self.expr(&mut r, depth, bad || cut, &mut saved, &mut toks);
        if bad {
            for _ in 0..r.range(1, 3) {
                let i = r.below(toks.len() as u64 + 1) as usize;
                match r.below(5) {
                    0 if i < toks.len() => {
                        toks.remove(i);
                    }
                    1 => toks.insert(i, r.pick(&["&", "|", "^", "~", "?"]).to_string()),
                    2 => toks.insert(i, format!("load(q{})", r.below(3))),
                    3 => toks.insert(i, format!("save({})", r.pick(&["a", "q1"]))),
                    _ => toks.insert(i, r.pick(&["0", "1"]).to_string()),
                }
            }
        }
        let text = Self::text(&mut r, &toks);
        let want = self.machine_t(&toks);
        ctx.op(if want.is_some() { "rpn" } else { "rpn-malformed" });
        ctx.note(|| format!("rpn {:?}", text));
        // variables a well-formed expression declares, in order
        if want.is_some() {
            for t in &toks {
                if let Some(v) = unname(t) {
                    if !self.declared.contains(&v) {
                        self.declared.push(v);
                    }
                }
            }
        }
        let res = if cut {
            FAULTS.with(|f| f.borrow_mut().cut_in = geo(s.a[4], 200));
            let b = fault_counts().2;
            let m = &mut self.mgr;
            let res = maybe_cut(|| m.rpn(&text));
            ctx.faults_n("cut-at-memo-access", fault_counts().2 - b);
            match res {
                None => return self.check_all(ctx),
                Some(x) => x,
            }
        } else {
            self.mgr.rpn(&text)
        };
        match (res, want) {
            (Err(_), None) => {
                ctx.fault("malformed-expression");
                self.check_all(ctx)
            }
            (Ok(_), None) => {
                if ctx.on(RPN) {
                    return Err(format!("malformed expression {:?} was accepted", text));
                }
                Ok(())
            }
            (Err(e), Some(_)) => {
                if ctx.on(RPN) || ctx.on(FUNC) {
                    return Err(format!("expression {:?} was refused: {}", text, e));
                }
                Ok(())
            }
            (Ok(h), Some(w)) => {
                for v in self.declared.clone() {
                    self.note_var(v);
                }
                if ctx.on(RPN) {
                    ctx.check("rpn-vs-model");
                    let (_, got) = self.table(&h)?;
                    compare(&self.space, &got, &w).map_err(|e| format!("rpn {:?} {}", text, e))?;
                }
                self.memory(&h, &[], 0, true, ctx)?;
                if ctx.on(RPN) && s.a[2] % 3 == 0 {
                    ctx.check("rpn-vs-operations");
                    let mut keep = vec![];
                    if let Some(m) = self.machine(&toks, &mut keep) {
                        ensure!(m.eq(&h), "rpn {:?} is node {}, the operations give node {}", text, h.get_id(), m.get_id());
                    }
                    let ids: Vec<usize> = keep.iter().map(|k| k.get_id()).collect();
                    self.memory(&h, &ids, 0, false, ctx)?;
                }
                self.accept(h, w, s.a[4], "rpn", false, ctx)
            }
        }
    }

    fn note_var(&mut self, v: usize) {
        if !self.varnodes.contains_key(&v) {
            let h = self.mgr.defvar(&vname(v));
            self.varnodes.insert(v, h.get_id());
        }
    }

    // --------------------------------------------------------------- queries
    fn outcome(r: &mut Rng) -> Vec<bool> {
        match r.below(10) {
            0 => vec![],
            1 | 2 => vec![false],
            3 => vec![true, false],
            4 => vec![false, true, false],
            5 => vec![true; r.range(2, 3) as usize],
            6 => vec![false; r.range(2, 3) as usize],
            _ => vec![true],
        }
    }

    fn pv(&self, r: &mut Rng) -> Vec<f64> {
        (0..self.n()).map(|_| r.below(9) as f64 / 8.0).collect()
    }

    /// Exact sum over all assignments; `fix` conditions one variable.
    fn brute(&self, t: &[i64], p: &[f64], ss: &[bool], fix: Option<(usize, u8)>) -> f64 {
        let mut sum = 0.0;
        for (i, pt) in self.space.points.iter().enumerate() {
            if !ss.contains(&(t[i] == 1)) {
                continue;
            }
            let mut w = 1.0;
            for v in 0..self.n() {
                match fix {
                    Some((f, x)) if f == v => {
                        if pt[v] != x {
                            w = 0.0;
                            break;
                        }
                    }
                    _ => w *= if pt[v] == 1 { p[v] } else { 1.0 - p[v] },
                }
            }
            sum += w;
        }
        sum
    }

    fn support(&self, t: &[i64], v: usize) -> bool {
        let st = self.space.strides[v];
        self.space.points.iter().enumerate().any(|(i, p)| p[v] == 0 && t[i] != t[i + st])
    }

    fn probs(&mut self, s: &Step, cut: bool, ctx: &mut Ctx) -> R {
        let Some(i) = self.pick(s.a[0]) else { return Ok(()) };
        let mut r = sub(s, 1);
        let p = self.pv(&mut r);
        let ss = Self::outcome(&mut r);
        let (h, t) = (&self.pool[i].h, self.pool[i].t.clone());
        let live = self.mgr.bdd().live_node_count();
        if cut {
            let pv: HashMap<String, SimT> = p.iter().enumerate().map(|(v, x)| (vname(v), SimT(*x))).collect();
            FAULTS.with(|f| f.borrow_mut().arith_in = geo(s.a[3], 64));
            let b = fault_counts().3;
            if s.a[2] % 2 == 0 {
                maybe_cut(|| h.prob(&pv, &ss));
            } else {
                maybe_cut(|| h.bmeas(&pv, &ss));
            }
            ctx.faults_n("probability-arithmetic-panic", fault_counts().3 - b);
            return self.check_all(ctx);
        }
        if ctx.on(INTERVAL) {
            return self.intervals(i, &ss, s, ctx);
        }
        let mut pv: HashMap<String, f64> = p.iter().enumerate().map(|(v, x)| (vname(v), *x)).collect();
        if s.a[4] % 4 == 0 {
            // components the function does not depend on need no probability
            ctx.fault("irrelevant-component-without-probability");
            (0..self.n()).filter(|&v| !self.support(&t, v)).for_each(|v| drop(pv.remove(&vname(v))));
            pv.insert("no such component".into(), 0.5);
        }
        if s.a[2] % 3 != 0 {
            ctx.op("prob");
            let got = h.prob(&pv, &ss);
            if ctx.on(PROB) {
                ctx.check("probability");
                let want = self.brute(&t, &p, &ss, None);
                ensure!(got == want, "probability {} of outcomes {:?}, exact value is {}", got, ss, want);
            }
        } else {
            ctx.op("bmeas");
            let got = h.bmeas(&pv, &ss);
            if ctx.on(PROB) {
                ctx.check("birnbaum");
                for k in got.keys() {
                    parse_var(k, self.n())?;
                }
                for v in 0..self.n() {
                    let g = got.get(&vname(v));
                    if self.support(&t, v) {
                        let want = self.brute(&t, &p, &ss, Some((v, 1))) - self.brute(&t, &p, &ss, Some((v, 0)));
                        ensure!(g.is_some(), "importance of v{} is missing", v);
                        ensure!(*g.unwrap() == want, "importance of v{} is {}, exact value is {}", v, g.unwrap(), want);
                    } else if let Some(x) = g {
                        ensure!(*x == 0.0, "importance of the irrelevant v{} is {}", v, x);
                    }
                }
            }
        }
        if ctx.on(PROB) {
            ensure!(self.mgr.bdd().live_node_count() == live, "a probability query changed the manager");
        }
        Ok(())
    }

    /// Imprecise probabilities: the answer encloses every point value.
    fn intervals(&mut self, i: usize, ss: &[bool], s: &Step, ctx: &mut Ctx) -> R {
        let mut r = sub(s, 3);
        let (h, t) = (&self.pool[i].h, self.pool[i].t.clone());
        let point = r.chance(1, 5);
        let boxes: Vec<SimI> = (0..self.n())
            .map(|_| {
                let (a, b) = (r.below(9), r.below(9));
                let b = if point || r.chance(1, 4) { a } else { b };
                SimI(a.min(b) as f64 / 8.0, a.max(b) as f64 / 8.0)
            })
            .collect();
        let pv: HashMap<String, SimI> = boxes.iter().enumerate().map(|(v, x)| (vname(v), *x)).collect();
        let pts: Vec<Vec<f64>> = (0..if point { 1 } else { 5 })
            .map(|_| {
                boxes
                    .iter()
                    .map(|b| match r.below(5) {
                        0 | 1 => b.0,
                        2 | 3 => b.1,
                        _ => (b.0 + b.1) / 2.0,
                    })
                    .collect()
            })
            .collect();
        let inside = |got: SimI, x: f64, what: &str| -> R {
            ensure!(got.has(x), "{}: the interval [{}, {}] misses the value {}", what, got.0, got.1, x);
            ensure!(!point || got == SimI(x, x), "{}: point input gives [{}, {}], not {}", what, got.0, got.1, x);
            Ok(())
        };
        if s.a[2] % 2 == 0 {
            ctx.op("prob-interval");
            let got = h.prob(&pv, ss);
            ctx.check("interval-probability");
            for p in &pts {
                inside(got, self.brute(&t, p, ss, None), "probability")?;
            }
        } else {
            ctx.op("bmeas-interval");
            let got = h.bmeas(&pv, ss);
            ctx.check("interval-importance");
            for v in 0..self.n() {
                let g = got.get(&vname(v));
                ensure!(g.is_some() || !self.support(&t, v), "importance of v{} is missing", v);
                let Some(&g) = g else { continue };
                for p in &pts {
                    let want = self.brute(&t, p, ss, Some((v, 1))) - self.brute(&t, p, ss, Some((v, 0)));
                    inside(g, want, &format!("importance of v{}", v))?;
                }
            }
        }
        Ok(())
    }

    /// Matching assignments over the variables up to the root's level.
    fn expected_count(&self, t: &[i64], ss: &[bool], level: Option<usize>) -> u64 {
        let all = t.iter().filter(|&&x| ss.contains(&(x == 1))).count() as u64;
        let below = level.map_or(0, |l| l + 1);
        all >> (self.n() - below)
    }

    fn count(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let Some(i) = self.pick(s.a[0]) else { return Ok(()) };
        let mut r = sub(s, 1);
        let ss = Self::outcome(&mut r);
        ctx.op("bdd-count");
        let p = &self.pool[i];
        let got = p.h.bdd_count(&ss);
        if ctx.on(ENUM) {
            ctx.check("count");
            let want = self.expected_count(&p.t, &ss, p.h.get_level());
            ensure!(got == want, "count of {:?} is {}, exact value is {}", ss, got, want);
        }
        Ok(())
    }

    fn extract(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if self.iters.len() >= 3 {
            return Ok(());
        }
        let Some(i) = self.pick(s.a[0]) else { return Ok(()) };
        let mut r = sub(s, 1);
        let ss = Self::outcome(&mut r);
        ctx.op("bdd-extract");
        let p = &self.pool[i];
        let it = p.h.bdd_extract(&ss);
        let level = p.h.get_level();
        let total = self.expected_count(&p.t, &ss, level);
        let id = p.h.get_id();
        self.iters.push(BIter { it, id, t: p.t.clone(), ss, level, seen: HashSet::new(), total, done: false, whole: true });
        if s.a[2] % 2 == 0 {
            ctx.fault("handle-dropped-under-iterator");
            self.pool.swap_remove(i);
        }
        Ok(())
    }

    fn advance(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if self.iters.is_empty() {
            return Ok(());
        }
        let k = s.a[0] as usize % self.iters.len();
        ctx.op("bdd-iterate");
        ctx.fault("iterator-suspended");
        let n = self.n();
        let it = &mut self.iters[k];
        if ctx.on(ENUM) {
            ctx.check("iterator-len");
            ensure!(it.it.len() == it.total, "iterator length is {}, exact count is {}", it.it.len(), it.total);
        }
        let m = if s.a[1] % 4 == 0 { 4096 } else { 1 + s.a[1] % 16 };
        for _ in 0..m {
            match it.it.next() {
                None => {
                    if ctx.on(ENUM) && !it.done && it.whole {
                        ensure!(it.seen.len() as u64 == it.total, "iterator yielded {} of {} assignments", it.seen.len(), it.total);
                    }
                    it.done = true;
                    break;
                }
                Some(a) => {
                    ensure!(!it.done, "iterator yielded an assignment after its end");
                    if !ctx.on(ENUM) {
                        it.whole = false;
                        continue;
                    }
                    ctx.check("iterator-item");
                    let mut idx = 0;
                    let mut have = 0u64;
                    for l in &a {
                        let (x, name) = match l.strip_prefix('~') {
                            Some(r) => (0, r),
                            None => (1, l.as_str()),
                        };
                        let v = parse_var(name, n)?;
                        let lv = self.declared.iter().position(|&d| d == v);
                        ensure!(lv.is_some() && lv <= it.level, "assignment {:?} mentions v{} above the top variable", a, v);
                        ensure!(have >> v & 1 == 0, "assignment {:?} mentions v{} twice", a, v);
                        have |= 1 << v;
                        idx += x * self.space.strides[v];
                    }
                    ensure!(
                        have.count_ones() as usize == it.level.map_or(0, |l| l + 1),
                        "assignment {:?} does not mention every variable up to the top one", a
                    );
                    ensure!(it.ss.contains(&(it.t[idx] == 1)), "iterator yielded {:?}, which has another outcome", a);
                    ensure!(it.seen.insert(idx), "iterator yielded {:?} twice", a);
                }
            }
        }
        if self.iters[k].done || s.a[2] % 16 == 0 {
            self.iters.swap_remove(k);
        }
        Ok(())
    }

    // ------------------------------------------------------- minimal paths/cuts
    pub fn min_sets(space: &Space, t: &[i64], cut: bool) -> Option<Vec<i64>> {
        let n = space.dims.len();
        let full = space.len() - 1;
        for i in 0..space.len() {
            for v in 0..n {
                let st = space.strides[v];
                if i / st % 2 == 0 && t[i] > t[i + st] {
                    return None;
                }
            }
        }
        // with a cut, the set is what is down
        let hit = |i: usize| if cut { t[full - i] == 0 } else { t[i] == 1 };
        Some(
            (0..space.len())
                .map(|i| {
                    (hit(i)
                        && (0..n).all(|v| {
                            let st = space.strides[v];
                            i / st % 2 == 0 || !hit(i - st)
                        })) as i64
                })
                .collect(),
        )
    }

    fn minsol(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let Some(i) = self.pick(s.a[0]) else { return Ok(()) };
        let cut = s.a[1] % 2 == 1;
        let interrupted = s.op == CUT;
        let what = if cut { "mincut" } else { "minpath" };
        ctx.op(what);
        ctx.note(|| format!("{} of {}", what, self.pool[i].h.get_id()));
        let want = Self::min_sets(&self.space, &self.pool[i].t, cut);
        // mincut pins the dual while it may collect
        if ctx.on(GC) {
            let z = self.pool[i].h.get_mgr();
            let r = self.reachable(&z.borrow(), &[])?;
            self.rmax = self.rmax.max(2 * r);
        }
        let (m, h) = (&self.mgr, &self.pool[i].h);
        let run = || if cut { m.mincut(h) } else { m.minpath(h) };
        let got = if interrupted {
            FAULTS.with(|f| f.borrow_mut().cut_in = geo(s.a[4], 200));
            let b = fault_counts().2;
            let r = maybe_cut(run);
            ctx.faults_n("cut-at-memo-access", fault_counts().2 - b);
            match r {
                None => return self.check_all(ctx),
                Some(x) => x,
            }
        } else {
            run()
        };
        ctx.check("monotone-verdict");
        match (got, want) {
            (None, None) => {
                ctx.event(1);
                Ok(())
            }
            (Some(z), Some(w)) => {
                let BssW { mgr, z: zp, .. } = self;
                zp.accept(mgr.zdd(), z, Some(w), 0, s.a[4], what, ctx)
            }
            (Some(z), None) => {
                if ctx.on(MINSOL) {
                    return Err(format!("{} accepted a function that is not monotone", what));
                }
                drop(z);
                Ok(())
            }
            (None, Some(_)) => {
                if ctx.on(MINSOL) {
                    return Err(format!("{} refused a monotone function", what));
                }
                Ok(())
            }
        }
    }

    /// Builds a monotone function from variables with and/or/k-of-n, as one step.
    fn mono(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let mut r = sub(s, 0);
        let m = r.range(2, 7);
        let mut st: Vec<(BddNode, Vec<i64>)> = vec![];
        for _ in 0..m {
            let v = *r.pick(&self.declared);
            st.push((self.defvar(v), self.space.var(v)));
        }
        let mut last: Option<((BddNode, Vec<i64>), (BddNode, Vec<i64>))> = None;
        while st.len() > 1 {
            if st.len() >= 3 && r.chance(1, 5) {
                let k = r.range(1, st.len() as u64) as usize;
                let hs: Vec<BddNode> = st.iter().map(|x| x.0.clone()).collect();
                let t = (0..self.space.len()).map(|i| (st.iter().filter(|x| x.1[i] == 1).count() >= k) as i64).collect();
                let h = self.mgr.kofn(k, &hs);
                let mut ids: Vec<usize> = st.iter().map(|x| x.0.get_id()).collect();
                if let Some((a, b)) = &last {
                    ids.extend([a.0.get_id(), b.0.get_id()]);
                }
                self.memory(&h, &ids, 0, false, ctx)?;
                drop(hs);
                st = vec![(h, t)];
                break;
            }
            let i = r.below(st.len() as u64) as usize;
            let a = st.swap_remove(i);
            let j = r.below(st.len() as u64) as usize;
            let b = st.swap_remove(j);
            last.take();
            let (h, t) = if r.chance(1, 2) {
                (a.0.and(&b.0), Op::And.spec(&[&a.1, &b.1], &self.space, 0))
            } else {
                (a.0.or(&b.0), Op::Or.spec(&[&a.1, &b.1], &self.space, 0))
            };
            last = Some((a, b));
            // keep every intermediate alive until the bound has been checked
            let ids: Vec<usize> = st.iter().map(|x| x.0.get_id()).chain([h.get_id()]).collect();
            let (x, y) = last.as_ref().map(|(a, b)| (a.0.get_id(), b.0.get_id())).unwrap();
            let mut ids = ids;
            ids.extend([x, y]);
            self.memory(&h, &ids, 0, false, ctx)?;
            st.push((h, t));
        }
        drop(last);
        let (h, t) = st.pop().unwrap();
        ctx.op("monotone-expression");
        self.accept(h, t, s.a[4], "monotone expression", false, ctx)
    }

    fn metas(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        ctx.op("meta");
        if !ctx.on(META) {
            return Ok(());
        }
        ctx.check("metadata");
        let order = self.mgr.get_varorder();
        let want: Vec<String> = self.declared.iter().map(|v| vname(v)).collect();
        ensure!(order == want, "variable order is {:?}, declared {:?}", order, want);
        ensure!(self.mgr.size().0 == self.declared.len(), "{} headers for {} variables", self.mgr.size().0, self.declared.len());
        let v = *Rng::new(s.a[0] as u64).pick(&self.declared);
        let h = self.defvar(v);
        let lv = self.declared.iter().position(|&d| d == v);
        ensure!(h.get_level() == lv, "variable v{} moved from level {:?} to {:?}", v, lv, h.get_level());
        ensure!(h.get_label().as_deref() == Some(&vname(v)), "variable v{} is labelled {:?}", v, h.get_label());
        let (_, t) = self.table(&h)?;
        compare(&self.space, &t, &self.space.var(v)).map_err(|e| format!("declared variable v{} {}", v, e))?;
        if let Some(&id) = self.varnodes.get(&v) {
            ensure!(id == h.get_id(), "declaring v{} again gave another node", v);
        }
        if let Some(i) = self.pick(s.a[1]) {
            let p = &self.pool[i];
            let c0 = p.t.iter().all(|&x| x == 0);
            let c1 = p.t.iter().all(|&x| x == 1);
            if self.space.full {
                ensure!(p.h.is_zero() == c0 && p.h.is_one() == c1 && !p.h.is_undet(), "is_zero/is_one/is_undet are wrong");
            }
        }
        Ok(())
    }

    fn kids(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let Some(i) = self.pick(s.a[0]) else { return Ok(()) };
        ctx.op("children");
        let p = &self.pool[i];
        match p.h.get_children() {
            None => {
                if ctx.on(META) {
                    ensure!(
                        p.h.get_level().is_none() && p.h.get_label().is_none() && p.h.get_header().is_none(),
                        "a terminal has a level, label or header"
                    );
                    ensure!(p.h.is_zero() || p.h.is_one(), "a non-constant has no children");
                }
                Ok(())
            }
            Some((c0, c1)) => {
                let t0 = self.table(&c0)?.1;
                let t1 = self.table(&c1)?.1;
                if ctx.on(META) && self.space.full {
                    ctx.check("children");
                    let v = parse_var(&p.h.get_label().ok_or("no label")?, self.n())?;
                    let st = self.space.strides[v];
                    for (q, pt) in self.space.points.iter().enumerate() {
                        let b = q - pt[v] as usize * st;
                        ensure!(t0[q] == p.t[b] && t1[q] == p.t[b + st], "children of v{} are not its cofactors", v);
                    }
                    ensure!(p.h.get_level() == self.declared.iter().position(|&d| d == v), "node of v{} is on the wrong level", v);
                    let hid = p.h.get_header();
                    let var = self.defvar(v);
                    ensure!(hid.is_some() && hid == var.get_header(), "header {:?} of a node of v{} is not that variable's", hid, v);
                }
                let (h, t) = if s.a[1] % 2 == 0 { (c0, t0) } else { (c1, t1) };
                self.accept(h, t, s.a[4], "child", false, ctx)
            }
        }
    }

    fn gc(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        ctx.op("gc");
        ctx.fault("explicit-gc");
        ctx.note(|| "gc".into());
        let keep: Vec<&BddNode> = if s.a[0] % 2 == 0 { vec![] } else { self.pool.iter().map(|p| &p.h).take(2).collect() };
        for _ in 0..storm(s.a[3], ctx) {
            self.mgr.bdd().gc(&keep);
        }
        let ret = self.mgr.bdd().gc(&keep);
        self.check_all(ctx)?;
        if ctx.on(GC) {
            let (live, slots) = (self.mgr.bdd().live_node_count(), self.mgr.size().1);
            for v in self.declared.clone() {
                self.note_var(v);
            }
            let z = self.mgr.zero().get_mgr();
            let r = self.reachable(&z.borrow(), &[])?;
            ctx.check("gc-exact");
            ensure!(live == r, "after gc {} BDD nodes are alive, {} are reachable", live, r);
            ensure!(ret == slots - live, "gc reported {} reclaimed slots, {} are free", ret, slots - live);
        }
        Ok(())
    }
}

impl World for BssW {
    fn step(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if ctx.on(GC) {
            for v in self.declared.clone() {
                self.note_var(v);
            }
        }
        self.pre();
        match s.op {
            DEFVAR => {
                ctx.op("defvar");
                if s.a[0] % 2 == 0 {
                    if let Some((v, h)) = self.declare_next() {
                        self.varnodes.insert(v, h.get_id());
                        ctx.note(|| format!("defvar v{}", v));
                        let t = self.space.var(v);
                        self.accept(h, t, s.a[4], "defvar", false, ctx)?;
                        return Ok(());
                    }
                }
                let v = *Rng::new(s.a[1] as u64).pick(&self.declared);
                ctx.note(|| format!("defvar v{} again", v));
                let h = self.defvar(v);
                let t = self.space.var(v);
                self.accept(h, t, s.a[4], "defvar", false, ctx)?;
            }
            CONST => {
                ctx.op("constant");
                let h = if s.a[0] % 2 == 0 { self.mgr.zero() } else { self.mgr.one() };
                let t = self.space.constant((s.a[0] % 2) as i64);
                self.accept(h, t, s.a[4], "constant", true, ctx)?;
            }
            BIN => {
                if let Some((h, w, n)) = self.bin(s, ctx)? {
                    self.accept(h, w, s.a[4], n, true, ctx)?;
                }
            }
            NARY | KOFN => {
                if let Some((h, w, n)) = self.nary(s, ctx) {
                    self.accept(h, w, s.a[4], n, true, ctx)?;
                }
            }
            DUAL => {
                if let Some(i) = self.pick(s.a[0]) {
                    if self.space.full {
                        ctx.op("dual");
                        let t = self.pool[i].t.clone();
                        let k = t.len() - 1;
                        let w = (0..t.len()).map(|q| 1 - t[k - q]).collect();
                        let h = self.pool[i].h.dual();
                        self.accept(h, w, s.a[4], "dual", true, ctx)?;
                    }
                }
            }
            RPNOK => self.rpn(s, false, false, ctx)?,
            RPNBAD => self.rpn(s, true, false, ctx)?,
            NODE => {
                // a node above everything its children mention
                let v = *Rng::new(s.a[0] as u64).pick(&self.declared);
                let lv = self.declared.iter().position(|&d| d == v).unwrap();
                let below: Vec<usize> =
                    (0..self.pool.len()).filter(|&i| self.pool[i].h.get_level().map_or(true, |l| l < lv)).collect();
                if !below.is_empty() {
                    ctx.op("create_node");
                    let a = below[s.a[1] as usize % below.len()];
                    let b = below[s.a[2] as usize % below.len()];
                    let hid = self.defvar(v).get_header().ok_or("variable without header")?;
                    let w = self
                        .space
                        .points
                        .iter()
                        .enumerate()
                        .map(|(i, p)| if p[v] == 1 { self.pool[b].t[i] } else { self.pool[a].t[i] })
                        .collect();
                    let h = self.mgr.create_node(hid, &self.pool[a].h, &self.pool[b].h);
                    self.accept(h, w, s.a[4], "create_node", true, ctx)?;
                }
            }
            CLONE => {
                if let Some(i) = self.pick(s.a[0]) {
                    ctx.op("clone");
                    crowd(&self.pool[i].h, s.a[3], ctx);
                    if self.pool.len() < self.cap {
                        let (h, t) = (self.pool[i].h.clone(), self.pool[i].t.clone());
                        self.pool.push(BEnt { h, t });
                    }
                }
            }
            DROP => {
                if let Some(i) = self.pick(s.a[0]) {
                    ctx.op("drop");
                    self.drop_at(i, ctx)?;
                }
            }
            GCC => self.gc(s, ctx)?,
            THRESH => {
                ctx.op("set_gc_threshold");
                ctx.fault("gc-threshold-change");
                let t = (1 + s.a[0] as u64 % (self.small * 4)) as usize;
                ctx.note(|| format!("threshold {}", t));
                self.mgr.bdd().set_gc_threshold(t);
                self.floor = t;
                if s.a[1] % 8 == 0 {
                    self.mgr.bdd().set_gc_threshold(0);
                    self.floor = 0;
                }
            }
            CLEAR => {
                ctx.op("clear_cache");
                ctx.fault("cache-clear");
                for _ in 0..=storm(s.a[3], ctx) {
                    self.mgr.clear_cache();
                }
                if ctx.on(LOSS) {
                    ctx.check("cache-cleared");
                    let n = (self.mgr.size().2, self.mgr.zdd().size().2);
                    ensure!(n == (0, 0), "{:?} remembered results right after the caches were cleared", n);
                }
            }
            PROBS => {
                if self.space.full {
                    self.probs(s, false, ctx)?
                }
            }
            PROBCUT => {
                if self.space.full {
                    self.probs(s, true, ctx)?
                }
            }
            COUNT => {
                if self.space.full {
                    self.count(s, ctx)?
                }
            }
            EXTRACT => {
                if self.space.full {
                    self.extract(s, ctx)?
                }
            }
            ADVANCE => self.advance(s, ctx)?,
            MINP => {
                if self.space.full {
                    self.minsol(s, ctx)?
                }
            }
            MONO => self.mono(s, ctx)?,
            CUT => match s.a[2] % 4 {
                0 => self.rpn(s, false, true, ctx)?,
                1 if self.space.full => self.minsol(s, ctx)?,
                _ => {
                    if !self.pool.is_empty() {
                        let before = fault_counts().2;
                        FAULTS.with(|f| f.borrow_mut().cut_in = geo(s.a[4], 200));
                        let kofn = Step { op: if s.a[3] % 2 == 0 { KOFN } else { NARY }, a: s.a };
                        let me = &mut *self;
                        let mut quiet = Ctx::new(0);
                        let r = if s.a[2] % 4 == 2 {
                            maybe_cut(|| me.bin(s, &mut quiet))
                        } else {
                            maybe_cut(|| Ok(me.nary(&kofn, &mut quiet)))
                        };
                        ctx.faults_n("cut-at-memo-access", fault_counts().2 - before);
                        match r {
                            None => self.check_all(ctx)?,
                            Some(x) => {
                                if let Some((h, w, n)) = x? {
                                    self.accept(h, w, s.a[4], n, true, ctx)?;
                                }
                            }
                        }
                    }
                }
            },
            BURST => {
                let mut r = sub(s, 0);
                for _ in 0..r.range(2, 12) {
                    self.pre();
                    let t = Step { op: BIN, a: [r.next() as u32, r.next() as u32, r.next() as u32, r.next() as u32, 0] };
                    if let Some((h, w, n)) = self.bin(&t, ctx)? {
                        if ctx.on(FUNC) {
                            let (_, got) = self.table(&h)?;
                            compare(&self.space, &got, &w).map_err(|e| format!("{} {}", n, e))?;
                        }
                        self.memory(&h, &[], 0, true, ctx)?;
                    }
                }
            }
            SIZES => {
                if let Some(i) = self.pick(s.a[0]) {
                    ctx.op("size");
                    if ctx.on(ENUM) {
                        ctx.check("size");
                        let (g, _) = self.table(&self.pool[i].h)?;
                        let e: usize = g.nodes.iter().map(|n| n.edges.len()).sum();
                        let want = (g.nonterminals() as u64, g.terminals() as u64, e as u64);
                        let got = self.pool[i].h.size();
                        ensure!(got == want, "size() is {:?}, the diagram is {:?}", got, want);
                    }
                }
            }
            KIDS => self.kids(s, ctx)?,
            METAS => self.metas(s, ctx)?,
            DOTS => {
                if let Some(i) = self.pick(s.a[0]) {
                    ctx.op("dot");
                    if ctx.on(DOT) {
                        ctx.check("dot-graph");
                        let (g, _) = self.table(&self.pool[i].h)?;
                        check_dot(&self.pool[i].h.dot(), &g, self.pool[i].h.get_id(), &self.space, Rule::Merge, &self.pool[i].t)?;
                    }
                }
            }
            CHECK => self.check_all(ctx)?,
            EVENT => {}
            _ => {
                let BssW { mgr, z, .. } = self;
                let zm = mgr.zdd();
                match s.op {
                    ZBIN => z.binop(zm, s, false, ctx)?,
                    ZCUT => z.binop(zm, s, true, ctx)?,
                    ZDROP => {
                        if !z.pool.is_empty() {
                            let i = s.a[0] as usize % z.pool.len();
                            z.drop_at(i, ctx)?;
                        }
                    }
                    ZCLONE => {
                        if !z.pool.is_empty() && z.pool.len() < z.cap {
                            let i = s.a[0] as usize % z.pool.len();
                            crowd(&z.pool[i].h, s.a[3], ctx);
                            let (h, t) = (z.pool[i].h.clone(), z.pool[i].t.clone());
                            z.pool.push(ZEnt { h, t });
                        }
                    }
                    ZTHRESH => {
                        ctx.fault("gc-threshold-change");
                        let t = 1 + s.a[0] as usize % 40;
                        zm.set_gc_threshold(t);
                        z.floor = t;
                    }
                    ZCONST => {
                        if z.space.full {
                            let one = s.a[0] % 2 == 1;
                            let h = if one { zm.one() } else { zm.zero() };
                            let mut t = z.space.constant(0);
                            t[0] = one as i64;
                            z.accept(zm, h, Some(t), 0, s.a[4], "constant family", ctx)?;
                        }
                    }
                    ZQUERY => z.queries(s, ctx)?,
                    ZEXTRACT => z.start_iter(s, ctx)?,
                    ZADVANCE => z.advance(s, ctx)?,
                    _ => {}
                }
            }
        }
        if ctx.events % 4 == 0 {
            let mut h = 0u64;
            for p in &self.pool {
                h = h.wrapping_add(mix(hash_i64s(&p.t) ^ p.h.get_id() as u64));
            }
            for p in &self.z.pool {
                h = h.wrapping_add(mix(hash_i64s(&p.t) ^ ((p.h.get_id() as u64) << 20)));
            }
            ctx.state(h);
        }
        Ok(())
    }

    fn fingerprint(&self) -> u64 {
        let mut v: Vec<i64> = self.pool.iter().map(|p| p.h.get_id() as i64).collect();
        v.extend(self.z.pool.iter().map(|p| p.h.get_id() as i64));
        let (a, b) = (self.mgr.size(), self.mgr.zdd().size());
        v.extend([a.0, a.1, b.0, b.1, self.mgr.bdd().live_node_count(), self.mgr.zdd().live_node_count()].map(|x| x as i64));
        hash_i64s(&v)
    }

    fn finish(&mut self, ctx: &mut Ctx) -> R {
        self.check_all(ctx)?;
        while !self.iters.is_empty() {
            self.advance(&Step { op: ADVANCE, a: [0, 0, 1, 0, 0] }, ctx)?;
        }
        while !self.z.iters.is_empty() {
            self.z.advance(&Step { op: ZADVANCE, a: [0, 11, 1, 0, 0] }, ctx)?;
        }
        if ctx.on(GC) {
            self.gc(&Step { op: GCC, a: [0; 5] }, ctx)?;
            self.pool.clear();
            self.gc(&Step { op: GCC, a: [0; 5] }, ctx)?;
        }
        Ok(())
    }
}

/// Class weights; the property decides which classes matter.
pub fn gen_bss(rng: &mut Rng, cfg: &Cfg) -> Vec<Step> {
    let n = cfg.us("steps").max(1);
    let mut w: Vec<(u16, u64)> = vec![
        (DEFVAR, 4),
        (CONST, 1),
        (BIN, 30),
        (NARY, 3),
        (KOFN, 4),
        (DUAL, 3),
        (NODE, rng.below(5)),
        (CLONE, rng.below(5)),
        (DROP, rng.below(10)),
        (CHECK, 1),
        (GCC, cfg.get("w_gc")),
        (THRESH, cfg.get("w_thr")),
        (CLEAR, cfg.get("w_clear")),
        (BURST, cfg.get("w_burst")),
        (CUT, cfg.get("w_cut")),
        (PROBCUT, cfg.get("w_cut") / 2),
        (ZCUT, cfg.get("w_cut") / 2),
        (RPNOK, cfg.get("w_rpn")),
        (RPNBAD, cfg.get("w_rpnbad")),
        (PROBS, cfg.get("w_prob")),
        (COUNT, cfg.get("w_enum")),
        (EXTRACT, cfg.get("w_enum")),
        (ADVANCE, cfg.get("w_enum") * 2),
        (SIZES, cfg.get("w_enum") / 2),
        (MONO, cfg.get("w_min")),
        (MINP, cfg.get("w_min")),
        (ZBIN, cfg.get("w_z")),
        (ZCONST, cfg.get("w_z") / 8),
        (ZDROP, cfg.get("w_z") / 4),
        (ZCLONE, cfg.get("w_z") / 8),
        (ZTHRESH, cfg.get("w_z") / 8),
        (ZQUERY, cfg.get("w_z") / 2),
        (ZEXTRACT, cfg.get("w_z") / 4),
        (ZADVANCE, cfg.get("w_z") / 2),
        (KIDS, cfg.get("w_meta")),
        (METAS, cfg.get("w_meta")),
        (DOTS, cfg.get("w_dot")),
    ];
    w.retain(|x| x.1 > 0);
    let tot: u64 = w.iter().map(|x| x.1).sum();
    (0..n)
        .map(|i| {
            let mut x = rng.below(tot);
            let mut op = BIN;
            if i < 4 {
                op = DEFVAR;
            } else {
                for &(o, ww) in &w {
                    if x < ww {
                        op = o;
                        break;
                    }
                    x -= ww;
                }
            }
            Step { op, a: [rng.next() as u32, rng.next() as u32, rng.next() as u32, rng.next() as u32, rng.next() as u32] }
        })
        .collect()
}
