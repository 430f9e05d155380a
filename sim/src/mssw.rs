//! World 3: the multi-state handle layer (mss::MssMgr) with automatic collection.
use crate::core::*;
use crate::corew::geo;
use crate::dot::check_dot;
use crate::engines::{mview, vview, zmview};
use crate::ensure;
use crate::ops::*;
use crate::space::*;
use mddcore::mtmdd2::{MtMdd2Manager, Node as N2};
use mddcore::prelude::ZmddManager;
use mss::prelude::{MddNode, MddPath, MssMgr, ZmddNode, ZmddPath};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub const DEFVAR: u16 = 0;
pub const CONST: u16 = 1;
pub const BIN: u16 = 2;
pub const NARY: u16 = 3;
pub const RPNOK: u16 = 4;
pub const RPNBAD: u16 = 5;
pub const NODE: u16 = 6;
pub const CLONE: u16 = 7;
pub const DROP: u16 = 8;
pub const GCC: u16 = 9;
pub const THRESH: u16 = 10;
pub const CLEAR: u16 = 11;
pub const PROBS: u16 = 12;
pub const COUNT: u16 = 13;
pub const EXTRACT: u16 = 14;
pub const ADVANCE: u16 = 15;
pub const MINP: u16 = 16;
pub const ZBIN: u16 = 17;
pub const ZDROP: u16 = 18;
pub const ZQUERY: u16 = 19;
pub const ZEXTRACT: u16 = 20;
pub const ZADVANCE: u16 = 21;
pub const SIZES: u16 = 22;
pub const KIDS: u16 = 23;
pub const METAS: u16 = 24;
pub const DOTS: u16 = 25;
pub const CUT: u16 = 26;
pub const PROBCUT: u16 = 27;
pub const CHECK: u16 = 28;
pub const BURST: u16 = 29;
pub const MONO: u16 = 30;
pub const ZCUT: u16 = 31;
pub const BADREQ: u16 = 32;
pub const ZGC: u16 = 33;
pub const ZCLONE: u16 = 34;

type H = MddNode<SimV>;

pub struct MEnt {
    pub h: H,
    pub t: Rc<Vec<i64>>,
}

pub struct ZMEnt {
    h: ZmddNode<SimV>,
    /// by recorded coordinates: states for paths, levels below max for cuts
    t: Rc<Vec<i64>>,
    cut: bool,
    vars: Rc<Vec<usize>>,
    /// the structure function it came from, while unchanged
    phi: Option<Rc<Vec<i64>>>,
}

struct MIter {
    it: MddPath<SimV>,
    id: (u8, usize),
    t: Rc<Vec<i64>>,
    ss: Vec<i64>,
    level: Option<usize>,
    seen: HashSet<usize>,
    total: u64,
    done: bool,
    /// every vector so far was looked at
    whole: bool,
}

struct ZMIter {
    it: ZmddPath<SimV>,
    id: usize,
    t: Rc<Vec<i64>>,
    cut: bool,
    vars: Rc<Vec<usize>>,
    ss: Vec<i64>,
    seen: HashSet<usize>,
    done: bool,
    /// every vector so far was looked at
    whole: bool,
}

struct VF<'a>(&'a MtMdd2Manager<SimV>, u8, usize);
impl<'a> Forest for VF<'a> {
    fn view(&self, id: usize) -> R<View> {
        if self.1 == 0 {
            mview(self.0.mdd(), id, self.2)
        } else {
            vview(self.0.mtmdd(), id, self.2)
        }
    }
}
struct ZF<'a>(&'a ZmddManager<SimV>, usize);
impl<'a> Forest for ZF<'a> {
    fn view(&self, id: usize) -> R<View> {
        zmview(self.0, id, self.1)
    }
}
const ZRULE: Rule = Rule::Suppress(U);

fn key(h: &H) -> (u8, usize) {
    match h.get_node() {
        N2::Bool(x) => (0, x),
        N2::Value(x) => (1, x),
    }
}

pub struct MssW {
    pub mgr: MssMgr<SimV>,
    pub space: Rc<Space>,
    declared: Vec<usize>,
    order: Vec<usize>,
    pub pool: Vec<MEnt>,
    zpool: Vec<ZMEnt>,
    iters: Vec<MIter>,
    ziters: Vec<ZMIter>,
    cap: usize,
    zcap: usize,
    floor: usize,
    rmax: usize,
    live: usize,
    slots: usize,
    varids: HashMap<usize, (u8, usize)>,
    small: u64,
    wild: bool,
    undet: bool,
}

fn sub(s: &Step, j: usize) -> Rng {
    Rng::new(((s.a[j] as u64) << 32) ^ s.a[4] as u64 ^ ((j as u64) << 17))
}

/// Spec with unspecified operand points staying unspecified.
fn spec(op: Op, ts: &[&[i64]], sp: &Space) -> Vec<i64> {
    let mut r = op.spec(ts, sp, 0);
    for i in 0..r.len() {
        if ts.iter().any(|t| t[i] == X) {
            r[i] = X;
        }
    }
    r
}

impl MssW {
    pub fn new(cfg: &Cfg) -> Self {
        let n = cfg.us("nvars").clamp(1, 12);
        let mut lay = Rng::new(cfg.get("lay"));
        let mut dims: Vec<usize> = (0..n).map(|_| lay.range(2, cfg.get("maxdim").max(2)) as usize).collect();
        while dims.iter().product::<usize>() > 2048 {
            dims.pop();
        }
        let n = dims.len();
        let mut order: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            order.swap(i, lay.below(i as u64 + 1) as usize);
        }
        let mut w = MssW {
            mgr: MssMgr::new(),
            space: Rc::new(Space::full(dims)),
            declared: vec![],
            order,
            pool: vec![],
            zpool: vec![],
            iters: vec![],
            ziters: vec![],
            cap: cfg.us("cap").max(4),
            zcap: cfg.us("zcap").max(3),
            floor: 1 << 16,
            rmax: 0,
            live: 0,
            slots: 0,
            varids: HashMap::new(),
            small: cfg.get("thr").max(1),
            wild: cfg.on("wild"),
            undet: cfg.on("undet"),
        };
        for _ in 0..cfg.us("v0").max(1) {
            w.declare_next();
        }
        if cfg.on("thr0") {
            w.mgr.set_gc_threshold(cfg.us("thr0"));
            w.floor = cfg.us("thr0");
        }
        w
    }

    fn n(&self) -> usize {
        self.space.dims.len()
    }

    fn declare_next(&mut self) -> Option<(usize, H)> {
        let v = *self.order.iter().find(|v| !self.declared.contains(v))?;
        Some((v, self.defvar(v)))
    }

    fn defvar(&mut self, v: usize) -> H {
        if !self.declared.contains(&v) {
            self.declared.push(v);
        }
        let h = self.mgr.defvar(&vname(v), self.space.dims[v]);
        self.varids.entry(v).or_insert_with(|| key(&h));
        h
    }

    fn val(&self, a: u32) -> i64 {
        if self.wild && a % 3 == 0 {
            let xs = [0, 1, -1, 2, i32::MAX as i64, i32::MIN as i64, 65536, -7];
            return xs[(a / 3) as usize % xs.len()];
        }
        (a / 3 % 7) as i64 - 1
    }

    fn graph(&self, m: &MtMdd2Manager<SimV>, k: u8, roots: &[usize]) -> R<Graph> {
        Graph::read(&VF(m, k, self.n()), roots, &self.space.dims)
    }

    fn zgraph(&self, m: &ZmddManager<SimV>, roots: &[usize]) -> R<Graph> {
        Graph::read(&ZF(m, self.n()), roots, &self.space.dims)
    }

    pub fn table(&self, h: &H) -> R<(Graph, Vec<i64>)> {
        let z = h.get_mgr();
        let m = z.borrow();
        let (k, id) = key(h);
        let g = self.graph(&m, k, &[id])?;
        let t = g.eval(id, &self.space, Rule::Merge);
        Ok((g, t))
    }

    fn ztable(&self, h: &ZmddNode<SimV>) -> R<(Graph, Vec<i64>)> {
        let z = h.get_mgr();
        let m = z.borrow();
        let g = self.zgraph(&m, &[h.get_id()])?;
        let t = g.eval(h.get_id(), &self.space, ZRULE);
        Ok((g, t))
    }

    fn roots(&self, k: u8) -> Vec<usize> {
        let mut r: Vec<usize> = self.pool.iter().map(|p| key(&p.h)).filter(|x| x.0 == k).map(|x| x.1).collect();
        r.extend(self.iters.iter().map(|i| i.id).filter(|x| x.0 == k).map(|x| x.1));
        r
    }

    fn zroots(&self) -> Vec<usize> {
        self.zpool.iter().map(|p| p.h.get_id()).chain(self.ziters.iter().map(|i| i.id)).collect()
    }

    pub fn check_all(&self, ctx: &mut Ctx) -> R {
        if let Some(p) = self.pool.first() {
            let z = p.h.get_mgr();
            let m = z.borrow();
            for k in [0, 1] {
                let g = self.graph(&m, k, &self.roots(k))?;
                for p in self.pool.iter().filter(|p| key(&p.h).0 == k) {
                    ctx.check("handle-stable");
                    let t = g.eval(key(&p.h).1, &self.space, Rule::Merge);
                    ensure!(t == *p.t, "handle to node {:?} changed its meaning", key(&p.h));
                }
                if ctx.on(CANON) {
                    ctx.check("canonical-forest");
                    g.canonical(Rule::Merge)?;
                }
            }
        }
        if let Some(p) = self.zpool.first() {
            let z = p.h.get_mgr();
            let m = z.borrow();
            let g = self.zgraph(&m, &self.zroots())?;
            for p in &self.zpool {
                ctx.check("handle-stable");
                let t = g.eval(p.h.get_id(), &self.space, ZRULE);
                ensure!(t == *p.t, "family handle {} changed its meaning", p.h.get_id());
            }
            if ctx.on(CANON) {
                ctx.check("canonical-forest");
                g.canonical(ZRULE)?;
            }
        }
        Ok(())
    }

    fn reachable(&self, m: &MtMdd2Manager<SimV>, extra: &[(u8, usize)]) -> R<usize> {
        let mut sum = 0;
        for k in [0u8, 1] {
            let mut r = self.roots(k);
            r.extend(extra.iter().chain(self.varids.values()).filter(|x| x.0 == k).map(|x| x.1));
            if k == 0 {
                r.extend([m.mdd().zero(), m.mdd().one(), m.mdd().undet()]);
            } else {
                r.push(m.mtmdd().undet());
            }
            sum += self.graph(m, k, &r)?.nodes.len();
        }
        Ok(sum)
    }

    fn pre(&mut self) {
        self.live = self.mgr.live_node_count();
        self.slots = self.mgr.size().1;
    }

    fn memory(&mut self, h: &H, extra: &[(u8, usize)], exact: bool, ctx: &mut Ctx) -> R {
        let live = self.mgr.live_node_count();
        let slots = self.mgr.size().1;
        ctx.max_live = ctx.max_live.max(live as u64);
        if live < self.live {
            ctx.fault("auto-gc");
        }
        if ctx.on(GC) {
            let z = h.get_mgr();
            let mut ex = extra.to_vec();
            ex.push(key(h));
            let r = self.reachable(&z.borrow(), &ex)?;
            self.rmax = self.rmax.max(r);
            ctx.check("auto-gc-bound");
            let bound = self.floor.max(2 * self.rmax);
            ensure!(
                live <= bound,
                "{} live MDD nodes exceed the bound {} (threshold {}, largest reachable set {})",
                live, bound, self.floor, self.rmax
            );
            if exact && live < self.live {
                ctx.check("gc-exact");
                ensure!(live == r, "after automatic collection {} MDD nodes are alive, {} reachable", live, r);
            }
            let _ = slots;
        }
        Ok(())
    }

    fn accept(&mut self, h: H, want: Option<Vec<i64>>, kind: u8, evict: u32, what: &str, wrapped: bool, ctx: &mut Ctx) -> R {
        let id = key(&h);
        ensure!(id.0 == kind, "{} returned the wrong kind of node", what);
        let (g, got) = self.table(&h).map_err(|e| format!("{}: {}", what, e))?;
        if let Some(w) = &want {
            if ctx.on(FUNC) {
                ctx.check("result-vs-model");
                compare(&self.space, &got, w).map_err(|e| format!("{} {}", what, e))?;
            }
        }
        ctx.event(hash_i64s(&got));
        if ctx.on(CANON) {
            ctx.check("identity");
            for p in &self.pool {
                let q = key(&p.h);
                if q.0 == id.0 {
                    ensure!((q == id) == (*p.t == got), "{}: identity and equality disagree for nodes {:?} and {:?}", what, q, id);
                }
            }
            g.canonical(Rule::Merge).map_err(|e| format!("{}: {}", what, e))?;
        }
        if wrapped {
            self.memory(&h, &[], true, ctx)?;
        }
        if self.pool.len() >= self.cap {
            let i = evict as usize % self.pool.len();
            self.drop_at(i, ctx)?;
        }
        self.pool.push(MEnt { h, t: Rc::new(got) });
        Ok(())
    }

    fn drop_at(&mut self, i: usize, ctx: &mut Ctx) -> R {
        let (_, t) = self.table(&self.pool[i].h)?;
        ctx.check("handle-stable");
        ensure!(t == *self.pool[i].t, "handle to node {:?} changed its meaning", key(&self.pool[i].h));
        self.pool.swap_remove(i);
        Ok(())
    }

    fn pick(&self, raw: u32) -> Option<usize> {
        if self.pool.is_empty() {
            None
        } else {
            Some(raw as usize % self.pool.len())
        }
    }

    fn pick_kind(&self, kind: u8, raw: u32) -> Option<usize> {
        let c: Vec<usize> = (0..self.pool.len()).filter(|&i| key(&self.pool[i].h).0 == kind).collect();
        if c.is_empty() {
            None
        } else {
            Some(c[raw as usize % c.len()])
        }
    }

    fn run_op(op: Op, a: &[&H], k: u32) -> H {
        match op {
            Op::Not => a[0].not(),
            Op::And => a[0].and(a[1]),
            Op::Or => a[0].or(a[1]),
            Op::Xor => a[0].xor(a[1]),
            Op::Add => a[0].add(a[1]),
            Op::Sub => a[0].sub(a[1]),
            Op::Mul => a[0].mul(a[1]),
            Op::Div => a[0].div(a[1]),
            Op::Min => a[0].min(a[1]),
            Op::Max => a[0].max(a[1]),
            Op::Eq | Op::BEq => MddNode::eq(a[0], a[1]),
            Op::Ne | Op::BNe => MddNode::ne(a[0], a[1]),
            Op::Lt => MddNode::lt(a[0], a[1]),
            Op::Le => MddNode::le(a[0], a[1]),
            Op::Gt => MddNode::gt(a[0], a[1]),
            Op::Ge => MddNode::ge(a[0], a[1]),
            Op::Ite | Op::VIte | Op::BadIteB | Op::BadIteV => a[0].ite(a[1], a[2]),
            Op::BadBool => {
                let (x, y) = if k & 16 == 0 { (a[0], a[1]) } else { (a[1], a[0]) };
                match k % 16 {
                    0 => x.and(y),
                    1 => x.or(y),
                    2 => x.xor(y),
                    3 => a[1].not(),
                    4 => a[1].and(a[1]),
                    5 => MddNode::eq(x, y),
                    6 => MddNode::ne(x, y),
                    7 => MddNode::lt(x, y),
                    8 => MddNode::le(x, y),
                    9 => MddNode::gt(x, y),
                    10 => MddNode::ge(x, y),
                    11 => MddNode::lt(a[0], a[0]),
                    12 => MddNode::le(a[0], a[0]),
                    13 => MddNode::gt(a[0], a[0]),
                    14 => MddNode::ge(a[0], a[0]),
                    _ => a[1].or(a[1]),
                }
            }
            Op::BadValue => {
                let (x, y) = match (k >> 4) % 3 {
                    0 => (a[0], a[1]),
                    1 => (a[1], a[0]),
                    _ => (a[1], a[1]),
                };
                match k % 6 {
                    0 => x.add(y),
                    1 => x.sub(y),
                    2 => x.mul(y),
                    3 => x.div(y),
                    4 => x.min(y),
                    _ => x.max(y),
                }
            }
            _ => unreachable!(),
        }
    }

    fn bin(&mut self, s: &Step, ctx: &mut Ctx) -> Option<(H, Vec<i64>, u8, &'static str)> {
        const OPS: &[Op] = &[
            Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Min, Op::Max, Op::Min, Op::Max, Op::Eq, Op::Ne, Op::Lt, Op::Le,
            Op::Gt, Op::Ge, Op::And, Op::Or, Op::Xor, Op::Not, Op::Ite, Op::VIte, Op::VIte, Op::BEq, Op::BNe, Op::Add,
            Op::Ge, Op::And, Op::Or, Op::BadBool, Op::BadValue, Op::BadIteB, Op::BadIteV,
        ];
        let op = OPS[s.a[0] as usize % OPS.len()];
        let (sig, kind) = op.sig();
        let mut ix = vec![];
        for (j, &k) in sig.iter().enumerate() {
            ix.push(self.pick_kind(k, s.a[1 + j])?);
        }
        ctx.op(op.name());
        ctx.note(|| format!("{} {:?}", op.name(), ix.iter().map(|&i| key(&self.pool[i].h)).collect::<Vec<_>>()));
        let ts: Vec<&[i64]> = ix.iter().map(|&i| self.pool[i].t.as_slice()).collect();
        let want = op.spec(&ts, &self.space, 0);
        let hs: Vec<&H> = ix.iter().map(|&i| &self.pool[i].h).collect();
        Some((Self::run_op(op, &hs, s.a[4]), want, kind, op.name()))
    }

    fn nary(&mut self, s: &Step, ctx: &mut Ctx) -> Option<(H, Vec<i64>, u8, &'static str)> {
        let mut r = sub(s, 0);
        let (op, kind) = *r.pick(&[(Op::And, 0u8), (Op::Or, 0), (Op::Min, 1), (Op::Max, 1)]);
        let m = r.range(if kind == 0 { 0 } else { 1 }, 6);
        let mut ix = vec![];
        for _ in 0..m {
            ix.push(self.pick_kind(kind, r.next() as u32)?);
        }
        let hs: Vec<H> = ix.iter().map(|&i| self.pool[i].h.clone()).collect();
        let sp = self.space.clone();
        let mut acc = match op {
            Op::And => sp.constant(1),
            Op::Or => sp.constant(0),
            _ => self.pool[ix[0]].t.to_vec(),
        };
        for &i in ix.iter().skip(kind as usize) {
            acc = spec(op, &[&acc, &self.pool[i].t], &sp);
        }
        ctx.op("nary");
        ctx.note(|| format!("nary {} {:?}", op.name(), hs.iter().map(key).collect::<Vec<_>>()));
        Some(match op {
            Op::And => (self.mgr.and(&hs), acc, 0, "nary-and"),
            Op::Or => (self.mgr.or(&hs), acc, 0, "nary-or"),
            Op::Min => (self.mgr.min(&hs), acc, 1, "nary-min"),
            _ => (self.mgr.max(&hs), acc, 1, "nary-max"),
        })
    }

    // ------------------------------------------------------------------ rpn
    fn expr(&self, r: &mut Rng, kind: u8, depth: u32, only: bool, saved: &mut Vec<(String, u8)>, out: &mut Vec<String>) {
        let leaf = depth == 0 || r.chance(1, 4);
        if leaf {
            let ok: Vec<String> = saved.iter().filter(|x| x.1 == kind).map(|x| x.0.clone()).collect();
            if r.chance(1, 5) && !ok.is_empty() {
                out.push(format!("load({})", r.pick(&ok)));
            } else if kind == 0 {
                if r.chance(1, 6) {
                    out.push(r.pick(&["True", "False"]).to_string());
                } else {
                    self.leaf(r, only, out);
                    out.push(r.below(3).to_string());
                    out.push(r.pick(&[">=", ">", "<", "<=", "==", "!="]).to_string());
                }
            } else {
                self.leaf(r, only, out);
            }
        } else if kind == 0 {
            match r.below(8) {
                0 => {
                    self.expr(r, 0, depth - 1, only, saved, out);
                    out.push("!".into());
                }
                1 => {
                    for _ in 0..3 {
                        self.expr(r, 0, depth - 1, only, saved, out);
                    }
                    out.push("?".into());
                }
                2 => {
                    for _ in 0..2 {
                        self.expr(r, 0, depth - 1, only, saved, out);
                    }
                    out.push(r.pick(&["==", "!="]).to_string());
                }
                3 | 4 => {
                    for _ in 0..2 {
                        self.expr(r, 1, depth - 1, only, saved, out);
                    }
                    out.push(r.pick(&["==", "!=", "<", "<=", ">", ">="]).to_string());
                }
                _ => {
                    for _ in 0..2 {
                        self.expr(r, 0, depth - 1, only, saved, out);
                    }
                    out.push(r.pick(&["&&", "||"]).to_string());
                }
            }
        } else {
            match r.below(6) {
                0 => {
                    self.expr(r, 0, depth - 1, only, saved, out);
                    for _ in 0..2 {
                        self.expr(r, 1, depth - 1, only, saved, out);
                    }
                    out.push("?".into());
                }
                _ => {
                    for _ in 0..2 {
                        self.expr(r, 1, depth - 1, only, saved, out);
                    }
                    out.push(r.pick(&["+", "-", "*", "/", "min", "max", "min", "max", "+"]).to_string());
                }
            }
        }
        if r.chance(1, 6) {
            let name = r.pick(&SAVE_NAMES).to_string();
            out.push(format!("save({})", name));
            saved.retain(|x| x.0 != name);
            saved.push((name, kind));
        }
    }

    fn leaf(&self, r: &mut Rng, only: bool, out: &mut Vec<String>) {
        if r.chance(1, 4) {
            out.push(if r.chance(1, 8) {
                r.pick(&["+2", "-1", "007", "-0", "2147483647", "-2147483648"]).to_string()
            } else {
                r.below(5).to_string()
            });
        } else {
            let v = if only { *r.pick(&self.declared) } else { r.below(self.n() as u64) as usize };
            out.push(vname(v));
        }
    }

    fn tok_op(t: &str, kinds: &[u8]) -> (Op, u8) {
        let both = |k: u8| kinds.iter().all(|&x| x == k);
        match t {
            "+" | "-" | "*" | "/" | "min" | "max" => {
                if !both(1) {
                    return (Op::BadValue, 1);
                }
                (
                    match t {
                        "+" => Op::Add,
                        "-" => Op::Sub,
                        "*" => Op::Mul,
                        "/" => Op::Div,
                        "min" => Op::Min,
                        _ => Op::Max,
                    },
                    1,
                )
            }
            "&&" | "||" => {
                if !both(0) {
                    return (Op::BadBool, 0);
                }
                (if t == "&&" { Op::And } else { Op::Or }, 0)
            }
            _ => {
                if both(0) && (t == "==" || t == "!=") {
                    return (if t == "==" { Op::BEq } else { Op::BNe }, 0);
                }
                if !both(1) {
                    return (Op::BadBool, 0);
                }
                (
                    match t {
                        "==" => Op::Eq,
                        "!=" => Op::Ne,
                        "<" => Op::Lt,
                        "<=" => Op::Le,
                        ">" => Op::Gt,
                        _ => Op::Ge,
                    },
                    0,
                )
            }
        }
    }

    /// On tables; Err(true) = must be refused, Err(false) = outside the property.
    fn machine_t(&self, toks: &[String]) -> Result<(u8, Vec<i64>), bool> {
        let mut st: Vec<(u8, Vec<i64>)> = vec![];
        let mut saved: HashMap<String, (u8, Vec<i64>)> = HashMap::new();
        for t in toks {
            let x = match t.as_str() {
                "True" => (0, self.space.constant(1)),
                "False" => (0, self.space.constant(0)),
                "!" => {
                    let a = st.pop().ok_or(true)?;
                    if a.0 == 0 {
                        (0, spec(Op::Not, &[&a.1], &self.space))
                    } else {
                        (0, self.space.constant(U))
                    }
                }
                "?" => {
                    let c = st.pop().ok_or(true)?;
                    let b = st.pop().ok_or(true)?;
                    let a = st.pop().ok_or(true)?;
                    if b.0 != c.0 || a.0 != 0 {
                        return Err(false);
                    }
                    (b.0, spec(Op::Ite, &[&a.1, &b.1, &c.1], &self.space))
                }
                "+" | "-" | "*" | "/" | "min" | "max" | "&&" | "||" | "==" | "!=" | "<" | "<=" | ">" | ">=" => {
                    let b = st.pop().ok_or(true)?;
                    let a = st.pop().ok_or(true)?;
                    let (op, k) = Self::tok_op(t, &[a.0, b.0]);
                    (k, spec(op, &[&a.1, &b.1], &self.space))
                }
                s if s.starts_with("save(") && s.ends_with(")") => {
                    saved.insert(s[5..s.len() - 1].to_string(), st.last().ok_or(true)?.clone());
                    continue;
                }
                s if s.starts_with("load(") && s.ends_with(")") => saved.get(&s[5..s.len() - 1]).ok_or(true)?.clone(),
                s => match s.parse::<i32>() {
                    Ok(v) => (1, self.space.constant(v as i64)),
                    Err(_) => (1, self.space.var(unname(s).unwrap())),
                },
            };
            st.push(x);
        }
        if st.len() == 1 {
            Ok(st.pop().unwrap())
        } else {
            Err(true)
        }
    }

    /// The same program on handles, one operation at a time.
    fn machine(&mut self, toks: &[String], keep: &mut Vec<(u8, usize)>, hold: &mut Vec<H>) -> Option<H> {
        let mut st: Vec<H> = vec![];
        let mut saved: HashMap<String, H> = HashMap::new();
        for t in toks {
            let h = match t.as_str() {
                "True" => self.mgr.boolean(true),
                "False" => self.mgr.boolean(false),
                "!" => st.pop()?.not(),
                "?" => {
                    let c = st.pop()?;
                    let b = st.pop()?;
                    st.pop()?.ite(&b, &c)
                }
                "+" | "-" | "*" | "/" | "min" | "max" | "&&" | "||" | "==" | "!=" | "<" | "<=" | ">" | ">=" => {
                    let b = st.pop()?;
                    let a = st.pop()?;
                    match t.as_str() {
                        "+" => a.add(&b),
                        "-" => a.sub(&b),
                        "*" => a.mul(&b),
                        "/" => a.div(&b),
                        "min" => a.min(&b),
                        "max" => a.max(&b),
                        "&&" => a.and(&b),
                        "||" => a.or(&b),
                        "==" => MddNode::eq(&a, &b),
                        "!=" => MddNode::ne(&a, &b),
                        "<" => MddNode::lt(&a, &b),
                        "<=" => MddNode::le(&a, &b),
                        ">" => MddNode::gt(&a, &b),
                        _ => MddNode::ge(&a, &b),
                    }
                }
                s if s.starts_with("save(") && s.ends_with(")") => {
                    saved.insert(s[5..s.len() - 1].to_string(), st.last()?.clone());
                    continue;
                }
                s if s.starts_with("load(") && s.ends_with(")") => saved.get(&s[5..s.len() - 1])?.clone(),
                s => match s.parse::<i32>() {
                    Ok(v) => self.mgr.value(SimV(v as i64)),
                    Err(_) => self.defvar(unname(s).unwrap()),
                },
            };
            keep.push(key(&h));
            hold.push(h.clone());
            st.push(h);
        }
        if st.len() == 1 {
            st.pop()
        } else {
            None
        }
    }

    fn rpn(&mut self, s: &Step, bad: bool, cut: bool, ctx: &mut Ctx) -> R {
        let mut r = sub(s, 0);
        let mut toks = vec![];
        let mut saved = vec![];
        let kind = (s.a[3] % 2) as u8;
        self.expr(&mut r, kind, 2 + s.a[1] % 4, bad || cut, &mut saved, &mut toks);
        if bad {
            for _ in 0..r.range(1, 3) {
                let i = r.below(toks.len() as u64 + 1) as usize;
                match r.below(5) {
                    0 if i < toks.len() => {
                        toks.remove(i);
                    }
                    1 => toks.insert(
                        i,
                        r.pick(&["+", "-", "*", "/", "min", "max", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "!", "?"]).to_string(),
                    ),
                    2 => toks.insert(i, format!("load(q{})", r.below(3))),
                    3 => toks.insert(i, format!("save({})", r.pick(&["a", "q1"]))),
                    _ => toks.insert(i, r.pick(&["0", "1", "True"]).to_string()),
                }
            }
        }
        let want = self.machine_t(&toks);
        if want == Err(false) {
            return Ok(());
        }
        let mut text = String::new();
        for (i, t) in toks.iter().enumerate() {
            if i > 0 || r.chance(1, 8) {
                text.push_str(r.pick(&[" ", " ", " ", "  ", "\t", "\n"]));
            }
            text.push_str(t);
        }
        ctx.op(if want.is_ok() { "rpn" } else { "rpn-malformed" });
        ctx.note(|| format!("rpn {:?}", text));
        let vars: HashMap<String, usize> = (0..self.n()).map(|v| (vname(v), self.space.dims[v])).collect();
        if want.is_ok() {
            for t in &toks {
                if let Some(v) = unname(t) {
                    if !self.declared.contains(&v) {
                        self.declared.push(v);
                    }
                }
            }
        }
        let res = if cut {
            FAULTS.with(|f| {
                let mut f = f.borrow_mut();
                if s.a[4] % 2 == 0 {
                    f.cut_in = geo(s.a[4], 200);
                } else {
                    f.arith_in = geo(s.a[4], 100);
                }
            });
            let b = fault_counts();
            let m = &mut self.mgr;
            let res = maybe_cut(|| m.rpn(&text, &vars));
            let a = fault_counts();
            ctx.faults_n("cut-at-memo-access", a.2 - b.2);
            ctx.faults_n("value-arithmetic-panic", a.3 - b.3);
            match res {
                None => return self.check_all(ctx),
                Some(x) => x,
            }
        } else {
            self.mgr.rpn(&text, &vars)
        };
        match (res, want) {
            (Err(_), Err(_)) => {
                ctx.fault("malformed-expression");
                self.check_all(ctx)
            }
            (Ok(_), Err(_)) => {
                if ctx.on(RPN) {
                    return Err(format!("malformed expression {:?} was accepted", text));
                }
                Ok(())
            }
            (Err(e), Ok(_)) => {
                if ctx.on(RPN) || ctx.on(FUNC) {
                    return Err(format!("expression {:?} was refused: {}", text, e));
                }
                Ok(())
            }
            (Ok(h), Ok((kind, w))) => {
                for v in self.declared.clone() {
                    self.defvar(v);
                }
                if ctx.on(RPN) {
                    ctx.check("rpn-vs-model");
                    ensure!(h.is_boolean() == (kind == 0) && h.is_value() == (kind == 1), "rpn {:?} has the wrong kind", text);
                    let (_, got) = self.table(&h)?;
                    compare(&self.space, &got, &w).map_err(|e| format!("rpn {:?} {}", text, e))?;
                }
                self.memory(&h, &[], true, ctx)?;
                if ctx.on(RPN) && s.a[2] % 3 == 0 {
                    ctx.check("rpn-vs-operations");
                    let (mut keep, mut hold) = (vec![], vec![]);
                    if let Some(m) = self.machine(&toks, &mut keep, &mut hold) {
                        ensure!(key(&m) == key(&h), "rpn {:?} is node {:?}, the operations give {:?}", text, key(&h), key(&m));
                    }
                    self.memory(&h, &keep, false, ctx)?;
                }
                self.accept(h, Some(w), kind, s.a[4], "rpn", false, ctx)
            }
        }
    }

    // --------------------------------------------------------------- queries
    fn outcome(&self, r: &mut Rng, t: &[i64], kind: u8) -> Vec<i64> {
        let vals: BTreeSet<i64> = t.iter().copied().filter(|&x| x != U).collect();
        let vals: Vec<i64> = vals.into_iter().collect();
        let mut ss = vec![];
        if r.chance(1, 12) {
            return ss;
        }
        let p = r.range(2, 7);
        for &v in &vals {
            if r.chance(p, 8) {
                ss.push(v);
            }
        }
        if r.chance(1, 4) {
            let x = if kind == 0 { r.below(2) as i64 } else { r.below(9) as i64 - 2 };
            if !ss.contains(&x) {
                ss.push(x);
            }
        }
        ss
    }

    fn pv(&self, r: &mut Rng) -> Vec<Vec<f64>> {
        self.space
            .dims
            .iter()
            .map(|&d| {
                let mut c: Vec<u64> = (0..d - 1).map(|_| r.below(9)).collect();
                c.sort();
                c.insert(0, 0);
                c.push(8);
                (0..d).map(|i| (c[i + 1] - c[i]) as f64 / 8.0).collect()
            })
            .collect()
    }

    fn brute(&self, t: &[i64], p: &[Vec<f64>], ss: &[i64], fix: Option<(usize, usize)>) -> f64 {
        let mut sum = 0.0;
        for (i, pt) in self.space.points.iter().enumerate() {
            if t[i] == U || !ss.contains(&t[i]) {
                continue;
            }
            let mut w = 1.0;
            for v in 0..self.n() {
                match fix {
                    Some((f, x)) if f == v => {
                        if pt[v] as usize != x {
                            w = 0.0;
                            break;
                        }
                    }
                    _ => w *= p[v][pt[v] as usize],
                }
            }
            sum += w;
        }
        sum
    }

    fn support(&self, t: &[i64], v: usize) -> bool {
        let st = self.space.strides[v];
        self.space.points.iter().enumerate().any(|(i, p)| p[v] > 0 && t[i] != t[i - st])
    }

    fn probs(&mut self, s: &Step, cut: bool, ctx: &mut Ctx) -> R {
        let Some(i) = self.pick(s.a[0]) else { return Ok(()) };
        let mut r = sub(s, 1);
        let p = self.pv(&mut r);
        let t = self.pool[i].t.clone();
        let kind = key(&self.pool[i].h).0;
        let mut ss = self.outcome(&mut r, &t, kind);
        // The list is a set: order and repetitions do not matter.
        for _ in 0..r.below(3) {
            if !ss.is_empty() {
                let x = *r.pick(&ss);
                let at = r.below(ss.len() as u64 + 1) as usize;
                ss.insert(at, x);
            }
        }
        let sv: Vec<SimV> = ss.iter().map(|&x| SimV(x)).collect();
        let live = self.mgr.live_node_count();
        if cut {
            let pv: HashMap<String, Vec<SimT>> =
                p.iter().enumerate().map(|(v, x)| (vname(v), x.iter().map(|&y| SimT(y)).collect())).collect();
            FAULTS.with(|f| f.borrow_mut().arith_in = geo(s.a[3], 64));
            let b = fault_counts().3;
            let h = &mut self.pool[i].h;
            if s.a[2] % 2 == 0 {
                maybe_cut(|| h.prob(&pv, &sv));
            } else {
                maybe_cut(|| h.bmeas(&pv, &sv));
            }
            ctx.faults_n("probability-arithmetic-panic", fault_counts().3 - b);
            return self.check_all(ctx);
        }
        if ctx.on(INTERVAL) {
            return self.intervals(i, &ss, s, ctx);
        }
        let mut pv: HashMap<String, Vec<f64>> = p.iter().enumerate().map(|(v, x)| (vname(v), x.clone())).collect();
        if s.a[4] % 4 == 0 {
            // components the function does not depend on need no probability
            ctx.fault("irrelevant-component-without-probability");
            (0..self.n()).filter(|&v| !self.support(&t, v)).for_each(|v| drop(pv.remove(&vname(v))));
            pv.insert("no such component".into(), vec![0.5, 0.5]);
        }
        if s.a[2] % 3 != 0 {
            ctx.op("prob");
            let got = self.pool[i].h.prob(&pv, &sv);
            if ctx.on(PROB) {
                ctx.check("probability");
                let want = self.brute(&t, &p, &ss, None);
                ensure!(got == want, "probability {} of outcomes {:?}, exact value is {}", got, ss, want);
            }
        } else {
            ctx.op("bmeas");
            let got = self.pool[i].h.bmeas(&pv, &sv);
            if ctx.on(PROB) {
                ctx.check("birnbaum");
                let mut ks: Vec<&String> = got.keys().collect();
                ks.sort();
                for k in ks {
                    parse_var(k, self.n())?;
                }
                for v in 0..self.n() {
                    let g = got.get(&vname(v));
                    let d = self.space.dims[v];
                    if self.support(&t, v) {
                        ensure!(g.is_some(), "importance of v{} is missing", v);
                    }
                    if let Some(g) = g {
                        ensure!(g.len() == d - 1, "importance of v{} has {} entries, expected {}", v, g.len(), d - 1);
                        for j in 1..d {
                            let want = self.brute(&t, &p, &ss, Some((v, j))) - self.brute(&t, &p, &ss, Some((v, j - 1)));
                            ensure!(g[j - 1] == want, "importance {} of v{} is {}, exact value is {}", j, v, g[j - 1], want);
                        }
                    }
                }
            }
        }
        if ctx.on(PROB) {
            ensure!(self.mgr.live_node_count() == live, "a probability query changed the manager");
        }
        Ok(())
    }

    /// Imprecise probabilities: the answer encloses every point value.
    fn intervals(&mut self, i: usize, ss: &[i64], s: &Step, ctx: &mut Ctx) -> R {
        let mut r = sub(s, 3);
        let t = self.pool[i].t.clone();
        let sv: Vec<SimV> = ss.iter().map(|&x| SimV(x)).collect();
        let point = r.chance(1, 5);
        // several genuine distributions, and per-state boxes around all of them
        let mut pts: Vec<Vec<Vec<f64>>> = (0..if point { 1 } else { r.range(1, 4) }).map(|_| self.pv(&mut r)).collect();
        for v in 0..self.n() {
            if r.chance(1, 4) {
                let d = pts[0][v].clone();
                pts.iter_mut().for_each(|p| p[v] = d.clone());
            }
        }
        let boxes: Vec<Vec<SimI>> = (0..self.n())
            .map(|v| {
                (0..self.space.dims[v])
                    .map(|j| {
                        let lo = pts.iter().map(|p| p[v][j]).fold(1.0, f64::min);
                        let hi = pts.iter().map(|p| p[v][j]).fold(0.0, f64::max);
                        let w = if !point && r.chance(1, 6) { 0.125 } else { 0.0 };
                        SimI((lo - w).max(0.0), (hi + w).min(1.0))
                    })
                    .collect()
            })
            .collect();
        let pv: HashMap<String, Vec<SimI>> = boxes.into_iter().enumerate().map(|(v, x)| (vname(v), x)).collect();
        let inside = |got: SimI, x: f64, what: &str| -> R {
            ensure!(got.has(x), "{}: the interval [{}, {}] misses the value {}", what, got.0, got.1, x);
            ensure!(!point || got == SimI(x, x), "{}: point input gives [{}, {}], not {}", what, got.0, got.1, x);
            Ok(())
        };
        if s.a[2] % 2 == 0 {
            ctx.op("prob-interval");
            let got = self.pool[i].h.prob(&pv, &sv);
            ctx.check("interval-probability");
            for p in &pts {
                inside(got, self.brute(&t, p, ss, None), "probability")?;
            }
        } else {
            ctx.op("bmeas-interval");
            let got = self.pool[i].h.bmeas(&pv, &sv);
            ctx.check("interval-importance");
            for v in 0..self.n() {
                let g = got.get(&vname(v));
                let d = self.space.dims[v];
                ensure!(g.is_some() || !self.support(&t, v), "importance of v{} is missing", v);
                let Some(g) = g else { continue };
                ensure!(g.len() == d - 1, "importance of v{} has {} entries, expected {}", v, g.len(), d - 1);
                for p in &pts {
                    for j in 1..d {
                        let want = self.brute(&t, p, ss, Some((v, j))) - self.brute(&t, p, ss, Some((v, j - 1)));
                        inside(g[j - 1], want, &format!("importance {} of v{}", j, v))?;
                    }
                }
            }
        }
        Ok(())
    }

    fn below(&self, level: Option<usize>) -> Vec<usize> {
        self.declared.iter().copied().take(level.map_or(0, |l| l + 1)).collect()
    }

    fn expected_count(&self, t: &[i64], ss: &[i64], level: Option<usize>) -> u64 {
        let vars = self.below(level);
        self.space
            .points
            .iter()
            .enumerate()
            .filter(|(i, p)| {
                t[*i] != U && ss.contains(&t[*i]) && p.iter().enumerate().all(|(v, &x)| x == 0 || vars.contains(&v))
            })
            .count() as u64
    }

    fn count(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let Some(i) = self.pick(s.a[0]) else { return Ok(()) };
        let mut r = sub(s, 1);
        let p = &self.pool[i];
        let ss = self.outcome(&mut r, &p.t, key(&p.h).0);
        ctx.op("mdd-count");
        let hs: HashSet<SimV> = ss.iter().map(|&x| SimV(x)).collect();
        let got = p.h.mdd_count(&hs);
        if ctx.on(ENUM) {
            ctx.check("count");
            let want = self.expected_count(&p.t, &ss, p.h.get_level());
            ensure!(got == want, "count of {:?} is {}, exact value is {}", ss, got, want);
        }
        Ok(())
    }

    fn extract(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if self.iters.len() >= 3 {
            return Ok(());
        }
        let Some(i) = self.pick(s.a[0]) else { return Ok(()) };
        let mut r = sub(s, 1);
        let p = &self.pool[i];
        let ss = self.outcome(&mut r, &p.t, key(&p.h).0);
        let hs: HashSet<SimV> = ss.iter().map(|&x| SimV(x)).collect();
        ctx.op("mdd-extract");
        let it = p.h.mdd_extract(&hs);
        let level = p.h.get_level();
        let total = self.expected_count(&p.t, &ss, level);
        let m = MIter { it, id: key(&p.h), t: p.t.clone(), ss, level, seen: HashSet::new(), total, done: false, whole: true };
        self.iters.push(m);
        if s.a[2] % 2 == 0 {
            ctx.fault("handle-dropped-under-iterator");
            self.pool.swap_remove(i);
        }
        Ok(())
    }

    fn vector(&self, a: &HashMap<String, usize>, vars: &[usize]) -> R<usize> {
        let mut idx = 0;
        let mut ks: Vec<(&String, &usize)> = a.iter().collect();
        ks.sort();
        ensure!(ks.len() == vars.len(), "vector {:?} does not mention exactly the variables {:?}", ks, vars);
        for (l, &x) in &ks {
            let v = parse_var(l, self.n())?;
            ensure!(vars.contains(&v), "vector {:?} mentions v{}", ks, v);
            ensure!(x < self.space.dims[v], "vector {:?} has a state out of range", ks);
            idx += x * self.space.strides[v];
        }
        Ok(idx)
    }

    fn advance(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if self.iters.is_empty() {
            return Ok(());
        }
        let k = s.a[0] as usize % self.iters.len();
        ctx.op("mdd-iterate");
        ctx.fault("iterator-suspended");
        let vars = self.below(self.iters[k].level);
        if ctx.on(ENUM) {
            ctx.check("iterator-len");
            let it = &self.iters[k];
            ensure!(it.it.len() == it.total, "iterator length is {}, exact count is {}", it.it.len(), it.total);
        }
        let m = if s.a[1] % 4 == 0 { 4096 } else { 1 + s.a[1] % 16 };
        for _ in 0..m {
            match self.iters[k].it.next() {
                None => {
                    let it = &mut self.iters[k];
                    if ctx.on(ENUM) && !it.done && it.whole {
                        ensure!(it.seen.len() as u64 == it.total, "iterator yielded {} of {} vectors", it.seen.len(), it.total);
                    }
                    it.done = true;
                    break;
                }
                Some(a) => {
                    ensure!(!self.iters[k].done, "iterator yielded a vector after its end");
                    if !ctx.on(ENUM) {
                        self.iters[k].whole = false;
                        continue;
                    }
                    ctx.check("iterator-item");
                    let idx = self.vector(&a, &vars)?;
                    let it = &mut self.iters[k];
                    ensure!(it.t[idx] != U && it.ss.contains(&it.t[idx]), "iterator yielded {:?}, which has another outcome", self.space.points[idx]);
                    ensure!(it.seen.insert(idx), "iterator yielded {:?} twice", self.space.points[idx]);
                }
            }
        }
        if self.iters[k].done || s.a[2] % 16 == 0 {
            self.iters.swap_remove(k);
        }
        Ok(())
    }

    // ------------------------------------------------------- minimal paths/cuts
    fn flip(&self, i: usize) -> usize {
        let p = &self.space.points[i];
        p.iter().enumerate().map(|(v, &x)| (self.space.dims[v] - 1 - x as usize) * self.space.strides[v]).sum()
    }

    /// `None` = not monotone; otherwise the family in recorded coordinates.
    fn min_vectors(&self, t: &[i64], cut: bool) -> Option<Vec<i64>> {
        let sp = &self.space;
        for (i, p) in sp.points.iter().enumerate() {
            for v in 0..self.n() {
                if p[v] > 0 && t[i - sp.strides[v]] > t[i] {
                    return None;
                }
            }
        }
        let sign = |i: usize| if cut { t[self.flip(i)] } else { t[i] };
        // minimal within its stratum: by monotonicity it is enough to look one state down
        // in each component, because the values between two comparable equal points are equal
        let mut r = sp.constant(U);
        for (i, p) in sp.points.iter().enumerate() {
            let v0 = sign(i);
            if (0..self.n()).all(|v| p[v] == 0 || sign(i - sp.strides[v]) != v0) {
                r[i] = v0;
            }
        }
        Some(r)
    }

    fn minsol(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let Some(i) = self.pick(s.a[0]) else { return Ok(()) };
        if self.pool[i].t.iter().any(|&x| x == U) {
            return Ok(());
        }
        let cut = s.a[1] % 2 == 1;
        let interrupted = s.op == CUT;
        let what = if cut { "mincut" } else { "minpath" };
        ctx.op(what);
        ctx.note(|| format!("{} of {:?}", what, key(&self.pool[i].h)));
        let phi = self.pool[i].t.clone();
        let want = self.min_vectors(&phi, cut);
        let (m, h) = (&self.mgr, &self.pool[i].h);
        let run = || if cut { m.mincut(h) } else { m.minpath(h) };
        let got = if interrupted {
            FAULTS.with(|f| f.borrow_mut().cut_in = geo(s.a[4], 200));
            let b = fault_counts().2;
            let r = maybe_cut(run);
            ctx.faults_n("cut-at-memo-access", fault_counts().2 - b);
            match r {
                None => return self.check_all(ctx),
                Some(x) => x,
            }
        } else {
            run()
        };
        ctx.check("monotone-verdict");
        match (got, want) {
            (None, None) => {
                ctx.event(1);
                Ok(())
            }
            (Some(z), Some(w)) => {
                let vars = Rc::new(self.declared.clone());
                self.zaccept(z, w, cut, vars, Some(phi), s.a[4], what, ctx)
            }
            (Some(_), None) => {
                if ctx.on(MINSOL) {
                    return Err(format!("{} accepted a function that is not monotone", what));
                }
                Ok(())
            }
            (None, Some(_)) => {
                if ctx.on(MINSOL) {
                    return Err(format!("{} refused a monotone function", what));
                }
                Ok(())
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn zaccept(
        &mut self,
        h: ZmddNode<SimV>,
        want: Vec<i64>,
        cut: bool,
        vars: Rc<Vec<usize>>,
        phi: Option<Rc<Vec<i64>>>,
        evict: u32,
        what: &str,
        ctx: &mut Ctx,
    ) -> R {
        let (g, got) = self.ztable(&h).map_err(|e| format!("{}: {}", what, e))?;
        if ctx.on(MINSOL) || ctx.on(FUNC) {
            ctx.check("family-vs-model");
            compare(&self.space, &got, &want).map_err(|e| format!("{} {}", what, e))?;
            ensure!(h.is_cut() == cut, "{}: is_cut() is wrong", what);
        }
        if ctx.on(MINSOL) || ctx.on(META) {
            let wv: Vec<(String, usize)> = vars.iter().map(|&v| (vname(v), self.space.dims[v])).collect();
            ensure!(h.vars() == wv.as_slice(), "{}: vars() is {:?}, declared {:?}", what, h.vars(), wv);
        }
        ctx.event(hash_i64s(&got));
        if ctx.on(CANON) {
            ctx.check("identity");
            for p in &self.zpool {
                let same = p.h.get_id() == h.get_id();
                ensure!(same == (*p.t == got), "{}: identity and equality disagree for families {} and {}", what, p.h.get_id(), h.get_id());
            }
            g.canonical(ZRULE).map_err(|e| format!("{}: {}", what, e))?;
        }
        if self.zpool.len() >= self.zcap {
            let i = evict as usize % self.zpool.len();
            self.zpool.swap_remove(i);
        }
        self.zpool.push(ZMEnt { h, t: Rc::new(got), cut, vars, phi });
        Ok(())
    }

    fn zbin(&mut self, s: &Step, cut: bool, ctx: &mut Ctx) -> R {
        if self.zpool.is_empty() {
            return Ok(());
        }
        let i = s.a[0] as usize % self.zpool.len();
        let side = self.zpool[i].cut;
        let c: Vec<usize> = (0..self.zpool.len()).filter(|&j| self.zpool[j].cut == side).collect();
        let j = c[s.a[1] as usize % c.len()];
        let (f, g) = (&self.zpool[i], &self.zpool[j]);
        let op = if s.a[2] % 2 == 0 { Op::MIntersect } else { Op::MSetdiff };
        ctx.op(op.name());
        ctx.note(|| format!("{} {} {}", op.name(), f.h.get_id(), g.h.get_id()));
        let want = op.spec(&[&f.t, &g.t], &self.space, 0);
        let run = || if op == Op::MIntersect { f.h.intersect(&g.h) } else { f.h.setdiff(&g.h) };
        let h = if cut {
            FAULTS.with(|x| x.borrow_mut().cut_in = geo(s.a[4], 64));
            let b = fault_counts().2;
            let r = maybe_cut(run);
            ctx.faults_n("cut-at-memo-access", fault_counts().2 - b);
            match r {
                None => return self.check_all(ctx),
                Some(h) => h,
            }
        } else {
            run()
        };
        let vars = f.vars.clone();
        self.zaccept(h, want, side, vars, None, s.a[4], op.name(), ctx)
    }

    fn zquery(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if self.zpool.is_empty() {
            return Ok(());
        }
        let p = &self.zpool[s.a[0] as usize % self.zpool.len()];
        let mut r = sub(s, 1);
        let on = ctx.on(ENUM) || ctx.on(MINSOL);
        match s.a[2] % 4 {
            0 => {
                ctx.op("zmdd-count");
                let ss = self.outcome(&mut r, &p.t, 1);
                let hs: HashSet<SimV> = ss.iter().map(|&x| SimV(x)).collect();
                let got = p.h.count(&hs);
                if on {
                    ctx.check("family-count");
                    let want = p.t.iter().filter(|&&x| x != U && ss.contains(&x)).count() as u64;
                    ensure!(got == want, "family count of {:?} is {}, exact value is {}", ss, got, want);
                }
            }
            1 => {
                ctx.op("zmdd-labels");
                let got: Vec<i64> = p.h.labels().iter().map(|x| x.0).collect();
                if on {
                    ctx.check("labels");
                    let want: Vec<i64> = p.t.iter().copied().filter(|&x| x != U).collect::<BTreeSet<_>>().into_iter().collect();
                    ensure!(got == want, "labels {:?}, the family has {:?}", got, want);
                }
            }
            2 => {
                ctx.op("zmdd-level");
                let lv: i64 = {
                    let l: Vec<i64> = p.t.iter().copied().filter(|&x| x != U).collect();
                    if l.is_empty() || r.chance(1, 5) {
                        r.below(9) as i64 - 2
                    } else {
                        l[r.below(l.len() as u64) as usize] + if r.chance(1, 4) { 1 } else { 0 }
                    }
                };
                let got = p.h.extract_level(SimV(lv));
                if on {
                    ctx.check("level-reading");
                    let mut gi: Vec<usize> = vec![];
                    for a in &got {
                        gi.push(self.vector(a, &p.vars)?);
                    }
                    // vectors in true states, over the variables known at the call
                    let fixed = |i: usize| -> usize {
                        let pt = &self.space.points[i];
                        p.vars.iter().map(|&v| pt[v] as usize * self.space.strides[v]).sum()
                    };
                    let sel: Vec<usize> = match &p.phi {
                        Some(phi) => (0..self.space.len()).filter(|&i| if p.cut { phi[i] <= lv } else { phi[i] >= lv }).collect(),
                        None => (0..self.space.len())
                            .filter(|&i| p.t[i] != U && if p.cut { p.t[i] <= lv } else { p.t[i] >= lv })
                            .map(|i| if p.cut { self.flip(i) } else { i })
                            .collect(),
                    };
                    let le = |a: usize, b: usize| {
                        self.space.points[a].iter().zip(&self.space.points[b]).all(|(x, y)| if p.cut { x >= y } else { x <= y })
                    };
                    let mut want: Vec<usize> = sel
                        .iter()
                        .copied()
                        .filter(|&x| !sel.iter().any(|&y| y != x && le(y, x)))
                        .map(fixed)
                        .collect();
                    gi.sort();
                    want.sort();
                    ensure!(
                        gi == want,
                        "{} vectors at level {}: got {:?}, exact {:?}",
                        if p.cut { "cut" } else { "path" },
                        lv,
                        gi.iter().map(|&i| &self.space.points[i]).collect::<Vec<_>>(),
                        want.iter().map(|&i| &self.space.points[i]).collect::<Vec<_>>()
                    );
                }
            }
            _ => {
                ctx.op("zmdd-dot");
                if ctx.on(DOT) {
                    ctx.check("dot-graph");
                    let (g, _) = self.ztable(&p.h)?;
                    check_dot(&p.h.dot(), &g, p.h.get_id(), &self.space, ZRULE, &p.t)?;
                }
            }
        }
        Ok(())
    }

    fn zextract(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if self.zpool.is_empty() || self.ziters.len() >= 3 {
            return Ok(());
        }
        let i = s.a[0] as usize % self.zpool.len();
        let mut r = sub(s, 1);
        let p = &self.zpool[i];
        let ss = self.outcome(&mut r, &p.t, 1);
        let hs: HashSet<SimV> = ss.iter().map(|&x| SimV(x)).collect();
        ctx.op("zmdd-extract");
        let it = p.h.extract(&hs);
        let z = ZMIter { it, id: p.h.get_id(), t: p.t.clone(), cut: p.cut, vars: p.vars.clone(), ss, seen: HashSet::new(), done: false, whole: true };
        self.ziters.push(z);
        if s.a[2] % 2 == 0 {
            ctx.fault("handle-dropped-under-iterator");
            self.zpool.swap_remove(i);
        }
        Ok(())
    }

    fn zadvance(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if self.ziters.is_empty() {
            return Ok(());
        }
        let k = s.a[0] as usize % self.ziters.len();
        ctx.op("zmdd-iterate");
        ctx.fault("iterator-suspended");
        let on = ctx.on(ENUM) || ctx.on(MINSOL);
        for _ in 0..1 + s.a[1] % 12 {
            match self.ziters[k].it.next() {
                None => {
                    let it = &mut self.ziters[k];
                    if on && !it.done && it.whole {
                        let want = it.t.iter().filter(|&&x| x != U && it.ss.contains(&x)).count();
                        ensure!(it.seen.len() == want, "family iterator yielded {} of {} vectors", it.seen.len(), want);
                    }
                    it.done = true;
                    break;
                }
                Some(a) => {
                    ensure!(!self.ziters[k].done, "family iterator yielded a vector after its end");
                    if !on {
                        self.ziters[k].whole = false;
                        continue;
                    }
                    ctx.check("iterator-item");
                    let vars = self.ziters[k].vars.clone();
                    let mut idx = self.vector(&a, &vars)?;
                    if self.ziters[k].cut {
                        // components not listed stay at their maximum
                        for v in 0..self.n() {
                            if !vars.contains(&v) {
                                idx += (self.space.dims[v] - 1) * self.space.strides[v];
                            }
                        }
                        idx = self.flip(idx);
                    }
                    let it = &mut self.ziters[k];
                    ensure!(it.t[idx] != U && it.ss.contains(&it.t[idx]), "family iterator yielded {:?}, which is not filed there", self.space.points[idx]);
                    ensure!(it.seen.insert(idx), "family iterator yielded {:?} twice", self.space.points[idx]);
                }
            }
        }
        if self.ziters[k].done || s.a[2] % 16 == 0 {
            self.ziters.swap_remove(k);
        }
        Ok(())
    }

    /// A monotone structure function from variables, as one step.
    fn mono(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let mut r = sub(s, 0);
        let m = r.range(1, 6);
        let mut st: Vec<(H, Vec<i64>)> = vec![];
        for _ in 0..m {
            let v = *r.pick(&self.declared);
            st.push((self.defvar(v), self.space.var(v)));
        }
        let sp = self.space.clone();
        // everything a step touches is held until the bound has been checked
        let mut hold: Vec<H> = vec![];
        while st.len() > 1 {
            let i = r.below(st.len() as u64) as usize;
            let a = st.swap_remove(i);
            let j = r.below(st.len() as u64) as usize;
            let b = st.swap_remove(j);
            let op = *r.pick(&[Op::Min, Op::Max, Op::Add, Op::Min, Op::Max, Op::Mul, Op::Ge]);
            let (h, t) = match op {
                Op::Ge => {
                    let k = r.below(4) as i64;
                    let kh = self.mgr.value(SimV(k));
                    let c = MddNode::ge(&a.0, &kh);
                    let zero = self.mgr.value(SimV(0));
                    let h = c.ite(&b.0, &zero);
                    let ct = spec(Op::Ge, &[&a.1, &sp.constant(k)], &sp);
                    let t = spec(Op::VIte, &[&ct, &b.1, &sp.constant(0)], &sp);
                    hold.extend([kh, c, zero]);
                    (h, t)
                }
                _ => (Self::run_op(op, &[&a.0, &b.0], 0), spec(op, &[&a.1, &b.1], &sp)),
            };
            hold.extend([a.0, b.0, h.clone()]);
            let ids: Vec<(u8, usize)> = hold.iter().chain(st.iter().map(|x| &x.0)).map(key).collect();
            self.memory(&h, &ids, false, ctx)?;
            st.push((h, t));
        }
        let (mut h, mut t) = st.pop().unwrap();
        if r.chance(1, 3) {
            let k = r.below(6) as i64;
            let kh = self.mgr.value(SimV(k));
            let b = MddNode::ge(&h, &kh);
            t = spec(Op::Ge, &[&t, &sp.constant(k)], &sp);
            hold.push(kh);
            hold.push(h);
            h = b;
            let ids: Vec<(u8, usize)> = hold.iter().map(key).collect();
            self.memory(&h, &ids, false, ctx)?;
        }
        ctx.op("monotone-expression");
        ctx.note(|| format!("monotone expression -> {:?}", key(&h)));
        let k = key(&h).0;
        self.accept(h, Some(t), k, s.a[4], "monotone expression", false, ctx)
    }

    fn metas(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        ctx.op("meta");
        if !ctx.on(META) {
            return Ok(());
        }
        ctx.check("metadata");
        let order = self.mgr.get_varorder();
        let want: Vec<(String, usize)> = self.declared.iter().map(|&v| (vname(v), self.space.dims[v])).collect();
        ensure!(order == want, "variable order is {:?}, declared {:?}", order, want);
        ensure!(self.mgr.size().0 == self.declared.len(), "{} headers for {} variables", self.mgr.size().0, self.declared.len());
        let v = *Rng::new(s.a[0] as u64).pick(&self.declared);
        let other = if s.a[1] % 4 == 0 { self.space.dims[v] + 1 } else { self.space.dims[v] };
        let h = self.mgr.defvar(&vname(v), other);
        let lv = self.declared.iter().position(|&d| d == v);
        ensure!(h.get_level() == lv, "variable v{} moved from level {:?} to {:?}", v, lv, h.get_level());
        ensure!(h.get_label().as_deref() == Some(&vname(v)), "variable v{} is labelled {:?}", v, h.get_label());
        let (_, t) = self.table(&h)?;
        compare(&self.space, &t, &self.space.var(v)).map_err(|e| format!("declared variable v{} {}", v, e))?;
        if let Some(&id) = self.varids.get(&v) {
            ensure!(id == key(&h), "declaring v{} again gave another node", v);
        }
        if let Some(i) = self.pick(s.a[1]) {
            let p = &self.pool[i];
            let all = |x: i64| p.t.iter().all(|&y| y == x);
            let b = key(&p.h).0 == 0;
            ensure!(p.h.is_boolean() == b && p.h.is_value() == !b, "is_boolean/is_value are wrong");
            if b {
                ensure!(p.h.is_zero() == all(0) && p.h.is_one() == all(1) && p.h.is_undet() == all(U), "is_zero/is_one/is_undet are wrong");
                ensure!(p.h.value().is_none(), "a boolean node has a value");
            } else {
                let want = if p.t[0] != U && all(p.t[0]) { Some(SimV(p.t[0])) } else { None };
                ensure!(p.h.value() == want, "value() is {:?}, expected {:?}", p.h.value(), want);
                ensure!(!p.h.is_zero() && !p.h.is_one(), "a value node is zero/one");
            }
            let id = key(&p.h);
            ensure!(p.h.get_id() == id.1, "get_id() is wrong");
            ensure!(p.h.get_id2() == if b { (0, id.1) } else { (id.1, 0) }, "get_id2() is wrong");
        }
        Ok(())
    }

    fn kids(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let Some(i) = self.pick(s.a[0]) else { return Ok(()) };
        ctx.op("children");
        let p = &self.pool[i];
        let k = key(&p.h).0;
        match p.h.get_children() {
            None => {
                if ctx.on(META) {
                    ensure!(
                        p.h.get_level().is_none() && p.h.get_label().is_none() && p.h.get_header().is_none(),
                        "a terminal has a level, label or header"
                    );
                    ensure!(p.t.iter().all(|&x| x == p.t[0]), "a non-constant has no children");
                }
                Ok(())
            }
            Some(cs) => {
                let mut ts = vec![];
                for c in &cs {
                    ensure!(key(c).0 == k, "a child has another kind");
                    ts.push(self.table(c)?.1);
                }
                if ctx.on(META) {
                    ctx.check("children");
                    let v = parse_var(&p.h.get_label().ok_or("no label")?, self.n())?;
                    ensure!(cs.len() == self.space.dims[v], "v{} has {} children", v, cs.len());
                    let st = self.space.strides[v];
                    for (q, pt) in self.space.points.iter().enumerate() {
                        let b = q - pt[v] as usize * st;
                        for (x, t) in ts.iter().enumerate() {
                            ensure!(t[q] == p.t[b + x * st], "child {} of v{} is not its cofactor", x, v);
                        }
                    }
                    ensure!(p.h.get_level() == self.declared.iter().position(|&d| d == v), "node of v{} is on the wrong level", v);
                    let hid = p.h.get_header();
                    let var = self.defvar(v);
                    ensure!(hid.is_some() && hid == var.get_header(), "header {:?} of a node of v{} is not that variable's", hid, v);
                }
                let x = s.a[1] as usize % cs.len();
                let (h, t) = (cs[x].clone(), ts.swap_remove(x));
                drop(cs);
                self.accept(h, Some(t), k, s.a[4], "child", false, ctx)
            }
        }
    }

    fn gc(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        ctx.op("gc");
        ctx.fault("explicit-gc");
        ctx.note(|| "gc".into());
        let keep: Vec<&H> = if s.a[0] % 2 == 0 { vec![] } else { self.pool.iter().map(|p| &p.h).take(2).collect() };
        for _ in 0..storm(s.a[3], ctx) {
            self.mgr.gc(&keep);
        }
        let (rv, rb) = self.mgr.gc(&keep);
        self.check_all(ctx)?;
        if ctx.on(GC) {
            let z = self.mgr.boolean(false).get_mgr();
            let m = z.borrow();
            let (live, slots) = (m.live_node_count(), m.size().1);
            let r = self.reachable(&m, &[])?;
            ctx.check("gc-exact");
            ensure!(live == r, "after gc {} MDD nodes are alive, {} are reachable", live, r);
            ensure!(live == m.mdd().live_node_count() + m.mtmdd().live_node_count(), "live_node_count is not the sum of both forests");
            ensure!(rb == m.mdd().size().1 - m.mdd().live_node_count(), "gc reported {} reclaimed boolean slots", rb);
            ensure!(rv == m.mtmdd().size().1 - m.mtmdd().live_node_count(), "gc reported {} reclaimed value slots", rv);
            ensure!(rv + rb == slots - live, "gc reported {}+{} reclaimed slots, {} are free", rv, rb, slots - live);
        }
        Ok(())
    }

    fn zgc(&mut self, ctx: &mut Ctx) -> R {
        let Some(p) = self.zpool.first() else { return Ok(()) };
        ctx.op("zmdd-gc");
        ctx.fault("explicit-gc");
        let z = p.h.get_mgr();
        let roots = self.zroots();
        let ret = z.borrow_mut().gc(&roots);
        if ctx.on(GC) {
            let m = z.borrow();
            let mut r = roots.clone();
            r.push(m.undet());
            let want = self.zgraph(&m, &r)?.nodes.len();
            ctx.check("gc-exact");
            ensure!(m.live_node_count() == want, "after gc {} ZMDD nodes are alive, {} are reachable", m.live_node_count(), want);
            ensure!(ret == m.size().1 - want, "gc reported {} reclaimed slots, {} are free", ret, m.size().1 - want);
        }
        self.check_all(ctx)
    }

    /// Requests that are documented or bound to panic; nothing else may suffer.
    fn badreq(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let r = match s.a[0] % 3 {
            0 => {
                let vars: HashMap<String, usize> = HashMap::new();
                let m = &mut self.mgr;
                may_panic(|| {
                    let _ = m.rpn("1 2 + nosuchvariable *", &vars);
                })
            }
            1 => {
                let m = &self.mgr;
                may_panic(|| {
                    let _ = m.min(&[]);
                })
            }
            _ => {
                let (Some(c), Some(v)) = (self.pick_kind(0, s.a[1]), self.pick_kind(1, s.a[2])) else { return Ok(()) };
                let (c, v) = (&self.pool[c].h, &self.pool[v].h);
                may_panic(|| {
                    let _ = if s.a[3] % 2 == 0 { c.ite(c, v) } else { c.ite(v, c) };
                })
            }
        };
        ctx.fault(if r.is_err() { "invalid-request-panic" } else { "invalid-request" });
        self.check_all(ctx)
    }
}

impl World for MssW {
    fn step(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        self.pre();
        match s.op {
            DEFVAR => {
                ctx.op("defvar");
                if s.a[0] % 2 == 0 {
                    if let Some((v, h)) = self.declare_next() {
                        ctx.note(|| format!("defvar v{}", v));
                        let t = self.space.var(v);
                        return self.accept(h, Some(t), 1, s.a[4], "defvar", false, ctx);
                    }
                }
                let v = *Rng::new(s.a[1] as u64).pick(&self.declared);
                ctx.note(|| format!("defvar v{} again", v));
                let h = self.defvar(v);
                let t = self.space.var(v);
                self.accept(h, Some(t), 1, s.a[4], "defvar", false, ctx)?;
            }
            CONST => {
                ctx.op("constant");
                let (h, k, v) = match s.a[0] % 6 {
                    0 | 1 => (self.mgr.boolean(s.a[1] % 2 == 1), 0, (s.a[1] % 2) as i64),
                    2 if self.undet => (self.mgr.undet_boolean(), 0, U),
                    3 if self.undet => (self.mgr.undet_value(), 1, U),
                    _ => {
                        let v = self.val(s.a[1]);
                        (self.mgr.value(SimV(v)), 1, v)
                    }
                };
                ctx.note(|| format!("constant {}", show(v)));
                let t = self.space.constant(v);
                self.accept(h, Some(t), k, s.a[4], "constant", true, ctx)?;
            }
            BIN => {
                if let Some((h, w, k, n)) = self.bin(s, ctx) {
                    self.accept(h, Some(w), k, s.a[4], n, true, ctx)?;
                }
            }
            NARY => {
                if let Some((h, w, k, n)) = self.nary(s, ctx) {
                    self.accept(h, Some(w), k, s.a[4], n, true, ctx)?;
                }
            }
            RPNOK => self.rpn(s, false, false, ctx)?,
            RPNBAD => self.rpn(s, true, false, ctx)?,
            NODE => {
                let v = *Rng::new(s.a[0] as u64).pick(&self.declared);
                let lv = self.declared.iter().position(|&d| d == v).unwrap();
                let k = (s.a[3] % 2) as u8;
                let below: Vec<usize> = (0..self.pool.len())
                    .filter(|&i| key(&self.pool[i].h).0 == k && self.pool[i].h.get_level().map_or(true, |l| l < lv))
                    .collect();
                if !below.is_empty() {
                    ctx.op("create_node");
                    let mut r = sub(s, 1);
                    let ch: Vec<usize> = (0..self.space.dims[v]).map(|_| *r.pick(&below)).collect();
                    let hs: Vec<H> = ch.iter().map(|&i| self.pool[i].h.clone()).collect();
                    let hid = self.defvar(v).get_header().ok_or("variable without header")?;
                    let w = self.space.points.iter().enumerate().map(|(i, p)| self.pool[ch[p[v] as usize]].t[i]).collect();
                    let h = self.mgr.create_node(hid, &hs);
                    self.accept(h, Some(w), k, s.a[4], "create_node", true, ctx)?;
                }
            }
            CLONE => {
                if let Some(i) = self.pick(s.a[0]) {
                    ctx.op("clone");
                    crowd(&self.pool[i].h, s.a[3], ctx);
                    if self.pool.len() < self.cap {
                        let (h, t) = (self.pool[i].h.clone(), self.pool[i].t.clone());
                        self.pool.push(MEnt { h, t });
                    }
                }
            }
            DROP => {
                if let Some(i) = self.pick(s.a[0]) {
                    ctx.op("drop");
                    self.drop_at(i, ctx)?;
                }
            }
            GCC => self.gc(s, ctx)?,
            THRESH => {
                ctx.op("set_gc_threshold");
                ctx.fault("gc-threshold-change");
                let t = if s.a[1] % 8 == 0 { 0 } else { (1 + s.a[0] as u64 % (self.small * 4)) as usize };
                ctx.note(|| format!("threshold {}", t));
                self.mgr.set_gc_threshold(t);
                self.floor = t;
            }
            CLEAR => {
                ctx.op("clear_cache");
                ctx.fault("cache-clear");
                for _ in 0..=storm(s.a[3], ctx) {
                    self.mgr.clear_cache();
                }
                if ctx.on(LOSS) {
                    ctx.check("cache-cleared");
                    let n = (self.mgr.size().3, self.mgr.zmdd().size().3);
                    ensure!(n == (0, 0), "{:?} remembered results right after the caches were cleared", n);
                }
            }
            PROBS => self.probs(s, false, ctx)?,
            PROBCUT => self.probs(s, true, ctx)?,
            COUNT => self.count(s, ctx)?,
            EXTRACT => self.extract(s, ctx)?,
            ADVANCE => self.advance(s, ctx)?,
            MINP => self.minsol(s, ctx)?,
            MONO => self.mono(s, ctx)?,
            ZBIN => self.zbin(s, false, ctx)?,
            ZCUT => self.zbin(s, true, ctx)?,
            ZDROP => {
                if !self.zpool.is_empty() {
                    let i = s.a[0] as usize % self.zpool.len();
                    let (_, t) = self.ztable(&self.zpool[i].h)?;
                    ensure!(t == *self.zpool[i].t, "family handle changed its meaning");
                    self.zpool.swap_remove(i);
                }
            }
            ZCLONE => {
                if !self.zpool.is_empty() && self.zpool.len() < self.zcap {
                    let p = &self.zpool[s.a[0] as usize % self.zpool.len()];
                    crowd(&p.h, s.a[3], ctx);
                    let e = ZMEnt { h: p.h.clone(), t: p.t.clone(), cut: p.cut, vars: p.vars.clone(), phi: p.phi.clone() };
                    self.zpool.push(e);
                }
            }
            ZQUERY => self.zquery(s, ctx)?,
            ZEXTRACT => self.zextract(s, ctx)?,
            ZADVANCE => self.zadvance(s, ctx)?,
            ZGC => self.zgc(ctx)?,
            CUT => match s.a[2] % 4 {
                0 => self.rpn(s, false, true, ctx)?,
                1 => self.minsol(s, ctx)?,
                _ => {
                    if !self.pool.is_empty() {
                        let before = fault_counts();
                        FAULTS.with(|f| {
                            let mut f = f.borrow_mut();
                            if s.a[3] % 4 < 2 {
                                f.cut_in = geo(s.a[4], 200);
                            } else {
                                f.arith_in = geo(s.a[4], 100);
                            }
                        });
                        let me = &mut *self;
                        let mut quiet = Ctx::new(0);
                        let r = if s.a[2] % 4 == 2 {
                            maybe_cut(|| me.bin(s, &mut quiet))
                        } else {
                            maybe_cut(|| me.nary(s, &mut quiet))
                        };
                        let after = fault_counts();
                        ctx.faults_n("cut-at-memo-access", after.2 - before.2);
                        ctx.faults_n("value-arithmetic-panic", after.3 - before.3);
                        match r {
                            None => self.check_all(ctx)?,
                            Some(Some((h, w, k, n))) => self.accept(h, Some(w), k, s.a[4], n, true, ctx)?,
                            Some(None) => {}
                        }
                    }
                }
            },
            BURST => {
                let mut r = sub(s, 0);
                for _ in 0..r.range(2, 12) {
                    self.pre();
                    let t = Step { op: BIN, a: [r.next() as u32, r.next() as u32, r.next() as u32, r.next() as u32, 0] };
                    if let Some((h, w, _, n)) = self.bin(&t, ctx) {
                        if ctx.on(FUNC) {
                            let (_, got) = self.table(&h)?;
                            compare(&self.space, &got, &w).map_err(|e| format!("{} {}", n, e))?;
                        }
                        self.memory(&h, &[], true, ctx)?;
                    }
                }
            }
            SIZES => {
                if let Some(i) = self.pick(s.a[0]) {
                    ctx.op("size");
                    if ctx.on(ENUM) {
                        ctx.check("size");
                        let (g, _) = self.table(&self.pool[i].h)?;
                        let e: usize = g.nodes.iter().map(|n| n.edges.len()).sum();
                        let want = (g.nonterminals() as u64, g.terminals() as u64, e as u64);
                        let got = self.pool[i].h.size();
                        ensure!(got == want, "size() is {:?}, the diagram is {:?}", got, want);
                    }
                }
            }
            KIDS => self.kids(s, ctx)?,
            METAS => self.metas(s, ctx)?,
            DOTS => {
                if let Some(i) = self.pick(s.a[0]) {
                    ctx.op("dot");
                    if ctx.on(DOT) {
                        ctx.check("dot-graph");
                        let (g, _) = self.table(&self.pool[i].h)?;
                        check_dot(&self.pool[i].h.dot(), &g, key(&self.pool[i].h).1, &self.space, Rule::Merge, &self.pool[i].t)?;
                    }
                }
            }
            BADREQ => self.badreq(s, ctx)?,
            _ => self.check_all(ctx)?,
        }
        if ctx.events % 4 == 0 {
            let mut h = 0u64;
            for p in &self.pool {
                let k = key(&p.h);
                h = h.wrapping_add(mix(hash_i64s(&p.t) ^ (k.1 as u64) << 1 ^ k.0 as u64));
            }
            for p in &self.zpool {
                h = h.wrapping_add(mix(hash_i64s(&p.t) ^ ((p.h.get_id() as u64) << 20)));
            }
            ctx.state(h);
        }
        Ok(())
    }

    fn fingerprint(&self) -> u64 {
        let mut v: Vec<i64> = self.pool.iter().map(|p| ((key(&p.h).0 as i64) << 40) | key(&p.h).1 as i64).collect();
        v.extend(self.zpool.iter().map(|p| p.h.get_id() as i64));
        let (a, b) = (self.mgr.size(), self.mgr.zmdd().size());
        v.extend([a.0, a.1, b.0, b.1, self.mgr.live_node_count()].map(|x| x as i64));
        hash_i64s(&v)
    }

    fn finish(&mut self, ctx: &mut Ctx) -> R {
        self.check_all(ctx)?;
        while !self.iters.is_empty() {
            self.advance(&Step { op: ADVANCE, a: [0, 0, 1, 0, 0] }, ctx)?;
        }
        while !self.ziters.is_empty() {
            self.zadvance(&Step { op: ZADVANCE, a: [0, 11, 1, 0, 0] }, ctx)?;
        }
        if ctx.on(GC) {
            self.gc(&Step { op: GCC, a: [0; 5] }, ctx)?;
            self.pool.clear();
            self.gc(&Step { op: GCC, a: [0; 5] }, ctx)?;
        }
        Ok(())
    }
}

pub fn gen_mss(rng: &mut Rng, cfg: &Cfg) -> Vec<Step> {
    let n = cfg.us("steps").max(1);
    let mut w: Vec<(u16, u64)> = vec![
        (DEFVAR, 6),
        (CONST, 4),
        (BIN, 30),
        (NARY, 4),
        (NODE, rng.below(6)),
        (CLONE, rng.below(5)),
        (DROP, rng.below(10)),
        (CHECK, 1),
        (GCC, cfg.get("w_gc")),
        (THRESH, cfg.get("w_thr")),
        (CLEAR, cfg.get("w_clear")),
        (BURST, cfg.get("w_burst")),
        (CUT, cfg.get("w_cut")),
        (PROBCUT, cfg.get("w_cut") / 2),
        (ZCUT, cfg.get("w_cut") / 2),
        (BADREQ, cfg.get("w_bad")),
        (RPNOK, cfg.get("w_rpn")),
        (RPNBAD, cfg.get("w_rpnbad")),
        (PROBS, cfg.get("w_prob")),
        (COUNT, cfg.get("w_enum")),
        (EXTRACT, cfg.get("w_enum")),
        (ADVANCE, cfg.get("w_enum") * 2),
        (SIZES, cfg.get("w_enum") / 2),
        (MONO, cfg.get("w_min")),
        (MINP, cfg.get("w_min")),
        (ZBIN, cfg.get("w_z") / 2),
        (ZDROP, cfg.get("w_z") / 6),
        (ZCLONE, cfg.get("w_z") / 8),
        (ZQUERY, cfg.get("w_z") / 2),
        (ZEXTRACT, cfg.get("w_z") / 4),
        (ZADVANCE, cfg.get("w_z") / 2),
        (ZGC, cfg.get("w_gc") / 3),
        (KIDS, cfg.get("w_meta")),
        (METAS, cfg.get("w_meta")),
        (DOTS, cfg.get("w_dot")),
    ];
    w.retain(|x| x.1 > 0);
    let tot: u64 = w.iter().map(|x| x.1).sum();
    (0..n)
        .map(|i| {
            let mut x = rng.below(tot);
            let mut op = BIN;
            if i < 4 {
                op = if i == 3 { CONST } else { DEFVAR };
            } else {
                for &(o, ww) in &w {
                    if x < ww {
                        op = o;
                        break;
                    }
                    x -= ww;
                }
            }
            Step { op, a: [rng.next() as u32, rng.next() as u32, rng.next() as u32, rng.next() as u32, rng.next() as u32] }
        })
        .collect()
}
