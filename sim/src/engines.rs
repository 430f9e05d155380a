//! The six real engines behind one interface (all calls go to the real code).
use crate::core::*;
use crate::ops::*;
use crate::space::*;
use bddcore::prelude::{BddManager, ZddManager};
use common::prelude::*;
use mddcore::prelude::{MddManager, MtMdd2Manager, MtMddManager, ZmddManager};
use std::io::Write;

/// (kind, node id): kind 0 = boolean/family forest, 1 = value forest.
pub type Id = (u8, usize);

pub trait Engine {
    const NAME: &'static str;
    const KINDS: &'static [u8];
    const OPS: &'static [Op];
    const BINARY: bool = false;
    fn new() -> Self;
    fn header(&mut self, level: usize, label: &str, dim: usize) -> usize;
    fn constant(&mut self, kind: u8, v: i64) -> Id;
    fn node(&mut self, h: usize, kind: u8, ch: &[usize]) -> Id;
    fn apply(&mut self, op: Op, a: &[Id], k: i64) -> Id;
    fn gc(&mut self, roots: &[Id]) -> Vec<usize>;
    /// per kind in KINDS order: (slots, live)
    fn arenas(&self) -> Vec<(usize, usize)>;
    fn clear(&mut self);
    /// Results remembered at the moment, by the engine's own statistics.
    fn cached(&self) -> usize;
    fn view(&self, kind: u8, id: usize, nvars: usize) -> R<View>;
    fn level(&self, id: Id) -> Option<usize>;
    fn rule(kind: u8) -> Rule;
    /// ids of terminals that are alive regardless of roots
    fn permanent(&self, kind: u8) -> Vec<usize>;
    fn dot(&self, id: Id, w: &mut dyn Write);
    fn total_live(&self) -> usize;
    /// An invalid request; `None` if the engine has none, `Err` if it panicked.
    fn bad_call(&mut self, _pool: &[Id], _raw: u32) -> Option<Result<(), String>> {
        None
    }
}

pub struct At<'a, E: Engine>(pub &'a E, pub u8, pub usize);
impl<'a, E: Engine> Forest for At<'a, E> {
    fn view(&self, id: usize) -> R<View> {
        self.0.view(self.1, id, self.2)
    }
}

macro_rules! nt_view {
    ($m:expr, $f:expr, $n:expr, $edges:expr) => {{
        let h = $m
            .get_header(&$f.headerid())
            .ok_or_else(|| format!("node {} has no header", $f.id()))?;
        View::Node { var: parse_var(h.label(), $n)?, level: h.level(), edges: $edges }
    }};
}
pub fn bview(m: &BddManager, id: usize, n: usize) -> R<View> {
    use bddcore::prelude::Node;
    Ok(match m.get_node(&id).ok_or_else(|| format!("node id {} does not exist", id))? {
        Node::Zero => View::Term(0),
        Node::One => View::Term(1),
        Node::Undet => View::Term(U),
        Node::NonTerminal(f) => nt_view!(m, f, n, vec![f.edge(0), f.edge(1)]),
    })
}
pub fn zview(m: &ZddManager, id: usize, n: usize) -> R<View> {
    use bddcore::prelude::Node;
    Ok(match m.get_node(&id).ok_or_else(|| format!("node id {} does not exist", id))? {
        Node::Zero => View::Term(0),
        Node::One => View::Term(1),
        Node::Undet => View::Term(U),
        Node::NonTerminal(f) => nt_view!(m, f, n, vec![f.edge(0), f.edge(1)]),
    })
}
pub fn mview(m: &MddManager, id: usize, n: usize) -> R<View> {
    use mddcore::mdd::Node;
    Ok(match m.get_node(&id).ok_or_else(|| format!("node id {} does not exist", id))? {
        Node::Zero => View::Term(0),
        Node::One => View::Term(1),
        Node::Undet => View::Term(U),
        Node::NonTerminal(f) => nt_view!(m, f, n, f.iter().collect()),
    })
}
pub fn vview(m: &MtMddManager<SimV>, id: usize, n: usize) -> R<View> {
    use mddcore::mtmdd::Node;
    Ok(match m.get_node(&id).ok_or_else(|| format!("node id {} does not exist", id))? {
        Node::Undet => View::Term(U),
        Node::Terminal(t) => View::Term(t.value().0),
        Node::NonTerminal(f) => nt_view!(m, f, n, f.iter().collect()),
    })
}
pub fn zmview(m: &ZmddManager<SimV>, id: usize, n: usize) -> R<View> {
    use mddcore::mtmdd::Node;
    Ok(match m.get_node(&id).ok_or_else(|| format!("node id {} does not exist", id))? {
        Node::Undet => View::Term(U),
        Node::Terminal(t) => View::Term(t.value().0),
        Node::NonTerminal(f) => nt_view!(m, f, n, f.iter().collect()),
    })
}

fn bconst(zero: usize, one: usize, undet: usize, v: i64) -> Id {
    (0, if v == U { undet } else if v == 0 { zero } else { one })
}

const BOOL_OPS: &[Op] =
    &[Op::Not, Op::And, Op::Or, Op::Xor, Op::Imp, Op::Nand, Op::Nor, Op::Xnor, Op::Ite, Op::Ite, Op::Ite];

pub struct BddE(pub BddManager);
impl Engine for BddE {
    const NAME: &'static str = "bdd";
    const KINDS: &'static [u8] = &[0];
    const OPS: &'static [Op] = BOOL_OPS;
    const BINARY: bool = true;
    fn new() -> Self {
        BddE(BddManager::new())
    }
    fn header(&mut self, level: usize, label: &str, _dim: usize) -> usize {
        self.0.create_header(level, label)
    }
    fn constant(&mut self, _k: u8, v: i64) -> Id {
        bconst(self.0.zero(), self.0.one(), self.0.undet(), v)
    }
    fn node(&mut self, h: usize, _k: u8, ch: &[usize]) -> Id {
        (0, self.0.create_node(h, ch[0], ch[1]))
    }
    fn apply(&mut self, op: Op, a: &[Id], _k: i64) -> Id {
        let m = &mut self.0;
        let f = a[0].1;
        let g = if a.len() > 1 { a[1].1 } else { 0 };
        (0, match op {
            Op::Not => m.not(f),
            Op::And => m.and(f, g),
            Op::Or => m.or(f, g),
            Op::Xor => m.xor(f, g),
            Op::Imp => m.imp(f, g),
            Op::Nand => m.nand(f, g),
            Op::Nor => m.nor(f, g),
            Op::Xnor => m.xnor(f, g),
            Op::Ite => m.ite(f, g, a[2].1),
            _ => unreachable!(),
        })
    }
    fn gc(&mut self, roots: &[Id]) -> Vec<usize> {
        vec![self.0.gc(&roots.iter().map(|r| r.1).collect::<Vec<_>>())]
    }
    fn arenas(&self) -> Vec<(usize, usize)> {
        vec![(self.0.size().1, self.0.live_node_count())]
    }
    fn clear(&mut self) {
        self.0.clear_cache()
    }
    fn cached(&self) -> usize {
        self.0.size().2
    }
    fn view(&self, _k: u8, id: usize, n: usize) -> R<View> {
        bview(&self.0, id, n)
    }
    fn level(&self, id: Id) -> Option<usize> {
        self.0.level(&id.1)
    }
    fn rule(_k: u8) -> Rule {
        Rule::Merge
    }
    fn permanent(&self, _k: u8) -> Vec<usize> {
        vec![self.0.zero(), self.0.one(), self.0.undet()]
    }
    fn dot(&self, id: Id, mut w: &mut dyn Write) {
        self.0.dot(&mut w, &id.1)
    }
    fn total_live(&self) -> usize {
        self.0.live_node_count()
    }
}

pub struct ZddE(pub ZddManager);
impl Engine for ZddE {
    const NAME: &'static str = "zdd";
    const KINDS: &'static [u8] = &[0];
    const OPS: &'static [Op] =
        &[Op::ZUnion, Op::ZUnion, Op::ZIntersect, Op::ZSetdiff, Op::ZProduct, Op::ZDivide];
    const BINARY: bool = true;
    fn new() -> Self {
        ZddE(ZddManager::new())
    }
    fn header(&mut self, level: usize, label: &str, _dim: usize) -> usize {
        self.0.create_header(level, label)
    }
    fn constant(&mut self, _k: u8, v: i64) -> Id {
        bconst(self.0.zero(), self.0.one(), self.0.undet(), v)
    }
    fn node(&mut self, h: usize, _k: u8, ch: &[usize]) -> Id {
        (0, self.0.create_node(h, ch[0], ch[1]))
    }
    fn apply(&mut self, op: Op, a: &[Id], _k: i64) -> Id {
        let m = &mut self.0;
        let (f, g) = (a[0].1, a[1].1);
        (0, match op {
            Op::ZUnion => m.union(f, g),
            Op::ZIntersect => m.intersect(f, g),
            Op::ZSetdiff => m.setdiff(f, g),
            Op::ZProduct => m.product(f, g),
            Op::ZDivide => m.divide(f, g),
            _ => unreachable!(),
        })
    }
    fn gc(&mut self, roots: &[Id]) -> Vec<usize> {
        vec![self.0.gc(&roots.iter().map(|r| r.1).collect::<Vec<_>>())]
    }
    fn arenas(&self) -> Vec<(usize, usize)> {
        vec![(self.0.size().1, self.0.live_node_count())]
    }
    fn clear(&mut self) {
        self.0.clear_cache()
    }
    fn cached(&self) -> usize {
        self.0.size().2
    }
    fn view(&self, _k: u8, id: usize, n: usize) -> R<View> {
        zview(&self.0, id, n)
    }
    fn level(&self, id: Id) -> Option<usize> {
        self.0.level(&id.1)
    }
    fn rule(_k: u8) -> Rule {
        Rule::Suppress(0)
    }
    fn permanent(&self, _k: u8) -> Vec<usize> {
        vec![self.0.zero(), self.0.one(), self.0.undet()]
    }
    fn dot(&self, id: Id, mut w: &mut dyn Write) {
        self.0.dot(&mut w, &id.1)
    }
    fn total_live(&self) -> usize {
        self.0.live_node_count()
    }
}

pub struct MddE(pub MddManager);
impl Engine for MddE {
    const NAME: &'static str = "mdd";
    const KINDS: &'static [u8] = &[0];
    const OPS: &'static [Op] = &[
        Op::Not, Op::And, Op::Or, Op::Xor, Op::Imp, Op::Nand, Op::Nor, Op::Xnor, Op::Ite, Op::Ite, Op::Replace,
    ];
    fn new() -> Self {
        MddE(MddManager::new())
    }
    fn header(&mut self, level: usize, label: &str, dim: usize) -> usize {
        self.0.create_header(level, label, dim)
    }
    fn constant(&mut self, _k: u8, v: i64) -> Id {
        bconst(self.0.zero(), self.0.one(), self.0.undet(), v)
    }
    fn node(&mut self, h: usize, _k: u8, ch: &[usize]) -> Id {
        (0, self.0.create_node(h, ch))
    }
    fn apply(&mut self, op: Op, a: &[Id], _k: i64) -> Id {
        let m = &mut self.0;
        let f = a[0].1;
        let g = if a.len() > 1 { a[1].1 } else { 0 };
        (0, match op {
            Op::Not => m.not(f),
            Op::And => m.and(f, g),
            Op::Or => m.or(f, g),
            Op::Xor => m.xor(f, g),
            Op::Imp => m.imp(f, g),
            Op::Nand => m.nand(f, g),
            Op::Nor => m.nor(f, g),
            Op::Xnor => m.xnor(f, g),
            Op::Ite => m.ite(f, g, a[2].1),
            Op::Replace => m.replace(f, g),
            _ => unreachable!(),
        })
    }
    fn gc(&mut self, roots: &[Id]) -> Vec<usize> {
        vec![self.0.gc(&roots.iter().map(|r| r.1).collect::<Vec<_>>())]
    }
    fn arenas(&self) -> Vec<(usize, usize)> {
        vec![(self.0.size().1, self.0.live_node_count())]
    }
    fn clear(&mut self) {
        self.0.clear_cache()
    }
    fn cached(&self) -> usize {
        self.0.size().2
    }
    fn view(&self, _k: u8, id: usize, n: usize) -> R<View> {
        mview(&self.0, id, n)
    }
    fn level(&self, id: Id) -> Option<usize> {
        self.0.level(&id.1)
    }
    fn rule(_k: u8) -> Rule {
        Rule::Merge
    }
    fn permanent(&self, _k: u8) -> Vec<usize> {
        vec![self.0.zero(), self.0.one(), self.0.undet()]
    }
    fn dot(&self, id: Id, mut w: &mut dyn Write) {
        self.0.dot(&mut w, &id.1)
    }
    fn total_live(&self) -> usize {
        self.0.live_node_count()
    }
}

pub struct MtE(pub MtMddManager<SimV>);
impl Engine for MtE {
    const NAME: &'static str = "mtmdd";
    const KINDS: &'static [u8] = &[1];
    const OPS: &'static [Op] =
        &[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Rem, Op::Min, Op::Max, Op::VReplace];
    fn new() -> Self {
        MtE(MtMddManager::new())
    }
    fn header(&mut self, level: usize, label: &str, dim: usize) -> usize {
        self.0.create_header(level, label, dim)
    }
    fn constant(&mut self, _k: u8, v: i64) -> Id {
        (1, if v == U { self.0.undet() } else { self.0.value(SimV(v)) })
    }
    fn node(&mut self, h: usize, _k: u8, ch: &[usize]) -> Id {
        (1, self.0.create_node(h, ch))
    }
    fn apply(&mut self, op: Op, a: &[Id], _k: i64) -> Id {
        let m = &mut self.0;
        let (f, g) = (a[0].1, a[1].1);
        (1, match op {
            Op::Add => m.add(f, g),
            Op::Sub => m.sub(f, g),
            Op::Mul => m.mul(f, g),
            Op::Div => m.div(f, g),
            Op::Rem => m.rem(f, g),
            Op::Min => m.min(f, g),
            Op::Max => m.max(f, g),
            Op::VReplace => m.replace(f, g),
            _ => unreachable!(),
        })
    }
    fn gc(&mut self, roots: &[Id]) -> Vec<usize> {
        vec![self.0.gc(&roots.iter().map(|r| r.1).collect::<Vec<_>>())]
    }
    fn arenas(&self) -> Vec<(usize, usize)> {
        vec![(self.0.size().1, self.0.live_node_count())]
    }
    fn clear(&mut self) {
        self.0.clear_cache()
    }
    fn cached(&self) -> usize {
        self.0.size().3
    }
    fn view(&self, _k: u8, id: usize, n: usize) -> R<View> {
        vview(&self.0, id, n)
    }
    fn level(&self, id: Id) -> Option<usize> {
        self.0.level(&id.1)
    }
    fn rule(_k: u8) -> Rule {
        Rule::Merge
    }
    fn permanent(&self, _k: u8) -> Vec<usize> {
        vec![self.0.undet()]
    }
    fn dot(&self, id: Id, mut w: &mut dyn Write) {
        self.0.dot(&mut w, &id.1)
    }
    fn total_live(&self) -> usize {
        self.0.live_node_count()
    }
}

pub struct Mt2E(pub MtMdd2Manager<SimV>);
fn n2(id: Id) -> mddcore::mtmdd2::Node {
    if id.0 == 0 {
        mddcore::mtmdd2::Node::Bool(id.1)
    } else {
        mddcore::mtmdd2::Node::Value(id.1)
    }
}
fn i2(n: mddcore::mtmdd2::Node) -> Id {
    match n {
        mddcore::mtmdd2::Node::Bool(x) => (0, x),
        mddcore::mtmdd2::Node::Value(x) => (1, x),
    }
}
impl Engine for Mt2E {
    const NAME: &'static str = "mtmdd2";
    const KINDS: &'static [u8] = &[0, 1];
    const OPS: &'static [Op] = &[
        Op::Not, Op::And, Op::Or, Op::Xor, Op::Ite, Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Min, Op::Max,
        Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge,
        Op::BEq, Op::BNe, Op::VIte, Op::VIte, Op::VIte, Op::VIte, Op::VIf, Op::BadBool, Op::BadBool, Op::BadValue,
        Op::BadIteB, Op::BadIteV,
    ];
    fn new() -> Self {
        Mt2E(MtMdd2Manager::new())
    }
    fn header(&mut self, level: usize, label: &str, dim: usize) -> usize {
        self.0.create_header(level, label, dim)
    }
    fn constant(&mut self, k: u8, v: i64) -> Id {
        i2(if k == 0 {
            if v == U {
                self.0.undet_boolean()
            } else if v == 0 {
                self.0.zero()
            } else {
                self.0.one()
            }
        } else if v == U {
            self.0.undet_value()
        } else {
            self.0.value(SimV(v))
        })
    }
    fn node(&mut self, h: usize, k: u8, ch: &[usize]) -> Id {
        let c: Vec<_> = ch.iter().map(|&x| n2((k, x))).collect();
        i2(self.0.create_node(h, &c))
    }
    fn apply(&mut self, op: Op, a: &[Id], k: i64) -> Id {
        let m = &mut self.0;
        let f = n2(a[0]);
        let g = if a.len() > 1 { n2(a[1]) } else { f };
        i2(match op {
            Op::Not => m.not(f),
            Op::And => m.and(f, g),
            Op::Or => m.or(f, g),
            Op::Xor => m.xor(f, g),
            Op::Add => m.add(f, g),
            Op::Sub => m.sub(f, g),
            Op::Mul => m.mul(f, g),
            Op::Div => m.div(f, g),
            Op::Min => m.min(f, g),
            Op::Max => m.max(f, g),
            // the untagged forms, as used inside
            Op::Eq if k.rem_euclid(4) == 1 => mddcore::mtmdd2::Node::Bool(m.veq(a[0].1, a[1].1)),
            Op::Lt if k.rem_euclid(4) == 1 => mddcore::mtmdd2::Node::Bool(m.vlt(a[0].1, a[1].1)),
            Op::VIf => mddcore::mtmdd2::Node::Value(m.vif(a[0].1, a[1].1)),
            Op::Eq | Op::BEq => m.eq(f, g),
            Op::Ne | Op::BNe => m.neq(f, g),
            Op::Lt => m.lt(f, g),
            Op::Le => m.lte(f, g),
            Op::Gt => m.gt(f, g),
            Op::Ge => m.gte(f, g),
            Op::Ite | Op::VIte | Op::BadIteB | Op::BadIteV => m.ite(f, g, n2(a[2])),
            // g is a value, f a boolean
            Op::BadBool => {
                let (x, y) = match (k.rem_euclid(64) / 16, g, f) {
                    (0, ..) => (f, g),
                    (1, ..) => (g, f),
                    _ => (f, f),
                };
                match k.rem_euclid(16) {
                    0 if x != y => m.and(x, y),
                    1 if x != y => m.or(x, y),
                    2 if x != y => m.xor(x, y),
                    3 => m.not(g),
                    4 => m.and(g, g),
                    5 => m.or(g, g),
                    6 => m.xor(g, g),
                    7 if x != y => m.eq(x, y),
                    8 if x != y => m.neq(x, y),
                    9 | 10 => m.lte(x, y),
                    11 | 12 => m.gt(x, y),
                    13 | 14 => m.gte(x, y),
                    _ => m.lt(x, y),
                }
            }
            // f is a value, g a boolean
            Op::BadValue => {
                let (x, y) = match k.rem_euclid(18) / 6 {
                    0 => (f, g),
                    1 => (g, f),
                    _ => (g, g),
                };
                match k.rem_euclid(6) {
                    0 => m.add(x, y),
                    1 => m.sub(x, y),
                    2 => m.mul(x, y),
                    3 => m.div(x, y),
                    4 => m.min(x, y),
                    _ => m.max(x, y),
                }
            }
            _ => unreachable!(),
        })
    }
    fn gc(&mut self, roots: &[Id]) -> Vec<usize> {
        let r: Vec<_> = roots.iter().map(|&r| n2(r)).collect();
        let (v, b) = self.0.gc(&r);
        vec![b, v]
    }
    fn arenas(&self) -> Vec<(usize, usize)> {
        vec![
            (self.0.mdd().size().1, self.0.mdd().live_node_count()),
            (self.0.mtmdd().size().1, self.0.mtmdd().live_node_count()),
        ]
    }
    fn clear(&mut self) {
        self.0.clear_cache()
    }
    fn cached(&self) -> usize {
        self.0.size().3
    }
    fn view(&self, k: u8, id: usize, n: usize) -> R<View> {
        if k == 0 {
            mview(self.0.mdd(), id, n)
        } else {
            vview(self.0.mtmdd(), id, n)
        }
    }
    fn level(&self, id: Id) -> Option<usize> {
        if id.0 == 0 {
            self.0.mdd().level(&id.1)
        } else {
            self.0.mtmdd().level(&id.1)
        }
    }
    fn rule(_k: u8) -> Rule {
        Rule::Merge
    }
    fn permanent(&self, k: u8) -> Vec<usize> {
        if k == 0 {
            vec![self.0.mdd().zero(), self.0.mdd().one(), self.0.mdd().undet()]
        } else {
            vec![self.0.mtmdd().undet()]
        }
    }
    fn dot(&self, id: Id, mut w: &mut dyn Write) {
        self.0.dot(&mut w, &n2(id))
    }
    fn bad_call(&mut self, pool: &[Id], raw: u32) -> Option<Result<(), String>> {
        // a selection whose branches have different kinds has no defined result kind
        let b: Vec<Id> = pool.iter().copied().filter(|x| x.0 == 0).collect();
        let v: Vec<Id> = pool.iter().copied().filter(|x| x.0 == 1).collect();
        if b.is_empty() || v.is_empty() {
            return None;
        }
        let (f, x, y) =
            (n2(b[raw as usize % b.len()]), n2(b[(raw >> 8) as usize % b.len()]), n2(v[(raw >> 16) as usize % v.len()]));
        let m = &mut self.0;
        Some(may_panic(|| {
            if raw & 1 == 0 {
                m.ite(f, x, y);
            } else {
                m.ite(f, y, x);
            }
        }))
    }
    fn total_live(&self) -> usize {
        self.0.live_node_count()
    }
}

pub struct ZmE(pub ZmddManager<SimV>);
impl Engine for ZmE {
    const NAME: &'static str = "zmdd";
    const KINDS: &'static [u8] = &[1];
    const OPS: &'static [Op] = &[Op::MIntersect, Op::MIntersect, Op::MSetdiff, Op::MSetdiff, Op::MBaseline];
    fn new() -> Self {
        ZmE(ZmddManager::new())
    }
    fn header(&mut self, level: usize, label: &str, dim: usize) -> usize {
        self.0.create_header(level, label, dim)
    }
    fn constant(&mut self, _k: u8, v: i64) -> Id {
        (1, if v == U { self.0.undet() } else { self.0.value(SimV(v)) })
    }
    fn node(&mut self, h: usize, _k: u8, ch: &[usize]) -> Id {
        (1, self.0.create_node(h, ch))
    }
    fn apply(&mut self, op: Op, a: &[Id], k: i64) -> Id {
        let m = &mut self.0;
        let f = a[0].1;
        (1, match op {
            Op::MIntersect => m.intersect(f, a[1].1),
            Op::MSetdiff => m.setdiff(f, a[1].1),
            Op::MBaseline => m.set_baseline(f, SimV(k)),
            _ => unreachable!(),
        })
    }
    fn gc(&mut self, roots: &[Id]) -> Vec<usize> {
        vec![self.0.gc(&roots.iter().map(|r| r.1).collect::<Vec<_>>())]
    }
    fn arenas(&self) -> Vec<(usize, usize)> {
        vec![(self.0.size().1, self.0.live_node_count())]
    }
    fn clear(&mut self) {
        self.0.clear_cache()
    }
    fn cached(&self) -> usize {
        self.0.size().3
    }
    fn view(&self, _k: u8, id: usize, n: usize) -> R<View> {
        zmview(&self.0, id, n)
    }
    fn level(&self, id: Id) -> Option<usize> {
        self.0.level(&id.1)
    }
    fn rule(_k: u8) -> Rule {
        Rule::Suppress(U)
    }
    fn permanent(&self, _k: u8) -> Vec<usize> {
        vec![self.0.undet()]
    }
    fn dot(&self, id: Id, mut w: &mut dyn Write) {
        self.0.dot(&mut w, &id.1)
    }
    fn total_live(&self) -> usize {
        self.0.live_node_count()
    }
}
