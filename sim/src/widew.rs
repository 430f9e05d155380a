//! World: one operation on two or three residue automata over many wide levels.
//! Operands have a few hundred nodes; the result has one node per combination of
//! residues and level (thousands), so the computed tables fill, collide and grow
//! inside a single recursion. Every call runs under a budget of basic blocks.
use crate::core::*;
use crate::engines::*;
use crate::ensure;
use crate::ops::*;
use crate::space::*;
use crate::tick::measured_in;

/// Basic blocks one call may execute here (results of up to about 30000 nodes).
pub const WIDE_BUDGET: u64 = 600_000_000;

const PRIMES: [usize; 25] =
    [3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101];

pub struct WideW<E: Engine> {
    e: E,
    space: Space,
    hs: Vec<usize>,
    target: usize,
}

pub fn gen_wide(rng: &mut Rng, cfg: &Cfg) -> Vec<Step> {
    (0..cfg.get("steps"))
        .map(|_| {
            let mut a = [0u32; 5];
            for x in &mut a {
                *x = rng.next() as u32;
            }
            Step { op: rng.below(8) as u16, a }
        })
        .collect()
}

impl<E: Engine> WideW<E> {
    pub fn new(cfg: &Cfg) -> Self {
        let mut r = Rng::new(cfg.get("lay"));
        let n = cfg.us("n").clamp(2, 120);
        let d = if E::BINARY { 2 } else { cfg.us("d").clamp(2, 16) };
        let space = Space::sampled(vec![d; n], 24, &mut r);
        let mut e = E::new();
        let hs = (0..n).map(|v| e.header(v, &format!("v{}", v), d)).collect();
        WideW { e, space, hs, target: cfg.us("target").clamp(50, 40000) }
    }

    /// Value: the weighted sum of the states modulo `p` (or whether it is odd).
    fn automaton(&mut self, kind: u8, p: usize, seed: u64) -> (Id, Vec<i64>) {
        let mut r = Rng::new(seed);
        let (n, d) = (self.hs.len(), self.space.dims[0]);
        let w: Vec<usize> = (0..n).map(|_| r.range(1, p as u64 - 1) as usize).collect();
        let out = |x: usize| if kind == 0 { (x % 2) as i64 } else { x as i64 };
        let mut cur: Vec<Id> = (0..p).map(|x| self.e.constant(kind, out(x))).collect();
        for l in 0..n {
            cur = (0..p)
                .map(|x| {
                    let ch: Vec<usize> = (0..d).map(|j| cur[(x + j * w[l]) % p].1).collect();
                    self.e.node(self.hs[l], kind, &ch)
                })
                .collect();
        }
        let t = self.space.points.iter().map(|q| out((0..n).map(|v| q[v] as usize * w[v]).sum::<usize>() % p)).collect();
        (cur[0], t)
    }
}

impl<E: Engine> World for WideW<E> {
    fn step(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        if s.op == 0 {
            let (x, n) = measured_in("gc", WIDE_BUDGET, || self.e.gc(&[]));
            ctx.ticks += n;
            ctx.fault("gc");
            ctx.event(x.iter().sum::<usize>() as u64);
            return Ok(());
        }
        let ops: Vec<Op> = E::OPS
            .iter()
            .copied()
            .filter(|o| {
                !matches!(
                    o,
                    Op::BadBool | Op::BadValue | Op::BadIteB | Op::BadIteV | Op::MBaseline | Op::ZProduct | Op::ZDivide
                )
            })
            .collect();
        let op = ops[s.a[0] as usize % ops.len()];
        let kinds = op.sig().0;
        let mut r = Rng::new(((s.a[1] as u64) << 32) | s.a[2] as u64);
        // moduli whose product times the number of levels is about the target
        let per = (self.target / self.hs.len()).max(4) as f64;
        let want = per.powf(1.0 / kinds.len().max(2) as f64);
        let near = PRIMES.iter().position(|&p| p as f64 >= want).unwrap_or(PRIMES.len() - 1).max(1);
        let mut args = vec![];
        let mut tables = vec![];
        for (i, &k) in kinds.iter().enumerate() {
            let j = (near + i).saturating_sub(r.below(2) as usize * 2).min(PRIMES.len() - 1);
            // equal moduli would make the combination collapse
            let (id, t) = self.automaton(k, PRIMES[j], r.next());
            args.push(id);
            tables.push(t);
        }
        let what = op.name();
        ctx.op(what);
        ctx.check("work-budget");
        ctx.note(|| format!("{} {} on {:?}", E::NAME, what, args));
        let (id, n) = measured_in(what, WIDE_BUDGET, || self.e.apply(op, &args, 0));
        ctx.ticks += n;
        ctx.max_ticks = ctx.max_ticks.max(n);
        ctx.max_live = ctx.max_live.max(self.e.total_live() as u64);
        ctx.event(self.e.total_live() as u64);
        ctx.state(hash_i64s(&[id.1 as i64, self.e.total_live() as i64]));
        if ctx.on(FUNC) {
            let refs: Vec<&[i64]> = tables.iter().map(|t| t.as_slice()).collect();
            let want = op.spec(&refs, &self.space, 0);
            let kind = op.sig().1;
            let g = Graph::read(&At(&self.e, kind, self.hs.len()), &[id.1], &self.space.dims)?;
            let got = g.eval(id.1, &self.space, E::rule(kind));
            ctx.check("result-at-samples");
            compare(&self.space, &got, &want).map_err(|e| format!("{} of {} {}", what, E::NAME, e))?;
            ensure!(g.nodes.len() <= self.e.total_live(), "fewer nodes alive than reachable");
        }
        Ok(())
    }
    fn finish(&mut self, _ctx: &mut Ctx) -> R {
        Ok(())
    }
}
