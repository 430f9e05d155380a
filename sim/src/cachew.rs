//! World: the shared computed table against a map that remembers everything.
use crate::core::*;
use crate::ensure;
use common::prelude::ComputeCache;
use std::collections::BTreeMap;

type K = (u32, u32, u32);

pub struct CacheW {
    c: ComputeCache,
    last: BTreeMap<K, u32>,
    keys: u32,
}

impl CacheW {
    pub fn new(cfg: &Cfg) -> Self {
        CacheW { c: ComputeCache::new(), last: BTreeMap::new(), keys: cfg.get("keys").max(2) as u32 }
    }

    fn key(&self, s: &Step) -> K {
        // a few op codes, node ids below `keys`, sometimes extreme words
        let id = |x: u32| if x % 97 == 0 { self.keys - 1 } else { x % self.keys };
        (if s.a[3] % 2 == 0 { s.a[0] % 8 } else { id(s.a[0]) }, id(s.a[1]), if s.a[3] % 5 == 0 { 0 } else { id(s.a[2]) })
    }

    fn probe(&self, k: K) -> R<bool> {
        match self.c.get(k.0, k.1, k.2) {
            None => Ok(false),
            Some(v) => {
                let w = self.last.get(&k);
                ensure!(w == Some(&v), "table returns {} for {:?}, most recently stored was {:?}", v, k, w);
                Ok(true)
            }
        }
    }

    fn all(&self, ctx: &mut Ctx) -> R {
        let mut n = 0;
        for &k in self.last.keys() {
            n += self.probe(k)? as usize;
        }
        ctx.check("table-length");
        ensure!(n == self.c.len(), "table holds {} entries, len() says {}", n, self.c.len());
        ensure!(self.c.is_empty() == (n == 0), "is_empty() is wrong");
        Ok(())
    }
}

impl World for CacheW {
    fn step(&mut self, s: &Step, ctx: &mut Ctx) -> R {
        let k = self.key(s);
        match s.op {
            0 => {
                ctx.op("put");
                let v = s.a[4] % self.keys;
                self.c.put(k.0, k.1, k.2, v);
                self.last.insert(k, v);
                self.probe(k)?;
            }
            1 => {
                ctx.op("get");
                ctx.check("table-lookup");
                let hit = self.probe(k)?;
                ctx.event(hit as u64);
            }
            2 | 3 => {
                ctx.fault("collection");
                let mut r = Rng::new(((s.a[0] as u64) << 32) | s.a[1] as u64);
                let p = r.range(1, 16);
                let live: Vec<bool> = (0..self.keys.max(8)).map(|i| i == 0 || r.chance(p, 16)).collect();
                let ok = |x: u32| live[x as usize];
                if s.op == 2 {
                    ctx.op("retain_live");
                    for _ in 0..=storm(s.a[3], ctx) {
                        self.c.retain_live(&live);
                    }
                    self.last.retain(|k, v| ok(k.1) && ok(k.2) && ok(*v));
                } else {
                    ctx.op("retain_live3");
                    for _ in 0..=storm(s.a[3], ctx) {
                        self.c.retain_live3(&live);
                    }
                    self.last.retain(|k, v| ok(k.0) && ok(k.1) && ok(k.2) && ok(*v));
                }
                // entries with dead words must be gone: probed through the model
                for _ in 0..16 {
                    let q = (r.below(self.keys as u64) as u32, r.below(self.keys as u64) as u32, r.below(self.keys as u64) as u32);
                    self.probe(q)?;
                }
                self.all(ctx)?;
            }
            4 => {
                ctx.op("clear");
                ctx.fault("cache-clear");
                for _ in 0..=storm(s.a[3], ctx) {
                    self.c.clear();
                }
                let old = std::mem::take(&mut self.last);
                for &k in old.keys() {
                    self.probe(k)?;
                }
                self.all(ctx)?;
            }
            5 => self.all(ctx)?,
            7 => {
                // keys that agree with a stored one in all but one word, over the whole range
                // of a word: in a small table many of them fall into the stored key's slot
                ctx.op("near-misses");
                ctx.check("table-near-miss");
                let mut r = Rng::new(((s.a[0] as u64) << 32) | s.a[1] as u64);
                let stored: Vec<K> = self.last.keys().skip(s.a[2] as usize % self.last.len().max(1)).take(8).copied().collect();
                for k in stored {
                    for _ in 0..200 {
                        let flip = match r.below(3) {
                            0 => 1u32 << r.below(32),
                            1 => (r.next() as u32) << (8 * r.range(0, 3)),
                            _ => (r.next() as u32) >> (8 * r.range(0, 3)),
                        };
                        let q = match s.a[3] % 3 {
                            0 => (k.0 ^ flip, k.1, k.2),
                            1 => (k.0, k.1 ^ flip, k.2),
                            _ => (k.0, k.1, k.2 ^ flip),
                        };
                        self.probe(q)?;
                    }
                }
            }
            _ => {
                // a stretch of consecutive stores, so that the table grows
                ctx.op("put-run");
                let mut r = Rng::new(((s.a[0] as u64) << 32) | s.a[1] as u64);
                for _ in 0..s.a[2] % 400 {
                    let m = self.keys as u64;
                    let k = (r.below(m) as u32 % 8, r.below(m) as u32, r.below(m) as u32);
                    let v = r.below(m) as u32;
                    self.c.put(k.0, k.1, k.2, v);
                    self.last.insert(k, v);
                }
                ctx.fault("table-pressure");
                self.all(ctx)?;
            }
        }
        ctx.event(self.c.len() as u64);
        ctx.state(mix(self.c.len() as u64 ^ ((self.last.len() as u64) << 24)));
        Ok(())
    }
    fn finish(&mut self, ctx: &mut Ctx) -> R {
        self.all(ctx)
    }
}

pub fn gen_cache(rng: &mut Rng, cfg: &Cfg) -> Vec<Step> {
    let w = [40, 40, rng.below(3), rng.below(3), rng.below(2), 1, rng.below(6), 2];
    let tot: u64 = w.iter().sum();
    (0..cfg.us("steps"))
        .map(|_| {
            let mut x = rng.below(tot);
            let mut op = 0;
            for (i, &k) in w.iter().enumerate() {
                if x < k {
                    op = i as u16;
                    break;
                }
                x -= k;
            }
            Step { op, a: [rng.next() as u32, rng.next() as u32, rng.next() as u32, rng.next() as u32, rng.next() as u32] }
        })
        .collect()
}
