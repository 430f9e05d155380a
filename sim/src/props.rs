//! Which worlds, fault mixes and oracles decide which property.
use crate::core::*;
use crate::corew::*;
use crate::engines::*;

pub struct Prop {
    pub id: &'static str,
    pub oracles: u32,
    pub worlds: &'static [(&'static str, u64)],
    /// runs in the quick and thorough tier
    pub quick: u64,
    pub thorough: u64,
}

pub fn build(p: &Plan) -> Option<Box<dyn World>> {
    let c = &p.cfg;
    arm_cfg(p.seed, c);
    Some(match p.world.as_str() {
        "core-bdd" => Box::new(Core::<BddE>::new(c)),
        "core-zdd" => Box::new(Core::<ZddE>::new(c)),
        "core-mdd" => Box::new(Core::<MddE>::new(c)),
        "core-mt" => Box::new(Core::<MtE>::new(c)),
        "core-mt2" => Box::new(Core::<Mt2E>::new(c)),
        "core-zm" => Box::new(Core::<ZmE>::new(c)),
        "twin-bdd" => Box::new(Twin::<BddE>::new(c, p.seed)),
        "twin-zdd" => Box::new(Twin::<ZddE>::new(c, p.seed)),
        "twin-mdd" => Box::new(Twin::<MddE>::new(c, p.seed)),
        "twin-mt" => Box::new(Twin::<MtE>::new(c, p.seed)),
        "twin-mt2" => Box::new(Twin::<Mt2E>::new(c, p.seed)),
        "twin-zm" => Box::new(Twin::<ZmE>::new(c, p.seed)),
        "bss" => Box::new(crate::bssw::BssW::new(c)),
        "zdd" => Box::new(crate::zddw::ZddW::new(c)),
        "mss" => Box::new(crate::mssw::MssW::new(c)),
        "cache" => Box::new(crate::cachew::CacheW::new(c)),
        "multi" => Box::new(crate::multiw::MultiW::new(c, p.seed)),
        "large" => Box::new(crate::largew::LargeW::new(c, p.seed)),
        "floor" => Box::new(crate::floorw::FloorW::new(c)),
        "wide-bdd" => Box::new(crate::widew::WideW::<crate::engines::BddE>::new(c)),
        "wide-zdd" => Box::new(crate::widew::WideW::<crate::engines::ZddE>::new(c)),
        "wide-mdd" => Box::new(crate::widew::WideW::<crate::engines::MddE>::new(c)),
        "wide-mt" => Box::new(crate::widew::WideW::<crate::engines::MtE>::new(c)),
        "wide-mt2" => Box::new(crate::widew::WideW::<crate::engines::Mt2E>::new(c)),
        "wide-zm" => Box::new(crate::widew::WideW::<crate::engines::ZmE>::new(c)),
        "mass-bdd" => Box::new(crate::massw::MassW::<crate::engines::BddE>::new(c)),
        "mass-zdd" => Box::new(crate::massw::MassW::<crate::engines::ZddE>::new(c)),
        "mass-mdd" => Box::new(crate::massw::MassW::<crate::engines::MddE>::new(c)),
        "mass-mt" => Box::new(crate::massw::MassW::<crate::engines::MtE>::new(c)),
        "mass-mt2" => Box::new(crate::massw::MassW::<crate::engines::Mt2E>::new(c)),
        "mass-zm" => Box::new(crate::massw::MassW::<crate::engines::ZmE>::new(c)),
        "tall" => Box::new(crate::tallw::TallW::new(c)),
        "work" => Box::new(crate::workw::WorkW::new(c, p.seed)),
        _ => return None,
    })
}

pub fn steps(world: &str, rng: &mut Rng, cfg: &Cfg) -> Vec<Step> {
    match world {
        "bss" => crate::bssw::gen_bss(rng, cfg),
        "zdd" => crate::zddw::gen_zdd(rng, cfg),
        "mss" => crate::mssw::gen_mss(rng, cfg),
        "cache" => crate::cachew::gen_cache(rng, cfg),
        "multi" => crate::multiw::gen_multi(rng, cfg),
        "large" => crate::largew::gen_large(rng, cfg),
        "floor" => crate::floorw::gen_floor(rng, cfg),
        w if w.starts_with("wide-") => crate::widew::gen_wide(rng, cfg),
        w if w.starts_with("mass-") => crate::massw::gen_mass(rng, cfg),
        "tall" => crate::tallw::gen_tall(rng, cfg),
        "work" => crate::workw::gen_work(rng, cfg),
        _ => gen_core(rng, cfg),
    }
}

pub fn prop(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}

/// One seed decides world, configuration (swarm) and schedule.
pub fn plan(p: &Prop, seed: u64) -> Plan {
    let mut rng = Rng::new(seed);
    let tot: u64 = p.worlds.iter().map(|w| w.1).sum();
    let mut x = rng.below(tot);
    let mut world = p.worlds[0].0;
    for &(w, k) in p.worlds {
        if x < k {
            world = w;
            break;
        }
        x -= k;
    }
    let cfg = swarm(p.id, world, &mut rng);
    let steps = steps(world, &mut rng, &cfg);
    Plan { prop: p.id.into(), world: world.into(), seed, cfg, steps }
}

fn memo_faults(c: &mut Cfg, r: &mut Rng, hostile: bool) {
    let p = |r: &mut Rng| *r.pick(&[0u64, 0, 0, 16, 128, 512]);
    c.set("forget", p(r));
    c.set("lose", p(r));
    if hostile && r.chance(1, 6) {
        c.set("forget", 1024);
    }
    if r.chance(7, 8) {
        c.set("init_bits", r.range(1, 9));
    }
    if r.chance(1, 2) {
        c.set("max_bits", r.range(1, 9));
    }
}

pub fn swarm(id: &str, world: &str, r: &mut Rng) -> Cfg {
    let mut c = Cfg::default();
    c.set("lay", r.next() >> 12);
    memo_faults(&mut c, r, id == "C05" || id == "C18");
    if r.chance(1, 4) {
        c.set("names", r.below(10));
    }
    let len = *r.pick(&[20u64, 40, 60, 80, 120, 200]);
    c.set("steps", len);
    c.set("cap", r.range(4, 20));
    let gc = *r.pick(&[0u64, 1, 3, 8, 25]);
    c.set("w_gc", if id == "C04" { gc.max(4) } else { gc });
    c.set("w_clear", *r.pick(&[0u64, 0, 1, 4, 12]));
    c.set("w_burst", *r.pick(&[0u64, 1, 3]));
    if id == "C18" {
        c.set("w_cut", *r.pick(&[4u64, 10, 30, 60]));
        c.set("w_bad", *r.pick(&[0u64, 2, 6]));
    } else if r.chance(1, 6) && !world.starts_with("twin") {
        c.set("w_cut", 2);
    }
    let dotty = id == "C19";
    c.set("w_dot", if dotty { 15 } else { 0 });
    c.set("w_dotbad", if dotty { 6 } else { 0 });
    let kind = world.split('-').next().unwrap();
    match kind {
        "core" | "twin" => {
            let binary = world.ends_with("bdd") || world.ends_with("zdd");
            c.set("nvars", if binary { r.range(1, 7) } else { r.range(1, 5) });
            c.set("maxdim", *r.pick(&[2u64, 3, 3, 4, 5]));
            c.set("v0", r.range(1, 4));
            c.set("gap", *r.pick(&[0u64, 0, 1, 3]));
            if r.chance(1, 2) {
                c.set("mask", r.next() & r.next() & ((1 << 60) - 1) | r.next() & r.next() & 0xfff);
            }
            c.set("wild", r.chance(1, 3) as u64);
            let boolean = matches!(world, "twin-bdd" | "twin-mdd" | "twin-mt2" | "twin-zdd" | "core-zdd");
            c.set("undet", (!boolean && r.chance(1, 2)) as u64);
            if r.chance(1, 8) && !world.ends_with("zdd") && !world.ends_with("zm") {
                c.set("sampled", 48);
                c.set("nvars", r.range(8, 16));
                c.set("v0", r.range(4, 12));
                c.set("undet", 0);
            }
        }
        "bss" | "zdd" | "mss" => {
            c.set("zcap", r.range(3, 12));
            c.set("v0", r.range(1, 4));
            c.set("nvars", if world == "mss" { r.range(1, 5) } else { r.range(1, 8) });
            c.set("maxdim", *r.pick(&[2u64, 3, 3, 4, 5]));
            c.set("wild", r.chance(1, 5) as u64);
            c.set("undet", r.chance(1, 4) as u64);
            // automatic collection: from every operation to never
            c.set("thr", *r.pick(&[1u64, 4, 16, 64, 200]));
            if r.chance(3, 4) {
                c.set("thr0", *r.pick(&[1u64, 4, 8, 16, 32, 64, 128, 256]));
            }
            c.set("w_thr", *r.pick(&[0u64, 0, 1, 3]));
            let (mut prob, mut enm, mut min, mut z, mut rpn, mut bad, mut meta, dot) = (1, 1, 2, 3, 2, 1, 1, 0);
            let mut dot = dot;
            match id {
                "C06" => z = 30,
                "C10" => {
                    z = 40;
                    min = 25;
                }
                "C11" | "C12" => {
                    min = 30;
                    z = 15;
                }
                "C13" | "C14" | "C23" => prob = 40,
                "C15" | "C16" => {
                    enm = 20;
                    z = 15;
                    min = 8;
                }
                "C17" => {
                    rpn = 40;
                    bad = 25;
                }
                "C19" => {
                    dot = 20;
                    z = 20;
                    min = 8;
                }
                "C20" => meta = 20,
                "C18" => {
                    z = 15;
                    min = 8;
                    enm = 6;
                    prob = 10;
                    bad = 4;
                    rpn = rpn.max(4);
                }
                "C02" | "C03" | "C04" => {
                    z = 15;
                    min = 8;
                    enm = 3;
                    prob = 2;
                    bad = 2;
                }
                _ => {}
            }
            c.set("w_prob", prob);
            c.set("w_enum", enm);
            c.set("w_min", min);
            c.set("w_z", z);
            c.set("w_rpn", rpn);
            c.set("w_rpnbad", bad);
            c.set("w_meta", meta);
            c.set("w_dot", dot);
            if world == "bss" && r.chance(1, 10) && !matches!(id, "C11" | "C13" | "C15" | "C23") {
                c.set("sampled", 48);
                c.set("nvars", r.range(9, 20));
                c.set("v0", r.range(4, 12));
            }
        }
        "cache" => {
            c.set("keys", *r.pick(&[4u64, 16, 64, 256, 2000]));
            c.set("steps", *r.pick(&[100u64, 400, 1000]));
            c.set("forget", 0);
            c.set("lose", 0);
        }
        "multi" => {
            c.set("steps", *r.pick(&[60u64, 120, 200]));
            c.set("forget", 0);
            c.set("lose", 0);
            c.set("thr0", *r.pick(&[8u64, 32, 128]));
        }
        "floor" => {
            c.set("steps", r.range(20, 60));
            c.set("cap", r.range(2, 6));
            c.set("bn", r.range(20, 26));
            c.set("mn", 9);
            for k in ["forget", "lose", "init_bits", "max_bits", "w_cut", "names"] {
                c.set(k, 0);
            }
        }
        "wide" => {
            c.set("steps", r.range(1, 3));
            let d = *r.pick(&[3u64, 4, 6, 8]);
            c.set("d", d);
            c.set("n", if world == "wide-bdd" || world == "wide-zdd" { r.range(30, 90) } else { r.range(14, 44) });
            c.set("target", r.range(4000, if d > 4 { 22000 } else { 30000 }));
            for k in ["forget", "lose", "init_bits", "max_bits", "w_cut", "names"] {
                c.set(k, 0);
            }
        }
        "mass" => {
            c.set("steps", r.range(4, 14));
            c.set("n", r.range(3, 10));
            c.set("d", *r.pick(&[2u64, 3, 4, 6]));
            c.set("spread", *r.pick(&[3u64, 20, 500, 40000]));
            c.set("cap", *r.pick(&[300u64, 3000, 3000, 12000, 12000, 40000, 150000]));
            for k in ["forget", "lose", "init_bits", "max_bits", "w_cut", "names"] {
                c.set(k, 0);
            }
        }
        "tall" => {
            c.set("steps", r.range(5, 14));
            let big = r.chance(1, 25);
            c.set("n", if big { 66000 } else { *r.pick(&[60u64, 70, 200, 260, 300, 600, 1100, 4200]) });
            if r.chance(1, 2) {
                c.set("fan", if r.chance(1, 8) { 66000 } else { *r.pick(&[127u64, 129, 255, 256, 257, 300, 600, 1100]) });
                c.set("mn", r.below(3));
            } else {
                c.set("mn", *r.pick(&[60u64, 130, 257, 300, 600, 1100, 4200]));
            }
            if r.chance(1, 2) {
                c.set("thr0", *r.pick(&[64u64, 1000, 20000]));
            }
            for k in ["init_bits", "max_bits", "w_cut", "forget", "lose"] {
                c.set(k, 0);
            }
        }
        "work" => {
            c.set("steps", r.range(10, 60));
            c.set("cap", 6);
            c.set("big", r.chance(1, 5) as u64);
            c.set("bn", r.range(28, 40));
            c.set("mn", r.range(26, 32));
            c.set("zn", r.range(26, 34));
            if r.chance(1, 2) {
                c.set("thr0", *r.pick(&[64u64, 500, 3000]));
            }
            // the budget is stated for the shipped memo tables
            for k in ["forget", "lose", "init_bits", "max_bits", "w_cut", "names"] {
                c.set(k, 0);
            }
        }
        "large" => {
            c.set("steps", r.range(6, 40));
            c.set("cap", 8);
            c.set("bn", r.range(6, 60));
            c.set("mn", r.range(2, 12));
            c.set("md", *r.pick(&[2u64, 3, 5, 8, 40]));
            c.set("zn", r.range(4, 30));
            if r.chance(2, 3) {
                c.set("thr0", *r.pick(&[64u64, 500, 3000, 20000]));
            }
            c.set("forget", *r.pick(&[0u64, 0, 0, 4, 16]));
            c.set("lose", *r.pick(&[0u64, 0, 0, 4, 16]));
            c.set("max_bits", 0);
            // A lossy direct-mapped memo table near its growth threshold misses up to
            // ~40 % of lookups; with wide nodes (branching x miss rate > 1) that makes
            // recursion exponential, so tiny tables are only simulated on narrow nodes.
            if r.chance(1, 2) || c.get("md") > 3 {
                c.set("init_bits", 0);
            }
        }
        _ => {}
    }
    c
}

pub const PROPS: &[Prop] = &[
    Prop { id: "C01", oracles: FUNC, worlds: &[("core-bdd", 500), ("bss", 500), ("large", 5), ("tall", 1)], quick: 400000, thorough: 12000000 },
    Prop {
        id: "C02",
        oracles: CANON,
        worlds: &[("core-bdd", 400), ("core-zdd", 400), ("core-mdd", 400), ("core-mt", 400), ("core-mt2", 400), ("core-zm", 400), ("bss", 600), ("mss", 600), ("zdd", 200), ("large", 40), ("tall", 6), ("mass-bdd", 2), ("mass-zdd", 2), ("mass-mdd", 2), ("mass-mt", 2), ("mass-mt2", 2), ("mass-zm", 2)],
        quick: 160000,
        thorough: 9600000,
    },
    Prop { id: "C03", oracles: 0, worlds: &[("bss", 1600), ("mss", 1600), ("zdd", 800), ("core-zm", 400), ("core-mt2", 400), ("floor", 3), ("large", 20), ("tall", 4), ("mass-bdd", 2), ("mass-zdd", 2), ("mass-mdd", 2), ("mass-mt", 2), ("mass-mt2", 2), ("mass-zm", 2)], quick: 280000, thorough: 8400000 },
    Prop {
        id: "C04",
        oracles: GC,
        worlds: &[("core-bdd", 460), ("core-zdd", 460), ("core-mdd", 460), ("core-mt", 460), ("core-mt2", 460), ("core-zm", 460), ("bss", 920), ("mss", 920), ("zdd", 460), ("floor", 3), ("mass-bdd", 5), ("mass-zdd", 5), ("mass-mdd", 5), ("mass-mt", 5), ("mass-mt2", 5), ("mass-zm", 5)],
        quick: 110000,
        thorough: 6600000,
    },
    Prop {
        id: "C05",
        oracles: FUNC | LOSS,
        worlds: &[("twin-bdd", 2), ("twin-zdd", 2), ("twin-mdd", 2), ("twin-mt", 2), ("twin-mt2", 2), ("twin-zm", 2), ("cache", 3), ("bss", 1), ("mss", 1), ("zdd", 1)],
        quick: 120000,
        thorough: 7200000,
    },
    Prop { id: "C06", oracles: FUNC, worlds: &[("core-zdd", 500), ("zdd", 400), ("bss", 100), ("large", 5), ("tall", 1)], quick: 400000, thorough: 12000000 },
    Prop { id: "C07", oracles: FUNC, worlds: &[("core-mdd", 1000), ("large", 5), ("tall", 1)], quick: 440000, thorough: 13200000 },
    Prop { id: "C08", oracles: FUNC, worlds: &[("core-mt", 700), ("core-mt2", 200), ("mss", 200), ("large", 6), ("tall", 1)], quick: 300000, thorough: 9000000 },
    Prop { id: "C09", oracles: FUNC, worlds: &[("core-mt2", 600), ("mss", 400), ("large", 6), ("tall", 1)], quick: 280000, thorough: 8400000 },
    Prop { id: "C10", oracles: FUNC | ENUM | MINSOL, worlds: &[("core-zm", 600), ("mss", 400), ("large", 6), ("tall", 1)], quick: 300000, thorough: 9000000 },
    Prop { id: "C11", oracles: MINSOL, worlds: &[("bss", 1000), ("large", 8), ("tall", 1)], quick: 240000, thorough: 7200000 },
    Prop { id: "C12", oracles: MINSOL, worlds: &[("mss", 1000), ("large", 12), ("tall", 2)], quick: 180000, thorough: 5400000 },
    Prop { id: "C13", oracles: PROB, worlds: &[("bss", 1000), ("large", 8), ("tall", 2)], quick: 280000, thorough: 8400000 },
    Prop { id: "C14", oracles: PROB, worlds: &[("mss", 1000), ("large", 8), ("tall", 2)], quick: 220000, thorough: 6600000 },
    Prop { id: "C15", oracles: ENUM, worlds: &[("bss", 600), ("zdd", 400), ("large", 5), ("tall", 2)], quick: 400000, thorough: 12000000 },
    Prop { id: "C16", oracles: ENUM, worlds: &[("mss", 1000), ("large", 6), ("tall", 3)], quick: 270000, thorough: 8400000 },
    Prop { id: "C17", oracles: RPN, worlds: &[("bss", 500), ("mss", 500), ("large", 3), ("tall", 2)], quick: 120000, thorough: 3600000 },
    Prop {
        id: "C18",
        oracles: FUNC | CANON | GC,
        worlds: &[("core-bdd", 2), ("core-zdd", 2), ("core-mdd", 2), ("core-mt", 2), ("core-mt2", 2), ("core-zm", 2), ("bss", 4), ("mss", 4), ("zdd", 1)],
        quick: 100000,
        thorough: 6000000,
    },
    Prop {
        id: "C19",
        oracles: DOT,
        worlds: &[("core-bdd", 200), ("core-zdd", 200), ("core-mdd", 200), ("core-mt", 200), ("core-mt2", 200), ("core-zm", 200), ("bss", 200), ("mss", 200), ("zdd", 100), ("large", 20), ("tall", 4)],
        quick: 100000,
        thorough: 6000000,
    },
    Prop { id: "C20", oracles: META, worlds: &[("multi", 400), ("bss", 300), ("mss", 300), ("zdd", 100), ("tall", 3)], quick: 100000, thorough: 3000000 },
    Prop { id: "C21", oracles: FUNC | CANON | ENUM | PROB | MINSOL | META, worlds: &[("large", 12), ("tall", 3), ("mass-bdd", 1), ("mass-zdd", 1), ("mass-mdd", 1), ("mass-mt", 1), ("mass-mt2", 1), ("mass-zm", 1), ("wide-bdd", 1), ("wide-zdd", 1), ("wide-mdd", 1), ("wide-mt", 1), ("wide-mt2", 1), ("wide-zm", 1)], quick: 8100, thorough: 144000 },
    Prop { id: "C22", oracles: 0, worlds: &[("work", 24), ("wide-bdd", 1), ("wide-zdd", 1), ("wide-mdd", 1), ("wide-mt", 1), ("wide-mt2", 1), ("wide-zm", 1)], quick: 20000, thorough: 600000 },
    Prop { id: "C23", oracles: INTERVAL, worlds: &[("bss", 1000), ("mss", 1000)], quick: 240000, thorough: 7200000 },
];
