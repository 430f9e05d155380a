//! Executing plans, minimising failures, replay files, the worker loop.
use crate::core::*;
use crate::props::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::time::{Duration, Instant};

pub struct Outcome {
    pub ctx: Ctx,
    pub viol: Option<Violation>,
}

/// Runs one plan from scratch; everything it does follows from the plan.
pub fn execute(plan: &Plan, trace: bool) -> Outcome {
    let oracles = prop(&plan.prop).map_or(0, |p| p.oracles);
    let mut ctx = Ctx::new(oracles);
    if trace {
        ctx.trace = Some(vec![]);
    }
    let mut viol = None;
    let world = quiet(|| std::panic::catch_unwind(|| build(plan)));
    match world {
        Err(e) => viol = Some(Violation { step: 0, msg: format!("panic while opening: {}", panic_msg(&e)) }),
        Ok(None) => viol = Some(Violation { step: 0, msg: format!("unknown world {}", plan.world) }),
        Ok(Some(mut w)) => {
            for (i, s) in plan.steps.iter().enumerate() {
                ctx.step = i;
                viol = guarded(&mut ctx, i, |c| w.step(s, c));
                if plan.prop == "C18" && unwinds() > 0 {
                    // every later operation is judged, not only the diagrams
                    ctx.oracles |= PROB | ENUM | MINSOL | RPN;
                }
                if viol.is_some() {
                    break;
                }
            }
            if viol.is_none() {
                ctx.step = plan.steps.len();
                viol = guarded(&mut ctx, plan.steps.len(), |c| w.finish(c));
            }
            let (f, l, _, _) = fault_counts();
            ctx.faults_n("memo-forced-miss", f);
            ctx.faults_n("memo-lost-store", l);
            if plan.cfg.on("init_bits") || plan.cfg.on("max_bits") {
                ctx.fault("memo-table-shrunk");
            }
            // a world left broken by a violation may panic while it is torn down
            let r = quiet(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(w))));
            if let (Err(e), None) = (r, &viol) {
                viol = Some(Violation { step: plan.steps.len(), msg: format!("panic while closing: {}", panic_msg(&e)) });
            }
        }
    }
    arm(0, 0, 0, 0, 0);
    if let Some(v) = &viol {
        let m = v.msg.clone();
        ctx.event_str(&m);
    }
    Outcome { ctx, viol }
}

fn guarded(ctx: &mut Ctx, i: usize, f: impl FnOnce(&mut Ctx) -> R) -> Option<Violation> {
    let r = quiet(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(ctx))));
    disarm_cuts();
    match r {
        Ok(Ok(())) => None,
        Ok(Err(msg)) => Some(Violation { step: i, msg }),
        Err(e) => Some(Violation { step: i, msg: format!("unexpected panic: {}", panic_msg(&e)) }),
    }
}

// ------------------------------------------------------------ minimisation
/// Shrinks a failing plan; `fails` decides whether a candidate still fails.
pub fn minimise(plan: &Plan, upto: usize, budget: Duration, mut fails: impl FnMut(&Plan) -> bool) -> Plan {
    let t0 = Instant::now();
    let mut p = plan.clone();
    p.steps.truncate(upto.saturating_add(1));
    if !fails(&p) {
        p = plan.clone();
    }
    loop {
        let before = (p.steps.len(), p.cfg.clone(), p.steps.clone());
        // steps
        let mut chunk = (p.steps.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < p.steps.len() {
                if t0.elapsed() > budget {
                    return p;
                }
                let mut q = p.clone();
                q.steps.drain(i..(i + chunk).min(p.steps.len()));
                if fails(&q) {
                    p = q;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk = (chunk / 2).max(1);
        }
        // configuration: faults and features that are not needed
        for k in ["forget", "lose", "init_bits", "max_bits", "gap", "undet", "wild", "thr0", "names"] {
            if p.cfg.on(k) {
                let mut q = p.clone();
                q.cfg.set(k, 0);
                if fails(&q) {
                    p = q;
                }
            }
        }
        for k in ["v0", "nvars", "maxdim", "cap", "zcap"] {
            while p.cfg.get(k) > 1 && t0.elapsed() < budget {
                let mut q = p.clone();
                q.cfg.set(k, p.cfg.get(k) - 1);
                if fails(&q) {
                    p = q;
                } else {
                    break;
                }
            }
        }
        // operands
        for i in 0..p.steps.len() {
            for j in 0..5 {
                for v in [0u32, 1, 2, p.steps[i].a[j] % 8, p.steps[i].a[j] % 64, p.steps[i].a[j] % 4096] {
                    if t0.elapsed() > budget {
                        return p;
                    }
                    if v < p.steps[i].a[j] {
                        let mut q = p.clone();
                        q.steps[i].a[j] = v;
                        if fails(&q) {
                            p = q;
                            break;
                        }
                    }
                }
            }
        }
        if (p.steps.len(), p.cfg.clone(), p.steps.clone()) == before {
            return p;
        }
    }
}

// ------------------------------------------------------------ replay files
pub fn to_text(p: &Plan, msg: &str, o: Option<&Outcome>) -> String {
    let mut s = String::new();
    let _ = writeln!(s, "# replay with: /verif/check.sh replay <this file>");
    let _ = writeln!(s, "prop {}\nworld {}\nseed {}\nhooked {}", p.prop, p.world, p.seed, HOOKED);
    for (k, v) in &p.cfg.0 {
        let _ = writeln!(s, "cfg {} {}", k, v);
    }
    for st in &p.steps {
        let _ = writeln!(s, "step {} {} {} {} {} {}", st.op, st.a[0], st.a[1], st.a[2], st.a[3], st.a[4]);
    }
    let _ = writeln!(s, "expect {}", msg.replace('\n', " | "));
    if let Some(o) = o {
        let _ = writeln!(s, "digest {:016x}", o.ctx.digest);
        if let Some(t) = &o.ctx.trace {
            for l in t {
                let _ = writeln!(s, "# {}", l.replace('\n', " | "));
            }
        }
        let _ = writeln!(s, "# faults: {:?}", o.ctx.faults);
    }
    s
}

pub struct Record {
    pub plan: Plan,
    pub expect: String,
    pub digest: Option<String>,
}

pub fn parse(text: &str) -> Option<Record> {
    let mut p = Plan { prop: String::new(), world: String::new(), seed: 0, cfg: Cfg::default(), steps: vec![] };
    let (mut expect, mut digest) = (String::new(), None);
    for l in text.lines() {
        let (k, r) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "prop" => p.prop = r.into(),
            "world" => p.world = r.into(),
            "seed" => p.seed = r.parse().ok()?,
            "cfg" => {
                let (k, v) = r.split_once(' ')?;
                p.cfg.set(k, v.parse().ok()?);
            }
            "step" => {
                let v: Vec<u32> = r.split(' ').map(|x| x.parse().ok()).collect::<Option<_>>()?;
                if v.len() != 6 {
                    return None;
                }
                p.steps.push(Step { op: v[0] as u16, a: [v[1], v[2], v[3], v[4], v[5]] });
            }
            "expect" => expect = r.into(),
            "digest" => digest = Some(r.into()),
            _ => {}
        }
    }
    Some(Record { plan: p, expect, digest })
}

pub fn replay(file: &str) -> i32 {
    let Some(rec) = std::fs::read_to_string(file).ok().and_then(|t| parse(&t)) else {
        eprintln!("cannot read {}", file);
        return 2;
    };
    if rec.digest.is_none() {
        // recorded from outside (the run ends or stalls its process)
        return match crate::supervise::run_outside(&rec.plan, Duration::from_secs(60)) {
            None => {
                println!("REPLAY held: the recorded violation does not occur (expected: {})", rec.expect);
                0
            }
            Some(m) => {
                println!("REPLAY {}: {}", if m == rec.expect { "reproduced exactly" } else { "violated differently" }, m);
                println!("VIOLATION property={} replay={}", rec.plan.prop, file);
                1
            }
        };
    }
    let o = execute(&rec.plan, true);
    for l in o.ctx.trace.iter().flatten() {
        println!("{}", l);
    }
    match &o.viol {
        None => {
            println!("REPLAY held: the recorded violation does not occur (expected: {})", rec.expect);
            0
        }
        Some(v) => {
            let d = format!("{:016x}", o.ctx.digest);
            let same = v.msg.replace('\n', " | ") == rec.expect && rec.digest.as_ref().map_or(true, |x| *x == d);
            println!("REPLAY {} at step {}: {} digest={}", if same { "reproduced exactly" } else { "violated differently" }, v.step, v.msg, d);
            println!("VIOLATION property={} replay={}", rec.plan.prop, file);
            1
        }
    }
}

pub fn exec(file: &str) -> i32 {
    let Some(rec) = std::fs::read_to_string(file).ok().and_then(|t| parse(&t)) else { return 2 };
    match execute(&rec.plan, false).viol {
        None => 0,
        Some(_) => 3,
    }
}

pub fn run_seed(id: &str, base: u64, idx: u64) -> u64 {
    mix(mix(base ^ hash_bytes(id.as_bytes())) ^ idx.wrapping_mul(0x9E3779B97F4A7C15))
}

pub fn one(id: &str, seed: u64) -> i32 {
    let Some(p) = prop(id) else { return 2 };
    let pl = plan(p, seed);
    println!("world {} cfg {:?} steps {}", pl.world, pl.cfg.0, pl.steps.len());
    let o = execute(&pl, true);
    for l in o.ctx.trace.iter().flatten() {
        println!("{}", l);
    }
    println!("ops {:?}\nfaults {:?}\nchecks {:?}\ndigest {:016x}", o.ctx.ops, o.ctx.faults, o.ctx.checks, o.ctx.digest);
    if let Some(v) = o.viol {
        println!("violation at step {}: {}", v.step, v.msg);
        return 1;
    }
    0
}

/// Development aid: seeds base..base+n of one world under a property's oracles.
pub fn world(id: &str, world: &str, base: u64, n: u64) -> i32 {
    let Some(p) = prop(id) else { return 2 };
    let mut code = 0;
    for seed in base..base + n {
        let mut rng = Rng::new(seed);
        let cfg = crate::props::swarm(p.id, world, &mut rng);
        let steps = crate::props::steps(world, &mut rng, &cfg);
        let pl = Plan { prop: p.id.into(), world: world.into(), seed, cfg, steps };
        let t = Instant::now();
        let o = execute(&pl, true);
        let v = o.viol.map(|v| format!("step {}: {}", v.step, v.msg));
        println!("{} {} {:.2}s {:?} {:?}", id, seed, t.elapsed().as_secs_f64(), pl.cfg.0, v);
        if v.is_some() {
            code = 1;
            for l in o.ctx.trace.iter().flatten().rev().take(3) {
                println!("{}", l);
            }
        }
    }
    code
}

pub fn digests(id: &str, base: u64, n: u64) -> i32 {
    let Some(p) = prop(id) else { return 2 };
    for i in 0..n {
        let o = execute(&plan(p, run_seed(id, base, i)), false);
        println!("{} {:016x} {} {}", i, o.ctx.digest, o.ctx.events, o.viol.is_some());
    }
    0
}

// ------------------------------------------------------------------ workers
fn map_line(tag: &str, m: &BTreeMap<&'static str, u64>) {
    let s: Vec<String> = m.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
    println!("{} {}", tag, s.join(" "));
}

/// Runs indices start, start+stride, ... below count until the deadline (s).
pub fn worker(id: &str, base: u64, start: u64, stride: u64, count: u64, deadline: u64) -> i32 {
    let Some(p) = prop(id) else { return 2 };
    let t0 = Instant::now();
    let mut ops: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut faults: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut checks: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut worlds: BTreeMap<String, u64> = BTreeMap::new();
    let (mut steps, mut events, mut max_live) = (0u64, 0u64, 0u64);
    let (mut ticks, mut max_ticks) = (0u64, 0u64);
    let mut hll = Hll::new();
    let mut idx = start;
    let stdout = std::io::stdout();
    while idx < count {
        if t0.elapsed().as_secs() >= deadline {
            break;
        }
        {
            let mut o = stdout.lock();
            let _ = writeln!(o, "S {}", idx);
            let _ = o.flush();
        }
        let pl = plan(p, run_seed(id, base, idx));
        let o = execute(&pl, false);
        if let Some(v) = &o.viol {
            return report(&pl, v, idx);
        }
        steps += pl.steps.len() as u64;
        events += o.ctx.events;
        max_live = max_live.max(o.ctx.max_live);
        ticks += o.ctx.ticks;
        max_ticks = max_ticks.max(o.ctx.max_ticks);
        *worlds.entry(pl.world.clone()).or_insert(0) += 1;
        for (k, n) in &o.ctx.ops {
            *ops.entry(k).or_insert(0) += n;
        }
        for (k, n) in &o.ctx.faults {
            *faults.entry(k).or_insert(0) += n;
        }
        for (k, n) in &o.ctx.checks {
            *checks.entry(k).or_insert(0) += n;
        }
        for h in &o.ctx.states {
            hll.add(*h);
        }
        let nf: u64 = o.ctx.faults.values().sum();
        println!("E {} {:016x} {}", idx, o.ctx.digest, (nf > 0 && o.ctx.events > 2) as u8);
        idx += stride;
    }
    map_line("ops", &ops);
    map_line("faults", &faults);
    map_line("checks", &checks);
    let w: Vec<String> = worlds.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
    println!("worlds {}", w.join(" "));
    println!("nums steps={} events={} max_live={} ticks={} max_ticks={}", steps, events, max_live, ticks, max_ticks);
    println!("hll {}", hll.0.iter().map(|x| format!("{:02x}", x)).collect::<String>());
    println!("done");
    0
}

/// Minimises a violation found in process and writes its replay file.
fn report(pl: &Plan, v: &Violation, idx: u64) -> i32 {
    println!("F {} {}", idx, v.msg.replace('\n', " | "));
    let _ = std::io::stdout().flush();
    let small = minimise(pl, v.step, Duration::from_secs(25), |q| execute(q, false).viol.is_some());
    let o = execute(&small, true);
    let (small, o) = if o.viol.is_some() { (small, o) } else { (pl.clone(), execute(pl, true)) };
    let msg = o.viol.as_ref().map_or(v.msg.clone(), |v| v.msg.clone());
    let path = write_replay(&small, &msg, Some(&o));
    println!("V {} {}", path, msg.replace('\n', " | "));
    3
}

pub fn write_replay(p: &Plan, msg: &str, o: Option<&Outcome>) -> String {
    let dir = std::env::var("SIM_REPLAYS").unwrap_or_else(|_| "/verif/replays".into());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{:016x}.replay", dir, p.prop, p.seed);
    let _ = std::fs::write(&path, to_text(p, msg, o));
    path
}
