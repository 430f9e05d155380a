//! One check: workers in parallel processes, aggregation, evidence, verdict.
use crate::core::*;
use crate::props::*;
use crate::run::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Read};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

const HANG: Duration = Duration::from_secs(150);

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

fn jmap(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, n)| format!("\"{}\": {}", esc(k), n)).collect();
    format!("{{{}}}", v.join(", "))
}

fn add(m: &mut BTreeMap<String, u64>, rest: &str) {
    for kv in rest.split_whitespace() {
        if let Some((k, v)) = kv.split_once('=') {
            *m.entry(k.into()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
        }
    }
}

pub const DIED: &str = "the process was ended by the operation (abort or stack exhaustion)";

/// Runs a plan in its own process; says what happened if it does not pass.
pub fn run_outside(p: &Plan, limit: Duration) -> Option<String> {
    let path = std::env::temp_dir().join(format!("sim-exec-{}.replay", std::process::id()));
    if std::fs::write(&path, to_text(p, "", None)).is_err() {
        return None;
    }
    let exe = std::env::current_exe().unwrap();
    let bad = match Command::new(exe).arg("exec").arg(&path).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
        Err(_) => None,
        Ok(mut c) => {
            let t0 = Instant::now();
            loop {
                match c.try_wait() {
                    Ok(Some(s)) if s.success() => break None,
                    Ok(Some(_)) => {
                        let mut o = String::new();
                        let _ = c.stdout.take().unwrap().read_to_string(&mut o);
                        let w = o.lines().find_map(|l| l.strip_prefix("W ")).unwrap_or(DIED);
                        break Some(w.to_string());
                    }
                    Ok(None) if t0.elapsed() > limit => {
                        let _ = c.kill();
                        let _ = c.wait();
                        break Some(format!("no progress for {} s", HANG.as_secs()));
                    }
                    Ok(None) => std::thread::sleep(Duration::from_millis(3)),
                    Err(_) => break None,
                }
            }
        }
    };
    let _ = std::fs::remove_file(&path);
    bad
}

fn fails_outside(p: &Plan, limit: Duration) -> bool {
    run_outside(p, limit).is_some()
}

/// Lines `KNOWN-FINDING property=<id> match=<text>` suppress exactly that message.
fn known(id: &str) -> Vec<String> {
    let f = std::fs::read_to_string("/verif/known_findings.txt").unwrap_or_default();
    f.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| l.strip_prefix(&format!("property={} ", id)))
        .map(|s| s.trim().to_string())
        .collect()
}

pub fn check(id: &str) -> i32 {
    let Some(p) = prop(id) else {
        eprintln!("unknown property {}", id);
        return 2;
    };
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let count = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.thorough } else { p.quick });
    let wall: u64 = std::env::var("SIM_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 800 } else { 240 });
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let n = std::thread::available_parallelism().map_or(8, |n| n.get()).min(8) as u64;
    let (tx, rx) = mpsc::channel::<(usize, Option<String>)>();
    let mut kids: Vec<Child> = vec![];
    for w in 0..n {
        let args = [id.to_string(), base.to_string(), w.to_string(), n.to_string(), count.to_string(), wall.to_string()];
        let mut c = match Command::new(&exe).arg("worker").args(&args).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
            Ok(c) => c,
            Err(e) => {
                eprintln!("cannot start a worker: {}", e);
                return 2;
            }
        };
        let out = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines().map_while(Result::ok) {
                if tx.send((w as usize, Some(l))).is_err() {
                    return;
                }
            }
            let _ = tx.send((w as usize, None));
        });
        kids.push(c);
    }
    drop(tx);

    let mut ops = BTreeMap::new();
    let mut faults = BTreeMap::new();
    let mut checks = BTreeMap::new();
    let mut worlds = BTreeMap::new();
    let mut nums: BTreeMap<String, u64> = BTreeMap::new();
    let (mut max_live, mut max_ticks) = (0, 0);
    let mut hll = Hll::new();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut runs = 0u64;
    let mut samples: Vec<(u64, String)> = vec![];
    let mut last = vec![None::<u64>; n as usize];
    let mut done = vec![false; n as usize];
    let mut open = n;
    let mut beat = vec![Instant::now(); n as usize];
    let mut failing: Vec<bool> = vec![false; n as usize];
    let mut found: Option<(String, String)> = None; // replay, message
    let mut dead: Option<(u64, String)> = None;
    while open > 0 && found.is_none() && dead.is_none() {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok((w, Some(l))) => {
                beat[w] = Instant::now();
                let (k, r) = l.split_once(' ').unwrap_or((l.as_str(), ""));
                match k {
                    "S" => last[w] = r.parse().ok(),
                    "E" => {
                        let f: Vec<&str> = r.split(' ').collect();
                        if f.len() == 3 {
                            runs += 1;
                            let d = u64::from_str_radix(f[1], 16).unwrap_or(0);
                            seen.insert(d);
                            if f[2] == "1" {
                                nontrivial.insert(d);
                                if samples.len() < 3 {
                                    samples.push((f[0].parse().unwrap_or(0), f[1].to_string()));
                                }
                            }
                        }
                    }
                    "F" => failing[w] = true,
                    "W" => {
                        if let Some(i) = last[w] {
                            dead = Some((i, r.to_string()));
                        }
                    }
                    "V" => {
                        let (path, msg) = r.split_once(' ').unwrap_or((r, ""));
                        found = Some((path.into(), msg.into()));
                    }
                    "ops" => add(&mut ops, r),
                    "faults" => add(&mut faults, r),
                    "checks" => add(&mut checks, r),
                    "worlds" => add(&mut worlds, r),
                    "nums" => {
                        let mut m = BTreeMap::new();
                        add(&mut m, r);
                        max_live = max_live.max(*m.get("max_live").unwrap_or(&0));
                        max_ticks = max_ticks.max(*m.get("max_ticks").unwrap_or(&0));
                        add(&mut nums, r);
                    }
                    "hll" => {
                        let v: Vec<u8> =
                            (0..r.len() / 2).map(|i| u8::from_str_radix(&r[2 * i..2 * i + 2], 16).unwrap_or(0)).collect();
                        if v.len() == hll.0.len() {
                            hll.merge(&Hll(v));
                        }
                    }
                    "done" => done[w] = true,
                    _ => {}
                }
            }
            Ok((w, None)) => {
                open -= 1;
                if !done[w] && found.is_none() {
                    if let Some(i) = last[w] {
                        dead = dead.or(Some((i, DIED.into())));
                    }
                }
            }
            Err(_) => {}
        }
        for w in 0..n as usize {
            if !done[w] && !failing[w] && beat[w].elapsed() > HANG {
                if let Some(i) = last[w] {
                    dead = Some((i, format!("no progress for {} s", HANG.as_secs())));
                }
            }
        }
    }
    for k in &mut kids {
        let _ = k.kill();
        let _ = k.wait();
    }
    if let Some((i, why)) = dead {
        // confirm and minimise in separate processes
        let pl = plan(p, run_seed(id, base, i));
        let limit = Duration::from_secs(if why.starts_with("no progress") { 20 } else { 60 });
        if !fails_outside(&pl, limit) && !fails_outside(&pl, limit) {
            eprintln!("a worker stopped at run {} ({}), but the run passes on its own", i, why);
            return 2;
        }
        let lim = Duration::from_secs(5);
        let small = minimise(&pl, pl.steps.len(), Duration::from_secs(60), |q| fails_outside(q, lim));
        let why = run_outside(&small, limit).unwrap_or(why);
        found = Some((write_replay(&small, &why, None), why));
    }
    let mut findings = 0;
    for k in known(id) {
        println!("KNOWN-FINDING: property={} {}", id, k);
        findings += 1;
    }
    let wall_s = t0.elapsed().as_secs_f64();
    let per_hour = |x: u64| (x as f64 * 3600.0 / wall_s.max(1e-3)) as u64;
    let mut sam = vec![];
    for (i, d) in &samples {
        let pl = plan(p, run_seed(id, base, *i));
        let head: Vec<String> = pl.steps.iter().take(6).map(|s| format!("{}:{:?}", s.op, s.a)).collect();
        sam.push(format!(
            "{{\"run\": {}, \"seed\": \"{}\", \"world\": \"{}\", \"config\": {}, \"steps\": {}, \"first_steps\": \"{}\", \"digest\": \"{}\"}}",
            i,
            pl.seed,
            pl.world,
            jmap(&pl.cfg.0),
            pl.steps.len(),
            esc(&head.join(" ")),
            d
        ));
    }
    let steps = *nums.get("steps").unwrap_or(&0);
    let events = *nums.get("events").unwrap_or(&0);
    let ev = format!(
        r#"{{
 "property": "{id}",
 "tier": "{tier}",
 "seed": {base},
 "level": "exploration",
 "coverage": {{
  "evaluations": {runs},
  "distinct_nontrivial": {nt},
  "rule": "One evaluation is one simulated run: a seed fixes world, configuration, schedule and every fault. Non-trivial: at least one injected fault or collection and more than two recorded results; distinct: different digest of the recorded history.",
  "samples": [{sam}],
  "distinct_histories": {seen},
  "distinct_states_estimate": {hll},
  "state_measure": "hash of all kept results (function table and node identity) sampled during the run, counted with a 2^12-register HyperLogLog",
  "simulated_steps": {steps},
  "recorded_results": {events},
  "simulated_time": "{time}",
  "runs_per_hour": {rph},
  "seeds_per_hour": {rph2},
  "largest_arena_live_nodes": {max_live},
  "worlds": {worlds},
  "operations": {ops},
  "faults_injected": {faults},
  "oracle_evaluations": {checks},
  "memo_seam_active": {hooked},
  "components": {{"real": ["common", "bddcore", "mddcore", "bss", "mss (all public layers, unmodified code paths)"], "simulated": ["the user's program (scheduler of operations, drops, collections)", "the user's value and probability number types", "the writer DOT output goes to", "loss and eviction in the memo tables (guarded seam)"], "stub": []}},
  "known_findings": {findings}
 }},
 "assumptions": ["the reference model (function tables over all state vectors, or sampled vectors for large spaces) is right", "single-threaded use, as the handle types enforce", "sizes and lengths within the generated bounds"],
 "wall_s": {wall_s:.3},
 "violations": {viol}
}}
"#,
        nt = nontrivial.len(),
        sam = sam.join(", "),
        seen = seen.len(),
        hll = hll.estimate(),
        time = if *nums.get("ticks").unwrap_or(&0) > 0 {
            format!(
                "virtual clock: {} executed basic blocks in measured calls, largest call {} of a budget of {} (600000000 in the wide worlds); {} scheduled steps",
                nums["ticks"],
                max_ticks,
                crate::tick::BUDGET,
                steps
            )
        } else {
            format!("the system has no clock: simulated time is the {} scheduled steps", steps)
        },
        rph = per_hour(runs),
        rph2 = per_hour(seen.len() as u64),
        worlds = jmap(&worlds),
        ops = jmap(&ops),
        faults = jmap(&faults),
        checks = jmap(&checks),
        hooked = HOOKED,
        viol = found.is_some() as u8,
    );
    let _ = std::fs::create_dir_all("/verif/evidence");
    if let Err(e) = std::fs::write(format!("/verif/evidence/{}.json", id), ev) {
        eprintln!("cannot write evidence: {}", e);
        return 2;
    }
    match found {
        Some((path, msg)) => {
            println!("{}", msg);
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
        None => {
            if runs == 0 {
                eprintln!("no run was completed");
                return 2;
            }
            println!("property {} held on {} simulated runs ({} steps, {:.1} s)", id, runs, steps, wall_s);
            0
        }
    }
}
