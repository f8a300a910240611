//! The properties: which scenarios decide each one, and how a run is reported.
use crate::engine::*;
use serde_json::{json, Value};
use std::time::{Duration, Instant};

pub mod apps;
mod body;
mod cli;
mod smoke;
mod gen;
mod life;
mod load;
mod msg;
mod paths;
mod pool;
mod srv;
mod tls;
pub mod util;

type Groups = Vec<(String, Option<Vec<String>>)>;
pub struct Prop {
    pub id: &'static str,
    /// level reported: model_checking (schedules / environment answers), exploration (inputs), fault_enumeration
    pub level: &'static str,
    pub rule: &'static str,
    pub scen: fn(&str, &str) -> Vec<Scen>,
    pub groups: fn(&str) -> Groups,
    pub assumptions: &'static [&'static str],
}
fn one_group(_: &str) -> Groups { vec![(String::new(), None)] }
const P0: Prop = Prop { id: "", level: "model_checking", rule: "", scen: |_, _| vec![], groups: one_group, assumptions: &[] };

fn props() -> Vec<Prop> {
    let mut v = vec![Prop { id: "S00", scen: |t, _| smoke::scen(t), ..P0 }, Prop { id: "CONFORM", level: "exploration", scen: |t, _| crate::conform::scen(t), ..P0 }];
    v.extend(msg::props());
    v.extend(body::props());
    v.extend(paths::props());
    v.extend(srv::props());
    v.extend(pool::props());
    v.extend(life::props());
    v.extend(load::props());
    v.extend(tls::props());
    v.extend(cli::props());
    v.extend(apps::props());
    v
}
pub fn ids() -> Vec<&'static str> { props().iter().map(|p| p.id).collect() }
fn find(id: &str) -> Option<Prop> { props().into_iter().find(|p| p.id == id) }

pub fn scenarios(id: &str, tier: &str, group: &str) -> Vec<Scen> {
    let Some(p) = find(id) else { return vec![] };
    (p.scen)(tier, group)
}

fn verif_dir() -> String { std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()) }

/// `finding: property=C01 scenario=<text> message=<text> :: description`
fn known_findings(id: &str) -> Vec<(String, String, String)> {
    let t = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS", verif_dir())).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: ")?;
            let l = l.strip_prefix(&format!("property={} ", id))?;
            let (k, d) = l.split_once(" :: ")?;
            let k = k.strip_prefix("scenario=")?;
            let (s, m) = k.split_once(" message=")?;
            Some((s.trim().to_string(), m.trim().to_string(), d.to_string()))
        })
        .collect()
}
struct Scratch(String);
impl Scratch {
    fn new() -> Scratch {
        let d = format!("/tmp/mc-{}", std::process::id());
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); }
}

pub fn check(id: &str, tier: &str, only: Option<String>) -> i32 {
    let t0 = Instant::now();
    let Some(p) = find(id) else { eprintln!("unknown property {}", id); return 2 };
    let known3 = known_findings(id);
    let known: Vec<(String, String)> = known3.iter().map(|k| (k.0.clone(), k.1.clone())).collect();
    let budget = Duration::from_secs(std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 240 } else { 3 * 3600 }));
    let scratch = Scratch::new();
    let mut tot = Report::default();
    let mut replay: Vec<Value> = vec![];
    let mut inputs_total = true;
    for (g, argv) in (p.groups)(tier) {
        let left = budget.saturating_sub(t0.elapsed());
        let mut sc = (p.scen)(tier, &g);
        if let Some(o) = &only { for s in sc.iter_mut() { if !s.name.contains(o.as_str()) { s.skip = true; } } }
        let env = Env { prop: id.into(), tier: tier.into(), argv: argv.clone(), scratch: scratch.0.clone(), group: g.clone() };
        let mut rep = explore(&env, &sc, left, &known);
        if rep.again {
            std::env::set_var("MC_TRY", "1");
            rep = explore(&env, &sc, left, &known);
        }
        for v in &rep.violations {
            replay.push(json!({"property": id, "tier": tier, "group": g, "argv": argv, "scenario": v.scen, "message": v.msg,
                "choices": v.choices, "case": v.case, "try_points": std::env::var_os("MC_TRY").is_some(), "confirmed_by_replay": v.confirmed, "log": v.log}));
        }
        tot.execs += rep.execs;
        tot.states += rep.states;
        tot.steps += rep.steps;
        tot.cases += rep.cases;
        tot.outcomes += rep.outcomes;
        tot.capped |= rep.capped;
        for s in rep.scens { tot.scens.push(s); }
        for s in rep.samples { if tot.samples.len() < 8 { tot.samples.push(s); } }
        for k in rep.known { if !tot.known.contains(&k) { tot.known.push(k); } }
        for (k, n) in rep.classes { *tot.classes.entry(k).or_insert(0) += n; }
        tot.errors.extend(rep.errors);
        tot.violations.extend(rep.violations);
        if !tot.violations.is_empty() { break; }
        let _ = &mut inputs_total;
    }
    drop(scratch);
    let (traces, conf_err, conf) = if only.is_none() && p.level == "model_checking" && tot.violations.is_empty() { crate::conform::run(tier) } else { (0, vec![], json!(null)) };
    tot.errors.extend(conf_err);
    let nontrivial: u64 = tot.classes.iter().filter(|(k, _)| !k.starts_with('-')).map(|(_, n)| *n).sum();
    let exhaustive = !tot.capped && tot.violations.is_empty() && tot.errors.is_empty();
    let mut cov = json!({"samples": tot.samples, "scenarios": tot.scens, "exhaustive": exhaustive});
    if p.level == "model_checking" {
        cov["states"] = json!(tot.states);
        cov["transitions"] = json!(tot.steps);
        cov["executions"] = json!(tot.execs);
        cov["distinct_outcomes"] = json!(tot.outcomes);
        cov["traces_validated_against_impl"] = json!(traces);
        cov["conformance"] = conf;
        if tot.cases > 0 { cov["inputs_checked"] = json!(tot.cases); }
    } else {
        // input enumerations count inputs, schedule explorations count executions
        cov["evaluations"] = json!(tot.cases + tot.states.min(tot.execs));
        cov["distinct_nontrivial"] = json!(nontrivial.min(tot.cases + tot.execs));
        cov["rule"] = json!(p.rule);
    }
    let ev = json!({"property": id, "tier": tier, "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": p.level, "coverage": cov, "assumptions": p.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": tot.violations.len(),
        "known_findings": tot.known, "errors": tot.errors});
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(format!("{}/replays", dir));
    if only.is_none() { std::fs::write(format!("{}/{}.json", dir, id), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence file"); }
    println!("{} {}: {} executions, {} states, {} steps, {} inputs, {} distinct outcomes, {} traces validated, {:.1} s{}", id, tier, tot.execs, tot.states, tot.steps, tot.cases, tot.outcomes,
        traces, t0.elapsed().as_secs_f64(), if tot.capped { " (budget reached)" } else { "" });
    if std::env::var_os("MC_SHOW").is_some() { for s in &tot.scens { println!("{}", serde_json::to_string(s).unwrap()); } }
    for k in &tot.known {
        let d = known3.iter().find(|x| *k == format!("{}: {}", x.0, x.1)).map(|x| x.2.clone()).unwrap_or(k.clone());
        println!("KNOWN-FINDING: property={} {}", id, d);
    }
    if let Some(r) = replay.first() {
        let path = format!("{}/replays/{}.json", dir, id);
        std::fs::write(&path, serde_json::to_string_pretty(r).unwrap()).expect("replay file");
        println!("scenario {}: {}", r["scenario"].as_str().unwrap(), r["message"].as_str().unwrap());
        println!("choices {}", r["choices"]);
        if let Some(l) = r["log"].as_array() { for x in l.iter().rev().take(60).rev() { println!("  {}", x.as_str().unwrap_or("")); } }
        println!("VIOLATION property={} replay={}", id, path);
        return 1;
    }
    if !tot.errors.is_empty() {
        for e in &tot.errors { println!("ERROR: {}", e); }
        return 2;
    }
    0
}

pub fn replay(file: &str) -> i32 {
    let r: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay file");
    let s = |k: &str| r[k].as_str().unwrap_or("").to_string();
    let argv: Option<Vec<String>> = r["argv"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect());
    let choices: Vec<u8> = r["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
    let scratch = Scratch::new();
    let env = Env { prop: s("property"), tier: s("tier"), argv, scratch: scratch.0.clone(), group: s("group") };
    if r["try_points"] == json!(true) { std::env::set_var("MC_TRY", "1"); }
    let sc = scenarios(&env.prop, &env.tier, &env.group);
    let Some(si) = sc.iter().position(|x| x.name == s("scenario")) else { eprintln!("no such scenario"); return 2 };
    match run_fresh(&env, si, &choices, true) {
        Err(e) => { println!("VIOLATION (process) {}", e); 1 }
        Ok(res) => {
            for l in &res.log { println!("{}", l); }
            println!("outcomes {:?}", res.outcomes);
            match res.violation { Some(v) => { println!("VIOLATION {}", v); 1 } None => { println!("no violation"); 0 } }
        }
    }
}
