#[macro_use]
mod engine;
mod props;
mod util;

use engine::*;
use std::fmt::Write as _;
use std::path::PathBuf;
use std::time::{Duration, Instant};

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn choices_text(c: &[(u32, u32)]) -> String {
    c.iter().map(|(k, n)| format!("{}/{}", k, n)).collect::<Vec<_>>().join(",")
}

fn write_replay(id: &str, tier: Tier, seed: u64, task: &Task, choices: &[(u32, u32)], msg: &str, notes: &[String]) -> String {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.txt", id, tier.name(), std::process::id()));
    let mut t = String::new();
    let _ = writeln!(t, "property: {}", id);
    let _ = writeln!(t, "tier: {}", tier.name());
    let _ = writeln!(t, "seed: {}", seed);
    let _ = writeln!(t, "task: {}", task.name);
    let _ = writeln!(t, "choices: {}", choices_text(choices));
    let _ = writeln!(t, "what: {}", msg.replace('\n', " | "));
    for n in notes {
        let _ = writeln!(t, "trace: {}", n.replace('\n', " | "));
    }
    let _ = std::fs::write(&path, t);
    format!("replays/{}", path.file_name().unwrap().to_string_lossy())
}

fn known_keys(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(root().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    let mut v = Vec::new();
    for l in text.lines() {
        // known: property=C00 key=<key> <what fails>
        if let Some(r) = l.strip_prefix("known: property=") {
            let mut w = r.splitn(3, ' ');
            let p = w.next().unwrap_or("");
            let k = w.next().and_then(|k| k.strip_prefix("key=")).unwrap_or("");
            if p == id && !k.is_empty() {
                v.push((k.to_string(), w.next().unwrap_or("").to_string()));
            }
        }
    }
    v
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(id: &str, tier: Tier, seed: u64, rep: &Report, assumptions: &[&str], tasks: usize, wall: f64, bounds: &str, violations: usize) {
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut t = String::new();
    let _ = write!(
        t,
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {},\n  \"exhaustive\": {}, \"scenarios\": {},\n  \"bounds\": {},\n  \"explanation\": {},\n",
        js(id),
        js(tier.name()),
        seed,
        rep.states,
        rep.transitions,
        rep.executions,
        !rep.capped && violations == 0,
        tasks,
        js(bounds),
        js("Each trace is one complete execution of the real code under one choice sequence, compared step by step with the reference model; transitions are the distinct edges of the choice tree (cases enumerated by loops inside a scenario count once each); states are distinct hashed observations. exhaustive means that every choice tree was enumerated completely within its stated bound.")
    );
    let mut per: Vec<_> = rep.per_task.iter().collect();
    per.sort_by_key(|x| std::cmp::Reverse(x.1));
    let _ = write!(t, "  \"largest_scenarios\": [");
    for (i, (n, c)) in per.iter().take(12).enumerate() {
        let _ = write!(t, "{}{{\"scenario\": {}, \"executions\": {}}}", if i > 0 { ", " } else { "" }, js(n), c);
    }
    let _ = write!(t, "],\n  \"samples\": [");
    for (i, s) in rep.samples.iter().enumerate() {
        let _ = write!(t, "{}\n   {}", if i > 0 { "," } else { "" }, js(s));
    }
    let _ = write!(t, "\n  ]\n }},\n \"assumptions\": [");
    for (i, s) in assumptions.iter().enumerate() {
        let _ = write!(t, "{}\n  {}", if i > 0 { "," } else { "" }, js(s));
    }
    let _ = write!(t, "\n ],\n \"wall_s\": {:.3}, \"violations\": {}\n}}\n", wall, violations);
    std::fs::write(dir.join(format!("{}.json", id)), t).expect("write evidence");
}

fn check(id: &str, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let prop = match props::find(id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    let known = known_keys(id);
    let keys: Vec<String> = known.iter().map(|k| k.0.clone()).collect();
    let tasks = (prop.tasks)(tier, seed);
    {
        let mut names: Vec<&str> = tasks.iter().map(|t| t.name.as_str()).collect();
        names.sort();
        for w in names.windows(2) {
            if w[0] == w[1] {
                eprintln!("duplicate scenario name {}", w[0]);
                return 2;
            }
        }
    }
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 32);
    let idc = id.to_string();
    let _ = ON_HANG.set(Box::new(move |f, task| {
        let r = write_replay(&idc, tier, seed, task, &f.choices, &f.msg, &[]);
        let rep = Report { executions: 1, transitions: 1, states: 1, capped: true, samples: vec![f.msg.clone()], known: vec![], found: None, per_task: vec![] };
        write_evidence(&idc, tier, seed, &rep, &[], 0, t0.elapsed().as_secs_f64(), "stopped by a hanging execution", 1);
        println!("{}: {} [{}]", idc, f.msg, task.name);
        println!("VIOLATION property={} replay={}", idc, r);
    }));
    let budget = Duration::from_secs(std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(tier.pick(240, 600)));
    let mut rep = explore(&tasks, &keys, budget, threads);
    let mut code = 0;
    for (k, text) in &known {
        if rep.known.iter().any(|h| h.0 == *k) {
            println!("KNOWN-FINDING: property={} {}", id, text);
        }
    }
    if let Some(f) = rep.found.take() {
        let task = &tasks[f.task];
        let (choices, msg, notes) = shrink(task, &f, Duration::from_secs(15));
        let r = write_replay(id, tier, seed, task, &choices, &msg, &notes);
        println!("{}: [{}] {}", id, task.name, brief(&msg));
        for n in notes.iter().rev().take(30).rev() {
            println!("    {}", brief(n));
        }
        println!("VIOLATION property={} replay={}", id, r);
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(id, tier, seed, &rep, prop.assumptions, tasks.len(), wall, prop.bounds, code as usize);
    println!(
        "{} {}: {} scenarios, {} executions, {} transitions, {} states, {}, {:.1} s",
        id,
        tier.name(),
        tasks.len(),
        rep.executions,
        rep.transitions,
        rep.states,
        if code != 0 {
            "stopped at the violation"
        } else if rep.capped {
            "stopped by the time or size cap"
        } else {
            "complete within the bounds"
        },
        wall
    );
    if std::env::var("MC_VERBOSE").is_ok() {
        for (n, c) in &rep.per_task {
            println!("   {:>9} {}", c, n);
        }
        for s in &rep.samples {
            println!("   sample {}", s);
        }
    }
    code
}

fn brief(s: &str) -> String {
    if s.chars().count() <= 1200 {
        s.to_string()
    } else {
        s.chars().take(1200).collect::<String>() + " ..."
    }
}

fn replay_file(path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(&format!("{}: ", k)).map(|s| s.to_string())).unwrap_or_default();
    let tier = if get("tier") == "thorough" { Tier::Thorough } else { Tier::Quick };
    let id = get("property");
    let tasks = (props::find(&id).expect("property").tasks)(tier, get("seed").parse().unwrap_or(1));
    let name = get("task");
    let task = tasks.iter().find(|t| t.name == name).expect("scenario");
    let choices: Vec<(u32, u32)> = get("choices")
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| {
            let (a, b) = s.split_once('/').unwrap();
            (a.parse().unwrap(), b.parse().unwrap())
        })
        .collect();
    let o = replay(task, &choices);
    for n in &o.notes {
        println!("    {}", n);
    }
    match o.result {
        Ok(()) => {
            println!("{}: [{}] no violation", id, name);
            0
        }
        Err((_, m)) => {
            println!("{}: [{}] {}", id, name, m);
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
    }
}

fn main() {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() >= 4 => {
            let tier = if a[3] == "thorough" { Tier::Thorough } else { Tier::Quick };
            check(&a[2], tier, seed)
        }
        // the answer of a component to the first call in the life of a process
        Some("first") if a.len() >= 5 => {
            props::first_call(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap());
            0
        }
        Some("replay") if a.len() >= 3 => replay_file(&a[2]),
        Some("list") => {
            for p in props::ALL {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: mc check ID quick|thorough | mc replay FILE | mc list");
            2
        }
    };
    std::process::exit(code);
}
