mod basis_util;
mod engine;
mod isolate;
mod optim_util;
mod props;
mod util;

use engine::*;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::process::{exit, Command};
use std::time::{Duration, Instant};

struct Args {
    property: String,
    thorough: bool,
    evidence: PathBuf,
    replay: PathBuf,
    known: PathBuf,
    child: bool,
    triage: Option<(usize, Vec<u32>)>,
}

fn parse() -> Args {
    let mut a = Args {
        property: String::new(),
        thorough: std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"),
        evidence: PathBuf::from("evidence.json"),
        replay: PathBuf::from("replay.txt"),
        known: PathBuf::from("known-findings.txt"),
        child: false,
        triage: None,
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut val = || it.next().unwrap_or_else(|| usage());
        match x.as_str() {
            "--tier" => a.thorough = val() == "thorough",
            "--evidence" => a.evidence = val().into(),
            "--replay" => a.replay = val().into(),
            "--known" => a.known = val().into(),
            "--child" => a.child = true,
            "--triage" => {
                let v = val();
                let (s, p) = v.split_once(':').unwrap();
                a.triage = Some((
                    s.parse().unwrap(),
                    p.split(',').filter_map(|c| c.parse().ok()).collect(),
                ));
            }
            _ if !x.starts_with('-') && a.property.is_empty() => a.property = x,
            _ => usage(),
        }
    }
    if a.property.is_empty() {
        usage()
    }
    a
}

fn usage() -> ! {
    eprintln!("usage: mc <property> [--tier quick|thorough] [--evidence F] [--replay F] [--known F]\n       mc replay <file>");
    exit(2)
}

fn slots_path(a: &Args) -> PathBuf {
    let mut p = a.replay.clone().into_os_string();
    p.push(".slots");
    p.into()
}

/// Keys listed as known findings of a property.
fn known_keys(path: &Path, property: &str) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for line in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let line = line.trim();
        if let Some(rest) = line.strip_prefix("known: property=") {
            let mut it = rest.splitn(3, ' ');
            let p = it.next().unwrap_or("");
            let k = it.next().unwrap_or("");
            if p == property {
                if let Some(k) = k.strip_prefix("key=") {
                    out.insert(k.to_string());
                }
            }
        }
    }
    out
}

fn replay_text(a_prop: &str, thorough: bool, sc: &str, v: &Violation, log: &[String], note: &str) -> String {
    format!(
        "property: {}\ntier: {}\nscenario: {}\nchoices: {}\nmessage: {}\nnote: {}\nlog:\n{}\n",
        a_prop,
        if thorough { "thorough" } else { "quick" },
        sc,
        v.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","),
        v.message.replace('\n', " "),
        note,
        log.iter().map(|l| format!("  {}", l)).collect::<Vec<_>>().join("\n")
    )
}

fn do_replay(file: &str) -> ! {
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| {
        eprintln!("cannot read {}: {}", file, e);
        exit(2)
    });
    let get = |k: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(k))
            .map(|s| s.trim().to_string())
            .unwrap_or_default()
    };
    let (prop, thorough) = (get("property:"), get("tier:") == "thorough");
    let choices: Vec<u32> = get("choices:").split(',').filter_map(|c| c.parse().ok()).collect();
    let scs = match props::scenarios(&prop, thorough) {
        Some(s) => s,
        None => {
            eprintln!("unknown property {}", prop);
            exit(2)
        }
    };
    let name = get("scenario:");
    let sc = match scs.iter().find(|s| s.name == name) {
        Some(s) => s,
        None => {
            eprintln!("unknown scenario {}", name);
            exit(2)
        }
    };
    let mut st = Stats::default();
    println!("replaying {} / {} choices={:?}", prop, name, choices);
    let r = run_once(sc, &choices, &mut st, true, thorough);
    for l in &r.log {
        println!("  {}", l);
    }
    for (k, (n, d)) in &st.known {
        println!("known deviation {} x{}: {}", k, n, d);
    }
    match r.result {
        Ok(()) if st.known.is_empty() => {
            println!("HELD: the property holds on this execution");
            exit(0)
        }
        Ok(()) => exit(0),
        Err(m) => {
            println!("VIOLATED: {}", m);
            exit(1)
        }
    }
}

fn report_violation(a: &Args, sc_name: &str, v: &Violation, log: &[String], note: &str) {
    write_file(&a.replay, &replay_text(&a.property, a.thorough, sc_name, v, log, note));
    println!("scenario: {}", sc_name);
    println!("choices: {:?}", v.choices);
    for l in log.iter().take(40) {
        println!("  {}", l);
    }
    println!("{}", v.message);
    println!("VIOLATION property={} replay={}", a.property, a.replay.display());
}

fn evidence_json(a: &Args, e: Option<&Exploration>, scs: &[Scenario], wall: f64, violations: usize, msg: &str, known: usize) -> String {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let mut s = String::from("{\n");
    s += &format!("  \"property\": {},\n", jstr(&a.property));
    s += &format!("  \"tier\": {},\n", jstr(if a.thorough { "thorough" } else { "quick" }));
    s += &format!("  \"seed\": {},\n  \"level\": {},\n", seed, jstr(props::level(&a.property)));
    s += "  \"coverage\": {\n";
    if let Some(e) = e {
        let st = &e.stats;
        s += &format!("    \"states\": {},\n", st.states.len());
        s += &format!("    \"transitions\": {},\n", st.transitions);
        s += &format!("    \"traces_validated_against_impl\": {},\n", st.executions);
        s += &format!(
            "    \"rule\": {},\n",
            jstr("every choice sequence of every scenario is one execution (trace) of the real library; states = distinct observable states (denotation of a value, weights reached, or projection of an input) recorded in them; transitions = library operations executed")
        );
        s += &format!("    \"choice_points\": {},\n", st.choice_points);
        s += &format!("    \"max_choice_depth\": {},\n", st.max_depth);
        s += &format!("    \"scenarios\": {},\n", scs.len());
        s += &format!("    \"work_items\": {},\n", e.items);
        s += &format!("    \"exhaustive\": {},\n", !e.capped && e.violation.is_none());
        s += &format!("    \"known_finding_hits\": {},\n", known);
        s += "    \"witnesses\": {";
        s += &st.witness.iter().map(|(k, n)| format!("{}: {}", jstr(k), n)).collect::<Vec<_>>().join(", ");
        s += "},\n";
        let names: Vec<String> = scs.iter().take(60).map(|x| jstr(&x.name)).collect();
        s += &format!("    \"scenario_names\": [{}],\n", names.join(", "));
        s += &format!(
            "    \"samples\": [{}],\n",
            st.samples.iter().map(|x| jstr(&x.chars().take(900).collect::<String>())).collect::<Vec<_>>().join(", ")
        );
    } else {
        s += "    \"states\": 0, \"transitions\": 0, \"traces_validated_against_impl\": 0, \"samples\": [],\n";
    }
    s += &format!("    \"explanation\": {}\n  }},\n", jstr(&format!("{}{}", props::bounds(&a.property), msg)));
    s += &format!(
        "  \"assumptions\": [{}],\n",
        ["the reference model in harness/src states the property correctly",
         "values outside the enumerated alphabets and sizes beyond the bounds behave like those inside",
         "floating-point agreement is judged within a relative tolerance"].iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", ")
    );
    s += &format!("  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n", wall, violations);
    s
}

fn main() {
    let argv: Vec<String> = std::env::args().collect();
    if argv.get(1).map_or(false, |x| x == "replay") {
        install_panic_hook();
        do_replay(argv.get(2).map(|s| s.as_str()).unwrap_or_else(|| usage()));
    }
    let a = parse();
    if let Some((s, p)) = &a.triage {
        install_panic_hook();
        let scs = props::scenarios(&a.property, a.thorough).unwrap();
        explore_item_recording(&scs, *s, p, &slots_path(&a), a.thorough);
        exit(0);
    }
    if a.child {
        child(&a);
    }
    parent(&a)
}

/// Supervise the exploring process, so that memory corruption or an abort in
/// the library under test becomes a replayable verdict rather than a dead check.
fn parent(a: &Args) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let started = Instant::now();
    let _ = std::fs::remove_file(&a.replay);
    let exe = std::env::current_exe().expect("exe");
    let args: Vec<String> = std::env::args().skip(1).collect();
    let st = Command::new(&exe).args(&args).arg("--child").status().expect("spawn");
    let slots = slots_path(a);
    let code = match (st.code(), st.signal()) {
        (Some(c), _) => c,
        (None, Some(sig)) if [4, 6, 7, 8, 11].contains(&sig) => {
            // SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV inside the library.
            let scs = props::scenarios(&a.property, a.thorough).unwrap_or_default();
            let mut found = false;
            for (s, p) in read_slots(&slots) {
                let tri = format!("{}:{}", s, p.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","));
                let r = Command::new(&exe).args(&args).arg("--triage").arg(&tri).status();
                if let Ok(r) = r {
                    if let Some(sig2) = r.signal() {
                        if [4, 6, 7, 8, 11].contains(&sig2) && s < scs.len() {
                            let (s2, p2) = read_slots(&slots).into_iter().next().unwrap_or((s, p.clone()));
                            let v = Violation {
                                scenario: s2,
                                choices: p2,
                                message: format!("the library crashed the process with signal {} (memory corruption or abort)", sig2),
                            };
                            report_violation(a, &scs[s2].name, &v, &[], "replaying this file crashes the replaying process");
                            let ev = evidence_json(a, None, &scs, started.elapsed().as_secs_f64(), 1, &format!(" VIOLATION: {}", v.message), 0);
                            write_file(&a.evidence, &ev);
                            found = true;
                            break;
                        }
                    }
                }
            }
            if found {
                1
            } else {
                eprintln!("explorer died with signal {} and no crashing execution was isolated", sig);
                2
            }
        }
        (None, s) => {
            eprintln!("explorer ended by signal {:?}", s);
            2
        }
    };
    let _ = std::fs::remove_file(&slots);
    exit(code)
}

fn child(a: &Args) -> ! {
    install_panic_hook();
    let started = Instant::now();
    let scs = match std::panic::catch_unwind(|| props::scenarios(&a.property, a.thorough)) {
        Ok(Some(s)) => s,
        Ok(None) => {
            eprintln!("unknown property {}", a.property);
            exit(2)
        }
        Err(_) => {
            // Nothing but constructors of the library runs here.
            let v = Violation { scenario: 0, choices: vec![], message: format!("setting up the scenarios panicked: {}", last_panic()) };
            report_violation(a, "(setting up the scenarios)", &v, &[], "this happens before any choice is made");
            write_file(&a.evidence, &evidence_json(a, None, &[], started.elapsed().as_secs_f64(), 1, &format!(" VIOLATION: {}", v.message), 0));
            exit(1)
        }
    };
    {
        let mut names = BTreeSet::new();
        for s in &scs {
            if !names.insert(s.name.clone()) {
                eprintln!("duplicate scenario name {}", s.name);
                exit(2)
            }
        }
    }
    let known = known_keys(&a.known, &a.property);
    let (prop, thorough, replay, evidence) = (a.property.clone(), a.thorough, a.replay.clone(), a.evidence.clone());
    let names: Vec<String> = scs.iter().map(|s| s.name.clone()).collect();
    let opt = Options {
        thorough: a.thorough,
        threads: std::thread::available_parallelism().map_or(4, |n| n.get()).min(16),
        wall_cap: Duration::from_secs(if a.thorough { 3600 } else { 420 }),
        exec_cap: Duration::from_secs(150),
        slots: Some(slots_path(a)),
        on_hang: Some(Box::new(move |v| {
            let b = Args {
                property: prop.clone(),
                thorough,
                evidence: evidence.clone(),
                replay: replay.clone(),
                known: PathBuf::new(),
                child: true,
                triage: None,
            };
            report_violation(&b, &names[v.scenario], v, &[], "replaying this file does not terminate");
            let ev = evidence_json(&b, None, &[], started.elapsed().as_secs_f64(), 1, &format!(" VIOLATION: {}", v.message), 0);
            write_file(&b.evidence, &ev);
            exit(1)
        })),
    };
    let e = explore(&scs, &opt);
    let wall = started.elapsed().as_secs_f64();
    let mut violations = 0;
    let mut hits = 0;
    let mut msg = String::new();
    if let Some(v) = &e.violation {
        if v.message.starts_with("DIVERGED") {
            eprintln!("{} in {} choices={:?}", v.message, scs[v.scenario].name, v.choices);
            exit(2);
        }
        // Re-execute the same choices with a log; say how often it fails.
        let mut st = Stats::default();
        let (mut fails, mut log) = (0, vec![]);
        const N: usize = 20;
        for _ in 0..N {
            let r = run_once(&scs[v.scenario], &v.choices, &mut st, true, a.thorough);
            if r.result.is_err() {
                if fails == 0 {
                    log = r.log;
                }
                fails += 1;
            }
        }
        let note = format!("re-executing this choice sequence {} times failed {} times", N, fails);
        report_violation(a, &scs[v.scenario].name, v, &log, &note);
        msg = format!(" VIOLATION: {}", v.message);
        violations += 1;
    } else {
        for (k, (n, d)) in &e.stats.known {
            if known.contains(k) {
                println!("KNOWN-FINDING: property={} {}: {} ({} executions)", a.property, k, d, n);
                hits += *n as usize;
            } else {
                violations += 1;
                msg = format!(" VIOLATION: {}: {}", k, d);
                write_file(&a.replay, &format!("property: {}\nkey: {}\nmessage: {}\n", a.property, k, d));
                println!("{}: {}", k, d);
                println!("VIOLATION property={} replay={}", a.property, a.replay.display());
                break;
            }
        }
    }
    write_file(&a.evidence, &evidence_json(a, Some(&e), &scs, wall, violations, &msg, hits));
    let st = &e.stats;
    println!(
        "{}: scenarios={} executions={} transitions={} states={} max-choices={} {} {:.1}s",
        a.property,
        scs.len(),
        st.executions,
        st.transitions,
        st.states.len(),
        st.max_depth,
        if e.capped { "CAPPED" } else { "complete" },
        wall
    );
    if !st.witness.is_empty() {
        println!("  witnesses: {:?}", st.witness);
    }
    exit(if violations > 0 { 1 } else { 0 })
}
