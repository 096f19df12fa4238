#![allow(dead_code)]
mod common;
#[cfg(any(feature = "files", feature = "cli", feature = "pipe", feature = "side"))]
mod cli;
#[cfg(any(feature = "files", feature = "cli", feature = "pipe"))]
mod piped;
#[cfg(any(feature = "files", feature = "cli", feature = "pipe"))]
mod json;
mod metrics_ref;
#[cfg(any(feature = "cli", feature = "pipe"))]
mod p_cli;
#[cfg(feature = "eval")]
mod p_eval;
#[cfg(any(feature = "files", feature = "pipe"))]
mod p_files;
#[cfg(feature = "pipe")]
mod p_pipe;
#[cfg(feature = "history")]
mod p_history;
#[cfg(feature = "metrics")]
mod p_metrics;
#[cfg(feature = "relations")]
mod p_relations;
#[cfg(any(feature = "anova", feature = "cli", feature = "pipe", feature = "total"))]
mod p_anova;
#[cfg(any(feature = "randomised", feature = "symmetry"))]
mod p_randomised;
#[cfg(feature = "side")]
mod p_side;
#[cfg(feature = "store")]
mod p_store;
#[cfg(feature = "symmetry")]
mod p_symmetry;
#[cfg(feature = "total")]
mod p_total;
#[cfg(feature = "ttest")]
mod p_ttest;
#[cfg(any(feature = "ttest", feature = "anova", feature = "randomised", feature = "symmetry", feature = "total", feature = "cli", feature = "pipe"))]
mod stats_ref;
#[cfg(any(feature = "randomised", feature = "symmetry", feature = "total"))]
mod rngx;

use common::*;
use std::collections::{BTreeMap, HashSet};
use std::process::{Command, ExitStatus};
use std::time::{Duration, Instant};

/// Seconds after which a case counts as never ending.
fn hang_s() -> u64 {
    if std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough") { 900 } else { 150 }
}

fn cx(id: &str, slots: Option<SlotFile>, replay: Option<(String, u64)>) -> Cx {
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut known = vec![];
    let txt = std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    for l in txt.lines() {
        // known: property=<id> key=<key> <text>
        if let Some(r) = l.strip_prefix(&format!("known: property={id} key=")) {
            if let Some((k, t)) = r.split_once(' ') {
                known.push((k.to_string(), t.to_string()));
            }
        }
    }
    Cx {
        id: id.to_string(),
        thorough,
        seed,
        replay,
        start: Instant::now(),
        slots,
        families: vec![],
        failures: vec![],
        known_hit: vec![],
        known,
        ops: 0,
        traces: 0,
        states: HashSet::new(),
        outcomes: HashSet::new(),
        extra: BTreeMap::new(),
        samples: vec![],
        assumptions: vec![],
        bounds: vec![],
        errors: vec![],
        level: "model_checking",
        rule: String::new(),
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 16),
    }
}

fn run_property(id: &str, cx: &mut Cx) -> bool {
    match id {
        #[cfg(feature = "store")]
        "C01" => p_store::c01(cx),
        #[cfg(feature = "store")]
        "C02" => p_store::c02(cx),
        #[cfg(feature = "metrics")]
        "C03" => p_metrics::c03(cx),
        #[cfg(feature = "metrics")]
        "C04" => p_metrics::c04(cx),
        #[cfg(feature = "metrics")]
        "C05" => p_metrics::c05(cx),
        #[cfg(feature = "relations")]
        "C06" => p_relations::c06(cx),
        #[cfg(feature = "relations")]
        "C07" => p_relations::c07(cx),
        #[cfg(feature = "eval")]
        "C08" => p_eval::c08(cx),
        #[cfg(feature = "eval")]
        "C09" => p_eval::c09(cx),
        #[cfg(feature = "files")]
        "C10" => p_files::c10(cx),
        #[cfg(feature = "files")]
        "C11" => p_files::c11(cx),
        #[cfg(feature = "files")]
        "C12" => p_files::c12(cx),
        #[cfg(feature = "ttest")]
        "C13" => p_ttest::c13(cx),
        #[cfg(feature = "randomised")]
        "C14" => p_randomised::c14(cx),
        #[cfg(feature = "randomised")]
        "C15" => p_randomised::c15(cx),
        #[cfg(feature = "randomised")]
        "C16" => p_randomised::c16(cx),
        #[cfg(feature = "anova")]
        "C17" => p_anova::c17(cx),
        #[cfg(feature = "anova")]
        "C18" => p_anova::c18(cx),
        #[cfg(feature = "cli")]
        "C19" => p_cli::c19(cx),
        #[cfg(feature = "cli")]
        "C20" => p_cli::c20(cx),
        #[cfg(feature = "cli")]
        "C21" => p_cli::c21(cx),
        #[cfg(feature = "history")]
        "C22" => p_history::c22(cx),
        #[cfg(feature = "symmetry")]
        "C23" => p_symmetry::c23(cx),
        #[cfg(feature = "total")]
        "C24" => p_total::c24(cx),
        #[cfg(feature = "pipe")]
        "C25" => p_pipe::c25(cx),
        #[cfg(feature = "side")]
        "C26" => p_side::c26(cx),
        _ => return false,
    }
    true
}

fn child(id: &str, slot_path: &str, replay: Option<(String, u64)>) -> i32 {
    install_panic_hook();
    unsafe {
        let lim = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
    let slots = SlotFile::open(slot_path, false);
    let mut c = cx(id, slots, replay);
    // Watchdog: a case that runs for too long ends the process; the parent decides.
    {
        let slots = SlotFile::open(slot_path, false);
        let (start, hang_s) = (c.start, hang_s());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(1));
            let Some(s) = &slots else { continue };
            let now = start.elapsed().as_secs();
            if s.active().iter().any(|&(_, _, t)| now > t + hang_s) {
                eprintln!("a case has been running for more than {hang_s} s");
                std::process::exit(75);
            }
        });
    }
    if !run_property(id, &mut c) {
        eprintln!("unknown property {id}");
        return 2;
    }
    c.finish()
}

fn describe(st: ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    match (st.code(), st.signal()) {
        (Some(75), _) => format!("did not finish within {} s", hang_s()),
        (Some(c), _) => format!("ended with status {c}"),
        (_, Some(s)) => format!("was killed by signal {s}"),
        _ => "ended abnormally".into(),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    #[cfg(feature = "history")]
    if let Ok(l) = std::env::var("MC_ALONE") {
        std::process::exit(p_history::alone(&l));
    }
    let replay = args.iter().position(|a| a == "--replay").and_then(|p| args.get(p + 1)).and_then(|s| {
        let (f, i) = s.rsplit_once(':')?;
        Some((f.to_string(), i.parse().ok()?))
    });
    if let Ok(p) = std::env::var("MC_CHILD") {
        std::process::exit(child(&id, &p, replay));
    }
    let slot_path = std::env::temp_dir().join(format!("mc-slots-{}", std::process::id()));
    let sp = slot_path.to_string_lossy().into_owned();
    let slots = SlotFile::open(&sp, true).expect("slot file");
    let exe = std::env::current_exe().unwrap();
    let run = |replay: Option<String>| {
        let mut c = Command::new(&exe);
        c.arg(&id).env("MC_CHILD", &sp);
        if let Some(r) = replay {
            c.arg("--replay").arg(r);
        }
        c.status().expect("child")
    };
    let st = run(args.iter().position(|a| a == "--replay").and_then(|p| args.get(p + 1).cloned()));
    let code = match st.code() {
        Some(c @ 0..=2) => c,
        _ => {
            // The process died inside a case: find out which, and whether it dies again there.
            let mut verdict = 2;
            for (fam, case, _) in slots.active() {
                let st2 = run(Some(format!("{fam}:{case}")));
                if !matches!(st2.code(), Some(0..=2)) {
                    let f = Failure {
                        family: format!("{fam}"),
                        case,
                        key: "crash".into(),
                        desc: format!("the process {} in this case, and {} when the case was run alone", describe(st), describe(st2)),
                        log: String::new(),
                    };
                    println!("{}", f.desc);
                    let path = write_replay(&id, &[f]);
                    println!("VIOLATION property={id} replay={path}");
                    verdict = 1;
                    break;
                }
            }
            if verdict == 2 {
                println!("ENGINE ERROR: the checker {} and the case could not be confirmed", describe(st));
            }
            verdict
        }
    };
    let _ = std::fs::remove_file(&slot_path);
    std::process::exit(code);
}
