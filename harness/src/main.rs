//! vh: generated-input search harness for the antlr-rust runtime. See /verif/DESIGN.md.
#![allow(clippy::all)]
mod atnc;
mod engine;
/// recognizers generated by the tool from the bundled grammars, compiled straight from the repository
#[allow(warnings)]
mod gen {
    #[path = "/repo/tests/gen/csvlexer.rs"]
    pub mod csvlexer;
    #[path = "/repo/tests/gen/csvlistener.rs"]
    pub mod csvlistener;
    #[path = "/repo/tests/gen/csvparser.rs"]
    pub mod csvparser;
    #[path = "/repo/tests/gen/csvvisitor.rs"]
    pub mod csvvisitor;
    #[path = "/repo/tests/gen/labelslexer.rs"]
    pub mod labelslexer;
    #[path = "/repo/tests/gen/labelslistener.rs"]
    pub mod labelslistener;
    #[path = "/repo/tests/gen/labelsparser.rs"]
    pub mod labelsparser;
    #[path = "/repo/tests/gen/referencetoatnlexer.rs"]
    pub mod referencetoatnlexer;
    #[path = "/repo/tests/gen/referencetoatnlistener.rs"]
    pub mod referencetoatnlistener;
    #[path = "/repo/tests/gen/referencetoatnparser.rs"]
    pub mod referencetoatnparser;
    #[path = "/repo/tests/gen/simplelrlexer.rs"]
    pub mod simplelrlexer;
    #[path = "/repo/tests/gen/simplelrlistener.rs"]
    pub mod simplelrlistener;
    #[path = "/repo/tests/gen/simplelrparser.rs"]
    pub mod simplelrparser;
    #[path = "/repo/tests/gen/visitorbasiclexer.rs"]
    pub mod visitorbasiclexer;
    #[path = "/repo/tests/gen/visitorbasiclistener.rs"]
    pub mod visitorbasiclistener;
    #[path = "/repo/tests/gen/visitorbasicparser.rs"]
    pub mod visitorbasicparser;
    #[path = "/repo/tests/gen/visitorbasicvisitor.rs"]
    pub mod visitorbasicvisitor;
    #[path = "/repo/tests/gen/visitorcalclexer.rs"]
    pub mod visitorcalclexer;
    #[path = "/repo/tests/gen/visitorcalclistener.rs"]
    pub mod visitorcalclistener;
    #[path = "/repo/tests/gen/visitorcalcparser.rs"]
    pub mod visitorcalcparser;
    #[path = "/repo/tests/gen/visitorcalcvisitor.rs"]
    pub mod visitorcalcvisitor;
    #[path = "/repo/tests/gen/xmllexer.rs"]
    pub mod xmllexer;
}
mod lexdrv;
mod lexg;
mod parg;
mod pardrv;
mod props;

use engine::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub f: PropFn,
    /// fixed examples, run once before the search
    pub directed: Option<fn(&mut Stats) -> Check>,
    pub quick: u64,
    pub thorough: u64,
    pub assumptions: &'static [&'static str],
}

impl Prop {
    /// worker processes; cases that start threads of their own get fewer
    fn jobs(&self) -> u64 {
        if self.id == "C11" {
            4
        } else {
            8
        }
    }
}

const CASE_CPU_LIMIT_S: f64 = 90.0;
const CASE_WALL_LIMIT_S: f64 = 240.0;

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

fn find(id: &str) -> Prop {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
            }
        }
        Some("run") => {
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let tier = a.get(3).cloned().unwrap_or(tier);
            std::process::exit(supervise(&a[2], &tier));
        }
        Some("worker") => {
            // worker <id> <shard> <nshards> <seed> <count> <dir> <max_s>
            let a2 = a.clone();
            let h = std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || worker(&a2))
                .unwrap();
            let code = match h.join() {
                Ok(c) => c,
                Err(_) => 21,
            };
            std::process::exit(code);
        }
        Some("replay") => {
            let a2 = a.clone();
            let h = std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || replay(Path::new(&a2[2])))
                .unwrap();
            std::process::exit(h.join().unwrap_or(2));
        }
        _ => {
            eprintln!("usage: vh list | run ID [tier] | replay FILE");
            std::process::exit(2)
        }
    }
}

fn case_seed(seed: u64, id: &str, k: u64) -> u64 {
    mix(mix(seed, hash_str(id)), k)
}

fn write_replay(path: &Path, id: &str, kind: &str, data: &str, msg: &str) {
    let mut s = String::new();
    let _ = writeln!(s, "property: {}", id);
    let _ = writeln!(s, "{}: {}", kind, data);
    let _ = writeln!(s, "reproduce: /verif/check.sh --replay <this file>");
    let _ = writeln!(s, "---\n{}", msg);
    let _ = std::fs::write(path, s);
}

fn replay(p: &Path) -> i32 {
    std::env::set_var("VH_REPLAY", "1");
    install_panic_hook();
    let t = match std::fs::read_to_string(p) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let get = |k: &str| t.lines().take_while(|l| *l != "---").find_map(|l| l.strip_prefix(k).map(|x| x.trim().to_string()));
    let id = get("property:").unwrap_or_default();
    let pr = find(&id);
    let mut st = Stats::default();
    if get("directed:").is_some() {
        let r = run_directed(&pr, &mut st);
        return match r {
            Outcome::Pass => {
                println!("replay: property held");
                0
            }
            Outcome::Fail(e) => {
                println!("{}\nVIOLATION property={} replay={}", e.msg, id, p.display());
                1
            }
            Outcome::HarnessError(e) => {
                println!("harness error: {}", e);
                2
            }
        };
    }
    let mut src = if let Some(c) = get("choices:") {
        Src::replay(c.split_whitespace().filter_map(|x| x.parse().ok()).collect())
    } else if let Some(c) = get("case-seed:") {
        Src::random(c.parse().unwrap_or(0))
    } else {
        return 2;
    };
    match run_one(pr.f, &mut src, &mut st) {
        Outcome::Pass => {
            println!("replay: property held");
            0
        }
        Outcome::Fail(e) => {
            println!("{}\nVIOLATION property={} replay={}", e.msg, id, p.display());
            1
        }
        Outcome::HarnessError(e) => {
            println!("harness error: {}", e);
            2
        }
    }
}

fn run_directed(p: &Prop, st: &mut Stats) -> Outcome {
    // reuse run_one's panic classification
    thread_local!(static D: std::cell::Cell<Option<fn(&mut Stats) -> Check>> = std::cell::Cell::new(None));
    fn call(_: &mut Src, st: &mut Stats) -> Check {
        let f = D.with(|d| d.get()).unwrap();
        f(st)
    }
    match p.directed {
        None => Outcome::Pass,
        Some(f) => {
            D.with(|d| d.set(Some(f)));
            run_one(call, &mut Src::random(0), st)
        }
    }
}

fn worker(a: &[String]) -> i32 {
    let id = &a[2];
    let shard: u64 = a[3].parse().unwrap();
    let n: u64 = a[4].parse().unwrap();
    let seed: u64 = a[5].parse().unwrap();
    let count: u64 = a[6].parse().unwrap();
    let dir = PathBuf::from(&a[7]);
    let max_s: f64 = a[8].parse().unwrap();
    unsafe {
        setrlimit(9 /* RLIMIT_AS */, &[8u64 << 30, 8u64 << 30]);
        setrlimit(4 /* RLIMIT_CORE */, &[0, 0]);
    }
    install_panic_hook();
    let p = find(id);
    let mut st = Stats::default();
    let t0 = Instant::now();
    let cur = std::fs::File::create(dir.join(format!("cur.{}", shard))).unwrap();
    let failf = dir.join(format!("fail.{}", shard));
    let herr = dir.join(format!("herr.{}", shard));
    let mut code = 0;
    if shard == 0 {
        let _ = cur.write_at(&u64::MAX.to_le_bytes(), 0);
        match run_directed(&p, &mut st) {
            Outcome::Pass => {}
            Outcome::Fail(e) => {
                write_replay(&failf, id, "directed", "1", &e.msg);
                code = 10;
            }
            Outcome::HarnessError(e) => {
                let _ = std::fs::write(&herr, format!("directed: {}", e));
                code = 20;
            }
        }
    }
    let mut k = shard;
    while code == 0 && k < count && t0.elapsed().as_secs_f64() < max_s {
        let _ = cur.write_at(&k.to_le_bytes(), 0);
        let mut src = Src::random(case_seed(seed, id, k));
        st.evaluations += 1;
        match run_one(p.f, &mut src, &mut st) {
            Outcome::Pass => {}
            Outcome::Fail(e) => {
                let ch: Vec<String> = src.log.iter().map(|x| x.to_string()).collect();
                write_replay(&failf, id, "choices", &ch.join(" "), &e.msg);
                let (v, e2, runs) = shrink(p.f, src.log.clone(), 20_000);
                if !e2.msg.starts_with("failure did not reproduce") {
                    let ch: Vec<String> = v.iter().map(|x| x.to_string()).collect();
                    write_replay(&failf, id, "choices", &ch.join(" "), &format!("{}\n(shrunk in {} runs from case {} of seed {})", e2.msg, runs, k, seed));
                }
                code = 10;
            }
            Outcome::HarnessError(e) => {
                let _ = std::fs::write(&herr, format!("case {}: {}", k, e));
                code = 20;
            }
        }
        k += n;
    }
    // stats
    let mut o = String::new();
    let _ = writeln!(o, "evaluations {}", st.evaluations);
    let _ = writeln!(o, "skipped {}", st.skipped);
    for (c, v) in &st.classes {
        let _ = writeln!(o, "class {} {}", v, c);
    }
    for (c, v) in &st.known {
        let _ = writeln!(o, "known {} {}", v, c);
    }
    for s in &st.samples {
        let _ = writeln!(o, "sample {}", json_str(s));
    }
    std::fs::write(dir.join(format!("stats.{}", shard)), o).unwrap();
    let mut f = std::io::BufWriter::new(std::fs::File::create(dir.join(format!("nt.{}", shard))).unwrap());
    for h in &st.nontrivial {
        let _ = f.write_all(&h.to_le_bytes());
    }
    let _ = f.flush();
    code
}

fn cpu_s(pid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let rest = match s.rfind(')') {
        Some(i) => &s[i + 1..],
        None => return 0.0,
    };
    let f: Vec<&str> = rest.split_whitespace().collect();
    let u: f64 = f.get(11).and_then(|x| x.parse().ok()).unwrap_or(0.0);
    let k: f64 = f.get(12).and_then(|x| x.parse().ok()).unwrap_or(0.0);
    (u + k) / 100.0
}

struct W {
    child: Child,
    shard: u64,
    done: Option<std::process::ExitStatus>,
    last_k: u64,
    cpu_at: f64,
    wall_at: Instant,
    fail_seen: Option<Instant>,
}

fn supervise(id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let p = find(id);
    let vd = verif_dir();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let scale: f64 = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let count = ((if tier == "quick" { p.quick } else { p.thorough }) as f64 * scale) as u64;
    let max_s = if tier == "quick" { 400.0 } else { 3600.0 * 3.0 };
    let n: u64 = std::env::var("VH_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(p.jobs());
    let dir = vd.join("work").join(format!("{}.{}", id, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut ws: Vec<W> = (0..n)
        .map(|s| W {
            child: Command::new(&exe)
                .args(["worker", id])
                .args([s.to_string(), n.to_string(), seed.to_string(), count.to_string()])
                .arg(&dir)
                .arg(max_s.to_string())
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .spawn()
                .expect("spawn worker"),
            shard: s,
            done: None,
            last_k: u64::MAX - 1,
            cpu_at: 0.0,
            wall_at: Instant::now(),
            fail_seen: None,
        })
        .collect();
    // (case, description) of a failure that has no shrunk replay
    let mut crash: Option<(u64, String)> = None;
    let mut harness: Option<String> = None;
    let mut failed: Option<PathBuf> = None;
    'mon: loop {
        let mut alive = 0;
        for w in ws.iter_mut() {
            if w.done.is_some() {
                continue;
            }
            let kf = dir.join(format!("cur.{}", w.shard));
            let k = std::fs::read(&kf).ok().filter(|b| b.len() >= 8).map(|b| u64::from_le_bytes(b[..8].try_into().unwrap()));
            match w.child.try_wait() {
                Ok(Some(s)) => {
                    w.done = Some(s);
                    match (s.code(), s.signal()) {
                        (Some(0), _) => {}
                        (Some(10), _) => {
                            failed = Some(dir.join(format!("fail.{}", w.shard)));
                            break 'mon;
                        }
                        (Some(20), _) => {
                            harness = Some(std::fs::read_to_string(dir.join(format!("herr.{}", w.shard))).unwrap_or_default());
                            break 'mon;
                        }
                        (_, Some(sig)) if sig == 11 || sig == 6 || sig == 7 || sig == 4 => {
                            crash = Some((k.unwrap_or(0), format!("the process was ended by signal {} (memory fault, stack overflow, abort or memory limit)", sig)));
                            break 'mon;
                        }
                        _ => {
                            harness = Some(format!("worker {} ended with {:?}", w.shard, s));
                            break 'mon;
                        }
                    }
                }
                _ => {
                    alive += 1;
                    if w.fail_seen.is_none() && dir.join(format!("fail.{}", w.shard)).exists() {
                        w.fail_seen = Some(Instant::now());
                    }
                    if let Some(t) = w.fail_seen {
                        if t.elapsed() > Duration::from_secs(90) {
                            failed = Some(dir.join(format!("fail.{}", w.shard)));
                            break 'mon;
                        }
                        continue;
                    }
                    if let Some(k) = k {
                        let c = cpu_s(w.child.id());
                        if k != w.last_k {
                            w.last_k = k;
                            w.cpu_at = c;
                            w.wall_at = Instant::now();
                        } else if c - w.cpu_at > CASE_CPU_LIMIT_S || w.wall_at.elapsed().as_secs_f64() > CASE_WALL_LIMIT_S {
                            crash = Some((
                                k,
                                format!(
                                    "a single case did not finish after {:.0} s of CPU time / {:.0} s of wall time (cases take milliseconds): no termination or deadlock",
                                    c - w.cpu_at,
                                    w.wall_at.elapsed().as_secs_f64()
                                ),
                            ));
                            break 'mon;
                        }
                    }
                }
            }
        }
        if alive == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    // if some worker failed, give the others nothing more to do
    for w in ws.iter_mut() {
        if w.done.is_none() {
            let _ = w.child.kill();
            let _ = w.child.wait();
        }
    }
    // merge
    let mut ev = 0u64;
    let mut skipped = 0u64;
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut nt: HashSet<u64> = HashSet::new();
    for s in 0..n {
        let t = std::fs::read_to_string(dir.join(format!("stats.{}", s))).unwrap_or_default();
        for l in t.lines() {
            let (k, r) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "evaluations" => ev += r.parse::<u64>().unwrap_or(0),
                "skipped" => skipped += r.parse::<u64>().unwrap_or(0),
                "class" | "known" => {
                    let (v, c) = r.split_once(' ').unwrap_or(("0", r));
                    let m = if k == "class" { &mut classes } else { &mut known };
                    *m.entry(c.to_string()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
                }
                "sample" if samples.len() < 8 => samples.push(r.to_string()),
                _ => {}
            }
        }
        if let Ok(b) = std::fs::read(dir.join(format!("nt.{}", s))) {
            for c in b.chunks_exact(8) {
                nt.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    // known findings
    let kf = load_known(&vd.join("known_findings.txt"), id);
    let mut violations = 0;
    let mut rc = 0;
    let rdir = vd.join("replays");
    let _ = std::fs::create_dir_all(&rdir);
    let mut out = String::new();
    if let Some(h) = harness {
        eprintln!("check error (not a verdict): {}", h);
        rc = 2;
    } else if let Some((k, m)) = crash {
        let path = rdir.join(format!("{}-seed{}-case{}.txt", id, seed, k));
        if k == u64::MAX {
            write_replay(&path, id, "directed", "1", &m);
        } else {
            write_replay(&path, id, "case-seed", &case_seed(seed, id, k).to_string(), &m);
        }
        let _ = writeln!(out, "{}", m);
        let _ = writeln!(out, "VIOLATION property={} replay={}", id, path.display());
        violations = 1;
        rc = 1;
    } else if let Some(f) = failed {
        let t = std::fs::read_to_string(&f).unwrap_or_default();
        let path = rdir.join(format!("{}-seed{}-{:016x}.txt", id, seed, hash_str(&t)));
        let _ = std::fs::write(&path, &t);
        let _ = writeln!(out, "{}", t.split_once("---\n").map(|x| x.1).unwrap_or(""));
        let _ = writeln!(out, "VIOLATION property={} replay={}", id, path.display());
        violations = 1;
        rc = 1;
    } else {
        for (k, c) in &known {
            match kf.get(k) {
                Some(text) => {
                    let _ = writeln!(out, "KNOWN-FINDING: property={} {} (seen {} times)", id, text, c);
                }
                None => {
                    let path = rdir.join(format!("{}-unlisted-{}.txt", id, k));
                    write_replay(&path, id, "directed", "1", &format!("finding {} is not listed", k));
                    let _ = writeln!(out, "VIOLATION property={} replay={}", id, path.display());
                    violations += 1;
                    rc = 1;
                }
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    // evidence
    let mut e = String::new();
    let _ = writeln!(e, "{{");
    let _ = writeln!(e, " \"property\": {},", json_str(id));
    let _ = writeln!(e, " \"tier\": {},", json_str(tier));
    let _ = writeln!(e, " \"seed\": {},", seed);
    let _ = writeln!(e, " \"level\": \"exploration\",");
    let _ = writeln!(e, " \"coverage\": {{");
    let _ = writeln!(e, "  \"evaluations\": {},", ev);
    let _ = writeln!(e, "  \"distinct_nontrivial\": {},", nt.len());
    let _ = writeln!(e, "  \"rule\": {},", json_str(p.rule));
    let _ = writeln!(e, "  \"samples\": [{}],", samples.join(", "));
    let _ = writeln!(e, "  \"discarded\": {},", skipped);
    let cl: Vec<String> = classes.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    let _ = writeln!(e, "  \"classes\": {{{}}},", cl.join(", "));
    let kl: Vec<String> = known.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    let _ = writeln!(e, "  \"known_findings_seen\": {{{}}},", kl.join(", "));
    let _ = writeln!(e, "  \"exhaustive\": false");
    let _ = writeln!(e, " }},");
    let al: Vec<String> = p.assumptions.iter().map(|a| json_str(a)).collect();
    let _ = writeln!(e, " \"assumptions\": [{}],", al.join(", "));
    let _ = writeln!(e, " \"wall_s\": {:.3},", wall);
    let _ = writeln!(e, " \"violations\": {}", violations);
    let _ = writeln!(e, "}}");
    let _ = std::fs::create_dir_all(vd.join("evidence"));
    let _ = std::fs::write(vd.join("evidence").join(format!("{}.json", id)), e);
    let _ = std::fs::remove_dir_all(&dir);
    print!("{}", out);
    println!("{} tier={} seed={} cases={} distinct_nontrivial={} wall={:.1}s", id, tier, seed, ev, nt.len(), wall);
    if rc == 0 && ev == 0 {
        eprintln!("check error: no case was evaluated");
        rc = 2;
    }
    rc
}

/// lines: finding: property=<id> key=<key> <text>
fn load_known(p: &Path, id: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("finding: ") {
            let mut it = r.splitn(3, ' ');
            let (a, b, c) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            if a == format!("property={}", id) {
                m.insert(b.trim_start_matches("key=").to_string(), c.to_string());
            }
        }
    }
    m
}
