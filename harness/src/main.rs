mod alloc;
mod engine;
mod fields;
#[cfg(feature = "cov")]
mod guided;
#[macro_use]
mod gens;
mod model;
mod props;
use engine::*;

#[global_allocator]
static ALLOC: alloc::Local = alloc::Local;

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() == 3 => parent(&a[2]),
        Some("child") if a.len() == 4 => child(&a[2], &a[3]),
        Some("one") if a.len() == 5 => one(&a[2], &a[3], &a[4]),
        #[cfg(feature = "cov")]
        Some("guided") if a.len() == 7 => guided_worker(&a[2], a[3].parse().unwrap(), &a[4], a[5].parse().unwrap(), a[6].parse().unwrap()),
        Some("elsewhere") if a.len() == 4 => props::purity::elsewhere(&a[2], &a[3]),
        Some("replay") if a.len() == 3 => replay(&a[2]),
        Some("list") => { for p in props::all() { println!("{} {}", p.id, p.subs.iter().map(|s| format!("{}:{}", s.name, s.cases)).collect::<Vec<_>>().join(" ")); } 0 }
        Some("dict") => { println!("{:?}", dict().0); 0 }
        _ => { eprintln!("usage: algeo-check check ID | replay FILE | list"); 2 }
    };
    std::process::exit(code);
}

/// CPU seconds one case may use (the slowest ones use a few seconds, nearly all some microseconds)
const STUCK: f64 = 60.0;
const MEMORY: u64 = 14 << 30;

fn root() -> String { std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()) }
fn env_num<T: std::str::FromStr>(k: &str) -> Option<T> { std::env::var(k).ok().and_then(|s| s.parse().ok()) }

fn write_replay(id: &str, sub: &str, input: &str, text: &str) -> String {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-{sub}.txt");
    let _ = std::fs::write(&path, format!("property={id}\nsub={sub}\n{input}\n--\n{text}\nre-run: ./check.sh replay {path}\n"));
    path
}

/// runs the check in a child process, so that a crash of the code under test can be pinned down
fn parent(id: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let Some(p) = props::all().into_iter().find(|p| p.id == id) else { eprintln!("no such property: {id}"); return 2 };
    let exe = std::env::current_exe().unwrap();
    let shared = std::env::temp_dir().join(format!("algeo-check-{}", std::process::id()));
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&shared).unwrap();
    f.set_len((watch::SLOTS * std::mem::size_of::<watch::Slot>()) as u64).unwrap();
    watch::attach(&f);
    let run = |args: &[&str]| std::process::Command::new(&exe).args(args).status();
    let st = run(&["child", id, shared.to_str().unwrap()]);
    let _ = std::fs::remove_file(&shared);
    let st = match st { Ok(s) => s, Err(e) => { eprintln!("cannot run the check: {e}"); return 2 } };
    if let (Some(c @ 0..=2), None) = (st.code(), st.signal()) { return c; }
    // the code under test took the process down: find the case
    println!("{id}: the worker process was ended by {st}; looking for the case");
    for i in 0..watch::SLOTS {
        let s = watch::slot(i).unwrap();
        use std::sync::atomic::Ordering::Relaxed;
        if s.ticks.load(Relaxed) == 0 { continue; }
        let (sub, seed) = (p.subs[s.sub.load(Relaxed) as usize].name, s.seed.load(Relaxed).to_string());
        if let Ok(r) = run(&["one", id, sub, &seed]) {
            if r.success() || r.code() == Some(2) { continue; }
            let path = write_replay(id, sub, &format!("caseseed={seed}"), &format!("the process ends with {r} (stack overflow, memory exhausted or abort)"));
            short_evidence(id, &format!("{sub}, case seed {seed}: the process ends with {r}"));
            println!("sub-check {sub}, case seed {seed}: the process ends with {r}");
            println!("VIOLATION property={id} replay={path}");
            return 1;
        }
    }
    eprintln!("{id}: the worker process was ended by {st}, and no single case does that again");
    2
}

/// evidence of a run that did not live to write its own
fn short_evidence(id: &str, what: &str) {
    use std::sync::atomic::Ordering::Relaxed;
    let n: u64 = (0..watch::SLOTS).filter_map(watch::slot).map(|s| s.ticks.load(Relaxed)).sum();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    let _ = std::fs::write(format!("{}/evidence/{id}.json", root()), format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{n},\"distinct_nontrivial\":0,\"rule\":\"cut short by a violation: non-trivial cases were not counted\",\"samples\":[{}]}},\"wall_s\":0,\"violations\":1}}\n",
        jstr(id), jstr(&tier), env_num::<u64>("VERIF_SEED").unwrap_or(1), jstr(what)));
}

fn watchdog(id: &str) {
    let id = id.to_string();
    watch::start(STUCK, move |sub, seed| {
        let ps = props::all();
        let sub = ps.iter().find(|p| p.id == id).unwrap().subs[sub as usize].name;
        let path = write_replay(&id, sub, &format!("caseseed={seed}"), &format!("one call is still running after {STUCK} s of CPU time"));
        short_evidence(&id, &format!("{sub}, case seed {seed}: does not terminate"));
        println!("sub-check {sub}, case seed {seed}: still running after {STUCK} s of CPU time (does not terminate)");
        println!("VIOLATION property={id} replay={path}");
        std::process::exit(1);
    });
}

fn child(id: &str, shared: &str) -> i32 {
    watch::limit_memory(MEMORY);
    if let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).open(shared) { if watch::attach(&f) { watchdog(id); } }
    check(id)
}

/// one generated case, given by its seed
fn one(id: &str, sub: &str, seed: &str) -> i32 {
    watch::limit_memory(MEMORY);
    run_one(id, sub, Input::Seed(seed.parse().unwrap_or(0)), false)
}

enum Input { Seed(u64), Choices(Vec<u64>) }
fn run_one(id: &str, sub: &str, input: Input, show: bool) -> i32 {
    let ps = props::all();
    let Some((subi, s)) = ps.iter().find(|p| p.id == id).and_then(|p| p.subs.iter().enumerate().find(|s| s.1.name == sub)) else { eprintln!("unknown {id}/{sub}"); return 2 };
    let (run, subi) = (s.run, subi as u64);
    let shared = std::env::temp_dir().join(format!("algeo-check-{}", std::process::id()));
    if let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&shared) {
        let _ = f.set_len((watch::SLOTS * std::mem::size_of::<watch::Slot>()) as u64);
        if watch::attach(&f) { watchdog(id); }
        let _ = std::fs::remove_file(&shared);
    }
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        watch::enter(0);
        watch::case(subi, if let Input::Seed(s) = input { s } else { 0 });
        let src = match input { Input::Seed(s) => Src::random(s), Input::Choices(c) => Src::replay(c) };
        let mut cx = Cx::new(src, true);
        let r = exec(run, &mut cx);
        (r, cx.notes.take().unwrap_or_default())
    }).unwrap();
    let (r, notes) = h.join().unwrap();
    if show { println!("case:\n  {}", trunc(&notes.join("\n  "), 20000)); }
    match r {
        Res::Pass => { if show { println!("passes"); } 0 }
        Res::Discard(d) => { if show { println!("discarded: {d}"); } 0 }
        Res::Fail(m) => { if show { println!("{m}"); } 1 }
    }
}

fn check(id: &str) -> i32 {
    let seed: u64 = env_num("VERIF_SEED").unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let scale: f64 = env_num("VERIF_SCALE").unwrap_or(if thorough { 25.0 } else { 1.0 });
    // no more cases are started after this many seconds; the evidence then says so
    let deadline: f64 = env_num("VERIF_DEADLINE").unwrap_or(if thorough { 1500.0 } else { 300.0 });
    let Some(p) = props::all().into_iter().find(|p| p.id == id) else { eprintln!("no such property: {id}"); return 2 };
    let t0 = std::time::Instant::now();
    let mut rep = run_prop(&p, seed, &tier, scale, deadline);
    let mut guided = String::new();
    let mut crash = None;
    if rep.failure.is_none() && p.subs.iter().any(Sub::guided) {
        if let Ok(bin) = std::env::var("VERIF_GUIDED") {
            match guided_search(&p, &bin, scale, deadline) {
                Ok(g) => {
                    rep.evals += g.evals;
                    rep.distinct += g.distinct;
                    rep.discards += g.discards;
                    guided = g.json;
                    rep.failure = g.failure;
                    crash = g.crash;
                }
                // the random search decides alone then
                Err(m) => println!("note: {m}"),
            }
        }
    }
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    let wall = t0.elapsed().as_secs_f64();
    let json = format!("{}\"evaluations\":{},\"distinct_nontrivial\":{},\"guided\":[{guided}],{}\"wall_s\":{wall:.3},\"violations\":{}}}\n", rep.head, rep.evals, rep.distinct, rep.tail, (rep.failure.is_some() || crash.is_some()) as u32);
    if let Err(e) = std::fs::write(format!("{}/evidence/{id}.json", root()), &json) { eprintln!("cannot write evidence: {e}"); return 2; }
    println!("{id}: {} cases, {} discarded, {wall:.1} s, seed {seed}, tier {tier}", rep.evals, rep.discards);
    if let Some((sub, path, what)) = crash {
        println!("sub-check {sub}: {what}");
        println!("VIOLATION property={id} replay={path}");
        return 1;
    }
    if let Some(f) = rep.failure {
        let path = write_replay(id, f.sub, &choices_line(&f.choices), &format!("{}\ncase:\n  {}", f.msg, f.notes.join("\n  ")));
        println!("{}", trunc(&format!("sub-check {}: {}\ncase (shrunk in {} runs):\n  {}", f.sub, f.msg, f.execs, f.notes.join("\n  ")), 4000));
        println!("VIOLATION property={id} replay={path}");
        return 1;
    }
    0
}
fn choices_line(c: &[u64]) -> String { format!("choices={}", c.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" ")) }

// ---- coverage-guided search: worker processes of the instrumented build ------------------------
const WORKERS: usize = 8;
struct Guided { json: String, evals: u64, distinct: u64, discards: u64, failure: Option<Failure>, crash: Option<(&'static str, String, String)> }
fn guided_search(p: &Prop, bin: &str, scale: f64, deadline: f64) -> Result<Guided, String> {
    use std::os::unix::process::ExitStatusExt;
    let dir = std::env::temp_dir().join(format!("algeo-guided-{}", std::process::id()));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let run = || -> Result<Guided, String> {
        let mut kids = vec![];
        for w in 0..WORKERS {
            kids.push(std::process::Command::new(bin).args(["guided", p.id, &w.to_string(), dir.to_str().unwrap(), &scale.to_string(), &deadline.to_string()]).spawn().map_err(|e| format!("{bin}: {e}"))?);
        }
        let ends: Vec<_> = kids.into_iter().map(|mut k| k.wait()).collect::<Result<_, _>>().map_err(|e| e.to_string())?;
        let mut g = Guided { json: String::new(), evals: 0, distinct: 0, discards: 0, failure: None, crash: None };
        let mut per = vec![[0u64; 7]; p.subs.len()];
        for (w, end) in ends.iter().enumerate() {
            let text = std::fs::read_to_string(dir.join(format!("{w}.out"))).unwrap_or_default();
            let mut done = false;
            for l in text.lines() {
                let t: Vec<&str> = l.split(' ').collect();
                let num = |i: usize| t.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
                match t[0] {
                    "stats" => for k in 0..7 { let x = num(2 + k); let y = &mut per[num(1) as usize][k]; if k < 5 { *y += x } else { *y = (*y).max(x) } },
                    "done" => done = true,
                    "fail" => {
                        done = true;
                        let sub = &p.subs[num(1) as usize];
                        let choices: Vec<u64> = t[3..].iter().filter_map(|x| x.parse().ok()).collect();
                        let mut v = Cx::new(Src::replay(choices.clone()), true);
                        match exec(sub.run, &mut v) {
                            Res::Fail(msg) => if g.failure.as_ref().map_or(true, |f| f.choices.len() > choices.len()) {
                                g.failure = Some(Failure { sub: sub.name, choices, msg, notes: v.notes.unwrap_or_default(), execs: num(2) });
                            },
                            _ => return Err(format!("guided search: a case of {} fails only in the instrumented build", sub.name)),
                        }
                    }
                    _ => (),
                }
            }
            if !done {
                // crashed or stuck: try that case again in the plain build
                let Some((sub, choices)) = share::read(&dir.join(format!("{w}.case"))) else { return Err(format!("guided worker ended with {end}")) };
                let Some(sub) = p.subs.get(sub) else { return Err(format!("guided worker ended with {end}")) };
                let path = write_replay(p.id, sub.name, &choices_line(&choices), "the process crashes or does not end on this case");
                let r = std::process::Command::new(std::env::current_exe().unwrap()).args(["replay", &path]).output().map_err(|e| e.to_string())?.status;
                if r.signal().is_none() && matches!(r.code(), Some(0 | 2)) { return Err(format!("guided worker ended with {end}, and its last case does not do that again")); }
                if g.crash.is_none() { g.crash = Some((sub.name, path, format!("the process crashes or does not end ({r}) on one case"))); }
            }
        }
        g.json = p.subs.iter().zip(&per).filter(|x| x.1[0] > 0).map(|(s, v)| {
            g.evals += v[0]; g.distinct += v[2]; g.discards += v[3];
            format!("{{\"sub\":{},\"evaluations\":{},\"nontrivial\":{},\"distinct_nontrivial\":{},\"discarded\":{},\"kept_inputs\":{},\"features\":{},\"instrumented_edges\":{}}}", jstr(s.name), v[0], v[1], v[2], v[3], v[4], v[5], v[6])
        }).collect::<Vec<_>>().join(",");
        Ok(g)
    };
    let r = run();
    let _ = std::fs::remove_dir_all(&dir);
    r
}
#[cfg(feature = "cov")]
fn guided_worker(id: &str, w: usize, dir: &str, scale: f64, deadline: f64) -> i32 {
    use std::io::Write;
    watch::limit_memory(MEMORY / 4);
    let dir = std::path::Path::new(dir);
    let open = |n: &str, len: u64| { let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(dir.join(format!("{w}.{n}"))).unwrap(); f.set_len(len).unwrap(); f };
    share::attach(&open("case", (share::CAP as u64 + 2) * 8));
    if watch::attach(&open("slot", (watch::SLOTS * std::mem::size_of::<watch::Slot>()) as u64)) { watch::start(STUCK, |_, _| std::process::exit(7)); }
    let mut out = open("out", 0);
    let seed: u64 = env_num("VERIF_SEED").unwrap_or(1);
    let only = std::env::var("VERIF_SUB").ok();
    let id = id.to_string();
    std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let Some(p) = props::all().into_iter().find(|p| p.id == id) else { return 2 };
        watch::enter(0);
        let t0 = std::time::Instant::now();
        for (i, s) in p.subs.iter().enumerate() {
            if only.as_ref().map_or(false, |o| o != s.name) || !s.guided() { continue; }
            let n = (GUIDED_WORK * scale / p.subs.iter().filter(|s| s.guided()).count() as f64) as u64;
            let (st, found) = guided::search(i, s, seed ^ fnv(format!("{id}/{}/{w}", s.name).as_bytes()), n, || t0.elapsed().as_secs_f64() > deadline);
            let _ = writeln!(out, "stats {i} {} {} {} {} {} {} {}", st.evals, st.nontrivial, st.distinct, st.discards, st.corpus, st.features, covrt::edges());
            if let Some(f) = found { let _ = writeln!(out, "fail {} {} {}", f.sub, f.execs, f.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" ")); return 1; }
        }
        watch::leave();
        let _ = writeln!(out, "done");
        0
    }).unwrap().join().unwrap_or(3)
}
/// edges executed by each worker, all sub-checks together
#[cfg(feature = "cov")]
const GUIDED_WORK: f64 = 1.0e9;

fn replay(path: &str) -> i32 {
    let Ok(t) = std::fs::read_to_string(path) else { eprintln!("cannot read {path}"); return 2 };
    let find = |k: &str| t.lines().take_while(|l| *l != "--").find_map(|l| l.strip_prefix(k)).map(|s| s.to_string());
    let (id, sub) = (find("property=").unwrap_or_default(), find("sub=").unwrap_or_default());
    let input = match find("caseseed=").and_then(|s| s.parse().ok()) {
        Some(s) => Input::Seed(s),
        None => Input::Choices(find("choices=").unwrap_or_default().split_whitespace().filter_map(|x| x.parse().ok()).collect()),
    };
    let r = run_one(&id, &sub, input, true);
    if r == 1 { println!("VIOLATION property={id} replay={path}"); }
    r
}
