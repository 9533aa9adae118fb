//! Deterministic simulation of cola sessions. See /verif/DESIGN.md.
//!
//! ```text
//! colasim check <prop> --bins <checked>,<release>,<plain> --root <verif>
//! colasim replay <file>                                           one replay file
//! colasim digests <prop> <from> <to> [step]                       determinism probe
//! ```

mod arch;
mod case;
mod cost;
mod exec;
mod gen;
mod imp;
mod lite;
mod miri;
mod rng;
mod stats;
mod step;
mod weight;

use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitCode, Stdio};
use std::time::{Duration, Instant};

use case::{Case, Found};
use exec::crash_tags;
use gen::Sim;
use imp::{guard, Call, Doc, Imp, CALLS};
use rng::mix;
use stats::Stats;
use step::{Config, Step};

const WORKERS: u64 = 8;
const PROPS: [&str; 22] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14",
    "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22",
];

fn build_name() -> &'static str {
    if cfg!(colasim_asan) {
        "asan"
    } else if cfg!(colasim_counted) {
        "counted"
    } else if !cfg!(debug_assertions) {
        "release"
    } else if env!("SIM_OPT_LEVEL") == "0" {
        "plain"
    } else {
        "checked"
    }
}

fn prop_name(s: &str) -> &'static str {
    PROPS.iter().copied().find(|p| *p == s).unwrap_or_else(|| die(&format!("unknown property {s}")))
}

fn die(msg: &str) -> ! {
    eprintln!("colasim: {msg}");
    std::process::exit(3)
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

fn thorough() -> bool {
    std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough")
}

/// The seed of one run: a pure function of VERIF_SEED, property and index.
fn run_seed(base: u64, prop: &str, run: u64) -> u64 {
    let p: u64 = prop.bytes().fold(0, |h, b| h * 131 + b as u64);
    mix(mix(base ^ 0xC01A) ^ mix(p) ^ run.wrapping_mul(0x9E37_79B9_7F4A_7C15))
}

/// What executes a run: one of the builds of this program, or Miri.
fn run_engine(prop: &str, run: u64) -> &'static str {
    match (prop, run % WORKERS) {
        ("C19", 0..=6) => "miri",
        ("C19", _) => "asan",
        ("C20" | "C21", _) => "counted",
        ("C22", k) => miri::TARGETS[(k % 2) as usize].0,
        (_, 0..=3) => "checked",
        (_, 4) => "plain",
        _ => "release",
    }
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
}

fn main() -> ExitCode {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "check" => check(&args),
        "lite" => {
            lite::main();
            ExitCode::SUCCESS
        },
        "elsewhere" => {
            lite::elsewhere();
            ExitCode::SUCCESS
        },
        "costs" => on_small_stack(costs, args),
        "cases" => on_small_stack(cases, args),
        "worker" => on_small_stack(worker, args),
        "second-worker" => on_small_stack(second_worker, args),
        "one" => on_small_stack(one, args),
        "exec" => on_small_stack(exec_file, args),
        "replay" => replay(&args),
        "digests" => on_small_stack(digests, args),
        _ => die("usage: colasim check|replay|digests"),
    }
}

// ----- children -----

/// Simulations run on the stack a spawned thread of an application may have,
/// so recursion over the size of some input shows.
fn on_small_stack(f: fn(&[String]) -> ExitCode, args: Vec<String>) -> ExitCode {
    // Sanitizers pad stack frames.
    let size = if cfg!(colasim_asan) { 8 << 20 } else { 256 << 10 };
    let t = std::thread::Builder::new().stack_size(size).spawn(move || f(&args)).expect("thread");
    t.join().unwrap_or(ExitCode::from(3))
}

fn map_status(path: &str) -> *mut u64 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).expect("status file");
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut u64
    }
}

fn child_setup(status: Option<String>) {
    imp::install_hook();
    unsafe {
        let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        // Sanitizers reserve terabytes of addresses.
        if !cfg!(colasim_asan) {
            libc::setrlimit(libc::RLIMIT_AS, &lim);
        }
        let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &none);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    if let Some(s) = status {
        unsafe { imp::STATUS = map_status(&s) };
    }
}

/// Do the two builds declare the same protocol version?
fn proto_ok() -> bool {
    let v = |imp| {
        guard(Call::Encode, || Doc::new(imp, 1, 3).encode()).ok().and_then(|b| {
            let mut v = 0u64;
            for (i, x) in b.iter().enumerate().take(9) {
                v |= ((x & 0x7f) as u64) << (7 * i);
                if x & 0x80 == 0 {
                    return Some(v);
                }
            }
            None
        })
    };
    v(Imp::Cur) == v(Imp::Base)
}

struct RunOut {
    cfg: Config,
    steps: Vec<Step>,
    viols: Vec<exec::Violation>,
    digest: u64,
}

fn simulate(
    prop: &'static str,
    seed: u64,
    proto: bool,
    trace: Option<std::fs::File>,
    stats: Option<&mut Stats>,
    run: u64,
) -> RunOut {
    let mut sim = match Sim::new(prop, seed, thorough(), proto, trace) {
        Ok(s) => s,
        Err((cfg, v)) => return RunOut { cfg, steps: vec![], viols: vec![v], digest: 0 },
    };
    sim.run();
    sim.finish();
    let digest = sim.ex.digest ^ sim.ex.order_digest.rotate_left(17);
    if let Some(st) = stats {
        st.runs += 1;
        st.steps += sim.steps.len() as u64;
        st.edits += sim.edits() as u64;
        st.sim_time += sim.t;
        *st.classes.entry(sim.prm.class.into()).or_insert(0) += 1;
        for (k, v) in &sim.faults.0 {
            *st.faults.entry(k.to_string()).or_insert(0) += v;
        }
        for (k, v) in &sim.ex.probes.0 {
            st.probe(k, *v);
        }
        if sim.nontrivial() {
            st.nontrivial += 1;
            if st.orders.len() < stats::CAP {
                st.orders.insert(digest);
            }
            if st.samples.len() < 2 && sim.steps.len() > 10 {
                st.samples.push(serde_json::json!({
                    "run": run,
                    "seed": seed,
                    "build": build_name(),
                    "config": sim.cfg,
                    "simulated_ms": sim.t,
                    "faults": sim.faults.0,
                    "steps_in_all": sim.steps.len(),
                    "steps": sim.steps[..sim.steps.len().min(120)],
                }));
            }
        }
        if st.states.len() < stats::CAP {
            st.states.extend(sim.ex.states.iter().copied());
        }
    }
    let viols = std::mem::take(&mut sim.ex.violations);
    let out = RunOut { cfg: sim.cfg.clone(), steps: std::mem::take(&mut sim.steps), viols, digest };
    if sim.ex.poisoned {
        std::mem::forget(sim);
    }
    out
}

fn worker(args: &[String]) -> ExitCode {
    let prop = prop_name(&args[2]);
    let base = env_u64("VERIF_SEED", 1);
    let mut run: u64 = arg(args, "--from").unwrap().parse().unwrap();
    let secs: f64 = arg(args, "--secs").unwrap().parse().unwrap();
    let max: u64 = arg(args, "--max").unwrap().parse().unwrap();
    let out = arg(args, "--out").unwrap();
    child_setup(arg(args, "--status"));
    let known = Known::read(&arg(args, "--known").unwrap(), prop);
    let proto = proto_ok();
    let t0 = Instant::now();
    let mut flushed = Instant::now();
    let mut st = Stats::default();
    let save = |st: &Stats| {
        let tmp = format!("{out}.tmp");
        std::fs::write(&tmp, serde_json::to_vec(st).unwrap()).expect("write stats");
        std::fs::rename(&tmp, &out).expect("write stats");
    };
    while t0.elapsed().as_secs_f64() < secs && run < max {
        imp::status(0, run);
        let seed = run_seed(base, prop, run);
        let r = simulate(prop, seed, proto, None, Some(&mut st), run);
        if !r.viols.is_empty() {
            match case::judge(prop, &r.cfg, &r.steps, &r.viols) {
                Some(found) if known.matches(&found) => known.count(&found, &mut st),
                Some(found) => {
                    let mut c = Case {
                        property: prop.into(),
                        build: build_name().into(),
                        verif_seed: base,
                        run,
                        seed,
                        found,
                        digest: 0,
                        original_steps: r.steps.len(),
                        config: r.cfg,
                        steps: r.steps,
                    };
                    c.digest = case::check(prop, &c.config, &c.steps).1;
                    save(&st);
                    // The whole trace first: minimising runs broken code.
                    let file = PathBuf::from(arg(args, "--case").unwrap());
                    case::write(&file, &c);
                    imp::status(5, 1);
                    let secs = if thorough() { 60 } else { 20 };
                    case::shrink(&mut c, Duration::from_secs(secs), &mut |cfg, steps| {
                        let (f, d) = case::check(prop, cfg, steps);
                        f.map(|f| (f, d))
                    });
                    case::write(&file, &c);
                    return ExitCode::from(1);
                },
                None => {
                    let k = format!("{} ({})", r.viols[0].class, r.viols[0].tags.join(","));
                    *st.foreign.entry(k).or_insert(0) += 1;
                },
            }
        }
        run += WORKERS;
        if flushed.elapsed().as_secs() >= 2 {
            save(&st);
            flushed = Instant::now();
        }
    }
    save(&st);
    ExitCode::SUCCESS
}

/// Judges runs the pinned build generated, so that what else a tree breaks
/// does not matter: by interpretation (C19), the work they take (C20) or what they weigh (C21).
fn second_worker(args: &[String]) -> ExitCode {
    let prop = prop_name(&args[2]);
    let base = env_u64("VERIF_SEED", 1);
    let mut run: u64 = arg(args, "--from").unwrap().parse().unwrap();
    let secs: f64 = arg(args, "--secs").unwrap().parse().unwrap();
    let max: u64 = arg(args, "--max").unwrap().parse().unwrap();
    let out = arg(args, "--out").unwrap();
    child_setup(arg(args, "--status"));
    let known = Known::read(&arg(args, "--known").unwrap(), prop);
    let t0 = Instant::now();
    let mut flushed = Instant::now();
    let mut st = Stats::default();
    let build = run_engine(prop, run);
    let mut miri = interpreted(build).unwrap_or_default();
    miri.lax = prop == "C19" && run % 2 == 1;
    let mut beats = 0u64;
    let mut judge = |cfg: &Config, steps: &[Step], st: &mut Stats| -> Option<(Found, u64)> {
        if prop == "C20" || prop == "C21" {
            let (judge, unit) = match prop {
                "C20" => (cost::judge as fn(&Config, &[Step], &mut dyn FnMut()) -> cost::Judged, "basic blocks counted"),
                _ => (weight::judge as _, "bytes"),
            };
            let j = judge(cfg, steps, &mut || {
                beats += 1;
                imp::status(1, beats);
            });
            for (k, (n, c)) in j.by {
                st.probe(&format!("{k}: times measured"), n);
                st.probe(&format!("{k}: {unit}"), c);
            }
            if j.panicked {
                *st.foreign.entry("panic".into()).or_insert(0) += 1;
            }
            return j.found.map(|f| (f, j.digest));
        }
        let before = miri.steps;
        let mut beat = || {
            beats += 1;
            imp::status(1, beats);
        };
        if let Some(kind) = miri.kind {
            let (r, digest) = arch::judge(&mut miri, kind, cfg, steps, miri::LIMIT, &mut beat);
            st.probe(&format!("sessions with a machine of kind {kind}"), 1);
            st.probe(&format!("steps interpreted on {kind}"), miri.steps - before);
            return match r {
                arch::Outcome::Agreed => None,
                arch::Outcome::Other(why) => {
                    if miri.steps == 0 {
                        die(&format!("nothing can be interpreted on {kind}: {why}"));
                    }
                    *st.foreign.entry(format!("{why} while interpreted")).or_insert(0) += 1;
                    None
                },
                arch::Outcome::Differs(f) => Some((f, digest)),
            };
        }
        let mut r = miri.run(cfg, steps, miri::LIMIT, &mut beat);
        st.probe(if miri.lax { "runs interpreted by Miri without validity checks" } else { "runs interpreted by Miri" }, 1);
        if miri.lax && matches!(r, miri::Outcome::Undefined(_)) {
            // The replay file is judged with them, and from here on so is this.
            miri.lax = false;
            r = miri.run(cfg, steps, miri::LIMIT, &mut beat);
        }
        st.probe("steps interpreted by Miri", miri.steps - before);
        match r {
            miri::Outcome::Fine => None,
            miri::Outcome::Other(why) => {
                *st.foreign.entry(format!("{why} while interpreted")).or_insert(0) += 1;
                None
            },
            miri::Outcome::Undefined(f) => Some((f, 0)),
        }
    };
    let save = |st: &Stats| {
        let tmp = format!("{out}.tmp");
        std::fs::write(&tmp, serde_json::to_vec(st).unwrap()).expect("write stats");
        std::fs::rename(&tmp, &out).expect("write stats");
    };
    while t0.elapsed().as_secs_f64() < secs && run < max {
        imp::status(0, run);
        let seed = run_seed(base, prop, run);
        let mut one = Stats::default();
        let mut r = simulate(prop, seed, true, None, Some(&mut one), run);
        if prop == "C22" && r.cfg.scale == gen::BRIM {
            arch::brim(&mut r.cfg, &r.steps);
        }
        for s in &mut one.samples {
            s["build"] = build.into();
        }
        match judge(&r.cfg, &r.steps, &mut st) {
            None => {},
            Some((found, _)) if known.matches(&found) => known.count(&found, &mut st),
            Some((found, digest)) => {
                let mut c = Case {
                    property: prop.into(),
                    build: build.into(),
                    verif_seed: base,
                    run,
                    seed,
                    digest,
                    original_steps: r.steps.len(),
                    found,
                    config: r.cfg,
                    steps: r.steps,
                };
                st.merge(one);
                save(&st);
                let file = PathBuf::from(arg(args, "--case").unwrap());
                case::write(&file, &c);
                imp::status(5, 1);
                case::shrink(&mut c, Duration::from_secs(40), &mut |cfg, steps| {
                    judge(cfg, steps, &mut Stats::default())
                });
                case::write(&file, &c);
                return ExitCode::from(1);
            },
        }
        st.merge(one);
        run += WORKERS;
        if prop == "C19" || prop == "C22" || flushed.elapsed().as_secs() >= 2 {
            save(&st);
            flushed = Instant::now();
        }
    }
    save(&st);
    ExitCode::SUCCESS
}

/// Reruns one seed, writing each step down before it is executed.
fn one(args: &[String]) -> ExitCode {
    let prop = prop_name(&args[2]);
    let run: u64 = arg(args, "--run").unwrap().parse().unwrap();
    child_setup(arg(args, "--status"));
    let trace = std::fs::File::create(arg(args, "--trace").unwrap()).expect("trace file");
    let proto = proto_ok();
    let seed = run_seed(env_u64("VERIF_SEED", 1), prop, run);
    let r = simulate(prop, seed, proto, Some(trace), None, run);
    println!("{:016x} {}", r.digest, r.steps.len());
    for v in &r.viols {
        println!("{:?}", v);
    }
    ExitCode::SUCCESS
}

/// Executes a case file; prints what was found as JSON.
fn exec_file(args: &[String]) -> ExitCode {
    let c = case::read(Path::new(&args[2]));
    child_setup(arg(args, "--status"));
    let sub = arg(args, "--subst").and_then(|p| case::subst_for(&p));
    if let Some(sub) = sub {
        let (vs, _) = case::run(&c.config, &c.steps, sub);
        println!("{}", serde_json::to_string(&vs.is_empty()).unwrap());
        return ExitCode::SUCCESS;
    }
    let (f, d) = case::check(prop_name(&c.property), &c.config, &c.steps);
    println!("{}", serde_json::to_string(&(f, d)).unwrap());
    ExitCode::SUCCESS
}

fn costs(args: &[String]) -> ExitCode {
    child_setup(None);
    let prop = if args.len() > 3 { "C21" } else { "C20" };
    let run: u64 = args[2].parse().unwrap();
    let r = simulate(prop, run_seed(env_u64("VERIF_SEED", 1), prop, run), true, None, None, run);
    let judge = if prop == "C20" { cost::judge } else { weight::judge };
    let j = judge(&r.cfg, &r.steps, &mut || ());
    println!("{} steps {:?}", r.steps.len(), j.found);
    ExitCode::SUCCESS
}

fn cases(args: &[String]) -> ExitCode {
    child_setup(None);
    let prop = "C19";
    let from: u64 = args[2].parse().unwrap();
    let to: u64 = args[3].parse().unwrap();
    for run in from..to {
        let r = simulate(prop, run_seed(env_u64("VERIF_SEED", 1), prop, run), true, None, None, run);
        std::io::stdout().write_all(&miri::packed(run, &r.cfg, &r.steps)).unwrap();
    }
    ExitCode::SUCCESS
}

fn digests(args: &[String]) -> ExitCode {
    let prop = prop_name(&args[2]);
    let from: u64 = args[3].parse().unwrap();
    let to: u64 = args[4].parse().unwrap();
    let step: u64 = args.get(5).map_or(1, |s| s.parse().unwrap());
    child_setup(None);
    let proto = proto_ok();
    let mut run = from;
    while run < to {
        let seed = run_seed(env_u64("VERIF_SEED", 1), prop, run);
        let r = simulate(prop, seed, proto, None, None, run);
        let v = r.viols.first().map_or("-".to_string(), |v| v.class.clone());
        let t = serde_json::to_string(&r.steps).unwrap();
        let h = t.bytes().fold(7u64, |h, b| mix(h ^ b as u64));
        println!("{run} {:016x} {h:016x} {} {v}", r.digest, r.steps.len());
        run += step;
    }
    ExitCode::SUCCESS
}

// ----- running something that may abort or hang -----

enum Outcome {
    Done(i32, String),
    /// Killed by a signal, or aborted.
    Died(i32, Call, bool),
    Hung(Call, bool),
}

struct Status {
    path: PathBuf,
    map: *mut u64,
}

impl Status {
    fn new(dir: &Path, name: &str) -> Self {
        let path = dir.join(name);
        std::fs::write(&path, vec![0u8; 4096]).expect("status file");
        let map = map_status(path.to_str().unwrap());
        Self { path, map }
    }
    fn get(&self, i: usize) -> u64 {
        unsafe { std::ptr::read_volatile(self.map.add(i)) }
    }
    fn call(&self) -> Call {
        CALLS.get(self.get(2) as usize).copied().unwrap_or(Call::None)
    }
    fn dup(&self) -> bool {
        self.get(3) != 0
    }
}

fn supervise(mut child: Child, st: &Status, timeout: Duration) -> Outcome {
    let out = child.stdout.take();
    let reader = std::thread::spawn(move || {
        let mut s = String::new();
        if let Some(mut o) = out {
            let _ = std::io::Read::read_to_string(&mut o, &mut s);
        }
        s
    });
    let mut last = (u64::MAX, Instant::now());
    loop {
        if let Some(s) = child.try_wait().expect("wait") {
            let text = reader.join().unwrap_or_default();
            return match s.signal() {
                Some(sig) => Outcome::Died(sig, st.call(), st.dup()),
                None => Outcome::Done(s.code().unwrap_or(-1), text),
            };
        }
        let now = st.get(1);
        if now != last.0 {
            last = (now, Instant::now());
        } else if last.1.elapsed() > timeout {
            let (c, d) = (st.call(), st.dup());
            let _ = child.kill();
            let _ = child.wait();
            return Outcome::Hung(c, d);
        }
        std::thread::sleep(Duration::from_micros(300));
    }
}

/// Runs a case in a process of its own.
fn run_apart(bin: &str, dir: &Path, c: &Case, timeout: Duration) -> Option<(Found, u64)> {
    if let Some(mut miri) = interpreted(&c.build) {
        if let Some(kind) = miri.kind {
            return match arch::judge(&mut miri, kind, &c.config, &c.steps, miri::LIMIT, &mut || ()) {
                (arch::Outcome::Differs(f), d) => Some((f, d)),
                _ => None,
            };
        }
        return match miri.run(&c.config, &c.steps, miri::LIMIT, &mut || ()) {
            miri::Outcome::Undefined(f) => Some((f, 0)),
            _ => None,
        };
    }
    let file = dir.join("apart.json");
    case::write(&file, c);
    let st = Status::new(dir, "apart.status");
    let errors = dir.join("apart.stderr");
    let spawn = |extra: &[&str]| {
        Command::new(bin)
            .arg("exec")
            .arg(&file)
            .arg("--status")
            .arg(&st.path)
            .args(extra)
            .stdout(Stdio::piped())
            .stderr(std::fs::File::create(&errors).expect("scratch file"))
            .spawn()
            .expect("spawn")
    };
    let (call, dup, how) = match supervise(spawn(&[]), &st, timeout) {
        Outcome::Done(0, out) => {
            let (f, d): (Option<Found>, u64) = serde_json::from_str(out.trim()).ok()?;
            return f.map(|f| (f, d));
        },
        Outcome::Done(..) => return None,
        Outcome::Died(sig, call, dup) => (call, dup, format!("died (signal {sig})")),
        Outcome::Hung(call, dup) => (call, dup, "hung".to_string()),
    };
    let kind = if how == "hung" { "hang" } else { "abort" };
    let at = (st.get(1) as usize).saturating_sub(2);
    let found = |class: String, msg: String| Some((Found { class, message: msg, step: at }, 0));
    if c.property == "C19" {
        let (what, msg) = memory_error(&std::fs::read_to_string(&errors).unwrap_or_default())?;
        return found(format!("undefined:{what}"), format!("{msg} [in {call:?}]"));
    }
    if crash_tags(call, dup).contains(&c.property.as_str()) {
        return found(format!("{kind}:{call:?}"), format!("{call:?} {how}"));
    }
    case::subst_for(&c.property)?;
    match supervise(spawn(&["--subst", &c.property]), &st, timeout) {
        Outcome::Done(0, out) if out.trim() == "true" => found(
            format!("differs:{kind}:{call:?}"),
            format!("{call:?} {how} [and not when the same run does without what {} is about]", c.property),
        ),
        _ => None,
    }
}

/// What AddressSanitizer or the standard library's checks of unsafe
/// preconditions reported. Running out of stack or memory is neither.
fn memory_error(text: &str) -> Option<(String, String)> {
    let place = || {
        let i = text.find("/repo/src/").map(|i| text[i..].lines().next().unwrap_or(""));
        i.unwrap_or("?").to_string()
    };
    if let Some(i) = text.find("unsafe precondition(s) violated: ") {
        let l = text[i..].lines().next().unwrap_or("");
        return Some(("unsafe-precondition".into(), format!("{l} [{}]", place())));
    }
    let i = text.find("ERROR: AddressSanitizer: ")?;
    let l = text[i..].lines().next().unwrap_or("");
    let what = l.split_whitespace().nth(2).unwrap_or("?");
    let fine = ["stack-overflow", "out-of-memory", "allocation-size-too-big", "requested", "failed", "ABRT"];
    if fine.contains(&what) {
        return None;
    }
    let what: String = what.chars().filter(|c| c.is_ascii_alphanumeric() || *c == '-').collect();
    let first = l.split(" on ").next().unwrap_or(l);
    Some((what, format!("{first} [{}]", place())))
}

// ----- known findings -----

struct Known(Vec<(String, String, String)>);

impl Known {
    /// Lines `finding: property=<id> class=<class> match=<text>`.
    fn read(path: &str, prop: &str) -> Self {
        let text = std::fs::read_to_string(path).unwrap_or_default();
        let mut v = Vec::new();
        for l in text.lines() {
            let Some(rest) = l.strip_prefix(&format!("finding: property={prop} class=")) else { continue };
            let Some((class, m)) = rest.split_once(" match=") else { continue };
            v.push((class.to_string(), m.to_string(), l.to_string()));
        }
        Known(v)
    }

    fn matches(&self, f: &Found) -> bool {
        self.0.iter().any(|(c, m, _)| *c == f.class && f.message.contains(m.as_str()))
    }

    fn count(&self, f: &Found, st: &mut Stats) {
        if let Some((_, _, l)) = self.0.iter().find(|(c, m, _)| *c == f.class && f.message.contains(m.as_str())) {
            *st.foreign.entry(l.clone()).or_insert(0) += 1;
        }
    }
}

// ----- the check -----

/// Engines that run sessions the pinned build generated.
fn second(engine: &str) -> bool {
    engine == "counted" || interpreted(engine).is_some()
}

fn interpreted(engine: &str) -> Option<miri::Miri> {
    let kind = miri::TARGETS.iter().find(|t| t.0 == engine).map(|t| t.0);
    (engine == "miri" || kind.is_some()).then(|| {
        let mut m = miri::Miri::default();
        m.kind = kind;
        m
    })
}

/// The binary of an engine; Miri is driven by the first.
fn bin_of<'a>(bins: &'a [String], engine: &str) -> &'a str {
    let dir = format!("/{engine}/colasim");
    bins.iter().find(|b| b.contains(&dir)).unwrap_or(&bins[0])
}

struct Slot {
    k: u64,
    child: Option<Child>,
    status: Status,
    out: PathBuf,
    case: PathBuf,
    last: (u64, Instant),
    restarts: u32,
}

fn check(args: &[String]) -> ExitCode {
    let prop = prop_name(&args[2]);
    let bins: Vec<String> = arg(args, "--bins").unwrap().split(',').map(|s| s.to_string()).collect();
    let root = PathBuf::from(arg(args, "--root").unwrap());
    let base = env_u64("VERIF_SEED", 1);
    let quick = match prop {
        "C19" => 100,
        "C22" => 120,
        _ => 50,
    };
    let secs = env_u64("COLASIM_SECS", if thorough() { 700 } else { quick }) as f64;
    let max = env_u64("COLASIM_RUNS", u64::MAX);
    let known = root.join("known-findings.txt");
    let t0 = Instant::now();
    println!(
        "colasim: property {prop}, VERIF_SEED={base}, {} tier, {secs} s",
        if thorough() { "thorough" } else { "quick" }
    );
    let dir = root.join("target").join(format!("run-{prop}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let deadline = t0 + Duration::from_secs_f64(secs);
    let spawn = |k: u64, from: u64, secs: f64, n: u32, status: &Status| -> (Child, PathBuf, PathBuf) {
        let out = dir.join(format!("stats-{k}-{n}.json"));
        let case = dir.join(format!("case-{k}-{n}.json"));
        let engine = run_engine(prop, k);
        let worker = if second(engine) { "second-worker" } else { "worker" };
        let c = Command::new(bin_of(&bins, engine))
            .args([worker, prop, "--from", &from.to_string()])
            .args(["--secs", &format!("{secs:.3}"), "--max", &max.to_string()])
            .arg("--status")
            .arg(&status.path)
            .arg("--out")
            .arg(&out)
            .arg("--case")
            .arg(&case)
            .arg("--known")
            .arg(&known)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| die(&format!("cannot start {}: {e}", bin_of(&bins, engine))));
        (c, out, case)
    };
    let mut slots: Vec<Slot> = (0..WORKERS)
        .map(|k| {
            let status = Status::new(&dir, &format!("status-{k}"));
            let (c, out, case) = spawn(k, k, secs, 0, &status);
            Slot { k, child: Some(c), status, out, case, last: (0, Instant::now()), restarts: 0 }
        })
        .collect();
    let hang_after = Duration::from_secs(20);
    let mut total = Stats::default();
    let mut cases: Vec<Case> = Vec::new();
    let mut harness_error: Option<String> = None;
    let absorb = |total: &mut Stats, p: &Path| {
        if let Ok(b) = std::fs::read(p) {
            if let Ok(s) = serde_json::from_slice::<Stats>(&b) {
                total.merge(s);
            }
        }
    };
    let grace = deadline + Duration::from_secs(if thorough() { 90 } else { 60 });
    let mut stopping = false;
    loop {
        let mut running = 0;
        for i in 0..slots.len() {
            let s = &mut slots[i];
            let engine = run_engine(prop, s.k);
            let Some(child) = &mut s.child else { continue };
            let mut ended = child.try_wait().expect("wait");
            let mut hung = false;
            let shrinking = s.status.get(5) != 0;
            if ended.is_none() {
                let hb = s.status.get(0).wrapping_mul(0x9E37_79B9) ^ s.status.get(1);
                if hb != s.last.0 {
                    s.last = (hb, Instant::now());
                }
                // A long run still going at the deadline is abandoned.
                let late = Instant::now() > deadline + Duration::from_secs(3);
                let hang_after = if interpreted(engine).is_some() { hang_after * 6 } else { hang_after };
                hung = s.last.1.elapsed() > hang_after || (shrinking && Instant::now() > grace);
                if hung || ((stopping || late) && !shrinking) {
                    let _ = child.kill();
                    ended = Some(child.wait().expect("wait"));
                }
            }
            let Some(end) = ended else {
                running += 1;
                continue;
            };
            s.child = None;
            absorb(&mut total, &s.out);
            if s.case.exists() {
                cases.push(case::read(&s.case));
                stopping = true;
                continue;
            }
            if (stopping || Instant::now() > deadline) && !hung {
                continue;
            }
            if end.code() == Some(0) {
                continue;
            }
            // Aborted or hung in the middle of a run.
            total.crashes += 1;
            let run = s.status.get(0);
            let at = (s.status.call(), s.status.dup());
            if end.signal().is_none() && !hung {
                harness_error = Some(format!("worker {} exited with {end} in run {run}", s.k));
                stopping = true;
                continue;
            }
            let found = match engine {
                e if second(e) => Ok(None),
                _ => reproduce_crash(prop, bin_of(&bins, engine), &dir, base, run),
            };
            match found {
                Ok(Some(mut c)) => {
                    let known = Known::read(known.to_str().unwrap(), prop);
                    if known.matches(&c.found) {
                        known.count(&c.found, &mut total);
                    } else {
                        let bin = bin_of(&bins, engine).to_string();
                        let mut probe = c.clone();
                        let slow = c.found.class.contains("hang");
                        let limit = Duration::from_secs(if slow { 5 } else { 15 });
                        case::shrink(&mut c, Duration::from_secs(40), &mut |cfg, steps| {
                            probe.config = cfg.clone();
                            probe.steps = steps.to_vec();
                            run_apart(&bin, &dir, &probe, limit)
                        });
                        cases.push(c);
                        stopping = true;
                        continue;
                    }
                },
                Ok(None) => {
                    let k = format!("crash or hang in {:?} (belongs to {})", at.0, crash_tags(at.0, at.1).join(","));
                    *total.foreign.entry(k).or_insert(0) += 1;
                },
                Err(e) => {
                    harness_error = Some(e);
                },
            }
            s.restarts += 1;
            let left = (deadline.saturating_duration_since(Instant::now())).as_secs_f64();
            if left > 1.0 && s.restarts < 200 {
                let (c, out, case) = spawn(s.k, run + WORKERS, left, s.restarts, &s.status);
                s.child = Some(c);
                s.out = out;
                s.case = case;
                s.last = (0, Instant::now());
                running += 1;
            }
        }
        if running == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    let search = t0.elapsed().as_secs_f64();
    cases.sort_by_key(|c| c.run);
    let mut lines = Vec::new();
    let mut viol = 0;
    if let Some(c) = cases.first() {
        viol = 1;
        let replays = root.join("replays");
        std::fs::create_dir_all(&replays).expect("replays");
        let file = replays.join(format!("{prop}-seed{base}-run{}.json", c.run));
        case::write(&file, c);
        let again = run_apart(bin_of(&bins, &c.build), &dir, c, Duration::from_secs(20));
        let same = again.as_ref().is_some_and(|(f, d)| f.class == c.found.class && *d == c.digest);
        lines.push(format!(
            "run {} (seed {:#x}, {} build) violates {prop}: {}",
            c.run, c.seed, c.build, c.found.message
        ));
        lines.push(format!("{} steps, minimised to {}:", c.original_steps, c.steps.len()));
        lines.push(format!("  {}", serde_json::to_string(&c.config).unwrap()));
        for s in c.steps.iter().take(40) {
            lines.push(format!("  {}", serde_json::to_string(s).unwrap()));
        }
        lines.push(format!(
            "replay in a fresh process: {}",
            if same { "identical" } else { "NOT identical" }
        ));
        lines.push(format!("VIOLATION property={prop} replay={}", file.display()));
    }
    for (l, n) in total.foreign.iter().filter(|(l, _)| l.starts_with("finding: ")) {
        let what = l.strip_prefix("finding: property=").unwrap();
        lines.push(format!("KNOWN-FINDING: property={what} ({n} runs)"));
    }
    evidence(&root, prop, base, &total, t0.elapsed().as_secs_f64(), search, viol);
    let _ = std::fs::remove_dir_all(&dir);
    println!(
        "colasim: {} runs, {} steps, {} edits, {} distinct states in {:.1} s",
        total.runs,
        total.steps,
        total.edits,
        total.states.len(),
        t0.elapsed().as_secs_f64()
    );
    for (k, n) in total.foreign.iter().filter(|(l, _)| !l.starts_with("finding: ")) {
        println!("colasim: {n} runs broke another property: {k}");
    }
    for l in lines {
        println!("{l}");
    }
    if viol > 0 {
        return ExitCode::from(1);
    }
    if let Some(e) = harness_error {
        die(&e);
    }
    if total.runs == 0 && total.crashes == 0 {
        die("no run was completed");
    }
    ExitCode::SUCCESS
}

fn reproduce_crash(prop: &'static str, bin: &str, dir: &Path, base: u64, run: u64) -> Result<Option<Case>, String> {
    let st = Status::new(dir, "one.status");
    let trace = dir.join("one.trace");
    let child = Command::new(bin)
        .args(["one", prop, "--run", &run.to_string()])
        .arg("--status")
        .arg(&st.path)
        .arg("--trace")
        .arg(&trace)
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    match supervise(child, &st, Duration::from_secs(30)) {
        // It was only slow.
        Outcome::Done(..) => return Ok(None),
        Outcome::Died(..) | Outcome::Hung(..) => {},
    }
    let text = std::fs::read_to_string(&trace).unwrap_or_default();
    let mut lines = text.lines();
    let Some(first) = lines.next() else { return Ok(None) };
    let config: Config = serde_json::from_str(first).map_err(|e| e.to_string())?;
    let steps: Vec<Step> = lines.filter_map(|l| serde_json::from_str(l).ok()).collect();
    let mut c = Case {
        property: prop.into(),
        build: run_engine(prop, run).into(),
        verif_seed: base,
        run,
        seed: run_seed(base, prop, run),
        found: Found { class: String::new(), message: String::new(), step: steps.len() },
        digest: 0,
        original_steps: steps.len(),
        config,
        steps,
    };
    match run_apart(bin, dir, &c, Duration::from_secs(20)) {
        Some((f, d)) => {
            c.found = f;
            c.digest = d;
            Ok(Some(c))
        },
        None => Ok(None),
    }
}

fn replay(args: &[String]) -> ExitCode {
    let c = case::read(Path::new(&args[2]));
    if c.build != build_name() && interpreted(&c.build).is_none() {
        // The caller picks the binary; see /verif/replay.
        die(&format!("this file was recorded with the {} build", c.build));
    }
    let dir = std::env::temp_dir().join(format!("colasim-replay-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let me = std::env::current_exe().unwrap();
    let r = run_apart(me.to_str().unwrap(), &dir, &c, Duration::from_secs(20));
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        Some((f, d)) => {
            println!("step {}: {} [{}]", f.step, f.message, f.class);
            println!("identical to the recording: {}", f.class == c.found.class && d == c.digest);
            println!("VIOLATION property={} replay={}", c.property, args[2]);
            ExitCode::from(1)
        },
        None => {
            println!("the recorded violation of {} does not occur", c.property);
            ExitCode::SUCCESS
        },
    }
}

fn evidence(root: &Path, prop: &str, base: u64, st: &Stats, wall: f64, search: f64, viol: u64) {
    let per_hour = |n: u64| (n as f64 / search.max(0.001) * 3600.0) as u64;
    let mut by: BTreeMap<&str, u64> = BTreeMap::new();
    for (k, v) in &st.classes {
        by.insert(k, *v);
    }
    // The shortest ones.
    let mut samples = st.samples.clone();
    samples.sort_by_key(|s| s["steps_in_all"].as_u64());
    samples.truncate(3);
    let real = match prop {
        "C19" => "all of cola (/repo/src): interpreted by Miri with its default aliasing, initialisation, bounds and validity checks (7 of 8 workers), and compiled with AddressSanitizer, debug assertions and the standard library's unsafe preconditions (1 of 8)",
        "C20" => "all of cola (/repo/src), optimised, every basic block of the library, every byte copied and every byte allocated counted as it executes (8 of 8 workers)",
        "C22" => "all of cola (/repo/src), natively, and interpreted by Miri for a 32-bit (armv7) and a big-endian (s390x) machine, which have other vector and atomic instructions and another variable-length integer codec",
        "C21" => "all of cola (/repo/src), optimised, with a counting allocator (8 of 8 workers)",
        _ => "all of cola (/repo/src), built with its serde and encode features, optimised with assertions and overflow checks (4 of 8 workers), as a release build (3 of 8) and as a plain debug build (1 of 8)",
    };
    let simulated = match prop {
        "C19" => "users, network, disks, crashes, clock, membership; the sessions interpreted by Miri are generated against the pinned copy in /verif/baseline and replayed step by step on /repo's code",
        "C22" => "users, network, disks, crashes, clock, membership; the other machine's processor and operating system (Miri); the sessions are generated against the pinned copy in /verif/baseline",
        "C20" | "C21" => "users, network, disks, crashes, clock, membership; every session is also executed on the pinned copy in /verif/baseline, whose counts are the yardstick",
        _ => "users, network, disks, crashes, clock, membership; serde_json and bincode as wire formats; for C16 the other build is the pinned copy in /verif/baseline",
    };
    let v = serde_json::json!({
        "property": prop,
        "tier": if thorough() { "thorough" } else { "quick" },
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": st.orders.len(),
            "rule": "One evaluation is one simulated session: its shape (peers, ids, document, workload mix, network, disks, crashes, fault rates) and every event in it are drawn from one seed derived from VERIF_SEED, the property and the run number. Non-trivial: at least two edits and at least one injected fault or reordering network. Distinct: by the digest of the order of deliveries and of every offset and range cola returned.",
            "samples": samples,
            "runs_by_size": by,
            "runs_nontrivial": st.nontrivial,
            "runs_and_seeds_per_hour": per_hour(st.runs),
            "steps": st.steps,
            "edits": st.edits,
            "simulated_ms": st.sim_time,
            "simulated_hours": st.sim_time as f64 / 3.6e6,
            "faults_injected": st.faults,
            "conditions_reached": st.probes,
            "distinct_session_states": st.states.len(),
            "distinct_session_states_measure": "distinct pairs of (set of delivered edits, resulting buffer) over all peers and moments, capped at 400000 per worker",
            "failures_of_other_properties": st.foreign,
            "worker_crashes": st.crashes,
            "components": {
                "real": real,
                "simulated": simulated,
                "stub": "none inside cola",
            },
        },
        "assumptions": [
            "Replica ids are never reused within a session, as cola's documentation requires.",
            "A restarted peer takes a fresh id.",
            "Characters are numbered by the simulator; cola never sees text.",
            "Runs are sampled, not enumerated: silence is evidence, not proof.",
        ],
        "wall_s": wall,
        "violations": viol,
    });
    let dir = root.join("evidence");
    std::fs::create_dir_all(&dir).expect("evidence");
    let mut f = std::fs::File::create(dir.join(format!("{prop}.json"))).expect("evidence");
    writeln!(f, "{}", serde_json::to_string_pretty(&v).unwrap()).expect("evidence");
}
