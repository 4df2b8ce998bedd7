//! Command line: `check`, `replay`, `shard` (one worker process), `one`, `selftest`.
//!
//! A check is a fixed number of simulated runs, split over worker processes. A
//! worker process executes its share one run after another, so even state leaking
//! from run to run inside the code under test is part of a repeatable sequence.

use crate::core::{fnv, install_panic_hook, mix, Input, Outcome, Viol};
use crate::props::{self, Prop};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const HANG: Duration = Duration::from_secs(120);

#[derive(Clone)]
struct Conf {
    tier: String,
    seed: u64,
    workers: u64,
    root: PathBuf,
}

fn conf() -> Conf {
    let tier = std::env::var("COMPOSIM_TIER").unwrap_or_else(|_| "quick".into());
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse::<u64>().ok())
        .unwrap_or(1);
    let workers = std::env::var("COMPOSIM_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(8u64)
        .max(1);
    let root = std::env::var("COMPOSIM_ROOT").map_or_else(|_| PathBuf::from("/verif"), PathBuf::from);
    Conf {
        tier,
        seed,
        workers,
        root,
    }
}

fn run_seed(p: &Prop, seed: u64, idx: u64) -> u64 {
    mix(mix(seed) ^ fnv(p.id.as_bytes()) ^ idx.wrapping_mul(0x9E37_79B9))
}

fn runs_for(p: &Prop, tier: &str) -> (u64, Duration) {
    let scale = std::env::var("COMPOSIM_RUNS").ok().and_then(|s| s.parse::<u64>().ok());
    let (n, cap) = if tier == "thorough" {
        (p.quick_runs * 25, Duration::from_secs(700))
    } else {
        (p.quick_runs, Duration::from_secs(150))
    };
    (scale.unwrap_or(n), cap)
}

pub fn main() -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    install_panic_hook();
    match a.as_slice() {
        ["check", id] => check(id),
        ["shard", id, w, n, runs, cap, dir] => shard(
            id,
            w.parse().unwrap_or(0),
            n.parse().unwrap_or(1),
            runs.parse().unwrap_or(0),
            cap.parse().unwrap_or(60),
            Path::new(dir),
        ),
        ["one", id, seed] => one(id, seed.parse().unwrap_or(0)),
        ["replay", file] => replay(Path::new(file)),
        ["selftest"] => selftest(),
        ["list"] => {
            for p in props::ALL {
                println!("{} {}", p.id, p.quick_runs);
            }
            0
        }
        _ => {
            eprintln!("usage: composim check ID | replay FILE | one ID SEED | selftest | list");
            2
        }
    }
}

fn find(id: &str) -> &'static Prop {
    props::ALL.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

// ------------------------------------------------------------------ known findings

/// `finding property=<id> class=<class> :: <description>`
fn known(root: &Path, id: &str) -> Vec<(String, String)> {
    let text = fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("finding property="))
        .filter_map(|l| l.split_once(" class="))
        .filter(|(p, _)| *p == id)
        .filter_map(|(_, rest)| rest.split_once(" :: "))
        .map(|(c, d)| (c.trim().to_owned(), d.trim().to_owned()))
        .collect()
}

// ------------------------------------------------------------------ worker process

fn shard(id: &str, w: u64, n: u64, runs: u64, cap: u64, dir: &Path) -> i32 {
    let p = find(id);
    let c = conf();
    let known = known(&c.root, id);
    let prog = fs::File::create(dir.join(format!("prog.{w}"))).expect("progress file");
    let start = Instant::now();
    let mut counts: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut done = 0u64;
    let mut events = 0u64;
    let mut draws = 0u64;
    let mut nontrivial = 0u64;
    let mut all = 0xfeedu64;
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut violation: Option<(u64, Outcome)> = None;
    let mut capped = false;
    let mut idx = w;
    while idx < runs {
        if start.elapsed().as_secs() >= cap {
            capped = true;
            break;
        }
        let _ = prog.write_all_at(&(idx + 1).to_le_bytes(), 0);
        let out = p.one(Input::Seed(run_seed(p, c.seed, idx)), false);
        done += 1;
        events += out.events;
        draws += out.tape.len() as u64;
        all = mix(all ^ out.hash);
        for (k, v) in &out.counts {
            *counts.entry(k).or_default() += v;
        }
        if out.nontrivial {
            nontrivial += 1;
            hashes.insert(out.hash);
        }
        if let Err(v) = &out.result {
            if let Some((k, _)) = known.iter().find(|(k, _)| *k == v.class) {
                *known_hits.entry(k.clone()).or_default() += 1;
            } else {
                violation = Some((idx, out));
                break;
            }
        }
        idx += n;
    }
    let mut o = String::new();
    let _ = writeln!(o, "done {done}");
    let _ = writeln!(o, "events {events}");
    let _ = writeln!(o, "draws {draws}");
    let _ = writeln!(o, "nontrivial {nontrivial}");
    let _ = writeln!(o, "capped {}", u8::from(capped));
    let _ = writeln!(o, "all {all}");
    for (k, v) in counts {
        let _ = writeln!(o, "count {v} {k}");
    }
    for (k, v) in known_hits {
        let _ = writeln!(o, "known {v} {k}");
    }
    for h in &hashes {
        let _ = writeln!(o, "h {h}");
    }
    if let Some((i, out)) = violation {
        let v = out.result.err().unwrap_or(Viol {
            class: String::new(),
            msg: String::new(),
        });
        let _ = writeln!(o, "viol {i} {}", tape_text(&out.tape));
        let _ = writeln!(o, "class {}", one_line(&v.class));
        let _ = writeln!(o, "msg {}", one_line(&v.msg));
    }
    let _ = writeln!(o, "end");
    fs::write(dir.join(format!("out.{w}")), o).expect("shard result");
    0
}

fn one_line(x: &str) -> String {
    x.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}
fn tape_text(t: &[u32]) -> String {
    let mut s = String::new();
    for (i, x) in t.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{x}");
    }
    if s.is_empty() {
        s.push('-');
    }
    s
}
fn parse_tape(s: &str) -> Vec<u32> {
    s.split(',').filter_map(|x| x.trim().parse().ok()).collect()
}

fn one(id: &str, seed: u64) -> i32 {
    let out = find(id).one(Input::Seed(seed), true);
    for l in &out.log {
        println!("  {l}");
    }
    println!("hash {:016x} events {} draws {}", out.hash, out.events, out.tape.len());
    match out.result {
        Ok(()) => 0,
        Err(v) => {
            println!("VIOLATES {} :: {}", v.class, v.msg);
            1
        }
    }
}

// ------------------------------------------------------------------ check

#[derive(Default)]
struct Shard {
    done: u64,
    events: u64,
    draws: u64,
    nontrivial: u64,
    capped: bool,
    all: u64,
    counts: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    hashes: Vec<u64>,
    viol: Option<(u64, Vec<u32>, String, String)>,
    complete: bool,
}

fn read_shard(text: &str) -> Shard {
    let mut s = Shard::default();
    let mut tape = None;
    let mut class = String::new();
    for l in text.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "done" => s.done = v.parse().unwrap_or(0),
            "events" => s.events = v.parse().unwrap_or(0),
            "draws" => s.draws = v.parse().unwrap_or(0),
            "nontrivial" => s.nontrivial = v.parse().unwrap_or(0),
            "capped" => s.capped = v == "1",
            "all" => s.all = v.parse().unwrap_or(0),
            "h" => s.hashes.push(v.parse().unwrap_or(0)),
            "count" | "known" => {
                if let Some((n, what)) = v.split_once(' ') {
                    let m = if k == "count" { &mut s.counts } else { &mut s.known };
                    m.insert(what.to_owned(), n.parse().unwrap_or(0));
                }
            }
            "viol" => {
                if let Some((i, t)) = v.split_once(' ') {
                    tape = Some((i.parse().unwrap_or(0), parse_tape(t)));
                }
            }
            "class" => class = v.to_owned(),
            "msg" => {
                if let Some((i, t)) = tape.take() {
                    s.viol = Some((i, t, class.clone(), v.to_owned()));
                }
            }
            "end" => s.complete = true,
            _ => {}
        }
    }
    s
}

struct Replay {
    property: String,
    class: String,
    msg: String,
    seed: u64,
    /// tape | run (single run from its seed) | sequence (worker history)
    kind: String,
    tape: Vec<u32>,
    index: u64,
    workers: u64,
    trace: Vec<String>,
}

impl Replay {
    fn text(&self) -> String {
        let mut o = String::from("composim-replay 1\n");
        let _ = writeln!(o, "property {}", self.property);
        let _ = writeln!(o, "class {}", one_line(&self.class));
        let _ = writeln!(o, "message {}", one_line(&self.msg));
        let _ = writeln!(o, "seed {}", self.seed);
        let _ = writeln!(o, "kind {}", self.kind);
        let _ = writeln!(o, "index {}", self.index);
        let _ = writeln!(o, "workers {}", self.workers);
        let _ = writeln!(o, "tape {}", tape_text(&self.tape));
        let _ = writeln!(o, "# schedule, operations and faults of the run:");
        for l in &self.trace {
            let _ = writeln!(o, "# {}", one_line(l));
        }
        o
    }
    fn parse(text: &str) -> Option<Self> {
        let mut r = Replay {
            property: String::new(),
            class: String::new(),
            msg: String::new(),
            seed: 1,
            kind: "tape".into(),
            tape: Vec::new(),
            index: 0,
            workers: 8,
            trace: Vec::new(),
        };
        if !text.starts_with("composim-replay 1") {
            return None;
        }
        for l in text.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "property" => r.property = v.into(),
                "class" => r.class = v.into(),
                "message" => r.msg = v.into(),
                "seed" => r.seed = v.parse().ok()?,
                "kind" => r.kind = v.into(),
                "index" => r.index = v.parse().ok()?,
                "workers" => r.workers = v.parse().ok()?,
                "tape" => r.tape = parse_tape(v),
                _ => {}
            }
        }
        Some(r)
    }
}

fn replay(file: &Path) -> i32 {
    let Some(r) = fs::read_to_string(file).ok().and_then(|t| Replay::parse(&t)) else {
        eprintln!("cannot read replay file {}", file.display());
        return 2;
    };
    let p = find(&r.property);
    std::env::set_var("VERIF_SEED", r.seed.to_string());
    let quiet = std::env::var("COMPOSIM_QUIET").is_ok();
    let out = match r.kind.as_str() {
        "run" => p.one(Input::Seed(run_seed(p, r.seed, r.index)), true),
        "repeat" => {
            let mut first = None;
            let mut out = Outcome::empty();
            for i in (0..=r.index).chain(0..=r.index) {
                out = p.one(Input::Seed(run_seed(p, r.seed, i)), false);
                if i == r.index && *first.get_or_insert(out.hash) != out.hash {
                    out.result = crate::core::viol(UNREPEATABLE, r.msg.clone());
                }
            }
            out
        }
        "sequence" => {
            let mut i = r.index % r.workers;
            while i < r.index {
                let _ = p.one(Input::Seed(run_seed(p, r.seed, i)), false);
                i += r.workers;
            }
            p.one(Input::Seed(run_seed(p, r.seed, r.index)), true)
        }
        _ => p.one(Input::Tape(r.tape.clone()), true),
    };
    if !quiet {
        for l in &out.log {
            println!("  {l}");
        }
    }
    match out.result {
        Ok(()) => {
            println!("replay: no violation");
            0
        }
        Err(v) => {
            println!("class {}", one_line(&v.class));
            println!("message {}", v.msg);
            println!("VIOLATION property={} replay={}", r.property, file.display());
            1
        }
    }
}

/// Replay in a fresh process; does it fail with this class?
fn reproduces(file: &Path, class: &str) -> bool {
    let Ok(exe) = std::env::current_exe() else { return false };
    let Ok(mut ch) = Command::new(exe)
        .args(["replay", &file.display().to_string()])
        .env("COMPOSIM_QUIET", "1")
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
    else {
        return false;
    };
    let status = wait_for(&mut ch, HANG * 3);
    let mut out = String::new();
    if let Some(mut o) = ch.stdout.take() {
        let _ = o.read_to_string(&mut out);
    }
    match status {
        Some(s) if s.code() == Some(1) => out.lines().any(|l| l == format!("class {}", one_line(class))),
        Some(s) => s.code().is_none() && class == "crash",
        None => class == "hang",
    }
}

fn wait_for(ch: &mut Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = ch.try_wait() {
            return Some(s);
        }
        if t.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn minimise(f: &Prop, class: &str, tape: Vec<u32>, budget: Duration) -> Vec<u32> {
    let t0 = Instant::now();
    let fails = |t: &[u32]| -> Option<Vec<u32>> {
        let out = f.one(Input::Tape(t.to_vec()), false);
        match out.result {
            Err(v) if v.class == class => Some(out.tape),
            _ => None,
        }
    };
    let Some(mut best) = fails(&tape) else { return tape };
    let better = |new: &Vec<u32>, old: &Vec<u32>| {
        new.len() < old.len() || (new.len() == old.len() && new < old)
    };
    let trim = |mut t: Vec<u32>| {
        while t.last() == Some(&0) {
            t.pop();
        }
        t
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if t0.elapsed() > budget {
                    return trim(best);
                }
                let mut t = best.clone();
                t.drain(i..(i + size).min(t.len()));
                match fails(&t) {
                    Some(n) if better(&trim(n.clone()), &trim(best.clone())) => best = n,
                    _ => i += size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks, then reduce values
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if t0.elapsed() > budget {
                    return trim(best);
                }
                let mut t = best.clone();
                let end = (i + size).min(t.len());
                if t[i..end].iter().any(|x| *x != 0) {
                    t[i..end].iter_mut().for_each(|x| *x = 0);
                    if let Some(n) = fails(&t) {
                        if better(&trim(n.clone()), &trim(best.clone())) {
                            best = n;
                        }
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        for i in 0..best.len() {
            if t0.elapsed() > budget || i >= best.len() {
                break;
            }
            let mut lo = 0;
            while i < best.len() && lo < best[i] {
                if t0.elapsed() > budget {
                    break;
                }
                let mid = lo + (best[i] - lo) / 2;
                let mut t = best.clone();
                t[i] = mid;
                match fails(&t) {
                    Some(n) if better(&trim(n.clone()), &trim(best.clone())) => best = n,
                    _ => lo = mid + 1,
                }
            }
        }
        if best == before {
            return trim(best);
        }
    }
}

fn js(x: &str) -> String {
    let mut o = String::from("\"");
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

const UNREPEATABLE: &str = "unrepeatable";

fn check(id: &str) -> i32 {
    let p = find(id);
    let c = conf();
    let t0 = Instant::now();
    let (runs, cap) = runs_for(p, &c.tier);
    println!("composim: property={id} tier={} seed={} runs={runs} workers={}", c.tier, c.seed, c.workers);
    let dir = std::env::temp_dir().join(format!("composim.{}.{id}", std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    if let Err(e) = fs::create_dir_all(&dir) {
        eprintln!("scratch: {e}");
        return 2;
    }
    let scratch = Scratch(dir.clone());
    let exe = match std::env::current_exe() {
        Ok(e) => e,
        Err(e) => {
            eprintln!("exe: {e}");
            return 2;
        }
    };
    let mut kids: Vec<(u64, Option<Child>, Instant, u64, Option<&'static str>)> = Vec::new();
    for w in 0..c.workers {
        let ch = Command::new(&exe)
            .args([
                "shard",
                id,
                &w.to_string(),
                &c.workers.to_string(),
                &runs.to_string(),
                &cap.as_secs().to_string(),
                &dir.display().to_string(),
            ])
            .env("VERIF_SEED", c.seed.to_string())
            .stderr(Stdio::null())
            .spawn();
        match ch {
            Ok(ch) => kids.push((w, Some(ch), Instant::now(), 0, None)),
            Err(e) => {
                eprintln!("spawn: {e}");
                return 2;
            }
        }
    }
    let progress = |w: u64| -> u64 {
        let mut b = [0u8; 8];
        fs::File::open(dir.join(format!("prog.{w}")))
            .and_then(|f| f.read_exact_at(&mut b, 0))
            .map_or(0, |()| u64::from_le_bytes(b))
    };
    loop {
        let mut live = false;
        for (w, ch, since, last, dead) in &mut kids {
            let Some(child) = ch else { continue };
            match child.try_wait() {
                Ok(Some(st)) => {
                    if !st.success() {
                        *dead = Some("crash");
                    }
                    *ch = None;
                }
                _ => {
                    live = true;
                    let now = progress(*w);
                    if now != *last {
                        *last = now;
                        *since = Instant::now();
                    } else if since.elapsed() > HANG {
                        let _ = child.kill();
                        let _ = child.wait();
                        *dead = Some("hang");
                        *ch = None;
                    }
                }
            }
        }
        if !live {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut sum = Shard::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut viols: Vec<(u64, Vec<u32>, String, String)> = Vec::new();
    for (w, _, _, _, dead) in &kids {
        if let Some(why) = dead {
            let i = progress(*w).saturating_sub(1);
            viols.push((i, Vec::new(), (*why).to_owned(), format!("the process under test ended with a {why} in run {i}")));
            continue;
        }
        let s = read_shard(&fs::read_to_string(dir.join(format!("out.{w}"))).unwrap_or_default());
        if !s.complete {
            eprintln!("worker {w} gave no result");
            return 2;
        }
        sum.done += s.done;
        sum.events += s.events;
        sum.draws += s.draws;
        sum.nontrivial += s.nontrivial;
        sum.capped |= s.capped;
        sum.all = mix(sum.all ^ s.all);
        distinct.extend(s.hashes);
        for (k, v) in s.counts {
            *sum.counts.entry(k).or_default() += v;
        }
        for (k, v) in s.known {
            *sum.known.entry(k).or_default() += v;
        }
        viols.extend(s.viol);
    }
    viols.sort_by_key(|v| v.0);
    let run_s = t0.elapsed().as_secs_f64();

    // determinism spot check: the first runs again, from their seeds and from their tapes
    let mut redo = 0;
    if viols.is_empty() {
        for i in 0..runs.min(12) {
            let a = p.one(Input::Seed(run_seed(p, c.seed, i)), false);
            let b = p.one(Input::Tape(a.tape.clone()), false);
            if a.hash != b.hash || a.tape != b.tape || a.result.is_ok() != b.result.is_ok() {
                // The simulator is repeatable, so it is the code under test that is not: that
                // is C05's to decide, and leaves what the other checks explored as it is.
                println!("note: run {i} of {id} does not repeat exactly");
                if id == "C05" {
                    viols.push((i, a.tape, UNREPEATABLE.to_owned(), "the same run, done again in the same process, goes another way: what the library does depends on what was done before".into()));
                }
                break;
            }
            redo += 1;
        }
    }

    let mut code = 0;
    let mut vtext = String::new();
    if let Some((i, tape, class, msg)) = viols.first() {
        code = 1;
        let rdir = c.root.join("replays");
        let _ = fs::create_dir_all(&rdir);
        let file = rdir.join(format!("{id}-seed{}.replay", c.seed));
        let mut r = Replay {
            property: id.to_owned(),
            class: class.clone(),
            msg: msg.clone(),
            seed: c.seed,
            kind: "tape".into(),
            tape: tape.clone(),
            index: *i,
            workers: c.workers,
            trace: Vec::new(),
        };
        let mut ok = false;
        if class == "hang" || class == "crash" || class == UNREPEATABLE {
            r.kind = if class == UNREPEATABLE { "repeat" } else { "run" }.into();
            let _ = fs::write(&file, r.text());
            ok = reproduces(&file, class);
        } else {
            let small = minimise(p, class, tape.clone(), Duration::from_secs(90));
            let out = p.one(Input::Tape(small.clone()), true);
            if let Err(v) = &out.result {
                r.msg = v.msg.clone();
            }
            r.tape = small;
            r.trace = out.log;
            let _ = fs::write(&file, r.text());
            ok |= reproduces(&file, class);
            if !ok {
                r.tape = tape.clone();
                r.msg = msg.clone();
                r.trace = p.one(Input::Tape(tape.clone()), true).log;
                let _ = fs::write(&file, r.text());
                ok = reproduces(&file, class);
            }
        }
        if !ok {
            r.kind = "sequence".into();
            let _ = fs::write(&file, r.text());
            ok = reproduces(&file, class);
        }
        println!("run {i}: {class} :: {}", r.msg);
        if !ok {
            println!("note: the replay did not reproduce in a fresh process");
        }
        println!("choices: {} -> {}", tape.len(), r.tape.len());
        println!("VIOLATION property={id} replay={}", file.display());
        vtext = format!("{class} :: {}", r.msg);
    }
    for (k, n) in &sum.known {
        let d = known(&c.root, id)
            .into_iter()
            .find(|(c, _)| c == k)
            .map(|x| x.1)
            .unwrap_or_default();
        println!("KNOWN-FINDING: property={id} {d} (class {k}, {n} runs)");
    }

    // samples: first non-trivial runs, written out
    let mut samples = Vec::new();
    for i in 0..40.min(runs) {
        if samples.len() >= 3 {
            break;
        }
        if viols.is_empty() {
            let o = p.one(Input::Seed(run_seed(p, c.seed, i)), true);
            if o.nontrivial {
                let mut t = format!("run {i} hash {:016x} events {}: ", o.hash, o.events);
                t.push_str(&o.log.join(" ; "));
                let mut n = t.len().min(1500);
                while !t.is_char_boundary(n) {
                    n -= 1;
                }
                t.truncate(n);
                samples.push(t);
            }
        } else {
            samples.push(vtext.clone());
            break;
        }
    }
    let hours = run_s / 3600.0;
    let mut e = String::from("{\n");
    let _ = writeln!(e, " \"property\": {},", js(id));
    let _ = writeln!(e, " \"tier\": {},", js(&c.tier));
    let _ = writeln!(e, " \"seed\": {},", c.seed);
    let _ = writeln!(e, " \"level\": \"exploration\",");
    let _ = writeln!(e, " \"coverage\": {{");
    let _ = writeln!(e, "  \"evaluations\": {},", sum.done);
    let _ = writeln!(e, "  \"distinct_nontrivial\": {},", distinct.len());
    let _ = writeln!(e, "  \"rule\": {},", js(p.rule));
    let _ = writeln!(e, "  \"planned_runs\": {runs},");
    let _ = writeln!(e, "  \"stopped_by_wall_cap\": {},", sum.capped);
    let _ = writeln!(e, "  \"nontrivial_runs\": {},", sum.nontrivial);
    let _ = writeln!(e, "  \"simulated_runs_per_hour\": {:.0},", sum.done as f64 / hours.max(1e-9));
    let _ = writeln!(e, "  \"seeds_per_hour\": {:.0},", sum.done as f64 / hours.max(1e-9));
    let _ = writeln!(e, "  \"simulated_time\": {},", js("the code under test reads no clock; simulated time is counted in simulator events"));
    let _ = writeln!(e, "  \"simulator_events\": {},", sum.events);
    let _ = writeln!(e, "  \"choices_drawn\": {},", sum.draws);
    let _ = writeln!(e, "  \"distinct_measure\": \"64-bit hash over the run's sequence of operations, scheduling decisions and injected faults\",");
    let _ = writeln!(e, "  \"batch_hash\": {},", js(&format!("{:016x}", sum.all)));
    let _ = writeln!(e, "  \"runs_repeated_for_determinism\": {redo},");
    let _ = writeln!(e, "  \"real_components\": {},", js(p.real));
    let _ = writeln!(e, "  \"stubbed_components\": {},", js(p.stub));
    let _ = writeln!(e, "  \"fault_and_probe_counts\": {{");
    let items: Vec<String> = sum.counts.iter().map(|(k, v)| format!("   {}: {v}", js(k))).collect();
    let _ = writeln!(e, "{}", items.join(",\n"));
    let _ = writeln!(e, "  }},");
    let zero: Vec<String> = p
        .probes
        .iter()
        .filter(|k| sum.counts.get(**k).copied().unwrap_or(0) == 0)
        .map(|k| js(k))
        .collect();
    let _ = writeln!(e, "  \"probes_never_hit\": [{}],", zero.join(", "));
    let _ = writeln!(e, "  \"samples\": [\n   {}\n  ]", samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",\n   "));
    let _ = writeln!(e, " }},");
    let _ = writeln!(e, " \"assumptions\": [{}],", p.assume.iter().map(|a| js(a)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(e, " \"violations\": {},", viols.len());
    let _ = writeln!(e, " \"wall_s\": {:.2}", t0.elapsed().as_secs_f64());
    e.push_str("}\n");
    let edir = c.root.join("evidence");
    let _ = fs::create_dir_all(&edir);
    if let Err(err) = fs::write(edir.join(format!("{id}.json")), e) {
        eprintln!("evidence: {err}");
        return 2;
    }
    println!(
        "composim: property={id} runs={} distinct_nontrivial={} events={} wall={:.1}s {}",
        sum.done,
        distinct.len(),
        sum.events,
        t0.elapsed().as_secs_f64(),
        if code == 0 { "held" } else { "VIOLATED" }
    );
    if !zero.is_empty() {
        println!("composim: probes never hit: {}", zero.join(" "));
    }
    let _ = std::io::stdout().flush();
    drop(scratch);
    code
}

// ------------------------------------------------------------------ determinism self test

/// For many seeds: same run twice in this process, once from the tape, in separate
/// processes, and under several worker counts; every log must be the same.
fn selftest() -> i32 {
    let c = conf();
    let exe = std::env::current_exe().expect("exe");
    let mut bad = 0;
    for p in props::ALL {
        let mut all = 0u64;
        for i in 0..200u64 {
            let s = run_seed(p, c.seed + 7, i);
            let a = p.one(Input::Seed(s), true);
            let b = p.one(Input::Tape(a.tape.clone()), true);
            all = mix(all ^ a.hash);
            if a.log != b.log || a.hash != b.hash || a.tape != b.tape {
                println!("{} run {i}: tape replay differs", p.id);
                bad += 1;
            }
            if i < 12 {
                let o = Command::new(&exe)
                    .args(["one", p.id, &s.to_string()])
                    .output()
                    .expect("child");
                let o = String::from_utf8_lossy(&o.stdout).into_owned();
                if !o.contains(&format!("hash {:016x}", a.hash)) {
                    println!("{} run {i}: other process differs", p.id);
                    bad += 1;
                }
            }
        }
        println!("{} 200 seeds, batch hash {all:016x}", p.id);
    }
    println!("selftest: {bad} divergences");
    i32::from(bad > 0)
}
