//! Parallel depth-first exploration, supervision, evidence.
use crate::eng::env::{guarded, quiet_hook};
use crate::eng::explore::*;
use crate::eng::fams as fam;
use std::collections::{BTreeMap, VecDeque};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

const STACK: usize = 256 << 20;
/// One execution may take this long before it counts as endless.
const HANG: Duration = Duration::from_secs(60);

struct Item {
    scn: usize,
    prefix: Vec<(u32, u32)>,
    keep: usize,
}
#[derive(Default)]
struct Acc {
    stats: Stats,
    complete: bool,
    sample: Vec<(u32, u32)>,
    secs: f64,
}
struct Found {
    scn: usize,
    trace: Vec<(u32, u32)>,
    viol: Viol,
}
struct Shared {
    queue: Mutex<VecDeque<Item>>,
    cv: Condvar,
    idle: AtomicUsize,
    open: AtomicUsize,
    stop: AtomicBool,
    acc: Vec<Mutex<Acc>>,
    found: Mutex<Vec<Found>>,
    known: Mutex<BTreeMap<String, u64>>,
    listed: Vec<String>,
    harness: Mutex<Vec<String>>,
    deadline: Instant,
    beat: Vec<AtomicU64>,
}

fn box_record(f: &fs::File, scn: usize, t: &[(u32, u32)]) {
    let mut b = Vec::with_capacity(12 + t.len() * 8);
    b.extend_from_slice(&(scn as u32).to_le_bytes());
    b.extend_from_slice(&(t.len() as u32).to_le_bytes());
    for (c, n) in t {
        b.extend_from_slice(&c.to_le_bytes());
        b.extend_from_slice(&n.to_le_bytes());
    }
    let _ = f.write_all_at(&b, 0);
}
fn box_read(p: &Path) -> Option<(usize, Vec<(u32, u32)>)> {
    let b = fs::read(p).ok()?;
    let w = |i: usize| b.get(i * 4..i * 4 + 4).map(|x| u32::from_le_bytes(x.try_into().unwrap()));
    let scn = w(0)?;
    if scn == u32::MAX {
        return None;
    }
    let n = w(1)? as usize;
    let mut t = Vec::new();
    for i in 0..n {
        t.push((w(2 + 2 * i)?, w(3 + 2 * i)?));
    }
    Some((scn as usize, t))
}

/// `MC_SLOW` reports executions that take longer (development only).
fn slow_limit() -> &'static Option<f64> {
    static L: std::sync::OnceLock<Option<f64>> = std::sync::OnceLock::new();
    L.get_or_init(|| std::env::var("MC_SLOW").ok().and_then(|x| x.parse().ok()))
}
fn run_one(s: &Scenario, prefix: Vec<(u32, u32)>, thorough: bool, notes: bool) -> (Ctx, Result<Res, String>) {
    let mut ctx = Ctx::new(prefix, thorough);
    ctx.want_notes = notes || slow_limit().is_some();
    let t = Instant::now();
    let r = guarded(|| (s.run)(&mut ctx));
    if let Some(l) = slow_limit() {
        if t.elapsed().as_secs_f64() > *l {
            eprintln!("SLOW {} {:?} {:?}", s.name, t.elapsed(), ctx.notes);
        }
    }
    (ctx, r)
}

fn thread_main(sh: &Shared, scns: &[Scenario], thorough: bool, me: usize, bb: &Path) {
    let f = fs::File::create(bb.join(format!("t{me}"))).expect("HARNESS: black box");
    loop {
        let item = {
            let mut q = sh.queue.lock().unwrap();
            loop {
                if sh.stop.load(Relaxed) {
                    return;
                }
                if let Some(i) = q.pop_front() {
                    break i;
                }
                if sh.open.load(Relaxed) == 0 {
                    sh.cv.notify_all();
                    return;
                }
                sh.idle.fetch_add(1, Relaxed);
                let (g, _) = sh.cv.wait_timeout(q, Duration::from_millis(20)).unwrap();
                q = g;
                sh.idle.fetch_sub(1, Relaxed);
            }
        };
        let s = &scns[item.scn];
        let (mut prefix, mut keep) = (item.prefix, item.keep);
        if keep + 1 == prefix.len() && prefix[keep].0 + 1 < prefix[keep].1 && sh.idle.load(Relaxed) > 0 {
            // a branch taken over is passed on at once, so that wide trees are shared too
            let mut p = prefix.clone();
            p[keep].0 += 1;
            sh.open.fetch_add(1, Relaxed);
            sh.queue.lock().unwrap().push_back(Item { scn: item.scn, prefix: p, keep });
            keep += 1;
            sh.cv.notify_one();
        }
        let mut local = Stats::default();
        let mut complete = true;
        let mut sample = Vec::new();
        let t0 = Instant::now();
        loop {
            if sh.stop.load(Relaxed) || Instant::now() > sh.deadline {
                complete = false;
                break;
            }
            box_record(&f, item.scn, &prefix);
            sh.beat[me].fetch_add(1, Relaxed);
            let before = prefix.len();
            let (ctx, r) = run_one(s, prefix, thorough, false);
            local.paths += 1;
            local.states += (ctx.trace.len() + 1).saturating_sub(before.max(1)) as u64;
            if before == 0 {
                local.states += 1;
            }
            local.add(&ctx.stats);
            match r {
                Ok(Ok(())) => {}
                Ok(Err(v)) => {
                    if !v.key.is_empty() && sh.listed.contains(&v.key) {
                        *sh.known.lock().unwrap().entry(v.key.clone()).or_insert(0) += 1;
                    } else {
                        let mut fd = sh.found.lock().unwrap();
                        fd.push(Found { scn: item.scn, trace: ctx.trace.clone(), viol: v });
                        sh.stop.store(true, Relaxed);
                        complete = false;
                    }
                }
                Err(p) => {
                    sh.harness.lock().unwrap().push(format!("{}: {:?}: {p}", s.name, ctx.trace));
                    sh.stop.store(true, Relaxed);
                    complete = false;
                }
            }
            if !complete {
                break;
            }
            let trace = ctx.trace;
            if sh.idle.load(Relaxed) > 0 {
                // give the shallowest open branch away
                if let Some(i) = (keep..trace.len()).find(|i| trace[*i].0 + 1 < trace[*i].1) {
                    let mut p = trace[..i].to_vec();
                    p.push((trace[i].0 + 1, trace[i].1));
                    sh.open.fetch_add(1, Relaxed);
                    sh.queue.lock().unwrap().push_back(Item { scn: item.scn, prefix: p, keep: i });
                    keep = i + 1;
                    sh.cv.notify_one();
                }
            }
            match next_prefix(&trace, keep) {
                Some(p) => {
                    sample = trace;
                    prefix = p
                }
                None => {
                    sample = trace;
                    break;
                }
            }
        }
        {
            let mut a = sh.acc[item.scn].lock().unwrap();
            a.stats.add(&local);
            a.secs += t0.elapsed().as_secs_f64();
            if !complete {
                a.complete = false;
            }
            if !sample.is_empty() || a.sample.is_empty() {
                a.sample = sample;
            }
        }
        box_record(&f, u32::MAX as usize, &[]);
        if sh.open.fetch_sub(1, Relaxed) == 1 {
            sh.cv.notify_all();
        }
    }
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
pub fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16)
}

/// Explores all scenarios of a property; writes what happened into `dir/result`.
fn worker(prop: &str, tier: &str, dir: &Path, seconds: u64, listed: Vec<String>) -> i32 {
    quiet_hook();
    let thorough = tier == "thorough";
    let scns = scenarios(prop, thorough);
    if scns.is_empty() {
        eprintln!("no scenarios for {prop}");
        return 2;
    }
    let n = threads();
    let sh = Shared {
        queue: Mutex::new((0..scns.len()).map(|scn| Item { scn, prefix: Vec::new(), keep: 0 }).collect()),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        open: AtomicUsize::new(scns.len()),
        stop: AtomicBool::new(false),
        acc: scns.iter().map(|_| Mutex::new(Acc { complete: true, ..Default::default() })).collect(),
        found: Mutex::new(Vec::new()),
        known: Mutex::new(BTreeMap::new()),
        listed,
        harness: Mutex::new(Vec::new()),
        deadline: Instant::now() + Duration::from_secs(seconds),
        beat: (0..n).map(|_| AtomicU64::new(0)).collect(),
    };
    let done = AtomicBool::new(false);
    std::thread::scope(|sc| {
        let (sh, scns, done) = (&sh, &scns, &done);
        sc.spawn(move || {
            let mut last: Vec<(u64, Instant)> = sh.beat.iter().map(|b| (b.load(Relaxed), Instant::now())).collect();
            while !done.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                for (i, b) in sh.beat.iter().enumerate() {
                    let x = b.load(Relaxed);
                    if x != last[i].0 {
                        last[i] = (x, Instant::now());
                    } else if last[i].1.elapsed() > HANG && box_read(&dir.join(format!("t{i}"))).is_some() {
                        let _ = fs::write(dir.join("hang"), i.to_string());
                        std::process::exit(3);
                    }
                }
            }
        });
        let hs: Vec<_> = (0..n)
            .map(|me| {
                std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, move || thread_main(sh, scns, thorough, me, dir)).expect("HARNESS: thread")
            })
            .collect();
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Relaxed);
    });
    let mut out = String::new();
    let harness = sh.harness.into_inner().unwrap();
    for h in &harness {
        out.push_str(&format!("H\t{}\n", esc(h)));
    }
    for (i, s) in scns.iter().enumerate() {
        let a = sh.acc[i].lock().unwrap();
        let t = &a.stats;
        out.push_str(&format!(
            "S\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{:016x}\t{}\t{:.2}\n",
            esc(&s.name), esc(&s.bound), t.states, t.transitions, t.traces, t.paths, t.accepted, t.skipped, t.faults, t.outcomes.len(), t.digest, a.complete as u8, a.secs
        ));
        if harness.is_empty() && i < 12 && !a.sample.is_empty() {
            let (ctx, _) = run_one(s, a.sample.clone(), thorough, true);
            let mut t = format!("{}: choices {}", s.name, choices(&a.sample));
            for n in &ctx.notes {
                t.push_str("; ");
                t.push_str(n);
            }
            t.truncate(t.char_indices().nth(1200).map(|x| x.0).unwrap_or(t.len()));
            out.push_str(&format!("X\t{}\n", esc(&t)));
        }
    }
    for (k, c) in sh.known.into_inner().unwrap() {
        out.push_str(&format!("K\t{k}\t{c}\n"));
    }
    for f in sh.found.into_inner().unwrap() {
        out.push_str(&format!("V\t{}\t{}\t{}\t{}\n", esc(&scns[f.scn].name), choices(&f.trace), esc(&f.viol.key), esc(&f.viol.msg)));
    }
    out.push_str("END\n");
    fs::write(dir.join("result"), out).expect("HARNESS: result");
    0
}

fn choices(t: &[(u32, u32)]) -> String {
    t.iter().map(|(c, n)| format!("{c}/{n}")).collect::<Vec<_>>().join(" ")
}
fn parse_choices(s: &str) -> Vec<(u32, u32)> {
    s.split_whitespace().filter_map(|x| x.split_once('/')).map(|(a, b)| (a.parse().unwrap_or(0), b.parse().unwrap_or(0))).collect()
}

/// `MC_ONLY` keeps the scenarios whose name contains it (development only).
fn scenarios(prop: &str, thorough: bool) -> Vec<Scenario> {
    let mut v = fam::scenarios(prop, thorough);
    if let Ok(f) = std::env::var("MC_ONLY") {
        v.retain(|s| s.name.contains(&f));
    }
    v
}

// ---- supervision ----

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn bash(limit_kb: u64, args: &[&str]) -> Command {
    let mut c = Command::new("bash");
    c.arg("-c").arg(format!("ulimit -v {limit_kb}; ulimit -c 0; exec \"$0\" \"$@\""));
    c.arg(std::env::current_exe().expect("exe"));
    c.args(args);
    c
}

fn wait(mut c: std::process::Child, secs: u64) -> Option<std::process::ExitStatus> {
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(s)) => return Some(s),
            Ok(None) if t0.elapsed().as_secs() > secs => {
                let _ = c.kill();
                let _ = c.wait();
                return None;
            }
            _ => std::thread::sleep(Duration::from_millis(20)),
        }
    }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Row {
    pub name: String,
    pub bound: String,
    pub n: [u64; 8],
    pub digest: String,
    pub complete: bool,
    pub secs: String,
}

pub struct Outcome {
    pub rows: Vec<Row>,
    pub samples: Vec<String>,
    pub known: Vec<(String, String)>,
    /// (replay path, first line)
    pub viols: Vec<(String, String)>,
    pub broken: Vec<String>,
}

pub fn listed(prop: &str) -> Vec<(String, String)> {
    let t = fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (p, rest) = l.split_once(' ')?;
            if p != prop {
                return None;
            }
            let (id, text) = rest.strip_prefix("id=")?.split_once(' ')?;
            Some((id.to_string(), text.to_string()))
        })
        .collect()
}

pub fn save_replay(prop: &str, tier: &str, scn: &str, ch: &str, msg: &str) -> String {
    let dir = root().join("replays");
    let _ = fs::create_dir_all(&dir);
    let h = crate::eng::val::hash_of(&(scn, ch));
    let p = dir.join(format!("{prop}-{h:016x}.txt"));
    let t = format!("property={prop}\ntier={tier}\nscenario={}\nchoices={ch}\nmessage:\n{msg}\n", esc(scn));
    let _ = fs::write(&p, t);
    p.display().to_string()
}

fn supervise(prop: &str, tier: &str, seconds: u64) -> Outcome {
    let mut out = Outcome { rows: vec![], samples: vec![], known: vec![], viols: vec![], broken: vec![] };
    let dir = std::env::temp_dir().join(format!("mc-{prop}-{}", std::process::id()));
    let _ = fs::create_dir_all(&dir);
    let d = dir.display().to_string();
    let known = listed(prop);
    let ids: Vec<String> = known.iter().map(|k| k.0.clone()).collect();
    let child = bash(26_000_000, &["worker", prop, tier, &d, &seconds.to_string(), &ids.join(",")]).stdin(Stdio::null()).stderr(Stdio::piped()).spawn();
    let status = match child {
        Ok(mut c) => {
            // drain stderr, so that the worker never blocks on it
            let mut e = c.stderr.take().expect("stderr");
            let h = std::thread::spawn(move || {
                let mut s = Vec::new();
                let _ = std::io::Read::read_to_end(&mut e, &mut s);
                String::from_utf8_lossy(&s).to_string()
            });
            let st = wait(c, seconds + 150);
            let text = h.join().unwrap_or_default();
            if !text.is_empty() {
                eprintln!("{}", text.chars().take(4000).collect::<String>());
            }
            st
        }
        Err(e) => {
            out.broken.push(format!("cannot start worker: {e}"));
            return out;
        }
    };
    let res = fs::read_to_string(dir.join("result")).unwrap_or_default();
    if res.ends_with("END\n") {
        for l in res.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "S" => {
                    let mut n = [0u64; 8];
                    for (i, x) in n.iter_mut().enumerate() {
                        *x = f[3 + i].parse().unwrap_or(0);
                    }
                    out.rows.push(Row { name: unesc(f[1]), bound: unesc(f[2]), n, digest: f[11].into(), complete: f[12] == "1", secs: f[13].into() });
                }
                "X" => out.samples.push(unesc(f[1])),
                "H" => out.broken.push(unesc(f[1])),
                "K" => {
                    let text = known.iter().find(|k| k.0 == f[1]).map(|k| k.1.clone()).unwrap_or_default();
                    out.known.push((f[1].to_string(), format!("{text} ({} executions)", f[2])));
                }
                "V" => {
                    let msg = unesc(f[4]);
                    let p = save_replay(prop, tier, &unesc(f[1]), f[2], &msg);
                    out.viols.push((p, msg));
                }
                _ => {}
            }
        }
    } else {
        // the worker died or hung: find the execution that does it
        let scns = scenarios(prop, tier == "thorough");
        let mut suspects = Vec::new();
        for i in 0..threads() {
            if let Some(x) = box_read(&dir.join(format!("t{i}"))) {
                suspects.push(x);
            }
        }
        let why = if dir.join("hang").exists() { "an execution does not end".to_string() } else { format!("worker ended with {status:?}") };
        for (scn, t) in suspects {
            let Some(s) = scns.get(scn) else { continue };
            let p = save_replay(prop, tier, &s.name, &choices(&t), &why);
            let st = bash(8_000_000, &["replay", &p]).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().ok().and_then(|c| wait(c, HANG.as_secs() + 10));
            match st.and_then(|s| s.code()) {
                Some(0) => {
                    let _ = fs::remove_file(&p);
                }
                c => {
                    let msg = format!("{why}; alone: {}", c.map(|c| format!("exit code {c}")).unwrap_or_else(|| "killed (stack overflow, abort or endless)".into()));
                    let p = save_replay(prop, tier, &s.name, &choices(&t), &msg);
                    out.viols.push((p, msg));
                }
            }
        }
        if out.viols.is_empty() {
            out.broken.push(format!("{why}, not reproduced alone"));
        }
    }
    let _ = fs::remove_dir_all(&dir);
    out
}

fn evidence(prop: &str, tier: &str, o: &Outcome, wall: f64, extra: &[(String, String)]) {
    let sum = |i: usize| o.rows.iter().map(|r| r.n[i]).sum::<u64>();
    let complete = !o.rows.is_empty() && o.rows.iter().all(|r| r.complete);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
    let mut j = String::from("{\n");
    j.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"model_checking\",\n", jstr(prop), jstr(tier)));
    j.push_str(" \"coverage\": {\n");
    j.push_str(&format!("  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n", sum(0), sum(1), sum(2)));
    j.push_str(&format!("  \"choice_sequences\": {},\n  \"traces_accepted_by_impl\": {},\n  \"skipped_resource_blowup\": {},\n  \"fault_runs\": {},\n  \"distinct_outcomes\": {},\n", sum(3), sum(4), sum(5), sum(6), sum(7)));
    j.push_str(&format!("  \"exhaustive\": {complete},\n"));
    j.push_str("  \"explanation\": \"states: nodes of the choice tree (types, bytes, lengths, operations, fault points chosen by the environment); transitions: answers of the environment to the real code (reads and type lookups); traces: complete executions of the real code compared with the reference model or with the run they must equal\",\n");
    for (k, v) in extra {
        j.push_str(&format!("  {}: {},\n", jstr(k), v));
    }
    j.push_str("  \"scenarios\": [\n");
    for (i, r) in o.rows.iter().enumerate() {
        j.push_str(&format!(
            "   {{\"name\": {}, \"bound\": {}, \"complete\": {}, \"states\": {}, \"transitions\": {}, \"traces\": {}, \"paths\": {}, \"accepted\": {}, \"skipped\": {}, \"distinct_outcomes\": {}, \"digest\": {}}}{}\n",
            jstr(&r.name), jstr(&r.bound), r.complete, r.n[0], r.n[1], r.n[2], r.n[3], r.n[4], r.n[5], r.n[7], jstr(&r.digest), if i + 1 < o.rows.len() { "," } else { "" }
        ));
    }
    j.push_str("  ],\n  \"samples\": [\n");
    j.push_str(&o.samples.iter().map(|s| format!("   {}", jstr(s))).collect::<Vec<_>>().join(",\n"));
    j.push_str("\n  ]\n },\n");
    j.push_str(&format!(" \"violations\": {},\n \"wall_s\": {wall:.2},\n", o.viols.len()));
    j.push_str(" \"assumptions\": [\"the reference model in /verif/mc/src/eng states the property correctly\", \"behaviour outside the listed bounds is not explored\"]\n}\n");
    let d = root().join("evidence");
    let _ = fs::create_dir_all(&d);
    let _ = fs::write(d.join(format!("{prop}.json")), j);
}

fn check(prop: &str, tier: &str) -> i32 {
    use crate::lanes::{run, Build};
    let t0 = Instant::now();
    let seconds: u64 = std::env::var("MC_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 600 } else { 240 });
    let thorough = tier == "thorough";
    let ids: Vec<String> = listed(prop).into_iter().map(|k| k.0).collect();
    let mut o;
    if prop == "P22" {
        quiet_hook();
        o = Outcome { rows: vec![], samples: vec![], known: vec![], viols: vec![], broken: vec![] };
        let scns = scenarios(prop, thorough);
        run(prop, tier, &scns, &[Build::Std, Build::NoStd, Build::Bare], false, seconds, &ids, &mut o);
        for s in scns.iter().take(6) {
            let f = crate::eng::lane::subtree(s, &[], thorough, 1).first;
            let (ctx, _) = run_one(s, f.clone(), thorough, true);
            o.samples.push(format!("{}: choices {}; {}", s.name, choices(&f), ctx.notes.join("; ").chars().take(800).collect::<String>()));
        }
    } else {
        o = supervise(prop, tier, seconds);
        if let (Some(scns), true) = (fam::bare_scenarios(prop, thorough), o.viols.is_empty() && o.broken.is_empty()) {
            quiet_hook();
            if std::env::var_os("MC_NOBARE").is_some() {
                o.broken.push("no 32-bit build".into());
            } else {
                run(prop, tier, &scns, &[Build::Bare], true, seconds / 2, &ids, &mut o);
            }
        }
    }
    let extra: Vec<(String, String)> = Vec::new();
    finish(prop, tier, o, t0, &extra)
}

pub fn finish(prop: &str, tier: &str, o: Outcome, t0: Instant, extra: &[(String, String)]) -> i32 {
    evidence(prop, tier, &o, t0.elapsed().as_secs_f64(), extra);
    for r in &o.rows {
        println!(
            "{:<34} states {:>9} traces {:>9} paths {:>9} ok {:>9} skipped {:>6} outcomes {:>7}{} cpu {}s",
            r.name, r.n[0], r.n[2], r.n[3], r.n[4], r.n[5], r.n[7], if r.complete { "" } else { " INCOMPLETE" }, r.secs
        );
    }
    for (k, t) in &o.known {
        println!("KNOWN-FINDING: property={prop} {k}: {t}");
    }
    for (p, m) in &o.viols {
        println!("VIOLATION property={prop} replay={p}");
        println!("{}", m.chars().take(3000).collect::<String>());
    }
    println!("{prop} {tier}: {} violation(s), {:.1}s", o.viols.len(), t0.elapsed().as_secs_f64());
    let _ = std::io::stdout().flush();
    if !o.viols.is_empty() {
        return 1;
    }
    if !o.broken.is_empty() {
        for b in &o.broken {
            eprintln!("CHECK BROKEN: {b}");
        }
        return 2;
    }
    0
}

fn replay(path: &str) -> i32 {
    quiet_hook();
    let t = fs::read_to_string(path).expect("replay file");
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
    let (prop, tier, scn, ch) = (get("property="), get("tier="), unesc(&get("scenario=")), parse_choices(&get("choices=")));
    let thorough = tier == "thorough";
    use crate::lanes::{again, Build};
    let scns = scenarios(&prop, thorough);
    let bare = fam::bare_scenarios(&prop, thorough).unwrap_or_default();
    let lanes = match (bare.iter().find(|s| s.name == scn), scns.iter().find(|s| s.name == scn)) {
        (Some(s), None) => Some((s, vec![Build::Bare], true)),
        (_, Some(s)) if prop == "P22" => Some((s, vec![Build::Std, Build::NoStd, Build::Bare], false)),
        _ => None,
    };
    if let Some((s, builds, judge)) = lanes {
        let ids: Vec<String> = listed(&prop).into_iter().map(|k| k.0).collect();
        return match again(&prop, &tier, s, &ch, &builds, judge, &ids) {
            Ok(m) => {
                println!("no violation; {m}");
                0
            }
            Err(m) => {
                println!("VIOLATION property={prop} replay={path}\n{m}");
                1
            }
        };
    }
    let Some(s) = scns.iter().find(|s| s.name == scn) else {
        eprintln!("no scenario {scn}");
        return 2;
    };
    let code = std::thread::scope(|sc| {
        let h = std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, || {
            let (ctx, r) = run_one(s, ch, thorough, true);
            for n in &ctx.notes {
                println!("{n}");
            }
            match r {
                Ok(Ok(())) => {
                    println!("no violation");
                    0
                }
                Ok(Err(v)) => {
                    println!("VIOLATION property={prop} replay={path}\n{} {}", v.key, v.msg);
                    1
                }
                Err(p) => {
                    println!("CHECK BROKEN: {p}");
                    2
                }
            }
        });
        h.expect("thread").join().unwrap_or(2)
    });
    code
}

pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    match a.get(1..).unwrap_or(&[]) {
        ["check", prop, tier] => check(prop, tier),
        ["worker", prop, tier, dir, secs, listed] => {
            worker(prop, tier, Path::new(dir), secs.parse().unwrap_or(60), listed.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect())
        }
        ["replay", p] => replay(p),
        ["lane"] => {
            quiet_hook();
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(|| {
                    let mut cache = crate::eng::lane::Cache::default();
                    for l in std::io::stdin().lines() {
                        let Ok(l) = l else { return };
                        println!("{}", crate::eng::lane::answer(&mut cache, &l));
                        let _ = std::io::stdout().flush();
                    }
                })
                .expect("thread")
                .join()
                .map(|_| 0)
                .unwrap_or(2)
        }
        ["probe", kind, n] => {
            let (k, n) = (kind.parse().unwrap_or(0), n.parse().unwrap_or(0));
            let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || crate::eng::fam4::probe_main(k, n)).expect("thread");
            h.join().map(|_| 0).unwrap_or(2)
        }
        ["history", ops @ ..] => {
            quiet_hook();
            crate::eng::fam4::history_main(&ops.iter().filter_map(|o| o.split_once('*').and_then(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?)))).collect::<Vec<(usize, usize)>>());
            0
        }
        _ => {
            eprintln!("mc check PROPERTY quick|thorough; mc replay FILE");
            2
        }
    }
}
