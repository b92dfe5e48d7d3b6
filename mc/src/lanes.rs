//! The same exploration in several builds of the library.
use crate::eng::explore::*;
use crate::eng::lane;
use crate::host::{root, save_replay, threads, unesc, Outcome, Row};
use std::collections::{BTreeMap, VecDeque};
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Build {
    Std,
    NoStd,
    Bare,
}
impl Build {
    pub fn name(self) -> &'static str {
        match self {
            Build::Std => "64-bit std",
            Build::NoStd => "64-bit no_std",
            Build::Bare => "32-bit no_std",
        }
    }
    fn exe(self) -> PathBuf {
        let t = root_mc();
        match self {
            Build::Std => std::env::current_exe().expect("exe"),
            Build::NoStd => t.join("target-nostd/release/mc"),
            Build::Bare => t.join("target-bare/i686-unknown-linux-gnu/release/mc32"),
        }
    }
}
fn root_mc() -> PathBuf {
    // target/release/mc
    std::env::current_exe().ok().and_then(|p| Some(p.parent()?.parent()?.parent()?.to_path_buf())).unwrap_or_else(|| root().join("mc"))
}

struct Peer {
    build: Build,
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Peer {
    fn start(build: Build) -> Peer {
        let mut c = Command::new("bash");
        c.arg("-c").arg("ulimit -c 0; ulimit -s 1000000 2>/dev/null || ulimit -s unlimited 2>/dev/null; exec \"$0\" \"$@\"").arg(build.exe());
        if build != Build::Bare {
            c.arg("lane");
        }
        let mut child = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("HARNESS: peer");
        let to = child.stdin.take().expect("stdin");
        let from = BufReader::new(child.stdout.take().expect("stdout"));
        Peer { build, child, to, from }
    }
    fn last_words(&self, job: &str) -> String {
        let mut c = Command::new("bash");
        c.arg("-c").arg("ulimit -c 0; ulimit -s 1000000 2>/dev/null; exec \"$0\" \"$@\"").arg(self.build.exe());
        if self.build != Build::Bare {
            c.arg("lane");
        }
        let Ok(mut child) = c.stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::piped()).spawn() else { return String::new() };
        if let Some(mut i) = child.stdin.take() {
            let _ = i.write_all(format!("{job}\n").as_bytes());
        }
        child.wait_with_output().map(|o| format!("{} {}", o.status, String::from_utf8_lossy(&o.stderr).trim().chars().take(600).collect::<String>())).unwrap_or_default()
    }
    /// None if the build died on the job; it is then started anew.
    fn ask(&mut self, job: &str) -> Option<Vec<String>> {
        let sent = self.to.write_all(job.as_bytes()).and_then(|_| self.to.write_all(b"\n")).and_then(|_| self.to.flush());
        let mut l = String::new();
        if sent.is_err() || self.from.read_line(&mut l).unwrap_or(0) == 0 {
            let _ = self.child.kill();
            let _ = self.child.wait();
            *self = Peer::start(self.build);
            return None;
        }
        Some(l.trim_end_matches('\n').split('\t').map(|s| s.to_string()).collect())
    }
}
impl Drop for Peer {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Clone)]
struct Ans {
    digest: String,
    n: [u64; 7],
    panics: u64,
    first: Vec<(u32, u32)>,
    viol: Option<(Vec<(u32, u32)>, String, String)>,
}
fn parse(f: &[String]) -> Option<Ans> {
    if f.len() != 14 || f[0] != "R" {
        return None;
    }
    let mut n = [0; 7];
    for (i, x) in n.iter_mut().enumerate() {
        *x = f[2 + i].parse().ok()?;
    }
    let ch = |s: &str| lane::parse_choices(s.split_whitespace());
    let viol = if f[13].is_empty() && f[11].is_empty() && f[12].is_empty() { None } else { Some((ch(&f[11]), unesc(&f[12]), unesc(&f[13]))) };
    Some(Ans { digest: f[1].clone(), n, panics: f[9].parse().ok()?, first: ch(&f[10]), viol })
}

struct Job {
    scn: usize,
    prefix: Vec<(u32, u32)>,
}
/// Splits the choice trees near the root.
fn jobs(scns: &[Scenario], thorough: bool) -> Vec<Job> {
    let out: Mutex<Vec<Job>> = Mutex::new(Vec::new());
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..threads() {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    let Some(s) = scns.get(i) else { return };
                    let mut mine = Vec::new();
                    let root = lane::subtree(s, &[], thorough, 1).first;
                    match root.first() {
                        None => mine.push(Job { scn: i, prefix: vec![] }),
                        Some((_, n)) => {
                            for c in 0..*n {
                                let p = vec![(c, *n)];
                                let f = if *n <= 64 { lane::subtree(s, &p, thorough, 1).first } else { vec![] };
                                match f.get(1) {
                                    Some((_, m)) if n * m <= 1500 => {
                                        for d in 0..*m {
                                            mine.push(Job { scn: i, prefix: vec![(c, *n), (d, *m)] });
                                        }
                                    }
                                    _ => mine.push(Job { scn: i, prefix: p }),
                                }
                            }
                        }
                    }
                    out.lock().unwrap().extend(mine);
                })
                .expect("HARNESS: thread");
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by(|a, b| (a.scn, &a.prefix).cmp(&(b.scn, &b.prefix)));
    v
}

fn job_line(prop: &str, tier: &str, s: &Scenario, limit: u64, p: &[(u32, u32)]) -> String {
    format!("{prop} {tier} {} {limit} {}", s.name, lane::choices(p))
}

/// What one node of the tree gives in the builds.
struct Node {
    a: Vec<Option<Ans>>,
}
impl Node {
    fn ask(peers: &mut [Peer], prop: &str, tier: &str, s: &Scenario, p: &[(u32, u32)]) -> Node {
        Node { a: peers.iter_mut().map(|x| x.ask(&job_line(prop, tier, s, u64::MAX, p)).and_then(|f| parse(&f))).collect() }
    }
    /// Something is wrong at or below this node.
    fn wrong(&self, judge: bool, listed: &[String]) -> bool {
        if judge {
            return self.a.iter().any(|a| match a {
                None => true,
                Some(a) => a.viol.as_ref().is_some_and(|v| !listed.contains(&v.1)),
            });
        }
        let Some(first) = &self.a[0] else { return self.a.iter().any(|a| a.is_some()) };
        self.a.iter().any(|a| match a {
            // a build that cannot catch panics dies where the others report one
            None => first.panics == 0,
            Some(a) => a.digest != first.digest || a.n[3] != first.n[3],
        })
    }
}
/// Walks down to one execution that is wrong.
fn descend(peers: &mut [Peer], prop: &str, tier: &str, s: &Scenario, p: &[(u32, u32)], thorough: bool, judge: bool, listed: &[String]) -> Vec<(u32, u32)> {
    let mut p = p.to_vec();
    'down: loop {
        let node = Node::ask(peers, prop, tier, s, &p);
        if judge {
            if let Some(v) = node.a.iter().flatten().find_map(|a| a.viol.as_ref().filter(|v| !listed.contains(&v.1))) {
                return v.0.clone();
            }
        }
        let first = match node.a.iter().flatten().next() {
            Some(a) => a.first.clone(),
            None => std::thread::scope(|sc| {
                std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, || crate::eng::env::guarded(|| lane::subtree(s, &p, thorough, 1).first).unwrap_or_default()).expect("thread").join().unwrap_or_default()
            }),
        };
        if first.len() <= p.len() {
            return p;
        }
        let n = first[p.len()].1;
        for c in 0..n {
            let mut q = p.clone();
            q.push((c, n));
            if Node::ask(peers, prop, tier, s, &q).wrong(judge, listed) {
                p = q;
                continue 'down;
            }
        }
        return p;
    }
}

/// One execution, written out by every build.
fn told(peers: &mut [Peer], prop: &str, tier: &str, s: &Scenario, p: &[(u32, u32)], judge: bool) -> String {
    let mut msg = String::new();
    for x in peers.iter_mut() {
        msg.push_str(&format!("== {}\n", x.build.name()));
        match x.ask(&job_line(prop, tier, s, 0, p)) {
            Some(f) => msg.push_str(&unesc(f.get(1).map(|s| s.as_str()).unwrap_or(""))),
            None => msg.push_str(&format!("the build dies: {}", x.last_words(&job_line(prop, tier, s, 0, p)))),
        }
        msg.push('\n');
    }
    let names: Vec<&str> = peers.iter().map(|b| b.build.name()).collect();
    let head = if judge { format!("wrong in {}", names.join(", ")) } else { format!("{} differ", names.join(", ")) };
    format!("{head} at {}\n{msg}", s.name)
}

/// Runs one recorded execution again; says if it is still wrong.
pub fn again(prop: &str, tier: &str, s: &Scenario, p: &[(u32, u32)], builds: &[Build], judge: bool, listed: &[String]) -> Result<String, String> {
    let mut peers: Vec<Peer> = builds.iter().map(|b| Peer::start(*b)).collect();
    let wrong = Node::ask(&mut peers, prop, tier, s, p).wrong(judge, listed);
    let msg = told(&mut peers, prop, tier, s, p, judge);
    if wrong {
        Err(msg)
    } else {
        Ok(msg)
    }
}

/// Explores all scenarios in `builds`; judged each for itself, or compared with each other.
pub fn run(prop: &str, tier: &str, scns: &[Scenario], builds: &[Build], judge: bool, seconds: u64, listed: &[String], out: &mut Outcome) {
    let thorough = tier == "thorough";
    for b in builds {
        if !b.exe().exists() {
            out.broken.push(format!("{} is not built", b.exe().display()));
            return;
        }
    }
    let deadline = Instant::now() + Duration::from_secs(seconds);
    let queue: Mutex<VecDeque<Job>> = Mutex::new(jobs(scns, thorough).into());
    #[derive(Default, Clone)]
    struct Sum {
        n: [u64; 7],
        digest: u64,
        open: bool,
        deaths: u64,
        secs: f64,
    }
    let sums: Mutex<BTreeMap<(usize, usize), Sum>> = Mutex::new(BTreeMap::new());
    let wrong: Mutex<Vec<Job>> = Mutex::new(Vec::new());
    std::thread::scope(|sc| {
        for _ in 0..threads() {
            sc.spawn(|| {
                let mut peers: Vec<Peer> = builds.iter().map(|b| Peer::start(*b)).collect();
                loop {
                    let Some(j) = queue.lock().unwrap().pop_front() else { return };
                    let s = &scns[j.scn];
                    if Instant::now() > deadline || wrong.lock().unwrap().len() > 8 {
                        for b in 0..builds.len() {
                            sums.lock().unwrap().entry((j.scn, b)).or_default().open = true;
                        }
                        continue;
                    }
                    let t0 = Instant::now();
                    let node = Node::ask(&mut peers, prop, tier, s, &j.prefix);
                    let mut m = sums.lock().unwrap();
                    for (b, a) in node.a.iter().enumerate() {
                        let e = m.entry((j.scn, b)).or_default();
                        e.secs += t0.elapsed().as_secs_f64() / builds.len() as f64;
                        match a {
                            Some(a) => {
                                for i in 0..7 {
                                    e.n[i] += a.n[i];
                                }
                                e.digest = e.digest.wrapping_add(u64::from_str_radix(&a.digest, 16).unwrap_or(0));
                            }
                            None => e.deaths += 1,
                        }
                    }
                    drop(m);
                    if node.wrong(judge, listed) {
                        wrong.lock().unwrap().push(j);
                    }
                }
            });
        }
    });
    let mut wrong = wrong.into_inner().unwrap();
    wrong.sort_by(|a, b| (a.scn, &a.prefix).cmp(&(b.scn, &b.prefix)));
    for ((i, b), x) in sums.into_inner().unwrap() {
        let n = [x.n[0], x.n[1], x.n[2], x.n[3], x.n[4], x.n[5], x.n[6], 0];
        out.rows.push(Row { name: format!("{} [{}]", scns[i].name, builds[b].name()), bound: scns[i].bound.clone(), n, digest: format!("{:016x}", x.digest), complete: !x.open && x.deaths == 0, secs: format!("{:.2}", x.secs) });
    }
    if let Some(j) = wrong.first() {
        let s = &scns[j.scn];
        let mut peers: Vec<Peer> = builds.iter().map(|b| Peer::start(*b)).collect();
        let p = descend(&mut peers, prop, tier, s, &j.prefix, thorough, judge, listed);
        let msg = told(&mut peers, prop, tier, s, &p, judge);
        if msg.contains("HARNESS: ") {
            out.broken.push(msg);
            return;
        }
        let path = save_replay(prop, tier, &s.name, &lane::choices(&p), &msg);
        out.viols.push((path, msg));
    }
}
