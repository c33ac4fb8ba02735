//! A scenario is everything a simulated execution depends on besides the code
//! under test, written out; it is generated from one seed, and it is what a
//! replay file holds.
use crate::cal::Day;
use crate::machine::*;
use crate::rng;
use crate::shm::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FileSpec {
    pub path: String,
    pub chunks: Vec<String>,
    #[serde(default)]
    pub crlf: bool,
    #[serde(default)]
    pub no_final_newline: bool,
    /// keep only this many bytes (a torn file)
    #[serde(default)]
    pub cut: Option<u32>,
    /// bytes put over the text (position, value)
    #[serde(default)]
    pub garble: Vec<(u32, u8)>,
    #[serde(default)]
    pub mode: Option<u8>,
}

impl FileSpec {
    pub fn new(path: &str, chunks: Vec<String>) -> FileSpec {
        FileSpec { path: path.into(), chunks, crlf: false, no_final_newline: false, cut: None, garble: vec![], mode: None }
    }
    pub fn render(&self) -> Vec<u8> {
        let mut s = self.chunks.join("\n");
        if !self.no_final_newline && !s.is_empty() {
            s.push('\n');
        }
        if self.crlf {
            s = s.replace('\n', "\r\n");
        }
        let mut b = s.into_bytes();
        for &(p, v) in &self.garble {
            if !b.is_empty() {
                let n = b.len();
                b[p as usize % n] = v;
            }
        }
        if let Some(c) = self.cut {
            let n = b.len() as u32;
            b.truncate((c % (n + 1)) as usize);
        }
        b
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct World {
    pub files: Vec<FileSpec>,
    #[serde(default)]
    pub links: Vec<(String, String)>,
    #[serde(default)]
    pub dirs: Vec<String>,
    /// the journal, as a normal absolute path
    pub main: String,
    #[serde(default)]
    pub free: Option<i64>,
}

impl World {
    pub fn disk(&self) -> Disk {
        let mut d = Disk::default();
        for dir in ["/home/u", "/tmp"] {
            d.mkdirs(dir);
        }
        for p in &self.dirs {
            d.mkdirs(p);
        }
        for f in &self.files {
            d.put(&f.path, &f.render());
            if let (Some(m), Some(Node::File { mode, .. })) = (f.mode, d.nodes.get_mut(&f.path)) {
                *mode = m;
            }
        }
        for (p, t) in &self.links {
            d.mkdirs(&p[..p.rfind('/').unwrap_or(0)]);
            d.nodes.insert(p.clone(), Node::Link(t.clone()));
        }
        d.free = self.free;
        d
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum OpSel {
    Any,
    Kind(u16),
    /// anything that happens between opening the journal for writing and the end of recording
    Recording,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    KillBefore,
    KillAfter,
    Err(i32),
    Short(i32),
    /// the call does part of its work, the one after it fails
    ShortThenErr(i32, i32),
    /// the call and the next `n` ones of the same kind and file fail
    ErrRun(i32, u8),
}
/// A fault stated by what it hits, so that it keeps its meaning when the
/// scenario is shrunk.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SymFault {
    pub op: OpSel,
    pub file: Option<String>,
    /// which of the matching calls (modulo their number)
    pub pick: u32,
    pub act: Act,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct RunSpec {
    pub args: Vec<String>,
    #[serde(default)]
    pub env: Vec<(String, String)>,
    pub cwd: String,
    /// seconds since the epoch
    pub utc: i64,
    /// minutes east of Greenwich
    pub tz: i32,
    /// zone text for $TZ, when not made from `tz`
    #[serde(default)]
    pub tz_text: Option<String>,
    pub entropy: u64,
    pub tty: u32,
    #[serde(default)]
    pub tick_ns: i64,
    #[serde(default)]
    pub jump: Option<(u32, i64)>,
    #[serde(default)]
    pub faults: Vec<SymFault>,
    /// the run is judged by the date after the clock was set, not before it
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub late: bool,
}

impl RunSpec {
    /// The clock as the run goes by it.
    fn instant(&self) -> i64 {
        self.utc + if self.late { self.jump.map_or(0, |j| j.1 / 1_000_000_000) } else { 0 }
    }
    pub fn today(&self) -> Day {
        (self.instant() + self.tz as i64 * 60).div_euclid(86_400)
    }
    pub fn sub(&self) -> char {
        self.args.first().and_then(|a| a.chars().next()).unwrap_or(' ')
    }
    pub fn no_move(&self) -> bool {
        self.args.iter().any(|a| a == "-n" || a == "--no-move")
    }
    pub fn import(&self) -> bool {
        self.sub() == 'i'
    }
    /// The same command, read-only.
    pub fn read_only(&self) -> RunSpec {
        let mut r = self.clone();
        if !r.no_move() {
            r.args.push("-n".into());
        }
        r.faults.clear();
        r.utc = r.instant();
        r.jump = None;
        r
    }
    pub fn with_sub(&self, sub: &str) -> RunSpec {
        let mut r = self.clone();
        let mut args = vec![sub.to_string()];
        let mut it = r.args.iter().skip(1);
        while let Some(a) = it.next() {
            if a.starts_with("--csv") || a.starts_with("--rules") {
                it.next();
                continue;
            }
            args.push(a.clone());
        }
        r.args = args;
        r
    }
    pub fn clean(&self) -> RunSpec {
        RunSpec { faults: vec![], ..self.clone() }
    }
    fn tz_env(&self) -> String {
        if let Some(t) = &self.tz_text {
            return t.clone();
        }
        let (s, m) = (if self.tz < 0 { '-' } else { '+' }, self.tz.abs());
        let inv = if self.tz < 0 { "" } else { "-" };
        format!("<{s}{:02}{:02}>{inv}{}:{:02}", m / 60, m % 60, m / 60, m % 60)
    }
    pub fn proc(&self) -> ProcSpec {
        let mut env = self.env.clone();
        env.push(("RUST_BACKTRACE".into(), "0".into()));
        if self.tz_text.as_deref() != Some("") {
            env.push(("TZ".into(), self.tz_env()));
        }
        ProcSpec {
            args: self.args.clone(),
            env,
            cwd: self.cwd.clone(),
            clock_ns: self.utc * 1_000_000_000,
            tick_ns: self.tick_ns,
            jump_at: self.jump.map_or(0, |j| j.0),
            jump_ns: self.jump.map_or(0, |j| j.1),
            entropy: self.entropy,
            tty: self.tty,
            faults: vec![],
        }
    }
    pub fn show(&self) -> String {
        let d = crate::cal::format(self.today(), "%F");
        let mut s = format!("silverfox {} (cwd {}, local date {d}, zone {:+}min)", self.args.join(" "), self.cwd, self.tz);
        for (k, v) in &self.env {
            s.push_str(&format!(" {k}={v}"));
        }
        for f in &self.faults {
            s.push_str(&format!(" fault {f:?}"));
        }
        s
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    Run(RunSpec),
    /// the user adds text at the end of a file
    Edit { path: String, text: String },
    /// several runs at once; `sched` picks the next runnable party at each step
    Conc { runs: Vec<RunSpec>, appends: Vec<(String, String)>, sched: Vec<u16> },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ExpPosting {
    pub account: String,
    pub amt: Option<(f64, String)>,
    /// price, per unit or in total
    pub price: Option<(f64, String)>,
    #[serde(default)]
    pub total: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ExpEntry {
    pub date: Day,
    pub status: char,
    pub desc: String,
    pub payee: Option<String>,
    pub comment: Option<String>,
    pub postings: Vec<ExpPosting>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Scenario {
    pub prop: String,
    /// which of the property's scenario families this is
    #[serde(default)]
    pub family: String,
    pub world: World,
    pub steps: Vec<Step>,
    /// for imports: what each row has to become, beside the chunk of the CSV file it is in
    #[serde(default)]
    pub rows: Option<(String, usize, Vec<ExpEntry>)>,
    /// seed of the layout the same text is given a second time
    #[serde(default)]
    pub noise: u64,
}

pub enum Verdict {
    Pass,
    /// class: what kind of violation (kept while minimising); text: the details
    Bad { class: String, text: String },
    /// the scenario left the simulated machine's abilities
    Unclear(String),
}

impl Scenario {
    pub fn runs(&self) -> impl Iterator<Item = &RunSpec> {
        self.steps.iter().flat_map(|s| match s {
            Step::Run(r) => std::slice::from_ref(r),
            Step::Conc { runs, .. } => runs.as_slice(),
            Step::Edit { .. } => &[],
        })
    }
    pub fn runs_mut(&mut self) -> impl Iterator<Item = &mut RunSpec> {
        self.steps.iter_mut().flat_map(|s| match s {
            Step::Run(r) => std::slice::from_mut(r),
            Step::Conc { runs, .. } => runs.as_mut_slice(),
            Step::Edit { .. } => &mut [],
        })
    }
}

pub struct Outcome {
    pub res: ProcResult,
    pub before: Disk,
    pub disk: Disk,
    pub spec: RunSpec,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub runs: u64,
    pub dry: u64,
    pub scenarios: u64,
    pub nontrivial: u64,
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub prints: BTreeSet<u64>,
    pub schedules: BTreeSet<u64>,
    pub sim_days: u64,
    pub unclear: BTreeMap<String, u64>,
}

impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.runs += o.runs;
        self.dry += o.dry;
        self.scenarios += o.scenarios;
        self.nontrivial += o.nontrivial;
        self.sim_days += o.sim_days;
        for (k, v) in &o.fired {
            *self.fired.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.unclear {
            *self.unclear.entry(k.clone()).or_default() += v;
        }
        self.prints.extend(&o.prints);
        self.schedules.extend(&o.schedules);
    }
}

pub struct Ctx {
    pub m: Machine,
    pub st: Stats,
    /// fingerprint of the current execution: every call, result, output and disk
    pub print: u64,
    pub nontrivial: bool,
    pub log: Option<Vec<String>>,
    pub unsupported: Option<String>,
    last_today: Option<Day>,
}

pub fn errno_name(e: i32) -> &'static str {
    match e {
        libc::EIO => "EIO",
        libc::ENOSPC => "ENOSPC",
        libc::EDQUOT => "EDQUOT",
        libc::EACCES => "EACCES",
        libc::EINTR => "EINTR",
        libc::EPIPE => "EPIPE",
        libc::EROFS => "EROFS",
        libc::EMFILE => "EMFILE",
        libc::ENFILE => "ENFILE",
        libc::ENOENT => "ENOENT",
        libc::EPERM => "EPERM",
        libc::ENOMEM => "ENOMEM",
        libc::ESTALE => "ESTALE",
        libc::EBADF => "EBADF",
        libc::ENOLCK => "ENOLCK",
        _ => "errno",
    }
}

impl Ctx {
    pub fn new(binary: &str, shim: &str) -> Ctx {
        Ctx {
            m: Machine::new(binary, shim),
            st: Stats::default(),
            print: 0,
            nontrivial: false,
            log: None,
            unsupported: None,
            last_today: None,
        }
    }
    pub fn begin(&mut self) {
        self.print = 0x5eed;
        self.nontrivial = false;
        self.unsupported = None;
        self.last_today = None;
        if let Some(l) = &mut self.log {
            l.clear();
        }
    }
    pub fn probe(&mut self, name: &str) {
        *self.st.probes.entry(name.to_string()).or_default() += 1;
    }
    fn fired(&mut self, name: String) {
        *self.st.fired.entry(name).or_default() += 1;
    }
    fn absorb(&mut self, res: &ProcResult, disk: &Disk) {
        let mut h = self.print;
        if let Exit::Signal(n @ (libc::SIGKILL | libc::SIGXCPU)) = res.exit {
            // ended by the limit on processor time: how far it came is not ours to decide
            self.print = rng::mix(h ^ n as u64);
            return;
        }
        for t in &res.trace {
            for v in [t.kind as u64, t.ino as u64, t.arg as u64, t.res as u64, t.fault as u64] {
                h = rng::mix(h ^ v);
            }
        }
        h = rng::hash_bytes(h, res.stdout.as_bytes());
        h = rng::hash_bytes(h, res.stderr.as_bytes());
        h = rng::hash_bytes(h, format!("{:?}", res.exit).as_bytes());
        for (p, n) in &disk.nodes {
            h = rng::hash_bytes(h, p.as_bytes());
            match n {
                Node::File { data, .. } => h = rng::hash_bytes(h, data),
                Node::Dir => h = rng::mix(h),
                Node::Link(t) => h = rng::hash_bytes(h, t.as_bytes()),
            }
        }
        self.print = h;
        if let Some(u) = &res.unsupported {
            self.unsupported = Some(u.clone());
        }
    }
    fn note_time(&mut self, spec: &RunSpec) {
        let t = spec.today();
        if let Some(l) = self.last_today {
            self.st.sim_days += (t - l).unsigned_abs();
            if t < l {
                self.fired("local date moved back".into());
            }
        }
        self.last_today = Some(t);
        if spec.jump.is_some() {
            self.fired("clock jump during a run".into());
        }
        if spec.tty == 0 {
            self.fired("no terminal".into());
        }
    }

    /// Turns the stated faults into call numbers, given the calls of an
    /// undisturbed run from the same state.
    fn resolve(&self, faults: &[SymFault], trace: &[TraceRec]) -> Vec<Fault> {
        let mut out: Vec<Fault> = vec![];
        let first_w = trace.iter().position(|t| t.kind == OP_OPEN_W).unwrap_or(0);
        for f in faults {
            let hit = |i: usize, t: &TraceRec| {
                (match &f.op {
                    OpSel::Any => true,
                    OpSel::Kind(k) => t.kind == *k,
                    OpSel::Recording => i >= first_w,
                }) && match &f.file {
                    None => true,
                    Some(p) => self.m.path_of(t.ino) == Some(p.as_str()),
                }
            };
            let m: Vec<usize> = trace.iter().enumerate().filter(|(i, t)| hit(*i, t)).map(|x| x.0).collect();
            if m.is_empty() {
                continue;
            }
            let i = m[f.pick as usize % m.len()];
            let (kind, ino) = (trace[i].kind, trace[i].ino);
            let nth = trace[..i].iter().filter(|t| t.kind == kind && t.ino == ino).count() as u32;
            let mut add = |later: u32, action: u32, arg: i32| out.push(Fault { kind, ino, nth: nth + later, action, arg });
            match f.act {
                Act::KillBefore => add(0, F_KILL_BEFORE, 0),
                Act::KillAfter => add(0, F_KILL_AFTER, 0),
                Act::Err(e) => add(0, F_ERR, e),
                Act::Short(n) => add(0, F_SHORT, n),
                Act::ShortThenErr(n, e) => {
                    add(0, F_SHORT, n);
                    add(1, F_ERR, e);
                }
                Act::ErrRun(e, n) => (0..=n as u32).for_each(|k| add(k, F_ERR, e)),
            }
        }
        out
    }

    pub fn run(&mut self, disk: &Disk, spec: &RunSpec) -> Outcome {
        let mut p = spec.proc();
        if !spec.faults.is_empty() {
            let (dry, _) = self.m.run(disk, &p);
            self.st.dry += 1;
            p.faults = self.resolve(&spec.faults, &dry.trace);
        }
        let (res, after) = self.m.run(disk, &p);
        self.st.runs += 1;
        for (i, f) in p.faults.iter().enumerate() {
            if res.fired.get(i) == Some(&true) {
                let what = op_name(f.kind);
                let name = match f.action {
                    F_KILL_BEFORE => "kill before a call".to_string(),
                    F_KILL_AFTER => format!("kill after {what}"),
                    F_SHORT => format!("short {what}"),
                    _ => format!("{} on {what}", errno_name(f.arg)),
                };
                self.fired(name);
            }
        }
        if disk.free.is_some() && after.free.is_some_and(|f| f == 0) {
            self.fired("disk full".into());
        }
        self.note_time(spec);
        self.absorb(&res, &after);
        if let Some(l) = &mut self.log {
            l.push(format!("{} -> {:?}", spec.show(), res.exit));
            for (i, t) in res.trace.iter().enumerate() {
                l.push(format!(
                    "    {i:3} {} {} arg={} res={}{}",
                    op_name(t.kind),
                    self.m.path_of(t.ino).unwrap_or("-"),
                    t.arg,
                    t.res,
                    if t.fault > 0 { "  <- fault" } else { "" }
                ));
            }
            for x in res.stdout.lines() {
                l.push(format!("    out| {x}"));
            }
            for x in res.stderr.lines() {
                l.push(format!("    err| {x}"));
            }
        }
        Outcome { res, before: disk.clone(), disk: after, spec: spec.clone() }
    }

    pub fn conc(&mut self, disk: &Disk, watch: &str, runs: &[RunSpec], appends: &[(String, String)], sched: &[u16]) -> ConcResult {
        let mut specs: Vec<ProcSpec> = vec![];
        for r in runs {
            let mut p = r.proc();
            if !r.faults.is_empty() {
                // picked among the calls of an undisturbed run on its own
                let (dry, _) = self.m.run(disk, &p);
                self.st.dry += 1;
                p.faults = self.resolve(&r.faults, &dry.trace);
            }
            specs.push(p);
        }
        let ext: Vec<External> = appends.iter().map(|(p, t)| External { path: p.clone(), append: t.as_bytes().to_vec() }).collect();
        let mut k = 0usize;
        let n = runs.len();
        let mut choose = |can: &[usize]| -> usize {
            let c = if k < sched.len() {
                can[sched[k] as usize % can.len()]
            } else {
                // after the stated choices: run the first party to its end
                can[0]
            };
            k += 1;
            c
        };
        let c = self.m.run_concurrent(disk, &specs, &ext, watch, &mut choose);
        self.st.runs += n as u64;
        let mut h = 7u64;
        for s in &c.schedule {
            h = rng::mix(h ^ *s as u64);
        }
        self.st.schedules.insert(h);
        let sw = c.schedule.windows(2).filter(|w| w[0] != w[1]).count() as u64;
        *self.st.fired.entry("switches between processes".into()).or_default() += sw;
        *self.st.fired.entry("outside appends during runs".into()).or_default() += appends.len() as u64;
        for r in &c.procs {
            if r.exit == Exit::Killed {
                self.fired("kill of one of several processes".into());
            }
            self.absorb(r, &c.disk);
        }
        self.print = rng::mix(self.print ^ h);
        if let Some(l) = &mut self.log {
            l.push(format!("{} runs at once, order of steps {:?}", n, c.schedule));
            for (s, r) in runs.iter().zip(&c.procs) {
                l.push(format!("  {} -> {:?}", s.show(), r.exit));
                for x in r.stdout.lines() {
                    l.push(format!("    out| {x}"));
                }
                for x in r.stderr.lines() {
                    l.push(format!("    err| {x}"));
                }
            }
        }
        c
    }
}

/// The text a run added to the journal, or None if it did not just append.
pub fn appended<'a>(before: &Disk, after: &'a Disk, path: &str) -> Option<&'a [u8]> {
    let (a, b) = (before.get(path)?, after.get(path)?);
    b.strip_prefix(a)
}
