//! Collects what a check covered, writes evidence, prints verdicts.

use crate::{Config, Sim, Stats, Violation};
use std::collections::HashSet;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

static BEAT: AtomicU64 = AtomicU64::new(0);
static WHERE: Mutex<String> = Mutex::new(String::new());
static NOWAT: Mutex<String> = Mutex::new(String::new());

/// Tell the watchdog that an enumeration is making progress.
pub fn beat() {
    BEAT.fetch_add(1, Ordering::Relaxed);
}

use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Args {
    pub prop: String,
    pub thorough: bool,
    pub evidence: Option<PathBuf>,
    pub replay_dir: PathBuf,
    pub replay: Option<PathBuf>,
    pub only: Option<String>,
    pub seed: i64,
}

impl Args {
    pub fn parse() -> Args {
        let mut a = Args {
            prop: String::new(),
            thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
            evidence: None,
            replay_dir: PathBuf::from("/verif/replays"),
            replay: None,
            only: None,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        };
        let mut it = std::env::args().skip(1);
        while let Some(x) = it.next() {
            let mut val = || it.next().expect("missing value");
            match x.as_str() {
                "--prop" => a.prop = val(),
                "--tier" => a.thorough = val() == "thorough",
                "--evidence" => a.evidence = Some(val().into()),
                "--replay-dir" => a.replay_dir = val().into(),
                "--replay" => a.replay = Some(val().into()),
                "--only" => a.only = Some(val()),
                _ => panic!("unknown argument {x}"),
            }
        }
        a
    }
}

static EMERGENCY: Mutex<Option<(String, PathBuf)>> = Mutex::new(None);

/// A hang in the code under test: report it and leave.
pub fn emergency(v: &Violation) -> ! {
    let g = EMERGENCY.lock().unwrap().clone();
    if let Some((prop, dir)) = g {
        write_replay(&prop, &dir, v);
    }
    std::process::exit(1)
}

fn write_replay(prop: &str, dir: &PathBuf, v: &Violation) {
    let _ = std::fs::create_dir_all(dir);
    let path = dir.join(format!("{prop}.replay"));
    let mut s = String::new();
    s.push_str(&format!("scenario: {}\n", v.scenario));
    s.push_str(&format!(
        "choices: {}\n",
        v.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")
    ));
    s.push_str(&format!("message: {}\n", v.msg));
    for l in &v.log {
        s.push_str(&format!("log: {l}\n"));
    }
    let _ = std::fs::write(&path, s);
    println!("violated in scenario {}: {}", v.scenario, v.msg);
    for l in v.log.iter().rev().take(60).collect::<Vec<_>>().into_iter().rev() {
        println!("  {l}");
    }
    println!("VIOLATION property={prop} replay={}", path.display());
}

pub struct Report {
    pub args: Args,
    start: Instant,
    level: &'static str,
    rule: String,
    evaluations: u64,
    distinct: u64,
    states: u64,
    transitions: u64,
    traces: u64,
    samples: Vec<String>,
    scenarios: Vec<String>,
    assumptions: Vec<String>,
    capped: bool,
    violated: bool,
    replay_sel: Option<(String, Vec<u16>)>,
    data_seen: HashSet<u64>,
}

impl Report {
    pub fn new(args: Args, level: &'static str, rule: &str) -> Report {
        crate::install_hook();
        *EMERGENCY.lock().unwrap() = Some((args.prop.clone(), args.replay_dir.clone()));
        let replay_sel = args.replay.as_ref().map(|p| {
            let s = std::fs::read_to_string(p).expect("replay file");
            let sc = s.lines().find_map(|l| l.strip_prefix("scenario: ")).unwrap().to_string();
            let ch = s
                .lines()
                .find_map(|l| l.strip_prefix("choices: "))
                .unwrap()
                .split(',')
                .filter(|x| !x.is_empty())
                .map(|x| x.parse().unwrap())
                .collect();
            (sc, ch)
        });
        Report {
            args,
            start: Instant::now(),
            level,
            rule: rule.to_string(),
            evaluations: 0,
            distinct: 0,
            states: 0,
            transitions: 0,
            traces: 0,
            samples: vec![],
            scenarios: vec![],
            assumptions: vec![],
            capped: false,
            violated: false,
            replay_sel,
            data_seen: HashSet::new(),
        }
    }

    pub fn thorough(&self) -> bool {
        self.args.thorough
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string())
    }

    /// Explore a scenario within `cfg`'s bounds.
    pub fn explore<F: Fn(&Sim) + Sync>(&mut self, cfg: Config, f: F) {
        if self.violated {
            return;
        }
        if let Some((sc, ch)) = &self.replay_sel {
            if *sc == cfg.name {
                let (fail, log) = crate::replay(&cfg, f, ch);
                for l in log {
                    println!("  {l}");
                }
                println!("replay of {sc}: {:?}", fail);
            }
            return;
        }
        if let Some(o) = &self.args.only {
            if !cfg.name.contains(o.as_str()) {
                return;
            }
        }
        let t = Instant::now();
        match crate::explore(&cfg, f) {
            Ok(s) => {
                let line = format!(
                    "{}: preemptions<={} deviations<={} executions={} steps={} states={} outcomes={} depth<={} {}{:.1}s",
                    cfg.name, cfg.p, cfg.d, s.execs, s.steps, s.states, s.outcomes, s.max_depth,
                    if s.capped { "CAPPED " } else { "" },
                    t.elapsed().as_secs_f64()
                );
                println!("{line}");
                self.scenarios.push(line);
                self.add(&s);
            }
            Err(v) => {
                self.violated = true;
                write_replay(&self.args.prop.clone(), &self.args.replay_dir.clone(), &v);
            }
        }
    }

    fn add(&mut self, s: &Stats) {
        self.evaluations += s.execs;
        self.traces += s.execs;
        self.transitions += s.steps.max(s.execs);
        self.states += s.states.max(s.outcomes);
        self.distinct += s.outcomes;
        self.capped |= s.capped;
        for x in s.samples.iter().take(2) {
            if self.samples.len() < 24 {
                self.samples.push(x.clone());
            }
        }
    }

    /// Enumerate a finite data domain: `f` gets a `Cases` to report into.
    pub fn cases(&mut self, name: &str, f: impl FnOnce(&mut Cases)) {
        if self.violated || self.replay_sel.is_some() {
            return;
        }
        if let Some(o) = &self.args.only {
            if !name.contains(o.as_str()) {
                return;
            }
        }
        let t = Instant::now();
        let mut c = Cases {
            n: 0,
            distinct: HashSet::new(),
            distinct_n: 0,
            samples: vec![],
            current: String::new(),
        };
        BEAT.fetch_add(1, Ordering::Relaxed);
        *WHERE.lock().unwrap() = name.to_string();
        let over = std::sync::Arc::new(AtomicBool::new(false));
        let over2 = over.clone();
        let wd = std::thread::spawn(move || {
            let mut last = BEAT.load(Ordering::Relaxed);
            let mut since = Instant::now();
            while !over2.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(50));
                let b = BEAT.load(Ordering::Relaxed);
                if b != last {
                    last = b;
                    since = Instant::now();
                } else if since.elapsed().as_secs() > 60 {
                    emergency(&Violation {
                        scenario: WHERE.lock().unwrap().clone(),
                        msg: format!("hang: no case finished for 60 s; at {}", NOWAT.lock().unwrap()),
                        choices: vec![],
                        log: vec![],
                    });
                }
            }
        });
        let r = crate::catch(|| f(&mut c));
        over.store(true, Ordering::Relaxed);
        let _ = wd.join();
        match r {
            Ok(()) => {
                let line = format!(
                    "{}: cases={} distinct={} {:.1}s",
                    name,
                    c.n,
                    c.distinct_count(),
                    t.elapsed().as_secs_f64()
                );
                println!("{line}");
                self.scenarios.push(line);
                self.evaluations += c.n;
                self.traces += c.n;
                self.states += c.distinct_count();
                self.distinct += c.distinct_count();
                self.transitions += c.n;
                for s in c.samples.into_iter().take(2) {
                    if self.samples.len() < 24 {
                        self.samples.push(format!("{name}: {s}"));
                    }
                }
            }
            Err(msg) => {
                self.violated = true;
                let v = Violation {
                    scenario: name.to_string(),
                    msg: format!("{msg} [case: {}]", c.current),
                    choices: vec![],
                    log: vec![],
                };
                write_replay(&self.args.prop.clone(), &self.args.replay_dir.clone(), &v);
            }
        }
    }

    pub fn finish(mut self) -> ! {
        let _ = self.data_seen.len();
        if self.replay_sel.is_some() {
            std::process::exit(0);
        }
        let wall = self.start.elapsed().as_secs_f64();
        if let Some(p) = &self.args.evidence {
            let mut cov = vec![];
            if self.samples.is_empty() {
                self.samples = self.scenarios.iter().take(6).cloned().collect();
            }
            cov.push(format!("\"evaluations\": {}", self.evaluations));
            cov.push(format!("\"distinct_nontrivial\": {}", self.distinct));
            if self.level == "model_checking" {
                cov.push(format!("\"states\": {}", self.states));
                cov.push(format!("\"transitions\": {}", self.transitions));
                cov.push(format!("\"traces_validated_against_impl\": {}", self.traces));
            }
            cov.push(format!("\"rule\": {}", js(&self.rule)));
            cov.push(format!(
                "\"samples\": [{}]",
                self.samples.iter().take(40).map(|s| js(&brief(s))).collect::<Vec<_>>().join(", ")
            ));
            cov.push(format!(
                "\"scenarios\": [{}]",
                self.scenarios.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")
            ));
            cov.push(format!("\"exhaustive\": {}", !self.capped && !self.violated));
            let s = format!(
                "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  {}\n }},\n \"assumptions\": [{}],\n \"violations\": {},\n \"wall_s\": {:.2}\n}}\n",
                js(&self.args.prop),
                js(if self.args.thorough { "thorough" } else { "quick" }),
                self.args.seed,
                js(self.level),
                cov.join(",\n  "),
                self.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
                if self.violated { 1 } else { 0 },
                wall
            );
            if let Some(d) = p.parent() {
                let _ = std::fs::create_dir_all(d);
            }
            std::fs::write(p, s).expect("evidence");
        }
        println!(
            "{} {}: {} evaluations, {} states, {} transitions in {:.1}s{}",
            self.args.prop,
            if self.violated { "VIOLATED" } else { "held" },
            self.evaluations,
            self.states,
            self.transitions,
            wall,
            if self.capped { " (a cap was hit)" } else { "" }
        );
        std::process::exit(if self.violated { 1 } else { 0 })
    }

    pub fn violated(&self) -> bool {
        self.violated
    }
}

/// Accounting of a data enumeration.
pub struct Cases {
    pub n: u64,
    distinct: HashSet<u64>,
    distinct_n: u64,
    samples: Vec<String>,
    current: String,
}

impl Cases {
    /// Count one case; `key` identifies it up to triviality.
    #[inline]
    pub fn hit(&mut self, key: u64) {
        self.n += 1;
        if self.n & 0xff == 0 {
            beat();
        }
        if self.distinct.len() < 2_000_000 {
            self.distinct.insert(key);
        }
    }
    /// Count `n` distinct cases at once.
    pub fn bulk(&mut self, n: u64) {
        self.n += n;
        self.distinct_n += n;
        beat();
    }
    /// Remember what is being tried, for the violation message.
    #[inline]
    pub fn at(&mut self, f: impl FnOnce() -> String) {
        self.current = f();
        if let Ok(mut g) = NOWAT.lock() {
            g.clear();
            g.push_str(&self.current);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            self.samples.push(f());
        }
    }
    fn distinct_count(&self) -> u64 {
        self.distinct.len() as u64 + self.distinct_n
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// A sample, cut to a length that can be read.
fn brief(s: &str) -> String {
    match s.char_indices().nth(600) {
        Some((i, _)) => format!("{} ... ({} bytes)", &s[..i], s.len()),
        None => s.to_string(),
    }
}
