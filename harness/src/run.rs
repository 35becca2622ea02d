//! Case runner: seeded parallel generation, panic capture, shrinking, replay files, evidence.
use crate::tape::{hash_str, mix, Tape};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

/// Per-case context handed to a property.
pub struct Ctx {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
    pub want_desc: bool,
    pub desc: String,
    pub discarded: bool,
    /// set together with an error: the known finding this failure is the exact symptom of
    pub site: Option<&'static str>,
}

impl Ctx {
    pub fn new(want_desc: bool) -> Self {
        Ctx { nontrivial: false, classes: Vec::new(), want_desc, desc: String::new(), discarded: false, site: None }
    }
    pub fn class(&mut self, c: &'static str) {
        if !self.classes.contains(&c) {
            self.classes.push(c);
        }
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_desc {
            if !self.desc.is_empty() {
                self.desc.push_str("; ");
            }
            self.desc.push_str(&f());
        }
    }
    pub fn discard(&mut self) {
        self.discarded = true;
    }
}

pub type CheckFn = fn(&mut Tape, &mut Ctx) -> Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    pub f: CheckFn,
    /// cases in the quick tier, cases in the thorough tier
    pub quick: u64,
    pub thorough: u64,
    /// how cases are made
    pub rule: &'static str,
    /// what makes one non-trivial
    pub nontrivial: &'static str,
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic: {msg} at {loc}"));
    }));
}

pub fn run_case(f: CheckFn, tape: &mut Tape, ctx: &mut Ctx) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| f(tape, ctx))) {
        Ok(r) => r,
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

/// Run a piece of library code, turning a panic into an error.
pub fn no_panic<R, F: FnOnce() -> R>(what: &str, f: F) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| format!("{what}: {}", LAST_PANIC.with(|p| p.borrow().clone())))
}

pub fn shrink(f: CheckFn, start: Vec<u64>, max_evals: usize) -> (Vec<u64>, String) {
    // a failure must not turn into the symptom of a (different) known finding
    let site = {
        let mut ctx = Ctx::new(false);
        let _ = run_case(f, &mut Tape::replay(start.clone()), &mut ctx);
        ctx.site
    };
    let fails = |c: &Vec<u64>| -> Option<(Vec<u64>, String)> {
        let mut t = Tape::replay(c.clone());
        let mut ctx = Ctx::new(false);
        match run_case(f, &mut t, &mut ctx) {
            Err(_) if ctx.site != site => None,
            Err(m) => {
                let used = t.used().min(c.len());
                Some((c[..used].to_vec(), m))
            }
            Ok(()) => None,
        }
    };
    let deadline = Instant::now();
    let mut best = start;
    let mut msg;
    match fails(&best) {
        Some((b, m)) => {
            best = b;
            msg = m;
        }
        None => return (best, "not reproducible on replay".into()),
    }
    let mut evals = 0;
    let over = |e: usize| e > max_evals || deadline.elapsed().as_secs() > 60;
    loop {
        let before = (best.len(), best.clone());
        // delete blocks
        let mut size = 16.min(best.len().max(1));
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                if over(evals) {
                    return (best, msg);
                }
                let mut c = best.clone();
                c.drain(i..i + size);
                evals += 1;
                if let Some((b, m)) = fails(&c) {
                    if b.len() < best.len() {
                        best = b;
                        msg = m;
                        continue;
                    }
                }
                i += 1;
            }
            size /= 2;
        }
        // lower values
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            for cand in [0u64, 1, best.get(i).copied().unwrap_or(0) >> 12 << 12, best.get(i).copied().unwrap_or(0) / 2, best.get(i).copied().unwrap_or(0).saturating_sub(1)] {
                if i >= best.len() || cand >= best[i] {
                    continue;
                }
                if over(evals) {
                    return (best, msg);
                }
                let mut c = best.clone();
                c[i] = cand;
                evals += 1;
                if let Some((b, m)) = fails(&c) {
                    best = b;
                    msg = m;
                }
            }
        }
        if before == (best.len(), best.clone()) {
            return (best, msg);
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn verif_root() -> std::path::PathBuf {
    std::env::var("VERIF_ROOT").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

#[derive(Default)]
struct Acc {
    evals: u64,
    discards: u64,
    nontrivial: HashSet<u64>,
    nontrivial_dups: u64,
    classes: BTreeMap<&'static str, u64>,
    fails: Vec<(u64, Vec<u64>, String)>,
    samples: Vec<(u64, u64)>,
}

fn tape_hash(c: &[u64]) -> u64 {
    let mut h = 0x1234_5678u64;
    for x in c {
        h = (h.rotate_left(5) ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }
    h
}

/// Known findings: one per line `property<TAB>id<TAB>comma separated choices<TAB>what fails`.
struct Known {
    id: String,
    choices: Vec<u64>,
    what: String,
}

fn load_known(prop: &str) -> Vec<Known> {
    let path = verif_root().join("known_findings.tsv");
    let Ok(s) = std::fs::read_to_string(path) else { return vec![] };
    s.lines()
        .filter(|l| !l.starts_with('#') && !l.starts_with("fixed:") && !l.trim().is_empty())
        .filter_map(|l| {
            let mut it = l.split('\t');
            let (p, id, ch, what) = (it.next()?, it.next()?, it.next()?, it.next()?);
            if p != prop {
                return None;
            }
            Some(Known {
                id: id.into(),
                choices: ch.split(',').filter_map(|x| x.parse().ok()).collect(),
                what: what.into(),
            })
        })
        .collect()
}

/// Inputs that once failed (on code that was broken then): `property<TAB>name<TAB>choices` lines.
fn load_corpus(prop: &str) -> Vec<Vec<u64>> {
    let Ok(s) = std::fs::read_to_string(verif_root().join("regress.tsv")) else { return vec![] };
    s.lines()
        .filter(|l| l.split('\t').next() == Some(prop))
        .filter_map(|l| Some(l.split('\t').nth(2)?.split(',').filter_map(|x| x.parse().ok()).collect()))
        .collect()
}

/// Numbers of the cases that replay the corpus, and of the ones that vary it.
const VARY_EVERY: u64 = 8;
const REPLAYED: u64 = 1 << 40;
const VARIED: u64 = 1 << 41;

/// The case with the given number. Plain numbers are random cases.
fn tape_for(base: u64, corpus: &[Vec<u64>], number: u64) -> Tape {
    if number >= VARIED {
        Tape::mutant(corpus, mix(base, number))
    } else if number >= REPLAYED {
        Tape::replay(corpus.get((number - REPLAYED) as usize).cloned().unwrap_or_default())
    } else {
        Tape::random(mix(base, number))
    }
}

fn parse_replay(path: &str) -> Option<Vec<u64>> {
    let s = std::fs::read_to_string(path).ok()?;
    let i = s.find("\"choices\"")?;
    let rest = &s[i..];
    let a = rest.find('[')?;
    let b = rest.find(']')?;
    Some(rest[a + 1..b].split(',').filter_map(|x| x.trim().parse().ok()).collect())
}

/// Replay files of cases that never ended name the case instead of its choices.
fn parse_case(path: &str) -> Option<(u64, String, u64)> {
    let s = std::fs::read_to_string(path).ok()?;
    let field = |k: &str| {
        let rest = &s[s.find(&format!("\"{k}\":"))? + k.len() + 3..];
        Some(rest[..rest.find(['\n', ','])?].trim().trim_matches('"').to_string())
    };
    Some((field("seed")?.parse().ok()?, field("tier")?, field("case")?.parse().ok()?))
}

/// Memory in use by this process.
fn resident_gb() -> f64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    let pages: f64 = s.split_whitespace().nth(1).and_then(|x| x.parse().ok()).unwrap_or(0.0);
    pages * 4096.0 / 1e9
}

fn own_tid() -> u64 {
    let link = std::fs::read_link("/proc/thread-self").unwrap_or_default();
    link.file_name().and_then(|n| n.to_str()).and_then(|n| n.parse().ok()).unwrap_or(0)
}

/// Processor time a thread of this process has used.
fn cpu_seconds(tid: u64) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    let after = s.rsplit(')').next().unwrap_or("");
    let f: Vec<f64> = after.split_whitespace().skip(11).take(2).filter_map(|x| x.parse().ok()).collect();
    f.iter().sum::<f64>() / 100.0
}

pub fn main_with(props: &[Prop]) -> ! {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let id = match get("--property") {
        Some(x) => x,
        None => {
            for p in props {
                println!("{}", p.id);
            }
            std::process::exit(2);
        }
    };
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    if let Some(path) = get("--replay") {
        crate::crash::install(p.id, 0, "quick", Some(path.clone()));
        let mut t = match (parse_replay(&path), parse_case(&path)) {
            (Some(ch), _) => Tape::replay(ch),
            (None, Some((seed, tier, i))) => tape_for(mix(mix(seed, hash_str(p.id)), hash_str(&tier)), &load_corpus(p.id), i),
            _ => {
                eprintln!("cannot read replay file {path}");
                std::process::exit(2);
            }
        };
        let mut ctx = Ctx::new(true);
        let r = run_case(p.f, &mut t, &mut ctx);
        println!("case: {}", ctx.desc);
        match r {
            Ok(()) => {
                println!("replay passes");
                std::process::exit(0)
            }
            Err(m) => {
                println!("failure: {m}");
                println!("VIOLATION property={} replay={}", p.id, path);
                std::process::exit(1)
            }
        }
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = get("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let tier: &'static str = if tier == "thorough" { "thorough" } else { "quick" };
    crate::crash::install(p.id, seed, tier, None);
    let mut total = if tier == "thorough" { p.thorough } else { p.quick };
    let only: Option<u64> = get("--case").and_then(|s| s.parse().ok());
    if let Some(i) = only {
        // exploration aid: one generated case, shrunk on failure
        let base = mix(mix(seed, hash_str(p.id)), hash_str(tier));
        let mut t = tape_for(base, &load_corpus(p.id), i);
        let mut ctx = Ctx::new(true);
        let r = run_case(p.f, &mut t, &mut ctx);
        println!("{:?} {} -> {:?}", ctx.classes, ctx.desc, r);
        if r.is_err() {
            let (best, msg) = shrink(p.f, t.choices.clone(), 6000);
            let mut t = Tape::replay(best);
            let mut ctx = Ctx::new(true);
            let _ = run_case(p.f, &mut t, &mut ctx);
            println!("SHRUNK {:?} {} -> {}", ctx.classes, ctx.desc, msg);
        }
        std::process::exit(0);
    }
    if let Some(n) = get("--cases").and_then(|s| s.parse().ok()) {
        total = n;
    }
    let max_fails: usize = get("--max-fails").and_then(|s| s.parse().ok()).unwrap_or(1);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16);
    let t0 = Instant::now();
    let base = mix(mix(seed, hash_str(p.id)), hash_str(tier));

    // watchdog: a case that does not come back, or that takes all memory, is a failure too
    let started: Arc<Vec<AtomicU64>> = Arc::new((0..threads).map(|_| AtomicU64::new(0)).collect());
    let current: Arc<Vec<AtomicU64>> = Arc::new((0..threads).map(|_| AtomicU64::new(0)).collect());
    let tids: Arc<Vec<AtomicU64>> = Arc::new((0..threads).map(|_| AtomicU64::new(0)).collect());
    {
        let (started, current, tids) = (started.clone(), current.clone(), tids.clone());
        let (pid, rule) = (p.id, p.rule);
        // (thread, start and processor time of the case looked at, when first seen)
        let mut seen = (0usize, 0u64, 0.0f64);
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(250));
            let now = t0.elapsed().as_millis() as u64;
            // (each start is read once: it is zero between two cases)
            let starts = started.iter().map(|s| s.load(Ordering::Relaxed)).enumerate();
            let Some((th, st)) = starts.filter(|s| s.1 != 0).min_by_key(|s| s.1) else { continue };
            let i = current[th].load(Ordering::Relaxed);
            let spent = now.saturating_sub(st);
            if spent <= 2_000 {
                continue;
            }
            let cpu = cpu_seconds(tids[th].load(Ordering::Relaxed));
            if (th, st) != (seen.0, seen.1) {
                seen = (th, st, cpu);
                continue;
            }
            // processor time, as the machine may be busy with other things; waiting counts only
            // when it goes on for long
            let why = if (spent > 60_000 && cpu - seen.2 > 20.0) || spent > 300_000 {
                "has run for over 60 s"
            } else if spent > 2_000 && resident_gb() > 16.0 {
                "takes over 16 GB of memory"
            } else {
                continue;
            };
            let path = verif_root().join("evidence").join("replays").join(format!("{pid}-{seed}-{i}-stuck.json"));
            let _ = std::fs::create_dir_all(path.parent().unwrap());
            let body = format!(
                "{{\n \"property\": {},\n \"seed\": {seed},\n \"tier\": {},\n \"case\": {i},\n \"failure\": {}\n}}\n",
                json_str(pid),
                json_str(tier),
                json_str(why)
            );
            let _ = std::fs::write(&path, body);
            let ev = format!(
                "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": 0,\n  \"rule\": {}\n }},\n \"assumptions\": [],\n \"wall_s\": {:.2},\n \"violations\": 1\n}}\n",
                json_str(pid),
                json_str(tier),
                i.max(1),
                json_str(rule),
                now as f64 / 1000.0
            );
            let _ = std::fs::write(verif_root().join("evidence").join(format!("{pid}.json")), ev);
            println!("case {i}: {why}");
            println!("VIOLATION property={pid} replay={}", path.display());
            std::process::exit(1);
        });
    }
    let known = load_known(p.id);
    let corpus = load_corpus(p.id);
    let replayed = corpus.len() as u64;
    let varied_step = if corpus.is_empty() { u64::MAX } else { VARY_EVERY };
    total += replayed;
    // the corpus comes first, then every so many cases one that varies it
    let number = |i: u64| {
        if i < replayed {
            REPLAYED + i
        } else if (i - replayed) % varied_step == varied_step - 1 {
            VARIED + (i - replayed)
        } else {
            i - replayed
        }
    };
    let next = AtomicU64::new(0);
    let lowest_fail = AtomicU64::new(u64::MAX);
    let nfails = AtomicU64::new(0);
    let acc = Mutex::new(Acc::default());
    const CHUNK: u64 = 64;
    std::thread::scope(|s| {
        for th in 0..threads {
            let (started, current, tids, next, lowest_fail, nfails, acc, known, corpus, number) =
                (&started, &current, &tids, &next, &lowest_fail, &nfails, &acc, &known, &corpus, &number);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    tids[th].store(own_tid(), Ordering::Relaxed);
                    let mut a = Acc::default();
                    loop {
                        let lo = next.fetch_add(CHUNK, Ordering::Relaxed);
                        if lo >= total {
                            break;
                        }
                        // with one failure wanted, cases above the lowest failing one are moot
                        if max_fails == 1 && lo > lowest_fail.load(Ordering::Relaxed) {
                            break;
                        }
                        if max_fails > 1 && nfails.load(Ordering::Relaxed) as usize >= max_fails {
                            break;
                        }
                        for i in lo..(lo + CHUNK).min(total) {
                            let num = number(i);
                            current[th].store(num, Ordering::Relaxed);
                            crate::crash::set_case(num);
                            started[th].store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                            let mut t = tape_for(base, corpus, num);
                            let mut ctx = Ctx::new(false);
                            let r = run_case(p.f, &mut t, &mut ctx);
                            started[th].store(0, Ordering::Relaxed);
                            a.evals += 1;
                            if num >= REPLAYED {
                                *a.classes.entry(if num >= VARIED { "corpus-varied" } else { "corpus" }).or_default() += 1;
                            }
                            if ctx.discarded {
                                a.discards += 1;
                            }
                            for c in &ctx.classes {
                                *a.classes.entry(c).or_default() += 1;
                            }
                            if ctx.nontrivial {
                                let h = tape_hash(&t.choices);
                                if !a.nontrivial.insert(h) {
                                    a.nontrivial_dups += 1;
                                }
                                if a.samples.len() < 2 && num < REPLAYED {
                                    a.samples.push((num, 0));
                                }
                            }
                            let listed = r.is_err()
                                && known.iter().any(|k| ctx.site.is_some_and(|s| s == k.id) || k.choices == t.choices);
                            if listed {
                                *a.classes.entry("listed-finding").or_default() += 1;
                            } else if let Err(m) = r {
                                a.fails.push((i, t.choices.clone(), m));
                                lowest_fail.fetch_min(i, Ordering::Relaxed);
                                nfails.fetch_add(1, Ordering::Relaxed);
                                if max_fails == 1 {
                                    break;
                                }
                            }
                        }
                    }
                    let mut g = acc.lock().unwrap();
                    g.evals += a.evals;
                    g.discards += a.discards;
                    g.nontrivial.extend(a.nontrivial);
                    for (k, v) in a.classes {
                        *g.classes.entry(k).or_default() += v;
                    }
                    g.fails.extend(a.fails);
                    g.samples.extend(a.samples);
                })
                .expect("spawn");
        }
    });
    let mut acc = acc.into_inner().unwrap();
    acc.fails.sort();
    acc.samples.sort();

    if args.iter().any(|a| a == "--stats") {
        // exploration aid: failure counts by class and message head, nothing written
        let mut by: BTreeMap<String, (u64, u64)> = BTreeMap::new();
        for (i, ch, m) in &acc.fails {
            let mut t = Tape::replay(ch.clone());
            let mut ctx = Ctx::new(false);
            let _ = run_case(p.f, &mut t, &mut ctx);
            let head: String = m.chars().take_while(|c| !c.is_ascii_digit() && *c != '(').take(60).collect();
            let e = by.entry(format!("{:?} | {}", ctx.classes, head)).or_insert((0, *i));
            e.0 += 1;
        }
        for (k, (n, i)) in by {
            println!("{n:6} first={i} {k}");
        }
        println!("cases={} fails={} nontrivial={} discarded={} wall={:.1} classes={:?}", acc.evals, acc.fails.len(), acc.nontrivial.len(), acc.discards, t0.elapsed().as_secs_f64(), acc.classes);
        std::process::exit(0);
    }
    crate::crash::set_case(u64::MAX);
    // known findings: replay each listed one; a generated failure is excused only if it is
    // exactly one of them (the same case, or the same failure of the same call site)
    for k in &known {
        let mut t = Tape::replay(k.choices.clone());
        let mut ctx = Ctx::new(false);
        if run_case(p.f, &mut t, &mut ctx).is_err() {
            println!("KNOWN-FINDING: property={} {} {}", p.id, k.id, k.what);
        }
    }
    let mut samples = Vec::new();
    for (i, _) in acc.samples.iter().take(4) {
        let mut t = tape_for(base, &corpus, *i);
        let mut ctx = Ctx::new(true);
        let _ = run_case(p.f, &mut t, &mut ctx);
        let mut d = ctx.desc;
        if d.len() > 1500 {
            let mut cut = 1500;
            while !d.is_char_boundary(cut) {
                cut -= 1;
            }
            d.truncate(cut);
            d.push_str(" ...");
        }
        samples.push(format!("case {i}: {d}"));
    }
    let mut violations = 0;
    let mut exit = 0;
    let rdir = verif_root().join("evidence").join("replays");
    for (n, (i, choices, m)) in acc.fails.iter().enumerate() {
        if n >= max_fails {
            break;
        }
        let i = number(*i);
        violations += 1;
        exit = 1;
        let (best, msg) = shrink(p.f, choices.clone(), 6000);
        let mut t = Tape::replay(best.clone());
        let mut ctx = Ctx::new(true);
        let _ = run_case(p.f, &mut t, &mut ctx);
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}-{}-{}.json", p.id, seed, i));
        let body = format!(
            "{{\n \"property\": {},\n \"seed\": {},\n \"case\": {},\n \"original_failure\": {},\n \"failure\": {},\n \"input\": {},\n \"choices\": [{}]\n}}\n",
            json_str(p.id),
            seed,
            i,
            json_str(m),
            json_str(&msg),
            json_str(&ctx.desc),
            best.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
        );
        if let Ok(mut f) = std::fs::File::create(&path) {
            let _ = f.write_all(body.as_bytes());
        }
        println!("case {i}: {m}");
        println!("shrunk: {msg}");
        println!("input: {}", ctx.desc);
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"discarded\": {},\n  \"rule\": {},\n  \"classes\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json_str(p.id),
        json_str(tier),
        seed,
        acc.evals,
        acc.nontrivial.len(),
        acc.discards,
        json_str(&format!("cases: {}; non-trivial: {}", p.rule, p.nontrivial)),
        acc.classes.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "),
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        p.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        wall,
        violations
    );
    let edir = verif_root().join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    if get("--no-evidence").is_none() {
        std::fs::write(edir.join(format!("{}.json", p.id)), ev).expect("write evidence");
    }
    println!(
        "{} {} seed={} cases={} nontrivial={} discarded={} violations={} wall={:.1}s classes={:?}",
        p.id, tier, seed, acc.evals, acc.nontrivial.len(), acc.discards, violations, wall, acc.classes
    );
    std::process::exit(exit)
}

