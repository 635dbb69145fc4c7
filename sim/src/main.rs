#![feature(f16, f128)]
#![allow(static_mut_refs)]
mod args;
mod asm;
mod case;
mod cover;
mod engine;
mod rng;
mod sut;
mod work;

use case::*;
use engine::*;
use std::collections::BTreeMap;
use std::io::Write as _;
use std::time::{Duration, Instant};
use work::*;

pub fn harness_error(s: &str) -> ! {
    eprintln!("HARNESS ERROR: {s}");
    std::process::exit(3)
}

struct Opt {
    mode: String,
    kv: BTreeMap<String, String>,
}
impl Opt {
    fn get(&self, k: &str) -> &str {
        self.kv.get(k).map(|s| s.as_str()).unwrap_or_else(|| harness_error(&format!("missing --{k}")))
    }
    fn num(&self, k: &str) -> u64 {
        self.get(k).parse().unwrap_or_else(|_| harness_error(&format!("--{k} is not a number")))
    }
}

fn load_modules(dir: &str, two: bool, need_odd: bool) -> Vec<usize> {
    let mut names: Vec<String> = std::fs::read_dir(dir)
        .unwrap_or_else(|_| harness_error("no module directory"))
        .flatten()
        .map(|e| e.file_name().to_string_lossy().into_owned())
        .filter(|n| n.ends_with(".so") && !n.ends_with(".b.so"))
        .collect();
    names.sort();
    if names.is_empty() {
        harness_error("no modules");
    }
    let mut cfgs = vec![];
    for n in names {
        let cfg = n.trim_end_matches(".so").to_string();
        cfgs.push(eng().mods.len());
        let mut paths = vec![format!("{dir}/{n}")];
        if two {
            paths.push(format!("{dir}/{cfg}.b.so"));
        }
        for p in paths {
            match sut::Module::load(&cfg, &p) {
                Ok(m) => eng().mods.push(m),
                Err(e) => harness_error(&e),
            }
        }
        let last = eng().mods.len();
        let first = *cfgs.last().unwrap();
        for k in first..last {
            if !eng().mods[k].load_odd(&format!("{dir}/{cfg}.odd")) && need_odd {
                harness_error("no list of special instructions beside the module");
            }
        }
        if two {
            more_places(&cfg, &format!("{dir}/{n}"));
        }
    }
    cfgs
}

/// Further copies of a module at scattered addresses.
fn more_places(cfg: &str, path: &str) {
    let Ok(bytes) = std::fs::read(path) else { harness_error("cannot read a module") };
    let mut r = rng::Rng::new(cfg.bytes().fold(77 + case::place(), |a, b| a * 131 + b as u64));
    for _ in 0..COPIES - 1 {
        unsafe {
            // push the next mapping down by a distance of any magnitude
            let pages = 1 + (r.u64() >> 38) >> r.below(24);
            libc::mmap(std::ptr::null_mut(), (pages.max(1) as usize) << 12, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            let fd = libc::memfd_create(c"module".as_ptr(), 0);
            if fd < 0 || libc::write(fd, bytes.as_ptr().cast(), bytes.len()) != bytes.len() as isize {
                harness_error("cannot copy a module");
            }
            match sut::Module::load(cfg, &format!("/proc/self/fd/{fd}")) {
                Ok(mut m) => {
                    m.load_odd(&format!("{}.odd", path.trim_end_matches(".so")));
                    eng().mods.push(m)
                }
                Err(e) => harness_error(&e),
            }
        }
    }
}

fn no_aslr() {
    unsafe {
        const ADDR_NO_RANDOMIZE: u64 = 0x0040000;
        let p = libc::personality(0xffff_ffff);
        if p >= 0 && (p as u64) & ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIM_REEXEC").is_none() {
            if libc::personality(p as u64 | ADDR_NO_RANDOMIZE) >= 0 {
                std::env::set_var("SIM_REEXEC", "1");
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).exec();
                let _ = e;
            }
        }
    }
}

fn sud_on() {
    unsafe {
        let a = asm::sim_restorer as usize;
        let b = asm::sim_restorer_end as usize;
        let sel = &raw mut (*ENG).sud;
        let r = libc::prctl(59, 1, a, b - a, sel as usize);
        eng().sud_ok = r == 0;
        sut::WORLD.real = 1;
    }
}

fn main() {
    let mut a = std::env::args().skip(1);
    let mode = a.next().unwrap_or_default();
    let mut kv = BTreeMap::new();
    while let Some(k) = a.next() {
        let k = k.trim_start_matches("--").to_string();
        kv.insert(k, a.next().unwrap_or_default());
    }
    let o = Opt { mode, kv };
    match o.mode.as_str() {
        "check" => parent(&o),
        "worker" => {
            no_aslr();
            worker(&o)
        }
        "replay" => {
            no_aslr();
            replay(&o)
        }
        "trace" => {
            no_aslr();
            calibrate(&o)
        }
        "modes" => {
            modes(&o)
        }
        "odd" => list_odd(o.get("mods")),
        _ => harness_error("usage: sim check|worker|replay|trace ..."),
    }
}

/// Beside every module, the offsets of instructions that not every processor has, or that read the
/// outside world.
fn list_odd(dir: &str) {
    for e in std::fs::read_dir(dir).unwrap_or_else(|_| harness_error("no module directory")).flatten() {
        let n = e.file_name().to_string_lossy().into_owned();
        let Some(cfg) = n.strip_suffix(".so").filter(|c| !c.ends_with(".b")) else { continue };
        let out = std::process::Command::new("objdump").args(["-d", "-w", "-j", ".text"]).arg(e.path()).output();
        let Ok(out) = out else { harness_error("objdump does not run") };
        let mut list = String::new();
        let mut seen = 0;
        for l in String::from_utf8_lossy(&out.stdout).lines() {
            let Some((at, rest)) = l.trim_start().split_once(":\t") else { continue };
            if u32::from_str_radix(at, 16).is_err() {
                continue;
            }
            let bytes: Vec<u8> = rest.split('\t').next().unwrap_or("").split_whitespace().filter_map(|x| u8::from_str_radix(x, 16).ok()).collect();
            seen += 1;
            if engine::odd(&bytes) {
                list += at;
                list.push('\n');
            }
        }
        if seen < 1000 {
            harness_error("a module cannot be disassembled");
        }
        if std::fs::write(format!("{dir}/{cfg}.odd"), list).is_err() {
            harness_error("cannot write the list of special instructions");
        }
    }
}

fn known_list(path: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("finding: property=") {
                if let Some((sig, why)) = r.split_once(" -- ") {
                    v.push((sig.trim().to_string(), why.trim().to_string()));
                }
            }
        }
    }
    v
}

/// Coverage-guided operand search on the instrumented build.
fn cover(o: &Opt) {
    let cfgs = load_modules(&format!("{}/cov", o.get("mods")), false, false);
    let dict = args::Dict::load(o.get("src"));
    let (dir, me, n) = (o.get("dir"), o.num("me"), o.num("n"));
    let thorough = o.get("tier") == "thorough";
    let mut out = String::new();
    let (mut execs, mut edges, mut equal, mut kept) = (0, 0, 0, 0u64);
    for (ci, &m) in cfgs.iter().enumerate() {
        use_module(m);
        let Some(cov) = cover::Cov::of(&eng().mods[m]) else { continue };
        let mut reached = vec![b'0'; cov.len()];
        let gen = args::Gen::new(&dict, &eng().mods[m].ops, &Default::default());
        for op in 0..eng().mods[m].ops.len() {
            let od = eng().mods[m].ops[op].clone();
            if (op as u64 + ci as u64) % n != me || od.name.starts_with("Libm") {
                continue;
            }
            let per = if thorough { 1_000_000 } else { 80_000 };
            let t1 = Instant::now();
            let f = cover::search(&cov, &gen, op, o.num("seed"), per, matches!(o.get("prop"), "C07" | "C08" | "C09"));
            if std::env::var_os("SIM_TIMES").is_some() {
                eprintln!("{:.3} {} {} {}", t1.elapsed().as_secs_f64(), f.execs, f.work, od.name);
            }
            execs += f.execs;
            edges += f.edges;
            equal += f.equalities;
            kept += f.specs.len() as u64;
            for i in f.reached {
                reached[i] = b'1';
            }
            for s in f.specs {
                out += &format!("{} {:x} {:x} {:x} {}\n", args::shape_key(&od), s.x[0], s.x[1], s.x[2], s.n);
            }
        }
        let _ = std::fs::write(format!("{dir}/reached.{ci}.{me}"), &reached);
        if me == 0 {
            let t: String = (0..cov.len()).map(|i| format!("{:#x}\n", eng().mods[m].off(cov.pc(i)))).collect();
            let _ = std::fs::write(format!("{dir}/places.{ci}"), t);
        }
    }
    let _ = std::fs::write(format!("{dir}/corpus.{me}"), out);
    let st = format!("operand_search_calls={execs}\noperand_search_branches={edges}\noperand_search_compare_hits={equal}\noperands_kept={kept}\n");
    let _ = std::fs::write(format!("{dir}/cover-stats.{me}"), st);
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(0) }
}

fn worker(o: &Opt) {
    init();
    if o.get("stage") == "cover" {
        return cover(o);
    }
    let prop = o.get("prop").to_string();
    if o.get("stage") == "work" {
        case::set_place(o.num("me"));
    }
    unsafe { WANT_FLAGS = prop == "C10" };
    unsafe { OWN_LIMIT = prop == "C07" };
    let cfgs = load_modules(o.get("mods"), prop == "C05" || prop == "C10" || prop == "C11", prop == "C12");
    let dict = args::Dict::load(o.get("src"));
    let corpora = if o.kv.contains_key("dir") { args::read_corpora(&format!("{}/corpus", o.get("dir"))) } else { Default::default() };
    let mut gens: Vec<args::Gen> = cfgs.iter().map(|&m| args::Gen::new(&dict, &eng().mods[m].ops, &corpora)).collect();
    for g in &mut gens {
        g.big = if matches!(prop.as_str(), "C07" | "C08" | "C09") { 6 } else { 1 };
    }
    let mut stateful: Vec<Stateful> = vec![];
    let stage = o.get("stage").to_string();
    let dir = o.get("dir").to_string();
    if stage == "work" {
        if let Ok(t) = std::fs::read_to_string(format!("{dir}/stateful")) {
            let mut last = String::new();
            for l in t.lines() {
                let w: Vec<&str> = l.split_whitespace().collect();
                if w.len() < 8 {
                    continue;
                }
                let h = |s: &str| u128::from_str_radix(s.trim_start_matches("0x"), 16).unwrap_or(0);
                // module numbers in the scan file count primaries only
                let m = cfgs[w[1].parse::<usize>().unwrap()];
                let op: usize = w[2].parse().unwrap();
                let s = Spec { op, x: [h(w[4]), h(w[5]), h(w[6])], n: w[7].parse().unwrap(), mode: 0 };
                if !stateful.iter().any(|x| x.m == m && x.op == op) {
                    stateful.push(Stateful { m, op, specs: vec![], groups: vec![] });
                }
                let x = stateful.iter_mut().find(|x| x.m == m && x.op == op).unwrap();
                if w[0] == "stateful" {
                    x.specs.push(s);
                } else if w[0] == last {
                    x.groups.last_mut().unwrap().push(s);
                } else {
                    x.groups.push(vec![s]);
                }
                last = w[0].to_string();
            }
        }
    }
    let known = known_list(o.get("known")).into_iter().map(|x| x.0).collect();
    let me = o.num("me");
    let mut w = W {
        prop: prop.clone(),
        seed: o.num("seed"),
        thorough: o.get("tier") == "thorough",
        me,
        n: o.num("n"),
        deadline: Instant::now() + Duration::from_secs(o.num("secs")),
        cfgs,
        gens,
        stateful,
        walked: Default::default(),
        stats: BTreeMap::new(),
        distinct: Bits::new(),
        pace: Default::default(),
        samples: vec![],
        found: None,
        fallback: None,
        known,
        known_hits: vec![],
    };
    if stage == "scan" {
        let mut out = vec![];
        // in the scan every configuration is loaded once, so module number = configuration number
        let cf = w.cfgs.clone();
        w.scan(&mut out);
        let fix: Vec<String> = out
            .iter()
            .map(|l| {
                let mut p: Vec<String> = l.split_whitespace().map(|s| s.to_string()).collect();
                let m: usize = p[1].parse().unwrap();
                p[1] = cf.iter().position(|&x| x == m).unwrap().to_string();
                p.join(" ")
            })
            .collect();
        let _ = std::fs::write(format!("{dir}/scan.{me}"), fix.join("\n") + "\n");
    } else {
        if prop == "C08" {
            sud_on();
        }
        w.work();
        if w.found.is_none() {
            if let Some((mut c, v, u)) = w.fallback.take() {
                c.any_kill = true;
                if let Some(v2) = check(&c) {
                    let _ = v;
                    w.hit(c, v2, u);
                }
            }
        }
    }
    let mut t = String::new();
    for (k, v) in &w.stats {
        t += &format!("{k}={v}\n");
    }
    let _ = std::fs::write(format!("{dir}/{stage}-stats.{me}"), t);
    if stage == "work" {
        let b: Vec<u8> = w.distinct.0.iter().flat_map(|x| x.to_le_bytes()).collect();
        let _ = std::fs::write(format!("{dir}/bits.{me}"), b);
        for (i, s) in w.samples.iter().enumerate() {
            let _ = std::fs::write(format!("{dir}/sample.{me}.{i}"), s);
        }
        let _ = std::fs::write(format!("{dir}/known.{me}"), w.known_hits.join("\n"));
        if let Some((c, v, unit)) = w.found.take() {
            let (c2, v2, tries) = minimise(&c, &v, 400);
            let sig = signature(&c2, &v2);
            let mut t = serialise(&c2);
            t += &format!("# seed {} unit {unit}, minimised in {tries} attempts\n# signature {sig}\n# {}\n", w.seed, v2.text.replace('\n', " "));
            t += &format!("# --- as first found ---\n");
            for l in serialise(&c).lines() {
                t += &format!("# {l}\n");
            }
            let _ = std::fs::write(format!("{dir}/found.{me}.tmp"), t);
            let _ = std::fs::rename(format!("{dir}/found.{me}.tmp"), format!("{dir}/found.{me}"));
        }
    }
    unsafe { libc::_exit(0) }
}

fn replay(o: &Opt) {
    init();
    let text = std::fs::read_to_string(o.get("file")).unwrap_or_else(|_| harness_error("cannot read the replay file"));
    if let Some(p) = text.lines().find_map(|l| l.strip_prefix("place ")) {
        case::set_place(p.trim().parse().unwrap_or(0));
    }
    let two = true;
    load_modules(o.get("mods"), two, false);
    let c = parse(&text).unwrap_or_else(|| harness_error("cannot parse the replay file"));
    if c.prop == "C08" {
        sud_on();
    }
    if o.kv.get("quiet").is_none() {
        eng().log = Some(vec![]);
    }
    let v = check(&c);
    if let Some(l) = eng().log.take() {
        for x in l {
            println!("  {x}");
        }
    }
    match v {
        Some(v) => {
            println!("violated: {}", v.text);
            println!("VIOLATION property={} replay={}", c.prop, o.get("file"));
            let _ = std::io::stdout().flush();
            unsafe { libc::_exit(1) }
        }
        None => {
            println!("the replayed execution does not violate {}", c.prop);
            let _ = std::io::stdout().flush();
            unsafe { libc::_exit(0) }
        }
    }
}

/// Largest instruction counts and stack use per operation (used to set the budgets).
/// Which operations give the same results in every rounding mode.
fn modes(o: &Opt) {
    init();
    let cfgs = load_modules(o.get("mods"), false, false);
    let dict = args::Dict::load(o.get("src"));
    let corpus = args::read_corpora(o.kv.get("corpus").map(|s| s.as_str()).unwrap_or("/none"));
    for &m in cfgs.iter() {
        use_module(m);
        let gen = args::Gen::new(&dict, &eng().mods[m].ops, &corpus);
        for op in 0..eng().mods[m].ops.len() {
            let od = eng().mods[m].ops[op].clone();
            if od.name.starts_with("Libm") {
                continue;
            }
            let mut r = rng::Rng::new(op as u64 + 7);
            let mut bad = [0u64; 6];
            let mut ex = vec![String::new(); 6];
            let mut n = 0;
            let mut list = gen.corpus[op].clone();
            for _ in 0..o.num("per") {
                list.push(gen.spec(&mut r, op, &od));
            }
            for s in list {
                rebegin(Guard::Mark);
                let a = native(&s, &clean_env());
                if a == Outcome::Crash(Crash::Hang) {
                    println!("hang {} {}", eng().mods[m].cfg, fmt_spec(m, &s));
                }
                n += 1;
                for (i, md) in [1u8, 2, 3, 4, 8, 12].into_iter().enumerate() {
                    let s2 = Spec { mode: md, ..s };
                    rebegin(Guard::Mark);
                    let b = native(&s2, &clean_env());
                    if matches!(b, Outcome::Crash(_)) {
                        println!("crash {} {} {:?}", eng().mods[m].cfg, fmt_spec(m, &s2), b);
                    }
                    if case::differs(&b, &a) {
                        bad[i] += 1;
                        if ex[i].is_empty() {
                            ex[i] = format!("{} {} {}", fmt_spec(m, &s), case::fmt_out(m, &s, &a), case::fmt_out(m, &s, &b));
                        }
                    }
                }
            }
            println!("{} {} {n} {:?} {:?}", eng().mods[m].cfg, od.name, bad, ex[0]);
        }
    }
    unsafe { libc::_exit(0) }
}

fn calibrate(o: &Opt) {
    init();
    let cfgs = load_modules(o.get("mods"), false, false);
    let dict = args::Dict::load(o.get("src"));
    let per = o.num("per");
    for (ci, &m) in cfgs.iter().enumerate() {
        let _ = ci;
        use_module(m);
        let gen = args::Gen::new(&dict, &eng().mods[m].ops, &Default::default());
        let mut rows = vec![];
        for op in 0..eng().mods[m].ops.len() {
            let od = eng().mods[m].ops[op].clone();
            if od.name.starts_with("Libm") {
                continue;
            }
            let mut r = rng::Rng::new(op as u64 + 7);
            let mut worst: Vec<(u64, Spec)> = vec![];
            let mut stack = 0u64;
            let mut env = CLEAN;
            env.flags = asm::FL_TSC;
            static PAT: [u64; 8192] = [0xfeed_f00d_dead_1234; 8192];
            for k in 0..per {
                let s = gen.spec(&mut r, op, &od);
                rebegin(Guard::Mark);
                let oc = native(&s, &env);
                if matches!(oc, Outcome::Crash(_)) {
                    println!("crash {} {} -> {:?} at +{:#x}", eng().mods[m].cfg, fmt_spec(m, &s), oc, eng().crash_pc);
                    continue;
                }
                worst.push((frame().inv.tsc, s));
                if k % 16 == 0 {
                    worst.sort_by_key(|x| std::cmp::Reverse(x.0));
                    worst.truncate(6);
                }
                if k % 8 == 0 {
                    let mut e2 = CLEAN;
                    e2.dirty_src = PAT.as_ptr() as u64;
                    e2.dirty_len = 65536;
                    native(&s, &e2);
                    let top = frame().inv.saved_rsp - 16;
                    let mut a = top - 65536;
                    unsafe {
                        while a < top && std::ptr::read_volatile(a as *const u64) == PAT[0] {
                            a += 8;
                        }
                    }
                    stack = stack.max(top - a);
                }
            }
            worst.sort_by_key(|x| std::cmp::Reverse(x.0));
            worst.truncate(4);
            let mut best = (0u64, String::new(), 0);
            for (_, s) in &worst {
                rebegin(Guard::Mark);
                traced(s, &clean_env(), 20_000_000, false, false);
                if eng().trace.steps > best.0 {
                    best = (eng().trace.steps, fmt_spec(m, s), budget(&eng().mods[m].cfg, &od, s.n));
                }
            }
            rows.push((best.0, stack, od.name.clone(), best.1, best.2));
        }
        rows.sort_by_key(|x| std::cmp::Reverse(x.0));
        if o.kv.contains_key("table") {
            let g = if eng().mods[m].cfg.starts_with("dbg") { "dbg" } else { "opt" };
            for r in &rows {
                println!("{g} {} {}", r.2, r.0);
            }
            continue;
        }
        println!("== {} stack max {}", eng().mods[m].cfg, rows.iter().map(|r| r.1).max().unwrap_or(0));
        for r in rows.iter().take(25) {
            println!("{:>9} of {:>9} stack {:>6} {} {}", r.0, r.4, r.1, r.2, r.3);
        }
    }
    unsafe { libc::_exit(0) }
}

fn jstr(s: &str) -> String {
    let mut t = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => t += "\\\"",
            '\\' => t += "\\\\",
            '\n' => t += "\\n",
            c if (c as u32) < 32 => t += &format!("\\u{:04x}", c as u32),
            c => t.push(c),
        }
    }
    t.push('"');
    t
}

fn read_stats(dir: &str, stage: &str, n: u64) -> BTreeMap<String, u64> {
    let mut s: BTreeMap<String, u64> = BTreeMap::new();
    for i in 0..n {
        if let Ok(t) = std::fs::read_to_string(format!("{dir}/{stage}-stats.{i}")) {
            for l in t.lines() {
                if let Some((k, v)) = l.split_once('=') {
                    let v: u64 = v.parse().unwrap_or(0);
                    let e = s.entry(k.to_string()).or_insert(0);
                    if k.starts_with("longest") {
                        *e = (*e).max(v);
                    } else {
                        *e += v;
                    }
                }
            }
        }
    }
    s
}

fn parent(o: &Opt) {
    let t0 = Instant::now();
    let prop = o.get("prop").to_string();
    let verif = o.get("verif").to_string();
    let tier = o.get("tier").to_string();
    let seed = o.num("seed");
    let n = o.num("jobs");
    let secs = o.num("secs");
    println!("seed {seed} property {prop} tier {tier}");
    let dir = format!("{verif}/target/run-{prop}-{}", std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let exe = std::env::current_exe().unwrap_or_else(|_| harness_error("current_exe"));
    let stage = |name: &str, secs: u64| {
        let mut kids = vec![];
        for me in 0..n {
            let c = std::process::Command::new(&exe)
                .args([
                    "worker", "--prop", &prop, "--mods", o.get("mods"), "--src", o.get("src"), "--dir", &dir, "--stage", name, "--me", &me.to_string(), "--n", &n.to_string(), "--seed", &seed.to_string(),
                    "--tier", &tier, "--secs", &secs.to_string(), "--known", &format!("{verif}/known-findings.txt"),
                ])
                .spawn();
            match c {
                Ok(c) => kids.push((me, c, false)),
                Err(e) => harness_error(&format!("cannot start a worker: {e}")),
            }
        }
        let start = Instant::now();
        let mut bad = vec![];
        let mut found_at: Option<Instant> = None;
        loop {
            let mut live = false;
            for (me, c, done) in kids.iter_mut() {
                if *done {
                    continue;
                }
                match c.try_wait() {
                    Ok(Some(st)) => {
                        *done = true;
                        if !st.success() {
                            bad.push(format!("worker {me} of stage {name}: {st}"));
                        }
                    }
                    _ => live = true,
                }
            }
            if !live {
                break;
            }
            let any = (0..n).any(|i| std::path::Path::new(&format!("{dir}/found.{i}")).exists());
            if any && found_at.is_none() {
                found_at = Some(Instant::now());
            }
            let give_up = start.elapsed().as_secs() > secs + 240 || found_at.is_some_and(|t| t.elapsed().as_secs() > 2);
            if give_up {
                for (_, c, done) in kids.iter_mut() {
                    if !*done {
                        let _ = c.kill();
                        let _ = c.wait();
                        *done = true;
                    }
                }
                if found_at.is_none() {
                    bad.push(format!("stage {name} did not end"));
                }
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        bad
    };
    let mut corpus = String::new();
    if std::path::Path::new(&format!("{}/cov", o.get("mods"))).exists() {
        for b in stage("cover", 120) {
            println!("note: {b} (operand search)");
        }
        for i in 0..n {
            if let Ok(t) = std::fs::read_to_string(format!("{dir}/corpus.{i}")) {
                corpus += &t;
            }
        }
    }
    let _ = std::fs::write(format!("{dir}/corpus"), &corpus);
    let (mut reached, mut places) = (0u64, 0u64);
    for ci in 0..2 {
        let mut all: Vec<u8> = vec![];
        for i in 0..n {
            if let Ok(b) = std::fs::read(format!("{dir}/reached.{ci}.{i}")) {
                all.resize(b.len().max(all.len()), b'0');
                for (x, y) in all.iter_mut().zip(&b) {
                    *x = (*x).max(*y);
                }
            }
        }
        reached += all.iter().filter(|x| **x == b'1').count() as u64;
        places += all.len() as u64;
        if let Some(to) = std::env::var_os("SIM_UNREACHED") {
            // development aid: code offsets of blocks no operand reached
            let t = std::fs::read_to_string(format!("{dir}/places.{ci}")).unwrap_or_default();
            let l: Vec<&str> = t.lines().zip(&all).filter(|(_, r)| **r == b'0').map(|x| x.0).collect();
            let _ = std::fs::write(format!("{}.{ci}", to.to_string_lossy()), l.join("\n"));
        }
    }
    let cover_s = t0.elapsed().as_secs_f64();
    let mut bad = stage("scan", 120);
    let mut merged = String::new();
    for i in 0..n {
        if let Ok(t) = std::fs::read_to_string(format!("{dir}/scan.{i}")) {
            merged += &t;
        }
    }
    let _ = std::fs::write(format!("{dir}/stateful"), &merged);
    let scan_s = t0.elapsed().as_secs_f64() - cover_s;
    let tw = Instant::now();
    if bad.is_empty() {
        bad.extend(stage("work", secs));
    }
    let work_s = tw.elapsed().as_secs_f64().max(0.001);
    let mut scan = read_stats(&dir, "scan", n);
    scan.extend(read_stats(&dir, "cover", n));
    scan.insert("instrumented_blocks".into(), places);
    scan.insert("instrumented_blocks_reached_by_operand_search".into(), reached);
    let st = read_stats(&dir, "work", n);
    let mut bits = Bits::new();
    for i in 0..n {
        if let Ok(b) = std::fs::read(format!("{dir}/bits.{i}")) {
            for (k, ch) in b.chunks_exact(8).enumerate() {
                bits.0[k] |= u64::from_le_bytes(ch.try_into().unwrap());
            }
        }
    }
    let mut samples = vec![];
    for i in 0..n {
        for j in 0..3 {
            if samples.len() < 4 {
                if let Ok(t) = std::fs::read_to_string(format!("{dir}/sample.{i}.{j}")) {
                    samples.push(t);
                }
            }
        }
    }
    // known findings met
    let known = known_list(&format!("{verif}/known-findings.txt"));
    let mut hits: Vec<String> = vec![];
    for i in 0..n {
        if let Ok(t) = std::fs::read_to_string(format!("{dir}/known.{i}")) {
            hits.extend(t.lines().filter(|l| !l.is_empty()).map(|l| l.to_string()));
        }
    }
    hits.sort();
    hits.dedup();
    for h in &hits {
        let why = known.iter().find(|k| k.0 == *h).map(|k| k.1.clone()).unwrap_or_default();
        println!("KNOWN-FINDING: property={prop} {h} {why}");
    }
    // violations
    let mut viol = None;
    for i in 0..n {
        let f = format!("{dir}/found.{i}");
        if let Ok(t) = std::fs::read_to_string(&f) {
            let rd = format!("{verif}/replay");
            let _ = std::fs::create_dir_all(&rd);
            let dst = format!("{rd}/{prop}-seed{seed}-w{i}.txt");
            let _ = std::fs::write(&dst, &t);
            viol = Some((dst, t));
            break;
        }
    }
    if let Some((dst, t)) = &viol {
        for l in t.lines().take_while(|l| !l.starts_with("# --- as first")) {
            println!("  {l}");
        }
        let r = std::process::Command::new(&exe).args(["replay", "--mods", o.get("mods"), "--file", dst, "--quiet", "1"]).output();
        match r {
            Ok(r) if r.status.code() == Some(1) => println!("the replay file reproduces it in a fresh process"),
            Ok(r) => println!("note: replay in a fresh process ended with {:?}", r.status.code()),
            Err(e) => println!("note: replay could not be started: {e}"),
        }
    }
    let runs = st.get("runs").copied().unwrap_or(0) + st.get("histories").copied().unwrap_or(0) + st.get("soaks").copied().unwrap_or(0);
    let distinct = bits.count();
    let wall = t0.elapsed().as_secs_f64();
    let mut cov = String::new();
    cov += &format!("\"evaluations\": {runs},\n    \"distinct_nontrivial\": {distinct},\n    \"rule\": {},\n", jstr(rule(&prop)));
    cov += &format!("    \"samples\": [{}],\n", samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "));
    cov += &format!(
        "    \"runs_per_hour\": {},\n    \"seeds\": {{\"base\": {seed}, \"units\": {}, \"units_per_hour\": {}}},\n",
        (runs as f64 * 3600.0 / work_s) as u64,
        st.get("units").copied().unwrap_or(0),
        (st.get("units").copied().unwrap_or(0) as f64 * 3600.0 / work_s) as u64
    );
    cov += &format!(
        "    \"simulated_time\": {},\n",
        jstr("the code under test reads no clock; time is counted in executed instructions and scheduler decisions, see counters")
    );
    let faults: Vec<String> = st.iter().filter(|(k, _)| k.starts_with("fault:") || k.starts_with("ambient:")).filter(|(_, v)| **v > 0).map(|(k, v)| format!("{}: {v}", jstr(k.split_once(':').unwrap().1))).collect();
    cov += &format!("    \"faults_fired\": {{{}}},\n", faults.join(", "));
    let rest: Vec<String> = st.iter().filter(|(k, _)| !k.starts_with("fault:") && !k.starts_with("ambient:")).chain(scan.iter()).map(|(k, v)| format!("{}: {v}", jstr(k))).collect();
    cov += &format!("    \"counters\": {{{}}},\n", rest.join(", "));
    let ops: std::collections::BTreeSet<&str> = merged.lines().filter_map(|l| l.split_whitespace().nth(3)).collect();
    cov += &format!("    \"operations_touching_static_memory\": {},\n", ops.len());
    cov += &format!("    \"configurations\": {},\n", jstr(o.get("configs")));
    cov += "    \"real_components\": \"all of libm/src as compiled machine code in each listed configuration, plus the compiler runtime routines it calls\",\n";
    cov += "    \"stub_components\": \"thread scheduler, store buffers, signal delivery, thread death, allocator, kernel entry, and the rest of the world: clocks, random numbers, environment, errno, thread and process identity, CPU model, sleeping and yielding\",\n";
    cov += &format!("    \"operand_search_seconds\": {cover_s:.1}, \"scan_seconds\": {scan_s:.1}, \"search_seconds\": {work_s:.1}");
    let ev = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {seed},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    {cov}\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {wall:.2},\n  \"violations\": {}\n}}\n",
        jstr(&prop),
        jstr(&tier),
        jstr("x86-64 code generation of the pinned nightly compiler; interleavings at instruction granularity under x86-64 total store order; exceptions masked"),
        viol.is_some() as u32
    );
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    if std::fs::write(format!("{verif}/evidence/{prop}.json"), ev).is_err() {
        harness_error("cannot write the evidence file");
    }
    let _ = std::fs::remove_dir_all(&dir);
    if let Some((dst, _)) = viol {
        println!("VIOLATION property={prop} replay={dst}");
        let _ = std::io::stdout().flush();
        std::process::exit(1);
    }
    if !bad.is_empty() {
        harness_error(&bad.join("; "));
    }
    println!("{prop}: held on {runs} simulated executions ({distinct} distinct), {:.0} s", wall);
}

fn rule(p: &str) -> &'static str {
    match p {
        "C01" => "a run is one seeded schedule of 2 to 21 simulated threads calling the library; non-trivial when at least one preemption fired inside a call; distinct by hash of the event trace (thread, code offset, action, results), counted as set bits of a 2^26 bitmap (a lower bound)",
        "C02" => "a run is one thread whose calls are interrupted at chosen instructions by handler calls nested up to twelve deep; non-trivial when an interrupt fired; distinct by trace hash in a 2^26 bitmap (a lower bound)",
        "C03" => "a run abandons calls at chosen instructions and continues with further calls; non-trivial when a kill fired; distinct by trace hash in a 2^26 bitmap (a lower bound)",
        "C04" => "a run is one sequence of calls on one thread with machine state carried over, each result compared with the fresh-process result; distinct by hash of the sequence in a 2^26 bitmap (a lower bound)",
        "C05" => "a run is one call under one ambient variation compared with the clean run; distinct by hash of (configuration, operation, operands, variation) in a 2^26 bitmap (a lower bound)",
        "C06" => "a run is one call with one caller machine state; distinct by hash of (configuration, operation, operands, state) in a 2^26 bitmap (a lower bound)",
        "C12" => "a run is one call on a simulated processor that lacks extensions, or under a system that has not enabled them (the instructions concerned trap), compared with the same call on the real one; every one is non-trivial; distinct by hash of (configuration, operation, operands, processor) in a 2^26 bitmap (a lower bound)",
        "C11" => "a run is one call of an exact operation in a rounding mode other than the default, compared with the same call in the default mode; every one is non-trivial; distinct by hash of (configuration, operation, operands) in a 2^26 bitmap (a lower bound)",
        "C10" => "a run is a schedule with preempted, interrupted or killed calls, a sequence of calls, or one call under an ambient variation, in which the exception flags each call raises are compared with those it raises alone; non-trivial when a fault fired or flags were compared after earlier calls; distinct by trace hash or (configuration, operation, operands, variation) in a 2^26 bitmap (a lower bound)",
        "C09" => "a run is one call on a stack that ends in an inaccessible page exactly at the limit; distinct by hash of (configuration, operation, operands) in a 2^26 bitmap (a lower bound)",
        "C07" => "a run is either a schedule in which other threads are stalled or killed inside calls, or one call measured against its instruction budget; distinct by trace hash or (configuration, operation, operands) in a 2^26 bitmap (a lower bound)",
        _ => "a run is one call with trapped kernel entry and, every other time, a refusing allocator; distinct by hash of (configuration, operation, operands) in a 2^26 bitmap (a lower bound)",
    }
}
