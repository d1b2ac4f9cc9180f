//! Command line: run batches of seeds, replay and minimise recorded executions.
use crate::world::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::time::{Duration, Instant};

type Prop = (&'static str, fn(&World) -> R);
const PROPS: &[Prop] = &[
    #[cfg(any(feature = "all", feature = "c01"))]
    ("C01", crate::c01::run_c01),
    #[cfg(any(feature = "all", feature = "c02"))]
    ("C02", crate::c01::run_c02),
    #[cfg(any(feature = "all", feature = "c03"))]
    ("C03", crate::c03::run_c03),
    #[cfg(any(feature = "all", feature = "c04"))]
    ("C04", crate::c04::run_c04),
    #[cfg(any(feature = "all", feature = "c05"))]
    ("C05", crate::c05::run_c05),
    #[cfg(any(feature = "all", feature = "c06"))]
    ("C06", crate::c06::run_c06),
    #[cfg(any(feature = "all", feature = "c07"))]
    ("C07", crate::c07::run_c07),
    #[cfg(any(feature = "all", feature = "c10"))]
    ("C10", crate::c10::run_c10),
];
/// Far above what any workload drawn here needs (the most seen in hundreds of thousands of runs: 17 million; the `fine`
/// build, where steps take ten times as long, leaves those that need many to the others).
pub const STEP_LIMIT: u64 = if cfg!(feature = "fine") { 40_000_000 } else { 200_000_000 };
/// While minimising an execution that does not end.
const SHORT_LIMIT: u64 = 2_000_000;

pub struct Out {
    pub res: R,
    pub inner: Inner,
}
pub fn run_one(prop: &Prop, choices: Choices, hash_seed: u64) -> Out {
    run_limited(prop, choices, hash_seed, STEP_LIMIT)
}
fn run_limited(prop: &Prop, choices: Choices, hash_seed: u64, limit: u64) -> Out {
    HASH_SEED.store(hash_seed, std::sync::atomic::Ordering::SeqCst);
    HASH_CTR.store(0, std::sync::atomic::Ordering::SeqCst);
    RAW.store(0, std::sync::atomic::Ordering::SeqCst);
    full_mask();
    let w = World::new(choices, limit);
    // a fresh thread: per-thread hash keys and simulator state start anew
    let res = std::thread::scope(|s| {
        let w = &*w;
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, move || {
                w.attach_main();
                draw_mask();
                crate::simmat::draw_hash_style();
                let r = guard(|| (prop.1)(w));
                crate::expr::free_leaked();
                r
            })
            .unwrap()
            .join()
            .unwrap_or_else(|_| viol("harness", "run thread died"))
    });
    Out { res, inner: w.into_inner() }
}
fn prop_of(name: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.0 == name).unwrap_or_else(|| {
        eprintln!("unknown property {name}");
        std::process::exit(2)
    })
}
pub fn run_seed(base: u64, prop: &str, idx: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in prop.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(mix(base, h), idx)
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn is_viol(r: &R) -> Option<&Viol> {
    match r {
        Err(v) if v.class != "discard" => Some(v),
        _ => None,
    }
}

/// batch PROP SEED START COUNT PROGRESS [digests]
/// Prints one JSON line per finding and a summary line.
fn batch(a: &[String]) {
    let prop = prop_of(&a[0]);
    let seed: u64 = a[1].parse().unwrap();
    let start: u64 = a[2].parse().unwrap();
    let n: u64 = a[3].parse().unwrap();
    let progress = PROGRESS.get_or_init(|| std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&a[4]).unwrap());
    let digests = a.get(5).map(|s| s == "digests").unwrap_or(false);
    let deadline = std::env::var("SIM_SECONDS").ok().and_then(|s| s.parse::<f64>().ok());
    let t0 = Instant::now();
    let mut counts: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut longest = 0;
    let (mut steps, mut switches, mut done, mut discards, mut draws) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut seen = std::collections::HashSet::new();
    let mut scheds = std::collections::HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut all = 0xcbf29ce484222325u64;
    for idx in start..start + n {
        if let Some(d) = deadline {
            if t0.elapsed().as_secs_f64() > d {
                break;
            }
        }
        use std::os::unix::fs::FileExt;
        let _ = progress.write_all_at(format!("{idx:020}").as_bytes(), 0);
        let s = run_seed(seed, prop.0, idx);
        let o = run_one(prop, Choices::from_seed(s), s);
        done += 1;
        steps += o.inner.steps;
        longest = longest.max(o.inner.steps);
        switches += o.inner.switches;
        draws += o.inner.choices.drawn() as u64;
        for (k, v) in &o.inner.counts {
            *counts.entry(k).or_default() += v;
        }
        let mut dg = o.inner.digest;
        for d in &o.inner.desc {
            for b in d.bytes() {
                dg = (dg ^ b as u64).wrapping_mul(0x100000001b3);
            }
        }
        all = (all ^ dg).wrapping_mul(0x100000001b3);
        if digests {
            println!("D {idx} {dg:016x} {} {}", o.inner.steps, o.inner.choices.drawn());
        }
        if o.inner.steps >= 10 {
            seen.insert(dg);
        }
        if o.inner.switches > 0 {
            scheds.insert(o.inner.sched_digest);
        }
        if samples.len() < 2 && o.inner.steps > 50 {
            samples.push(format!(
                "{{\"seed_index\":{idx},\"steps\":{},\"switches\":{},\"case\":{},\"trace_head\":{}}}",
                o.inner.steps,
                o.inner.switches,
                jstr(&o.inner.desc.iter().take(8).map(|s| s.chars().take(300).collect::<String>()).collect::<Vec<_>>().join(" | ")),
                jstr(&o.inner.trace.iter().take(8).map(|e| format!("{}: {}", e.step, e.what)).collect::<Vec<_>>().join("; "))
            ));
        }
        match &o.res {
            Err(v) if v.class == "discard" => discards += 1,
            Err(v) => {
                let log: Vec<String> = o.inner.choices.log.iter().map(|x| x.to_string()).collect();
                println!("V {{\"index\":{idx},\"hash_seed\":{s},\"class\":{},\"msg\":{},\"choices\":[{}]}}", jstr(&v.class), jstr(&v.msg), log.join(","));
                let _ = std::io::stdout().flush();
                if v.class == "harness" {
                    std::process::exit(2);
                }
                break;
            }
            Ok(()) => {}
        }
    }
    let c: Vec<String> = counts.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect();
    let ds: Vec<String> = seen.iter().map(|d| format!("\"{d:016x}\"")).collect();
    println!(
        "S {{\"runs\":{done},\"longest\":{longest},\"steps\":{steps},\"switches\":{switches},\"draws\":{draws},\"discards\":{discards},\"schedules\":{},\"digest\":\"{all:016x}\",\"counts\":{{{}}},\"samples\":[{}],\"distinct\":[{}]}}",
        scheds.len(),
        c.join(","),
        samples.join(","),
        ds.join(",")
    );
}

struct Replay {
    prop: String,
    hash_seed: u64,
    class: String,
    choices: Vec<u32>,
    run_seed: Option<u64>,
}
/// The replay file: `key: value` lines; `choices:` holds the decisions, the rest is for people.
fn load(path: &str) -> Replay {
    let t = std::fs::read_to_string(path).unwrap_or_else(|e| {
        eprintln!("{path}: {e}");
        std::process::exit(2)
    });
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string()).unwrap_or_default();
    Replay {
        prop: get("property:"),
        hash_seed: get("hash_seed:").parse().unwrap_or(1),
        class: get("class:"),
        run_seed: get("run_seed:").parse().ok(),
        choices: get("choices:").split_whitespace().filter_map(|x| x.parse().ok()).collect(),
    }
}
fn save(path: &str, prop: &str, hash_seed: u64, v: &Viol, o: &Out, note: &str) {
    let mut s = String::new();
    let _ = writeln!(s, "property: {prop}");
    let _ = writeln!(s, "engine: sim");
    let _ = writeln!(s, "class: {}", v.class);
    let _ = writeln!(s, "message: {}", v.msg.replace('\n', " "));
    let _ = writeln!(s, "hash_seed: {hash_seed}");
    let _ = writeln!(s, "note: {note}");
    let _ = writeln!(s, "choices: {}", o.inner.choices.log.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    for d in &o.inner.desc {
        let _ = writeln!(s, "case: {}", d.replace('\n', " "));
    }
    for e in o.inner.trace.iter().take(400) {
        let _ = writeln!(s, "trace: step {} {}", e.step, e.what);
    }
    std::fs::write(path, s).unwrap();
}
fn replay(path: &str) {
    let r = load(path);
    let prop = prop_of(&r.prop);
    let mut ch = match r.run_seed {
        Some(s) => Choices::from_seed(s),
        None => Choices::from_list(r.choices),
    };
    ch.sink = std::env::var("SIM_LOG").ok().and_then(|f| std::fs::File::create(f).ok());
    let o = run_one(prop, ch, r.hash_seed);
    for d in &o.inner.desc {
        println!("case: {d}");
    }
    for e in o.inner.trace.iter().take(400) {
        println!("trace: step {} {}", e.step, e.what);
    }
    match is_viol(&o.res) {
        Some(v) => {
            println!("reproduced: class {} ({} steps, digest {:016x}): {}", v.class, o.inner.steps, o.inner.digest, v.msg);
            if v.class == r.class {
                std::process::exit(1);
            }
            println!("note: recorded class was {}", r.class);
            std::process::exit(if v.class == "harness" { 2 } else { 1 });
        }
        None => println!("no violation ({} steps, digest {:016x})", o.inner.steps, o.inner.digest),
    }
}

fn shrink(inp: &str, outp: &str, secs: f64) {
    let r = load(inp);
    let prop = prop_of(&r.prop);
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let tries = std::cell::Cell::new(0u64);
    let run = |c: &[u32]| -> Option<Out> {
        tries.set(tries.get() + 1);
        let o = run_limited(prop, Choices::from_list(c.to_vec()), r.hash_seed, if r.class == "no-termination" { SHORT_LIMIT } else { STEP_LIMIT });
        match is_viol(&o.res) {
            Some(v) if v.class == r.class => Some(o),
            _ => None,
        }
    };
    let Some(mut best) = run(&r.choices) else {
        println!("not reproduced");
        std::process::exit(3);
    };
    let trim = |mut l: Vec<u32>| {
        while l.last() == Some(&0) {
            l.pop();
        }
        l
    };
    let mut cur = trim(best.inner.choices.log.clone());
    let weight = |l: &[u32]| (l.len(), l.iter().map(|&x| x as u64).sum::<u64>());
    let mut improved = true;
    while improved && Instant::now() < end {
        improved = false;
        macro_rules! attempt {
            ($cand:expr) => {{
                let cand: Vec<u32> = $cand;
                let mut ok = false;
                if weight(&cand) < weight(&cur) && Instant::now() < end {
                    if let Some(o) = run(&cand) {
                        let l = trim(o.inner.choices.log.clone());
                        if weight(&l) <= weight(&cur) {
                            cur = l;
                            best = o;
                            ok = true;
                            improved = true;
                        }
                    }
                }
                ok
            }};
        }
        // cut the tail
        let mut k = cur.len() / 2;
        while k > 0 && Instant::now() < end {
            if k < cur.len() && attempt!(cur[..cur.len() - k].to_vec()) {
                continue;
            }
            k /= 2;
        }
        // delete and zero chunks
        let mut size = (cur.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < cur.len() && Instant::now() < end {
                let j = (i + size).min(cur.len());
                let del: Vec<u32> = cur[..i].iter().chain(cur[j..].iter()).copied().collect();
                if attempt!(del) {
                    continue;
                }
                if cur[i..j].iter().any(|&x| x != 0) {
                    let mut z = cur.clone();
                    z[i..j].iter_mut().for_each(|x| *x = 0);
                    attempt!(z);
                }
                i = i.max(0) + size;
            }
            if size == 1 || Instant::now() >= end {
                break;
            }
            size /= 2;
        }
        // smaller values
        let mut i = 0;
        while i < cur.len() && Instant::now() < end {
            if cur[i] > 0 {
                for v in [cur[i] / 2, cur[i] - 1] {
                    if i < cur.len() && v < cur[i] {
                        let mut z = cur.clone();
                        z[i] = v;
                        if attempt!(z) {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    let v = is_viol(&best.res).unwrap().clone();
    let note = format!("minimised from {} to {} decisions in {} executions", r.choices.len(), cur.len(), tries.get());
    save(outp, prop.0, r.hash_seed, &v, &best, &note);
    println!("{note}");
}

pub fn main() {
    install_panic_hook();
    fine::set_hook(preempt);
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|s| s.as_str()) {
        Some("seed") => println!("{}", run_seed(a[2].parse().unwrap(), prop_of(&a[1]).0, a[3].parse().unwrap())),
        Some("batch") => batch(&a[1..]),
        Some("replay") => replay(&a[1]),
        Some("shrink") => shrink(&a[1], &a[2], a[3].parse().unwrap()),
        _ => {
            eprintln!("usage: phlite_sim batch PROP SEED START COUNT PROGRESS [digests] | replay FILE | shrink IN OUT SECONDS");
            std::process::exit(2);
        }
    }
}
