//! Native runner: lists harnesses, hunts for a failing case, replays recorded values.
use h::src::Native;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

static LAST: Mutex<String> = Mutex::new(String::new());
/// A single case that runs longer than this does not terminate for practical purposes.
const HANG: u64 = 12;

fn arg(args: &[String], k: &str) -> Option<u64> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).map(|v| v.parse().unwrap())
}
fn matches(spec: &str, name: &str) -> bool {
    spec.split(',').any(|w| match w.strip_suffix('*') {
        Some(p) => name.starts_with(p),
        None => w == name || w == "all",
    })
}
fn hash(v: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in v {
        h = (h ^ x).wrapping_mul(0x1000_0000_01b3);
        h ^= h >> 29;
    }
    h
}
/// Runs one recorded case; Err holds the message. None: it does not terminate.
fn replay(f: h::Harness, vals: Vec<u64>) -> Option<(bool, Result<(), String>)> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut s = Native::replay(vals);
            let r = catch_unwind(AssertUnwindSafe(|| f(&mut s)));
            let _ = tx.send((s.abandoned, r.map_err(|_| LAST.lock().unwrap().clone())));
        })
        .unwrap();
    rx.recv_timeout(Duration::from_secs(HANG)).ok()
}

#[derive(Default)]
struct Tally {
    cases: u64,
    kept: u64,
    distinct: HashSet<u64>,
    covers: BTreeSet<&'static str>,
    fail: Option<(String, Vec<u64>)>,
    left: usize,
}

fn hunt(names: Vec<(&'static str, h::Harness)>, cases: u64, ms: u64, seed: u64, threads: usize) -> bool {
    let shards = (threads / names.len().max(1)).max(1);
    let jobs: Vec<(usize, usize)> = (0..names.len()).flat_map(|i| (0..shards).map(move |k| (i, k))).collect();
    let next = AtomicUsize::new(0);
    let tally: Vec<Mutex<Tally>> = names.iter().map(|_| Mutex::new(Tally { left: shards, ..Default::default() })).collect();
    // per thread: start of the current case (ms since t0, 0 = idle), harness, generator state
    let t0 = Instant::now();
    let now = move || t0.elapsed().as_millis() as u64 + 1;
    let slots: Vec<(AtomicU64, AtomicUsize, AtomicU64)> = (0..threads).map(|_| Default::default()).collect();
    let any_fail = AtomicBool::new(false);
    let finished = AtomicUsize::new(0);
    let print = |i: usize, t: &Tally| match &t.fail {
        Some((m, v)) => println!("FAIL {} | {m} | values {v:?}", names[i].0),
        None => println!("OK {} cases={} kept={} distinct={} covers={:?}", names[i].0, t.cases, t.kept, t.distinct.len(), t.covers),
    };
    std::thread::scope(|sc| {
        for slot in &slots {
            let (names, jobs, next, tally, any_fail, finished, print) = (&names, &jobs, &next, &tally, &any_fail, &finished, &print);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    loop {
                        let j = next.fetch_add(1, SeqCst);
                        if j >= jobs.len() {
                            break;
                        }
                        let (i, k) = jobs[j];
                        let f = names[i].1;
                        let mut s = Native::random(seed ^ (i as u64) << 32 ^ (k as u64) << 24);
                        let t = Instant::now();
                        let (mut done, mut kept, mut seen) = (0u64, 0u64, HashSet::new());
                        let mut bad = None;
                        'o: while done * (shards as u64) < cases && t.elapsed() < Duration::from_millis(ms) && tally[i].lock().unwrap().fail.is_none() {
                            for _ in 0..64 {
                                s.next_case();
                                slot.1.store(i, SeqCst);
                                slot.2.store(s.rng, SeqCst);
                                slot.0.store(now(), SeqCst);
                                done += 1;
                                let r = catch_unwind(AssertUnwindSafe(|| f(&mut s)));
                                slot.0.store(0, SeqCst);
                                if !s.abandoned {
                                    kept += 1;
                                    if seen.len() < 1_000_000 {
                                        seen.insert(hash(&s.log));
                                    }
                                    if r.is_err() {
                                        bad = Some(s.log.clone());
                                        break 'o;
                                    }
                                }
                            }
                        }
                        let bad = bad.map(|v| {
                            static G: Mutex<()> = Mutex::new(());
                            let _g = G.lock().unwrap_or_else(|e| e.into_inner());
                            let m = match replay(f, v.clone()) {
                                Some((_, Err(m))) => m,
                                Some((_, Ok(()))) => "not reproduced".into(),
                                None => "does not terminate".into(),
                            };
                            (m, v)
                        });
                        let mut t = tally[i].lock().unwrap();
                        t.cases += done;
                        t.kept += kept;
                        t.distinct.extend(seen);
                        t.covers.extend(s.covers.iter().copied());
                        t.left -= 1;
                        if bad.is_some() && t.fail.is_none() {
                            t.fail = bad;
                            any_fail.store(true, SeqCst);
                        }
                        if t.left == 0 {
                            print(i, &t);
                        }
                    }
                    finished.fetch_add(1, SeqCst);
                })
                .unwrap();
        }
        // watchdog
        while finished.load(SeqCst) < threads {
            std::thread::sleep(Duration::from_millis(20));
            for slot in &slots {
                let st = slot.0.load(SeqCst);
                if st != 0 && now() > st + HANG * 1000 {
                    let (name, f) = names[slot.1.load(SeqCst)];
                    let mut s = Native::random(0);
                    s.rng = slot.2.load(SeqCst);
                    let spy = Arc::new(Mutex::new(Vec::new()));
                    s.spy = Some(spy.clone());
                    std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                        let _ = catch_unwind(AssertUnwindSafe(|| f(&mut s)));
                    }).unwrap();
                    std::thread::sleep(Duration::from_secs(2));
                    println!("FAIL {name} | does not terminate | values {:?}", spy.lock().unwrap());
                    std::process::exit(1);
                }
            }
        }
    });
    any_fail.load(SeqCst)
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        *LAST.lock().unwrap_or_else(|e| e.into_inner()) = format!("{i}").replace('\n', " ");
    }));
    let args: Vec<String> = std::env::args().collect();
    let list = h::list();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => list.iter().for_each(|(n, _)| println!("{n}")),
        Some("replay") => {
            let name = &args[2];
            let vals: Vec<u64> = args[3..].iter().map(|s| s.parse().unwrap()).collect();
            let f = list.iter().find(|(n, _)| n == name).expect("no such harness").1;
            match replay(f, vals.clone()) {
                Some((false, Err(m))) => println!("FAIL {name} | {m} | values {vals:?}"),
                None => println!("FAIL {name} | does not terminate | values {vals:?}"),
                Some((a, _)) => {
                    println!("PASS {name} abandoned={a}");
                    return;
                }
            }
            std::process::exit(1)
        }
        Some("hunt") => {
            // hunt <name|prefix*|all>[,..] --cases N --ms MS --seed S --threads T
            let names = list.into_iter().filter(|(n, _)| matches(&args[2], n)).collect();
            let f = hunt(names, arg(&args, "--cases").unwrap_or(100_000), arg(&args, "--ms").unwrap_or(2000), arg(&args, "--seed").unwrap_or(1), arg(&args, "--threads").unwrap_or(8) as usize);
            std::process::exit(f as i32)
        }
        Some("known") => {
            // known <id>: does the recorded finding still fail?
            let k: BTreeMap<&str, fn() -> bool> = h::known::LIST.iter().copied().collect();
            let f = k[args[2].as_str()];
            let still = catch_unwind(AssertUnwindSafe(f)).unwrap_or(true);
            println!("{} {}", if still { "FAILS" } else { "HOLDS" }, args[2]);
            std::process::exit(still as i32)
        }
        _ => {
            eprintln!("usage: native list | hunt <name|prefix*|all> [--cases N --ms MS --seed S --threads T] | replay <name> v0 v1 ... | known <id>");
            std::process::exit(2);
        }
    }
}
