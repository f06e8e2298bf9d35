//! Conformance driver: replays programs generated from the TLA+ specification on the real
//! library and records one event per public call.
//!   conform run PROGRAMS OUT [jobs]      parent: splits the work, restarts crashed workers
//!   conform work PROGRAMS OUT FROM STEP  worker
mod ast;
mod ops;

use serde_json::{json, Value};
use std::cell::RefCell;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

const HANG_CPU_S: f64 = 20.0;
/// after this many hung or crashed calls the remaining programs are not run
const MAX_DEATHS: usize = 24;

fn cpu_seconds() -> f64 {
    // utime + stime of this process, in clock ticks (100 Hz)
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (g(11) + g(12)) / 100.0
}

fn limit_memory() {
    // address-space cap, so that a runaway computation ends this worker only
    #[repr(C)]
    struct R(u64, u64);
    extern "C" {
        fn setrlimit(r: i32, l: *const R) -> i32;
    }
    let r = R(6 << 30, 6 << 30);
    unsafe { setrlimit(9, &r) };
}

fn work(programs: &str, out: &str, from: usize, step: usize) {
    limit_memory();
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info.location().map(|l| l.file().rsplit('/').next().unwrap_or("").to_string()).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{msg} @{loc}"));
        if std::env::var_os("CONFORM_VERBOSE").is_some() && !msg.contains("overflow") {
            eprintln!("panic {msg} @{loc}");
        }
    }));
    let progs = read_programs(programs);
    let out = Arc::new(Mutex::new(BufWriter::new(
        std::fs::OpenOptions::new().create(true).append(true).open(out).unwrap(),
    )));
    let cur = Arc::new(AtomicI64::new(-1));
    let since = Arc::new(AtomicU64::new(0));
    {
        let (cur, since, out) = (cur.clone(), since.clone(), out.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let c = cur.load(Ordering::SeqCst);
            let t0 = f64::from_bits(since.load(Ordering::SeqCst));
            if c >= 0 && cpu_seconds() - t0 > HANG_CPU_S && cur.load(Ordering::SeqCst) == c {
                let mut o = out.lock().unwrap();
                let _ = o.flush();
                std::process::exit(42);
            }
        });
    }
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut serial = 0i64;
            let mut k = from;
            while k < progs.len() {
                let (id, prog) = &progs[k];
                let mut regs: ops::Regs = vec![];
                let mut evs: Vec<Value> = vec![];
                {
                    let mut o = out.lock().unwrap();
                    writeln!(o, "{}", json!({"b": k})).unwrap();
                    o.flush().unwrap();
                }
                for ins in prog {
                    serial += 1;
                    since.store(cpu_seconds().to_bits(), Ordering::SeqCst);
                    cur.store(serial, Ordering::SeqCst);
                    PANIC.with(|p| p.borrow_mut().clear());
                    let t0 = cpu_seconds();
                    let r = catch_unwind(AssertUnwindSafe(|| ops::exec(ins, &mut regs)));
                    cur.store(-1, Ordering::SeqCst);
                    let ev = match r {
                        Ok(ev) => ev,
                        Err(_) => {
                            regs.push(None);
                            let msg = PANIC.with(|p| p.borrow().clone());
                            if msg.starts_with("harness:") {
                                eprintln!("{msg}: {ins}");
                                std::process::exit(43);
                            }
                            // the library documents 128-bit integers: running out of them is a limit
                            let st = if msg.contains("overflow") { "limit" } else { "panic" };
                            let at = msg.rsplit('@').next().unwrap_or("").to_string();
                            json!({"st": st, "m": msg, "at": at})
                        }
                    };
                    let mut ev = ev;
                    let dt = cpu_seconds() - t0;
                    if dt > 1.0 && std::env::var_os("CONFORM_VERBOSE").is_some() {
                        eprintln!("slow {dt:.1}s session {id} {ins}");
                    }
                    ev["o"] = ins[0].clone();
                    ev["i"] = Value::Array(ins.as_array().unwrap()[1..].to_vec());
                    {
                        // so that a crash in the next call leaves the prefix behind
                        let mut o = out.lock().unwrap();
                        writeln!(o, "{}", json!({"e": ev})).unwrap();
                        o.flush().unwrap();
                    }
                    evs.push(ev);
                }
                let fin: Vec<Value> = regs
                    .iter()
                    .map(|r| r.as_ref().map(ast::enc).unwrap_or(json!(["none"])))
                    .collect();
                let mut o = out.lock().unwrap();
                writeln!(o, "{}", json!({"s": id, "fin": fin})).unwrap();
                o.flush().unwrap();
                k += step;
            }
        })
        .unwrap();
    if h.join().is_err() {
        // not inside of a call: the driver's own fault
        std::process::exit(43);
    }
}

fn read_programs(path: &str) -> Vec<(Value, Vec<Value>)> {
    let mut v = vec![];
    for l in BufReader::new(File::open(path).expect("programs")).lines() {
        let l = l.unwrap();
        if l.trim().is_empty() {
            continue;
        }
        let j: Value = serde_json::from_str(&l).expect("program json");
        v.push((j["id"].clone(), j["p"].as_array().unwrap().clone()));
    }
    v
}

/// collects a worker's file into sessions; returns (done sessions, unfinished one)
fn collect(path: &str, progs: &[(Value, Vec<Value>)], died: Option<&str>, sink: &mut Vec<(usize, Value)>) -> Option<usize> {
    let mut at: Option<usize> = None;
    let mut evs: Vec<Value> = vec![];
    if let Ok(f) = File::open(path) {
        for l in BufReader::new(f).lines() {
            let l = match l {
                Ok(l) => l,
                Err(_) => break,
            };
            let mut j: Value = match serde_json::from_str(&l) {
                Ok(j) => j,
                Err(_) => continue,
            };
            if let Some(b) = j.get("b") {
                at = Some(b.as_u64().unwrap() as usize);
                evs.clear();
            } else if j.get("e").is_some() {
                evs.push(j["e"].take());
            } else if j.get("s").is_some() {
                sink.push((at.unwrap(), json!({"s": j["s"], "ev": evs, "fin": j["fin"]})));
                evs = vec![];
                at = None;
            }
        }
    }
    let _ = std::fs::remove_file(path);
    if let (Some(k), Some(why)) = (at, died) {
        let n = evs.len();
        let ins = &progs[k].1[n.min(progs[k].1.len() - 1)];
        evs.push(json!({"st": why, "m": why, "o": ins[0], "i": ins.as_array().unwrap()[1..].to_vec()}));
        sink.push((k, json!({"s": progs[k].0, "ev": evs, "fin": []})));
    }
    at
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "work" => work(&a[2], &a[3], a[4].parse().unwrap(), a[5].parse().unwrap()),
        "run" => {
            let jobs: usize = a.get(4).map(|j| j.parse().unwrap()).unwrap_or(8);
            let progs = Arc::new(read_programs(&a[2]));
            let mut hs = vec![];
            let deaths = Arc::new(std::sync::atomic::AtomicUsize::new(0));
            for j in 0..jobs {
                let deaths = deaths.clone();
                let (progs, pf, out) = (progs.clone(), a[2].clone(), a[3].clone());
                hs.push(std::thread::spawn(move || {
                    let mut sink = vec![];
                    let mut from = j;
                    let exe = std::env::current_exe().unwrap();
                    while from < progs.len() && deaths.load(Ordering::SeqCst) < MAX_DEATHS {
                        let part = format!("{out}.part{j}");
                        let _ = std::fs::remove_file(&part);
                        let st = std::process::Command::new(&exe)
                            .args(["work", &pf, &part, &from.to_string(), &jobs.to_string()])
                            .stderr(if std::env::var_os("CONFORM_VERBOSE").is_some() { std::process::Stdio::inherit() } else { std::process::Stdio::null() })
                            .status()
                            .expect("spawn worker");
                        if st.code() == Some(43) {
                            eprintln!("harness error, see the worker's message");
                            std::process::exit(3);
                        }
                        if st.success() {
                            collect(&part, &progs, None, &mut sink);
                            break;
                        }
                        deaths.fetch_add(1, Ordering::SeqCst);
                        let why = if st.code() == Some(42) { "hang" } else { "crash" };
                        match collect(&part, &progs, Some(why), &mut sink) {
                            Some(k) => from = k + jobs,
                            None => {
                                eprintln!("worker died outside a session: {st:?}");
                                std::process::exit(3);
                            }
                        }
                    }
                    sink
                }));
            }
            let mut all: Vec<(usize, Value)> = vec![];
            for h in hs {
                all.extend(h.join().unwrap());
            }
            all.sort_by_key(|x| x.0);
            if all.len() != progs.len() && deaths.load(Ordering::SeqCst) < MAX_DEATHS {
                eprintln!("lost sessions: {} of {}", all.len(), progs.len());
                std::process::exit(3);
            }
            let mut o = BufWriter::new(File::create(&a[3]).unwrap());
            for (_, s) in all {
                writeln!(o, "{s}").unwrap();
            }
            o.flush().unwrap();
        }
        _ => panic!("usage"),
    }
}
