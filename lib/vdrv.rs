//! Native driver: runs a contract on enumerated or sampled cases, or replays one recorded case.
use crate::gridstore::vapi::table;
use crate::nd::{Mode, Reject, ST};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

enum Res {
    Ok,
    Rejected,
    Fail(String),
}
thread_local!(static MSG: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));
static ANYMSG: Mutex<String> = Mutex::new(String::new());

fn one(f: fn()) -> Res {
    MSG.with(|m| m.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => Res::Ok,
        Err(e) => {
            if e.downcast_ref::<Reject>().is_some() {
                Res::Rejected
            } else {
                let m = MSG.with(|m| m.borrow().clone());
                Res::Fail(if m.is_empty() { ANYMSG.lock().unwrap().clone() } else { m })
            }
        }
    }
}
fn seed_of(seed: u64, shard: u64, i: u64) -> u64 {
    let mut z = seed ^ shard.wrapping_mul(0xD6E8_FEB8_6659_FD93) ^ i.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 32)).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    z ^ (z >> 32)
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn nums(v: &[u128]) -> String {
    format!("[{}]", v.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(","))
}

struct Shared {
    cases: AtomicU64,
    rejected: AtomicU64,
    complete: AtomicU64,
    stop: AtomicBool,
    fail: Mutex<Option<(Vec<u128>, String)>>,
    samples: Mutex<Vec<Vec<u128>>>,
    reached: Mutex<std::collections::BTreeSet<&'static str>>,
    // per thread: when its current case began (ms since start, +1) and that case's draws so far
    begun: Vec<AtomicU64>,
    what: Vec<Mutex<String>>,
}

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            return;
        };
        let m = format!("{} at {}", m, i.location().map(|l| l.to_string()).unwrap_or_default());
        *ANYMSG.lock().unwrap() = m.clone();
        let _ = MSG.try_with(|x| *x.borrow_mut() = m);
    }));
    let t = table();
    if args[1] == "list" {
        for (n, _) in t {
            println!("{}", n);
        }
        return;
    }
    let f = match t.iter().find(|(n, _)| *n == args[2]) {
        Some((_, f)) => *f,
        None => {
            println!("{{\"missing\":true}}");
            return;
        }
    };
    if args[1] == "replay" {
        // either the list of draws, or random:<case seed>, or enum:<choices>:<case seed>
        let a3 = args[3].clone();
        let h = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || {
                ST.with(|s| {
                    let mut s = s.borrow_mut();
                    let p: Vec<&str> = a3.split(':').collect();
                    if p[0] == "random" {
                        s.mode = Mode::Random;
                        s.rng = p[1].parse().unwrap();
                    } else if p[0] == "enum" {
                        s.mode = Mode::Enumerate;
                        s.path = p[1]
                            .split(',')
                            .filter(|x| !x.is_empty())
                            .map(|x| {
                                let mut y = x.split('/');
                                (y.next().unwrap().parse().unwrap(), y.next().unwrap().parse().unwrap())
                            })
                            .collect();
                        s.rng = p[2].parse().unwrap();
                    } else {
                        let vals =
                            a3.split(',').filter(|s| !s.is_empty()).map(|s| s.trim().parse().unwrap()).collect();
                        s.mode = Mode::Replay(vals);
                    }
                });
                match one(f) {
                    Res::Ok => {
                        println!("HELD");
                        0
                    }
                    Res::Rejected => {
                        println!("REJECTED (the case does not meet the precondition)");
                        0
                    }
                    Res::Fail(m) => {
                        println!("BROKEN {}", m);
                        1
                    }
                }
            })
            .unwrap();
        std::thread::spawn(|| {
            std::thread::sleep(Duration::from_secs(60));
            println!("BROKEN the call does not return");
            std::process::exit(1);
        });
        std::process::exit(h.join().unwrap());
    }
    // run <contract> <enum|random> <max cases> <budget ms> <seed> <threads>
    let enumerate = args[3] == "enum";
    let max: u64 = args[4].parse().unwrap();
    let budget = Duration::from_millis(args[5].parse().unwrap());
    let seed: u64 = args[6].parse().unwrap();
    let threads: u64 = args[7].parse().unwrap();
    let start = Instant::now();
    let sh = Arc::new(Shared {
        cases: AtomicU64::new(0),
        rejected: AtomicU64::new(0),
        complete: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        fail: Mutex::new(None),
        samples: Mutex::new(vec![]),
        reached: Mutex::new(Default::default()),
        begun: (0..threads).map(|_| AtomicU64::new(0)).collect(),
        what: (0..threads).map(|_| Mutex::new(String::new())).collect(),
    });
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let sh = sh.clone();
            let log = std::env::var("VDRV_LOG").ok().map(|p| {
                std::fs::OpenOptions::new().write(true).create(true).open(p).unwrap()
            });
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let mut i = 0u64;
                    let mut path: Vec<(u32, u32)> = vec![];
                    loop {
                        if sh.stop.load(SeqCst) || start.elapsed() > budget || (!enumerate && i * threads + t >= max) {
                            break;
                        }
                        let cs = seed_of(seed, t, i);
                        ST.with(|s| {
                            let mut s = s.borrow_mut();
                            s.mode = if enumerate { Mode::Enumerate } else { Mode::Random };
                            s.rng = cs;
                            s.pos = 0;
                            s.depth = 0;
                            s.trace.clear();
                            s.path = std::mem::replace(&mut path, vec![]);
                            s.shard = (t as u32, threads as u32);
                        });
                        {
                            let w = if enumerate {
                                let p = ST.with(|s| {
                                    s.borrow().path.iter().map(|(c, n)| format!("{}/{}", c, n)).collect::<Vec<_>>()
                                });
                                format!("enum:{}:{}", p.join(","), cs)
                            } else {
                                format!("random:{}", cs)
                            };
                            if let Some(l) = &log {
                                use std::os::unix::fs::FileExt;
                                let _ = l.write_at(format!("{:<3999}\n", w).as_bytes(), t * 4000);
                            }
                            *sh.what[t as usize].lock().unwrap() = w;
                        }
                        sh.begun[t as usize].store(start.elapsed().as_millis() as u64 + 1, SeqCst);
                        let r = one(f);
                        sh.begun[t as usize].store(0, SeqCst);
                        let trace = ST.with(|s| s.borrow().trace.clone());
                        match r {
                            Res::Ok => {
                                let n = sh.cases.fetch_add(1, SeqCst);
                                if n < 3 || n == 1000 {
                                    sh.samples.lock().unwrap().push(trace)
                                }
                            }
                            Res::Rejected => {
                                sh.rejected.fetch_add(1, SeqCst);
                            }
                            Res::Fail(m) => {
                                let mut g = sh.fail.lock().unwrap();
                                if g.as_ref().map_or(true, |(t, _)| t.len() > trace.len()) {
                                    *g = Some((trace, m));
                                }
                                sh.stop.store(true, SeqCst);
                                break;
                            }
                        }
                        i += 1;
                        if enumerate {
                            path = ST.with(|s| {
                                let mut s = s.borrow_mut();
                                let d = s.depth;
                                let mut p = std::mem::replace(&mut s.path, vec![]);
                                p.truncate(d);
                                p
                            });
                            while let Some((c, n)) = path.pop() {
                                if c + 1 < n {
                                    path.push((c + 1, n));
                                    break;
                                }
                            }
                            if path.is_empty() {
                                sh.complete.fetch_add(1, SeqCst);
                                break;
                            }
                        }
                    }
                    ST.with(|s| {
                        for r in s.borrow().reached.iter() {
                            sh.reached.lock().unwrap().insert(*r);
                        }
                    });
                })
                .unwrap()
        })
        .collect();
    let sh2 = sh.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = start.elapsed().as_millis() as u64;
        for (i, b) in sh2.begun.iter().enumerate() {
            let b = b.load(SeqCst);
            if b != 0 && now > b + 45_000 {
                println!("{{\"hang\":{}}}", js(&sh2.what[i].lock().unwrap()));
                std::process::exit(3);
            }
        }
    });
    for h in hs {
        let _ = h.join();
    }
    let f = sh.fail.lock().unwrap();
    println!(
        "{{\"cases\":{},\"rejected\":{},\"exhausted\":{},\"reached\":[{}],\"samples\":[{}],\"fail\":{}}}",
        sh.cases.load(SeqCst),
        sh.rejected.load(SeqCst),
        enumerate && sh.complete.load(SeqCst) == threads,
        sh.reached.lock().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        sh.samples.lock().unwrap().iter().map(|v| nums(v)).collect::<Vec<_>>().join(","),
        match &*f {
            Some((t, m)) => format!("{{\"trace\":{},\"message\":{}}}", nums(t), js(m)),
            None => "null".to_string(),
        }
    );
}
