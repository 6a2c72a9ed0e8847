//! Search driver: runs the checks of a property on seeded inputs of growing size, for a given time, on all cores.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use super::gen::Rng;
use super::{checks, Check, Out};

thread_local!(static LAST: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));

fn run1(f: Check, seed: u64, size: usize) -> Out {
    match catch_unwind(AssertUnwindSafe(|| { let mut r = Rng(seed); f(&mut r, size) })) {
        Ok(o) => o,
        Err(_) => Out::Bad(format!("panic: {}", LAST.with(|l| l.borrow().clone()))),
    }
}

fn mix(a: u64, b: u64) -> u64 { let mut r = Rng(a ^ b.wrapping_mul(0xD6E8FEB86659FD93)); r.next() }

fn esc(s: &str) -> String { s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n").replace('\t', " ").replace('\r', " ") }

pub fn main(args: Vec<String>) -> i32 {
    std::panic::set_hook(Box::new(|i| { LAST.with(|l| *l.borrow_mut() = i.to_string()); }));
    let get = |k: &str| -> Option<String> { args.iter().position(|x| x == k).and_then(|p| args.get(p + 1).cloned()) };
    if args.get(0).map(|x| x.as_str()) == Some("list") { for x in super::all() { println!("{} {}", x.0, x.1); } return 0; }
    let prop = args[0].clone();
    let cs = checks(&prop);
    if cs.is_empty() { println!("{{\"error\":\"no check for {}\"}}", prop); return 2; }
    if let Some(c) = get("--check") {
        // replay of one input
        let f = cs.iter().find(|x| x.0 == c).expect("check").1;
        let (s, n) = (get("--case").unwrap().parse().unwrap(), get("--size").unwrap().parse().unwrap());
        let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || run1(f, s, n)).unwrap();
        return match h.join().unwrap() {
            Out::Bad(m) => { println!("FAILS {}", m); 1 },
            Out::Ok => { println!("PASSES"); 0 },
            Out::Skip => { println!("SKIPPED"); 0 },
        };
    }
    let seed: u64 = get("--seed").map(|x| x.parse().unwrap()).unwrap_or(1);
    let secs: f64 = get("--secs").map(|x| x.parse().unwrap()).unwrap_or(10.0);
    let threads: usize = get("--threads").map(|x| x.parse().unwrap()).unwrap_or(8);
    let only = get("--only");
    let stop = Arc::new(AtomicBool::new(false));
    let best: Arc<Mutex<Option<(usize, &'static str, u64, String)>>> = Arc::new(Mutex::new(None));
    let cs: Vec<_> = cs.into_iter().filter(|x| only.as_ref().map(|o| o == x.0).unwrap_or(true)).collect();
    let counts: Vec<Arc<(AtomicU64, AtomicU64)>> = cs.iter().map(|_| Arc::new((AtomicU64::new(0), AtomicU64::new(0)))).collect();
    let start = Instant::now();
    let mut hs = vec![];
    for th in 0..threads {
        let (cs, counts, stop, best) = (cs.clone(), counts.clone(), stop.clone(), best.clone());
        hs.push(std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            let mut n: u64 = 0;
            // a time limit, and after a failure a little more time to find a smaller one
            let mut until = start + Duration::from_secs_f64(secs);
            loop {
                let now = Instant::now();
                if now >= until { break; }
                if stop.load(Ordering::Relaxed) { until = until.min(now + Duration::from_millis(1500)); stop_once(&stop); }
                for (ci, (name, f, max)) in cs.iter().enumerate() {
                    // sizes cycle, small ones more often
                    let size = 1 + (match n % 4 { 0 => n / 4 % 2, 1 => n / 4 % 3, _ => n / 4 % *max as u64 }) as usize;
                    let size = size.min(*max);
                    if let Some(b) = &*best.lock().unwrap() { if size > b.0 { continue; } }
                    let case = mix(mix(mix(seed, th as u64 + 1), n), ci as u64 + 77);
                    match run1(*f, case, size) {
                        Out::Ok => { counts[ci].0.fetch_add(1, Ordering::Relaxed); },
                        Out::Skip => { counts[ci].1.fetch_add(1, Ordering::Relaxed); },
                        Out::Bad(m) => {
                            let mut b = best.lock().unwrap();
                            let better = match &*b { None => true, Some(x) => (size, m.len()) < (x.0, x.3.len()) };
                            if better { *b = Some((size, *name, case, m)); }
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                }
                n += 1;
            }
        }).unwrap());
    }
    for h in hs { h.join().unwrap(); }
    let cov: Vec<String> = cs.iter().zip(counts.iter()).map(|(c, k)| format!("{{\"check\":\"{}\",\"cases\":{},\"skipped\":{},\"max_size\":{}}}", c.0, k.0.load(Ordering::Relaxed), k.1.load(Ordering::Relaxed), c.2)).collect();
    let f = match &*best.lock().unwrap() {
        None => "null".to_string(),
        Some((n, c, s, m)) => format!("{{\"check\":\"{}\",\"case\":\"{}\",\"size\":{},\"what\":\"{}\"}}", c, s, n, esc(m)),
    };
    println!("{{\"property\":\"{}\",\"seed\":{},\"wall_s\":{:.2},\"checks\":[{}],\"failure\":{}}}", prop, seed, start.elapsed().as_secs_f64(), cov.join(","), f);
    0
}

fn stop_once(_s: &AtomicBool) {}
