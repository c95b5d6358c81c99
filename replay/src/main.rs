//! replay PROP --seed N --ms BUDGET --out FILE [--max CASES] [--from IDX]   search for a failing input
//! replay --file FILE                                                      run one recorded case again
//! Cases are a function of (property, seed, index). They run in a child process, so that a crash,
//! an abort or a hang of the code under test is a result and not the end of the search.
mod algs;
mod alloc;
mod builtin;
mod model;
mod puzzle;
mod rng;
mod syntax;

use rng::Rng;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Guard = alloc::Guard;

thread_local! { static NOTES: RefCell<String> = RefCell::new(String::new()); }
pub fn add_note(s: String) {
    NOTES.with(|n| {
        let mut n = n.borrow_mut();
        if n.len() < 20000 {
            n.push_str(&s);
            n.push('\n');
        }
    })
}
pub fn clear_notes() {
    NOTES.with(|n| *n.borrow_mut() = String::new())
}
#[macro_export]
macro_rules! note { ($($t:tt)*) => { $crate::add_note(format!($($t)*)) } }

/// run code of the library; a panic is an error
pub fn tryp<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| format!("{} panicked: {}", what, payload(&e)))
}
fn payload(e: &Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "(no message)".to_owned())
}

fn run(prop: &str, seed: u64, idx: u64) -> Result<(), String> {
    clear_notes();
    alloc::FLAGS.store(0, std::sync::atomic::Ordering::SeqCst);
    let mut r = Rng::new(seed, prop, idx);
    let r = &mut r;
    tryp("the code under test", || match prop {
        "C01" => puzzle::c01(r, idx),
        "C02" => puzzle::c02(r, idx),
        "C03" => puzzle::c03(r, idx),
        "C04" => puzzle::c04(r, idx),
        "C05" => puzzle::c05(r, idx),
        "C06" => puzzle::c06(r, idx),
        "C07" => puzzle::c07(r, idx),
        "C08" => puzzle::c08(r, idx),
        "C09" => puzzle::c09(r, idx),
        "C10" => puzzle::c10(r, idx),
        "C11" => algs::c11(r, idx),
        "C12" => syntax::c12(r, idx),
        "C13" => syntax::c13(r, idx),
        "C18" => syntax::c18(r, idx),
        "C19" => syntax::c19(r, idx),
        "C14" => puzzle::c14(r, idx),
        "C15" => puzzle::c15(r, idx),
        "C16" => algs::c16(r, idx),
        "C20" => builtin::c20(r, idx),
        _ => panic!("no such property: {}", prop),
    })?
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| args.iter().position(|a| a == n).map(|i| args[i + 1].clone());
    if let Some(f) = opt("--file") {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
        let (prop, seed, idx) = (v["property"].as_str().unwrap(), v["seed"].as_u64().unwrap(), v["index"].as_u64().unwrap());
        std::process::exit(search(prop, seed, idx, 1, 120_000, None));
    }
    if args.get(1).map(|s| s.as_str()) == Some("--known") {
        let ok = match args[2].as_str() {
            "C11" => algs::c11_known(),
            _ => false,
        };
        std::process::exit(if ok { 0 } else { 1 });
    }
    if let Some(n) = opt("--texts") {
        println!("{}", syntax::texts(opt("--seed").map_or(1, |s| s.parse().unwrap()), n.parse().unwrap()));
        return;
    }
    let prop = args[1].clone();
    let num = |n: &str, d: u64| opt(n).map_or(d, |s| s.parse().unwrap());
    let (seed, ms, from, max) = (num("--seed", 1), num("--ms", 5000), num("--from", 0), num("--max", u64::MAX));
    if args.iter().any(|a| a == "--child") {
        return child(&prop, seed, from, max, ms);
    }
    std::process::exit(search(&prop, seed, from, max, ms, opt("--out")));
}

fn child(prop: &str, seed: u64, from: u64, max: u64, ms: u64) {
    std::panic::set_hook(Box::new(|_| {}));
    let start = Instant::now();
    let out = std::io::stdout();
    let mut i = from;
    while i - from < max && start.elapsed() < Duration::from_millis(ms) {
        {
            let mut o = out.lock();
            let _ = writeln!(o, "S {}", i);
            let _ = o.flush();
        }
        // some cases on a thread of their own: state kept per thread starts afresh
        let (res, n) = if i % 4 == 3 {
            std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, || {
                        let res = run(prop, seed, i);
                        (res, NOTES.with(|n| n.borrow().clone()))
                    })
                    .unwrap()
                    .join()
                    .unwrap_or_else(|e| (Err(format!("panicked: {}", payload(&e))), String::new()))
            })
        } else {
            let res = run(prop, seed, i);
            (res, NOTES.with(|n| n.borrow().clone()))
        };
        if let Err(e) = res {
            let mut o = out.lock();
            let _ = writeln!(o, "F {}", serde_json::json!({"what": e, "input": n}));
            let _ = o.flush();
            return;
        }
        i += 1;
    }
    let mut o = out.lock();
    let _ = writeln!(o, "D {}", i - from);
    let _ = o.flush();
}

/// exit code 0: all cases passed (prints "CASES n"); 1: a case failed (replay file written)
fn search(prop: &str, seed: u64, from: u64, max: u64, ms: u64, out: Option<String>) -> i32 {
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args([prop, "--child", "--seed", &seed.to_string(), "--from", &from.to_string(), "--max", &max.to_string(), "--ms", &ms.to_string()])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let so = c.stdout.take().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        for l in BufReader::new(so).lines().map_while(Result::ok) {
            if tx.send(l).is_err() {
                break;
            }
        }
    });
    let mut cur = from;
    let what: String;
    let mut input = String::new();
    loop {
        match rx.recv_timeout(Duration::from_secs(90)) {
            Ok(l) => {
                if let Some(x) = l.strip_prefix("S ") {
                    cur = x.parse().unwrap()
                } else if let Some(x) = l.strip_prefix("F ") {
                    let v: serde_json::Value = serde_json::from_str(x).unwrap();
                    what = v["what"].as_str().unwrap().to_owned();
                    input = v["input"].as_str().unwrap().to_owned();
                    break;
                } else if let Some(x) = l.strip_prefix("D ") {
                    println!("CASES {}", x);
                    let _ = c.wait();
                    return 0;
                }
            }
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                what = "the operation does not end (no result after 90 s)".to_owned();
                let _ = c.kill();
                break;
            }
            Err(_) => {
                let st = c.wait().unwrap();
                what = format!("the process was ended while running this case: {}", st);
                break;
            }
        }
    }
    let _ = c.kill();
    let _ = c.wait();
    let j = serde_json::json!({"property": prop, "seed": seed, "index": cur, "what": what, "input": input,
        "replay": "replay/run.sh <this file> (rebuilds from /repo and runs this case again)"});
    println!("FAIL {} {}", cur, what.replace('\n', " "));
    match out {
        Some(f) => std::fs::write(f, serde_json::to_string_pretty(&j).unwrap()).unwrap(),
        None => println!("{}", serde_json::to_string_pretty(&j).unwrap().replace("\\n", "\n")),
    }
    1
}
