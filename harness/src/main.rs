//! Contract replay harness: drives the real osmio code against independent
//! oracles of each property.  `vh search PID SEED CASES`, `vh replay PID SEED CASE`.
mod chg;
mod conv;
mod objs;
mod pbf;
mod util;
mod xmlt;

use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};
use util::*;

static CUR: AtomicU64 = AtomicU64::new(0);
static STARTED: AtomicU64 = AtomicU64::new(0);

fn case_fn(pid: &str) -> Option<fn(&mut Rng, u64) -> Res> {
    Some(match pid {
        "P01" => pbf::p01,
        "P02" => pbf::p02,
        "P03" => pbf::p03,
        "P04" => pbf::p04,
        "P05" => pbf::p05,
        "P06" => xmlt::p06,
        "P07" => xmlt::p07,
        "P08" => xmlt::p08,
        "P09" => xmlt::p09,
        "P10" => xmlt::p10,
        "P11" => conv::p11,
        "P12" => conv::p12,
        "P13" => objs::p13,
        "P14" => objs::p14,
        "P15" => objs::p15,
        "P16" => objs::p16,
        "P17" => conv::p17,
        "P18" => objs::p18,
        "P19" => chg::p19,
        "P20" => chg::p20,
        _ => return None,
    })
}

fn one(pid: &str, seed: u64, case: u64) -> Res {
    let f = case_fn(pid).expect("unknown property");
    let mut r = Rng::new(seed.wrapping_mul(0x1000_0000_01B3).wrapping_add(case.wrapping_mul(0x5851_F42D_4C95_7F2D)));
    PANIC.with(|p| p.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(|| f(&mut r, case))) {
        Ok(x) => x,
        Err(_) => {
            let m = PANIC.with(|p| p.borrow().clone());
            fail(&format!("{}-panic", pid), m)
        }
    }
}

thread_local! { static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{}", i).replace('\n', " ");
        PANIC.with(|p| { let mut p = p.borrow_mut(); if p.is_empty() { *p = s; } });
    }));
    let a: Vec<String> = std::env::args().collect();
    let (mode, pid) = (a[1].as_str(), a[2].as_str());
    let seed: u64 = a[3].parse().unwrap();
    let n: u64 = a[4].parse().unwrap();
    if mode == "replay" {
        match one(pid, seed, n) {
            Ok(()) => println!("OK property={pid} seed={seed} case={n}"),
            Err((sig, d)) => {
                println!("FAIL property={pid} seed={seed} case={n} sig={sig} detail={}", d.replace('\n', "\\n"));
                std::process::exit(1);
            }
        }
        return;
    }
    let secs: u64 = a.get(5).map(|s| s.parse().unwrap()).unwrap_or(u64::MAX / 4);
    let status = std::env::var("VH_STATUS").ok().map(|p| std::fs::File::create(p).unwrap());
    let t0 = Instant::now();
    let pid2 = pid.to_string();
    STARTED.store(0, Ordering::SeqCst);
    std::thread::spawn(move || {
        let mut last = (u64::MAX, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let c = CUR.load(Ordering::SeqCst);
            if c != last.0 {
                last = (c, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(12) {
                println!("FAIL property={pid2} seed={seed} case={c} sig={pid2}-hang detail=no answer after 12 s");
                let _ = std::io::stdout().flush();
                std::process::exit(1);
            }
        }
    });
    let mut sigs: std::collections::HashMap<String, u64> = Default::default();
    let mut done = 0u64;
    for c in 0..n {
        CUR.store(c, Ordering::SeqCst);
        if let Some(f) = &status {
            use std::os::unix::fs::FileExt;
            let _ = f.write_all_at(&c.to_le_bytes(), 0);
        }
        if let Err((sig, d)) = one(pid, seed, c) {
            let k = sigs.entry(sig.clone()).or_insert(0);
            *k += 1;
            if *k <= 1 {
                println!("FAIL property={pid} seed={seed} case={c} sig={sig} detail={}", d.replace('\n', "\\n"));
            }
        }
        done += 1;
        if t0.elapsed().as_secs() >= secs {
            break;
        }
    }
    println!("DONE property={pid} seed={seed} cases={done} seconds={:.2} failing_sigs={}", t0.elapsed().as_secs_f64(), sigs.len());
    if !sigs.is_empty() {
        std::process::exit(1);
    }
}
