//! Ends the process if a single case uses far more CPU time than any case can need.
//!
//! CPU time of this process, not wall time, so that a loaded machine doesn't matter.

use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

static CASE: AtomicU64 = AtomicU64::new(u64::MAX);
static CASE_CPU: AtomicU64 = AtomicU64::new(0);

/// Exit codes understood by run.py.
pub const EXIT_HANG: i32 = 41;
pub const EXIT_MEMORY: i32 = 42;

/// CPU time used so far, in milliseconds.
fn cpu_ms() -> u64 {
    let Ok(s) = std::fs::read_to_string("/proc/self/stat") else { return 0 };
    let Some(p) = s.rfind(')') else { return 0 };
    let f: Vec<&str> = s[p + 1..].split_whitespace().collect();
    let ticks = |i: usize| f.get(i).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
    (ticks(11) + ticks(12)) * 10
}

pub fn case_started(case: u64) {
    CASE.store(case, Ordering::SeqCst);
}

pub fn spawn(limit_ms: u64) {
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let case = CASE.load(Ordering::SeqCst);
            let now = cpu_ms();
            if case != last {
                last = case;
                CASE_CPU.store(now, Ordering::SeqCst);
            } else if now.saturating_sub(CASE_CPU.load(Ordering::SeqCst)) > limit_ms && case != u64::MAX {
                eprintln!("case {} used more than {} ms of CPU time", case, limit_ms);
                std::process::exit(EXIT_HANG);
            }
        }
    });
}

pub fn done() {
    CASE.store(u64::MAX, Ordering::SeqCst);
}
