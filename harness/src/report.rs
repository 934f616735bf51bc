//! What the monitors saw: counts, distinct observations, samples and violations.

use crate::rng::{hash, mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    pub thorough: bool,
    /// Replay this case only, verbosely.
    pub only: Option<u64>,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<(u64, String)>,
    case: u64,
    next: u64,
    end: u64,
    started: Instant,
    pub cap: Duration,
    case_file: Option<std::fs::File>,
    pub truncated: bool,
    pub log: bool,
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// At most `n` characters, for messages.
pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        return s.to_owned();
    }
    let head: String = s.chars().take(n).collect();
    format!("{}… ({} bytes)", head, s.len())
}

impl Ctx {
    #[allow(clippy::too_many_arguments)]
    pub fn new(
        prop: &str, seed: u64, shard: u64, shards: u64, thorough: bool, only: Option<u64>, cap_s: u64,
        case_file: Option<std::fs::File>,
    ) -> Self {
        Ctx {
            prop: prop.to_owned(),
            seed,
            shard,
            shards,
            thorough,
            only,
            evals: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            samples: Vec::new(),
            violations: Vec::new(),
            case: u64::MAX,
            next: 0,
            end: 0,
            started: Instant::now(),
            cap: Duration::from_secs(cap_s),
            case_file,
            truncated: false,
            log: only.is_some(),
        }
    }

    /// Sets up iteration over `quick` or `thorough` cases in all shards together.
    pub fn cases(&mut self, quick: u64, thorough: u64) {
        self.next = self.shard;
        self.end = if self.thorough { thorough } else { quick };
        if let Some(o) = self.only {
            self.next = o;
            self.end = o + 1;
        }
    }

    /// The next case and its random generator.
    pub fn next_case(&mut self) -> Option<(u64, Rng)> {
        if self.next >= self.end || self.violations.len() >= 20 {
            return None;
        }
        if self.started.elapsed() > self.cap {
            self.truncated = true;
            return None;
        }
        self.case = self.next;
        self.next += self.shards;
        if let Some(f) = &self.case_file {
            use std::os::unix::fs::FileExt;
            let _ = f.write_all_at(format!("{:<20}", self.case).as_bytes(), 0);
        }
        crate::watchdog::case_started(self.case);
        let r = Rng::new(mix(self.seed) ^ mix(self.case.wrapping_mul(0x5851_f42d_4c95_7f2d)) ^ hash(self.prop.as_bytes()));
        Some((self.case, r))
    }

    /// Records one evaluation of the oracle. `key` identifies what was evaluated; 0: trivial.
    pub fn eval(&mut self, key: u64) {
        self.evals += 1;
        if key != 0 && self.distinct.len() < 3_000_000 {
            self.distinct.insert(key);
        }
    }

    pub fn hit(&mut self, what: &str) {
        self.add(what, 1);
    }

    pub fn add(&mut self, what: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(what) {
            *c += n;
        } else {
            self.counters.insert(what.to_owned(), n);
        }
    }

    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let s = f();
            self.samples.push(clip(&s, 1500));
        }
    }

    pub fn violation(&mut self, msg: String) {
        if self.log {
            eprintln!("VIOLATION in case {}: {}", self.case, msg);
        }
        if self.violations.len() < 20 {
            self.violations.push((self.case, clip(&msg, 6000)));
        }
    }

    pub fn to_json(&self) -> String {
        let mut o = format!(
            "{{\"prop\":{},\"evals\":{},\"truncated\":{},\"wall_s\":{:.3},\"counters\":{{",
            jstr(&self.prop),
            self.evals,
            self.truncated,
            self.started.elapsed().as_secs_f64()
        );
        o += &self.counters.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(",");
        o += "},\"samples\":[";
        o += &self.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",");
        o += "],\"violations\":[";
        o += &self
            .violations
            .iter()
            .map(|(c, m)| format!("{{\"case\":{},\"msg\":{}}}", c, jstr(m)))
            .collect::<Vec<_>>()
            .join(",");
        o += "]}";
        o
    }

    /// Little-endian hashes of the distinct observations.
    pub fn distinct_bytes(&self) -> Vec<u8> {
        self.distinct.iter().flat_map(|h| h.to_le_bytes()).collect()
    }
}
