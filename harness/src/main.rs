//! Binds the TLA+ specification to soupy.
//!
//!   soupy-harness replay  IN OUT [--facet F] [--limit SECONDS] [--threads N] [--status FILE]
//!   soupy-harness observe IN OUT [...]
//!
//! `replay` runs every behaviour of IN (one JSON record per line, holding the inputs of an
//! operation and the observation the specification expects, `want`) through the real library
//! and writes a report with the disagreements.  `observe` records what the library does.
//! A panic of the library is an observation like any other (`{"panic": ...}`).

mod back;
mod construct;
mod consume;
mod engine;
mod facet;
mod flat;
mod giant;
mod vast;
mod ops;
mod pat;
mod query;
mod reader;
mod total;

use std::{
    io::{BufRead, BufWriter, Write},
    os::unix::fs::FileExt,
    sync::{
        atomic::{AtomicU64, AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

use serde_json::{json, Value};

struct Args {
    mode: String,
    input: String,
    output: String,
    facet: String,
    limit: u64,
    threads: usize,
    status: Option<String>,
    stack_mb: usize,
    suite: Option<String>,
}

fn args() -> Args {
    let mut pos = vec![];
    let mut a = Args {
        mode: String::new(),
        input: String::new(),
        output: String::new(),
        facet: "full".into(),
        limit: 60,
        threads: 8,
        status: None,
        stack_mb: 256,
        suite: None,
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut val = || it.next().expect("missing option value");
        match x.as_str() {
            "--facet" => a.facet = val(),
            "--limit" => a.limit = val().parse().unwrap(),
            "--threads" => a.threads = val().parse().unwrap(),
            "--status" => a.status = Some(val()),
            "--stack-mb" => a.stack_mb = val().parse().unwrap(),
            "--suite" => a.suite = Some(val()),
            _ => pos.push(x),
        }
    }
    assert!(pos.len() == 3, "usage: soupy-harness replay|observe IN OUT [options]");
    a.mode = pos[0].clone();
    a.input = pos[1].clone();
    a.output = pos[2].clone();
    a
}

/// A line is a JSON record, or (as TLC's CSV module writes it) a JSON string holding one.
fn record(line: &str) -> Value {
    let v: Value = serde_json::from_str(line).expect("bad JSON line");
    match v {
        Value::String(s) => serde_json::from_str(&s).expect("bad JSON in string"),
        v => v,
    }
}

fn main() {
    let a = args();
    std::panic::set_hook(Box::new(|_| {}));
    let file = std::fs::File::open(&a.input).expect("cannot open input");
    let lines: Arc<Vec<String>> = Arc::new(
        std::io::BufReader::new(file)
            .lines()
            .map(|l| l.expect("cannot read input"))
            .filter(|l| !l.is_empty())
            .collect(),
    );
    let total = lines.len();
    let suite = a.suite.as_ref().map(|p| {
        let s = std::fs::read_to_string(p).expect("cannot read suite");
        record(s.lines().next().expect("empty suite"))
    });
    let suite = Arc::new(suite.map(|s| ops::Suite::new(&s)));
    let next = Arc::new(AtomicUsize::new(0));
    let begin = Instant::now();
    // per worker: (line + 1, start in ms)
    let current: Arc<Vec<(AtomicU64, AtomicU64)>> =
        Arc::new((0..a.threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect());
    let status = a.status.as_ref().map(|p| Arc::new(std::fs::File::create(p).expect("status file")));
    let replay = a.mode == "replay";
    let results: Arc<Mutex<Vec<(usize, String)>>> = Arc::new(Mutex::new(Vec::with_capacity(if replay { 0 } else { total })));
    let counts: Arc<Mutex<[u64; 3]>> = Arc::new(Mutex::new([0; 3])); // compared, skipped, mismatched
    let facet = a.facet.clone();

    let mut handles = vec![];
    for w in 0..a.threads {
        let (lines, next, current, status, results, counts, facet, suite) = (
            lines.clone(),
            next.clone(),
            current.clone(),
            status.clone(),
            results.clone(),
            counts.clone(),
            facet.clone(),
            suite.clone(),
        );
        handles.push(
            std::thread::Builder::new()
                .stack_size(a.stack_mb << 20)
                .spawn(move || {
                    let mut local = vec![];
                    let mut c = [0u64; 3];
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= total {
                            break;
                        }
                        if let Some(f) = &status {
                            let _ = f.write_at(&((i as u64 + 1).to_le_bytes()), w as u64 * 8);
                        }
                        current[w].1.store(begin.elapsed().as_millis() as u64, Ordering::SeqCst);
                        current[w].0.store(i as u64 + 1, Ordering::SeqCst);
                        let rec = record(&lines[i]);
                        let t = Instant::now();
                        let got = ops::run(&rec, suite.as_ref().as_ref());
                        let ms = t.elapsed().as_millis() as u64;
                        if replay {
                            match facet::compare(&facet, &rec, &got) {
                                facet::Verdict::Same => c[0] += 1,
                                facet::Verdict::Skipped => c[1] += 1,
                                facet::Verdict::Differs => {
                                    c[2] += 1;
                                    if c[2] <= 20 {
                                        local.push((i, json!({"line": i, "record": rec, "got": got}).to_string()));
                                    }
                                }
                            }
                        } else {
                            let mut out = rec;
                            out["got"] = got;
                            out["ms"] = json!(ms);
                            local.push((i, out.to_string()));
                        }
                        current[w].0.store(0, Ordering::SeqCst);
                    }
                    if let Some(f) = &status {
                        let _ = f.write_at(&0u64.to_le_bytes(), w as u64 * 8);
                    }
                    results.lock().unwrap().append(&mut local);
                    let mut g = counts.lock().unwrap();
                    for k in 0..3 {
                        g[k] += c[k];
                    }
                })
                .expect("cannot start worker"),
        );
    }

    // watchdog: an operation that does not return is reported, not waited for
    {
        let (current, output, limit) = (current.clone(), a.output.clone(), a.limit);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let now = begin.elapsed().as_millis() as u64;
            for (line, start) in current.iter() {
                let l = line.load(Ordering::SeqCst);
                if l != 0 && now.saturating_sub(start.load(Ordering::SeqCst)) > limit * 1000 && line.load(Ordering::SeqCst) == l {
                    let _ = std::fs::write(&output, json!({"hang": l - 1, "limit": limit}).to_string());
                    std::process::exit(7);
                }
            }
        });
    }
    let mut died = false;
    for h in handles {
        died |= h.join().is_err();
    }
    if died {
        eprintln!("harness worker failed");
        std::process::exit(2);
    }
    let mut results = std::mem::take(&mut *results.lock().unwrap());
    results.sort_by_key(|r| r.0);
    let mut out = BufWriter::new(std::fs::File::create(&a.output).expect("cannot create output"));
    if replay {
        let c = counts.lock().unwrap();
        let bad: Vec<Value> = results
            .iter()
            .take(20)
            .map(|(_, s)| serde_json::from_str(s).unwrap())
            .collect();
        let report = json!({"lines": total, "compared": c[0] + c[2], "skipped": c[1], "mismatched": c[2], "mismatches": bad});
        writeln!(out, "{report}").unwrap();
    } else {
        for (_, s) in &results {
            writeln!(out, "{s}").unwrap();
        }
    }
    out.flush().unwrap();
}
