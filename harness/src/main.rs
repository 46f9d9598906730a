mod calc;
mod exec;
mod fmt_table;
mod gen;
mod rng;
mod std64;

use std::io::{BufRead, BufWriter, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

const THREADS: usize = 8;

/// Runs the scenarios on several threads and writes one event per line, in order.  A call that
/// does not return within the limit is recorded as HANG and ends the recording.
fn run(scns: Vec<exec::Scn>, path: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let scns = Arc::new(scns);
    let next = Arc::new(AtomicUsize::new(0));
    let cur: Arc<Vec<AtomicUsize>> = Arc::new((0..THREADS).map(|_| AtomicUsize::new(usize::MAX)).collect());
    let (tx, rx) = std::sync::mpsc::channel::<(usize, String)>();
    for t in 0..THREADS {
        let (scns, next, cur, tx) = (scns.clone(), next.clone(), cur.clone(), tx.clone());
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= scns.len() {
                        break;
                    }
                    cur[t].store(i, Ordering::SeqCst);
                    let e = exec::exec(&scns[i]);
                    tx.send((i, e)).unwrap();
                }
                cur[t].store(usize::MAX, Ordering::SeqCst);
            })
            .unwrap();
    }
    drop(tx);
    let mut out: Vec<String> = vec![String::new(); scns.len()];
    let mut seen: Vec<(usize, Instant)> = vec![(usize::MAX, Instant::now()); THREADS];
    let mut got = 0;
    while got < scns.len() {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok((i, e)) => {
                out[i] = e;
                got += 1;
                if got % 1024 != 0 {
                    continue;
                }
            }
            Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => {
                eprintln!("harness: a worker died");
                std::process::exit(2);
            }
            Err(_) => {}
        }
        for t in 0..THREADS {
            let i = cur[t].load(Ordering::SeqCst);
            if i != seen[t].0 {
                seen[t] = (i, Instant::now());
            } else if i != usize::MAX && seen[t].1.elapsed() > Duration::from_secs(40) {
                std::fs::write(path, exec::event(&scns[i], &["HANG".to_string()], &[]) + "\n").unwrap();
                eprintln!("harness: no answer from {:?}", scns[i]);
                std::process::exit(0);
            }
        }
    }
    let mut w = BufWriter::new(std::fs::File::create(path).unwrap());
    for e in out {
        writeln!(w, "{}", e).unwrap();
    }
    w.flush().unwrap();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        // record FAMILY SEED N OUT
        "record" => {
            let mut h = 0xcbf29ce484222325u64;
            for b in a[2].bytes() {
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            }
            let seed: u64 = a[3].parse().unwrap();
            let mut r = rng::Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ h);
            let s = gen::generate(&a[2], &mut r, a[4].parse().unwrap());
            run(s, &a[5]);
        }
        // exec SCENARIOS OUT
        "exec" => {
            let f = std::io::BufReader::new(std::fs::File::open(&a[2]).unwrap());
            let s = f.lines().filter_map(|l| exec::parse_scn(&l.unwrap())).collect();
            run(s, &a[3]);
        }
        // calc BEHAVIOURS OUT
        "calc" => calc::replay(&a[2], &a[3]),
        // prog SEED N LEN OUT
        "prog" => calc::programs(a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5]),
        // std64 SEED N OUT
        "std64" => std64::record(a[2].parse().unwrap(), a[3].parse().unwrap(), &a[4]),
        _ => panic!("usage"),
    }
}
