mod direct;
mod history;
mod oracle;
mod world;

use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

struct Quiet;
impl solana_program::program_stubs::SyscallStubs for Quiet {
    fn sol_log(&self, _m: &str) {}
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe { *(var_addr as *mut solana_program::rent::Rent) = solana_program::rent::Rent::default() };
        0
    }
}

pub struct Found {
    pub prop: String,
    pub what: String,
    pub log: Vec<String>,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone());
    let prop = get("--prop").unwrap_or_else(|| "all".into());
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = get("--seconds").and_then(|s| s.parse().ok()).unwrap_or(10.0);
    let threads: u64 = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let out = get("--out");
    let _ = history::DICT.set(get("--dict").map(|d| d.split(',').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default());
    let only: Option<u64> = get("--case").and_then(|s| s.parse().ok());
    solana_program::program_stubs::set_syscall_stubs(Box::new(Quiet));
    std::panic::set_hook(Box::new(|_| {}));

    let cases = AtomicU64::new(0);
    let ops = AtomicU64::new(0);
    let distinct = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Vec<(u64, Found)>> = Mutex::new(vec![]);
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let (pr, st, ca, op, fo, di) = (&prop, &stop, &cases, &ops, &found, &distinct);
    std::thread::scope(|s| {
        for t in 0..threads {
            s.spawn(move || {
                let mut n = t;
                loop {
                    if let Some(k) = only {
                        if t != 0 {
                            return;
                        }
                        n = k;
                    } else if st.load(Ordering::Relaxed) || Instant::now() > end {
                        return;
                    }
                    let mut log = vec![];
                    let mut issues: Vec<(&'static str, String)> = vec![];
                    let mut k = 0u64;
                    run_case(pr, seed, n, &mut log, &mut issues, &mut k);
                    ca.fetch_add(1, Ordering::Relaxed);
                    op.fetch_add(k, Ordering::Relaxed);
                    di.fetch_max(k, Ordering::Relaxed);
                    let hit: Vec<_> = issues.iter().filter(|i| pr == "all" || i.0 == pr).collect();
                    if let Some(h) = hit.first() {
                        fo.lock().unwrap().push((n, Found { prop: h.0.to_string(), what: h.1.clone(), log }));
                        st.store(true, Ordering::Relaxed);
                        return;
                    }
                    if only.is_some() {
                        return;
                    }
                    n += threads;
                }
            });
        }
    });
    let mut f = found.into_inner().unwrap();
    f.sort_by_key(|x| x.0);
    let esc = |s: &str| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n"));
    let mut j = format!(
        "{{\"prop\":{},\"seed\":{seed},\"cases\":{},\"operations\":{},\"longest\":{}",
        esc(&prop),
        cases.load(Ordering::Relaxed),
        ops.load(Ordering::Relaxed),
        distinct.load(Ordering::Relaxed)
    );
    if let Some((n, x)) = f.first() {
        j += &format!(",\"violation\":{{\"prop\":{},\"case\":{n},\"what\":{},\"log\":[{}]}}", esc(&x.prop), esc(&x.what), x.log.iter().map(|l| esc(l)).collect::<Vec<_>>().join(","));
    }
    j += "}";
    match out {
        Some(p) => std::fs::write(p, &j).unwrap(),
        None => println!("{j}"),
    }
    std::process::exit(if f.is_empty() { 0 } else { 1 });
}

fn run_case(prop: &str, seed: u64, n: u64, log: &mut Vec<String>, issues: &mut Vec<(&'static str, String)>, ops: &mut u64) {
    let mut rng = world::Rng(seed.wrapping_mul(0x1000_0000_01B3).wrapping_add(n));
    for _ in 0..3 {
        rng.next();
    }
    // which kinds of case tell about the property
    let kinds: &[&str] = match prop {
        "B01" | "B02" | "B03" => &["slab", "history", "slab"],
        "B04" => &["history", "history", "ids"],
        "E01" => &["queue", "history"],
        "T01" => &["round", "history"],
        "L01" => &["life"],
        "L02" => &["auth"],
        "I01" => &["builders"],
        "Y01" => &["layout"],
        "all" => &["history", "slab", "history", "queue", "history", "round", "life", "auth", "builders", "layout", "ids", "history"],
        _ => &["history"],
    };
    let kind = kinds[(n % kinds.len() as u64) as usize];
    log.push(format!("case {n} kind {kind}"));
    match kind {
        "history" => {
            if rng.chance(1, 16) {
                match rng.below(3) {
                    0 => history::run::<world::C1>(&mut rng, prop, log, issues, ops),
                    1 => history::run::<world::C9>(&mut rng, prop, log, issues, ops),
                    _ => history::run::<world::C64>(&mut rng, prop, log, issues, ops),
                }
            } else if rng.chance(1, 2) {
                history::run::<world::Cb16>(&mut rng, prop, log, issues, ops)
            } else {
                history::run::<[u8; 32]>(&mut rng, prop, log, issues, ops)
            }
        }
        "slab" => direct::slab(&mut rng, log, issues, ops),
        "queue" => direct::queue(&mut rng, log, issues, ops),
        "ids" => direct::ids(&mut rng, log, issues, ops),
        "round" => direct::round(&mut rng, log, issues, ops),
        "life" => direct::life(&mut rng, log, issues, ops),
        "auth" => direct::auth(&mut rng, log, issues, ops),
        "builders" => direct::builders(&mut rng, log, issues, ops),
        "layout" => direct::layout(&mut rng, log, issues, ops),
        _ => unreachable!(),
    }
}
