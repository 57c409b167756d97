//! Concrete search for W01: random well-formed books, laid out here byte by byte, read by
//! the real functions of js/wasm and compared with what the books contain.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    fn pick<T: Copy>(&mut self, s: &[T]) -> T {
        s[self.below(s.len() as u64) as usize]
    }
}

struct Book {
    data: Vec<u8>,
    cb: u64,
    slot: u64,
    orders: BTreeMap<u128, u64>,
    at: BTreeMap<u128, u32>,
}

/// the crit-bit tree over the sorted keys ks; returns its root slot
fn plant(ks: &[u128], b: &mut Book, slots: &mut Vec<u32>, rng: &mut Rng) -> u32 {
    let h = slots.pop().unwrap();
    let o = 65 + h as usize * b.slot as usize;
    if ks.len() == 1 {
        let k = ks[0];
        b.data[o] = 2;
        b.data[o + 1..o + 17].copy_from_slice(&k.to_le_bytes());
        for i in 0..b.cb as usize {
            b.data[o + 17 + i] = rng.next() as u8;
        }
        let q = o + 17 + b.cb as usize;
        b.data[q..q + 8].copy_from_slice(&b.orders[&k].to_le_bytes());
        b.at.insert(k, h);
        return h;
    }
    let len = (ks[0] ^ ks[ks.len() - 1]).leading_zeros();
    let bit = (1u128 << 127) >> len;
    let m = ks.iter().position(|k| k & bit != 0).unwrap();
    let (x, y) = if rng.below(2) == 0 {
        let x = plant(&ks[..m], b, slots, rng);
        (x, plant(&ks[m..], b, slots, rng))
    } else {
        let y = plant(&ks[m..], b, slots, rng);
        (plant(&ks[..m], b, slots, rng), y)
    };
    b.data[o] = 1;
    b.data[o + 1..o + 5].copy_from_slice(&len.to_le_bytes());
    b.data[o + 5..o + 21].copy_from_slice(&ks[rng.below(ks.len() as u64) as usize].to_le_bytes());
    b.data[o + 21..o + 25].copy_from_slice(&x.to_le_bytes());
    b.data[o + 25..o + 29].copy_from_slice(&y.to_le_bytes());
    h
}

fn make(rng: &mut Rng, dict: &[u64]) -> Book {
    let cb = rng.pick(&[0, 1, 7, 8, 32, 33, 64, 100]);
    let small: u64 = std::cmp::max(cb + 25, 32);
    let slot = if rng.below(4) == 0 { small + rng.below(9) } else { small };
    let n = match rng.below(8) {
        0 => rng.below(3),
        1 => 20 + rng.below(180),
        2 if rng.below(40) == 0 => 300 + rng.below(900),
        _ => rng.below(20),
    };
    let pool: Vec<u64> = (0..1 + rng.below(1 + n.min(60)))
        .map(|_| match rng.below(6) {
            0 => rng.pick(&[0, 1, 2, u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32]),
            1 if !dict.is_empty() => rng.pick(dict),
            2 => rng.next(),
            _ => 1 + rng.below(100),
        })
        .collect();
    let mut room: BTreeMap<u64, u64> = BTreeMap::new();
    let mut orders = BTreeMap::new();
    for i in 0..n {
        let p = rng.pick(&pool);
        let seq = match rng.below(4) {
            0 => rng.next(),
            1 => !i,
            _ => i,
        };
        let left = room.entry(p).or_insert(u64::MAX);
        let q = match rng.below(10) {
            0 => 0,
            1 => *left / 2,
            2 if rng.below(4) == 0 => *left,
            3 if !dict.is_empty() => rng.pick(dict),
            // equal to a price: quantities and prices must not be confused
            4 => rng.pick(&pool),
            5 => p,
            _ => 1 + rng.below(1000),
        }
        .min(*left);
        let k = (p as u128) << 64 | seq as u128;
        if let std::collections::btree_map::Entry::Vacant(e) = orders.entry(k) {
            e.insert(q);
            *left -= q;
        }
    }
    // one long path: the tree as deep as keys of 128 bits can make it
    if rng.below(40) == 0 {
        let along = if rng.below(3) == 0 { 0 } else { (rng.next() as u128) << 64 | rng.next() as u128 };
        orders = (0..128).map(|i| (along ^ 1 << i, 1 + rng.below(1000))).collect();
        orders.insert(along, 1 + rng.below(1000));
    }
    let ks: Vec<u128> = orders.keys().cloned().collect();
    let used = if ks.is_empty() { 0 } else { 2 * ks.len() - 1 };
    let free = rng.below(6) as usize;
    let cap = used + free + rng.below(3) as usize;
    let mut b = Book { data: vec![0; 65 + cap * slot as usize + if rng.below(3) == 0 { rng.below(slot) as usize } else { 0 }], cb, slot, orders, at: BTreeMap::new() };
    let mut slots: Vec<u32> = (0..(used + free) as u32).collect();
    for i in (1..slots.len()).rev() {
        slots.swap(i, rng.below(i as u64 + 1) as usize);
    }
    let root = if ks.is_empty() { rng.below(3) as u32 } else { plant(&ks, &mut b, &mut slots, rng) };
    // what is left over is on the free list
    let mut head = 0u32;
    for (i, h) in slots.iter().enumerate() {
        let o = 65 + *h as usize * b.slot as usize;
        b.data[o] = if i == 0 { 4 } else { 3 };
        b.data[o + 1..o + 5].copy_from_slice(&head.to_le_bytes());
        head = *h;
    }
    b.data[0] = 3 + rng.below(2) as u8;
    b.data[1..9].copy_from_slice(&((used + free) as u64).to_le_bytes());
    b.data[9..17].copy_from_slice(&(free as u64).to_le_bytes());
    b.data[17..21].copy_from_slice(&head.to_le_bytes());
    b.data[21..25].copy_from_slice(&root.to_le_bytes());
    b.data[25..33].copy_from_slice(&(ks.len() as u64).to_le_bytes());
    for i in 33..65 {
        b.data[i] = rng.next() as u8;
    }
    b
}

fn run_case(seed: u64, n: u64, dict: &[u64], log: &mut Vec<String>, ops: &mut u64) -> Option<String> {
    let mut rng = Rng(seed.wrapping_mul(0x1000_0000_01B3).wrapping_add(n));
    for _ in 0..3 {
        rng.next();
    }
    let mut b = make(&mut rng, dict);
    log.push(format!("case {n}: callback_info_len {}, slot_size {}, {} orders (price, low key bits, quantity):", b.cb, b.slot, b.orders.len()));
    for (k, q) in b.orders.iter().take(60) {
        log.push(format!("  ({}, {}, {q})", k >> 64, *k as u64));
    }
    let (cb, slot) = (b.cb, b.slot);
    let min = b.orders.keys().next().map(|k| b.at[k]);
    let max = b.orders.keys().last().map(|k| b.at[k]);
    *ops += 2;
    let r = catch_unwind(AssertUnwindSafe(|| dex_wasm::find_min(&mut b.data, cb, slot)));
    if !matches!(&r, Ok(x) if *x == min) {
        return Some(format!("find_min gives {:?}, the order with the smallest key is {min:?}", r.map_err(|_| "a panic")));
    }
    let r = catch_unwind(AssertUnwindSafe(|| dex_wasm::find_max(&mut b.data, cb, slot)));
    if !matches!(&r, Ok(x) if *x == max) {
        return Some(format!("find_max gives {:?}, the order with the largest key is {max:?}", r.map_err(|_| "a panic")));
    }
    let mut asc: Vec<(u64, u64)> = vec![];
    for (k, q) in &b.orders {
        let p = (k >> 64) as u64;
        match asc.last_mut() {
            Some(l) if l.0 == p => l.1 += q,
            _ => asc.push((p, *q)),
        }
    }
    let mut depths: Vec<u64> = (0..(asc.len() as u64 + 2).min(6)).collect();
    depths.extend([asc.len() as u64, asc.len() as u64 + 1, asc.len() as u64 / 2, 300, (asc.len() as u64).saturating_sub(1)]);
    if let Some(d) = (!dict.is_empty()).then(|| rng.pick(dict)) {
        if d < 4096 {
            depths.push(d);
        }
    }
    for inc in [true, false] {
        let mut lv = asc.clone();
        if !inc {
            lv.reverse();
        }
        for d in &depths {
            let want: Vec<u64> = lv.iter().take(*d as usize).flat_map(|(p, q)| [*q, *p]).collect();
            *ops += 1;
            let r = catch_unwind(AssertUnwindSafe(|| dex_wasm::find_l2_depth(&mut b.data, cb, slot, *d, inc)));
            if !matches!(&r, Ok(x) if *x == want) {
                return Some(format!("find_l2_depth(depth {d}, increasing {inc}) gives {:?}, the levels (quantity, price) are {want:?}", r.map_err(|_| "a panic")));
            }
        }
    }
    None
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone());
    let prop = get("--prop").unwrap_or_else(|| "W01".into());
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = get("--seconds").and_then(|s| s.parse().ok()).unwrap_or(10.0);
    let threads: u64 = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let out = get("--out");
    let dict: Vec<u64> = get("--dict").map(|d| d.split(',').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
    let only: Option<u64> = get("--case").and_then(|s| s.parse().ok());
    std::panic::set_hook(Box::new(|_| {}));
    let (cases, ops, longest) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let stop = AtomicBool::new(false);
    let found: Mutex<Vec<(u64, String, Vec<String>)>> = Mutex::new(vec![]);
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let (st, ca, op, lo, fo, di) = (&stop, &cases, &ops, &longest, &found, &dict);
    std::thread::scope(|s| {
        for t in 0..threads {
            s.spawn(move || {
                let mut n = t;
                loop {
                    if let Some(k) = only {
                        if t != 0 {
                            return;
                        }
                        n = k;
                    } else if st.load(Ordering::Relaxed) || Instant::now() > end {
                        return;
                    }
                    let (mut log, mut k) = (vec![], 0u64);
                    let r = run_case(seed, n, di, &mut log, &mut k);
                    ca.fetch_add(1, Ordering::Relaxed);
                    op.fetch_add(k, Ordering::Relaxed);
                    lo.fetch_max(k, Ordering::Relaxed);
                    if let Some(w) = r {
                        fo.lock().unwrap().push((n, w, log));
                        st.store(true, Ordering::Relaxed);
                        return;
                    }
                    if only.is_some() {
                        return;
                    }
                    n += threads;
                }
            });
        }
    });
    let mut f = found.into_inner().unwrap();
    f.sort_by_key(|x| x.0);
    let esc = |s: &str| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n"));
    let mut j = format!(
        "{{\"prop\":{},\"seed\":{seed},\"cases\":{},\"operations\":{},\"longest\":{}",
        esc(&prop),
        cases.load(Ordering::Relaxed),
        ops.load(Ordering::Relaxed),
        longest.load(Ordering::Relaxed)
    );
    if let Some((n, w, log)) = f.first() {
        j += &format!(",\"violation\":{{\"prop\":{},\"case\":{n},\"what\":{},\"log\":[{}]}}", esc(&prop), esc(w), log.iter().map(|l| esc(l)).collect::<Vec<_>>().join(","));
    }
    j += "}";
    match out {
        Some(p) => std::fs::write(p, &j).unwrap(),
        None => println!("{j}"),
    }
    std::process::exit(if f.is_empty() { 0 } else { 1 });
}
