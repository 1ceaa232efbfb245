//! Free running threads. A round has a set-up and an end made by one thread and
//! in between several threads, each with operations of its own, that run at the
//! same time. What is recorded is the history: when which call was made and
//! when it returned with which result, in an order consistent with real time.
//! Module LinSys decides whether the specification allows it.
use crate::clock;
use crate::comp::{set_t0, t0};
use crate::seq::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Instant;

static STAMP: AtomicU64 = AtomicU64::new(0);
/// rounds begun, threads at work, threads other than the present one to wait for
static ROUND: AtomicUsize = AtomicUsize::new(0);
static BUSY: AtomicUsize = AtomicUsize::new(0);

struct Job { round: usize, sess: Session, ops: Vec<Value>, zero: Instant, ev: Evs }
type Evs = Arc<Mutex<Vec<(u64, Value)>>>;
type Slot = Arc<Mutex<Option<Job>>>;

fn result(r: std::thread::Result<Value>) -> Value {
    match r {
        Ok(mut v) => { v["ok"] = json!(true); v }
        Err(e) => json!({"ok": false, "panic": e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()}),
    }
}
fn perform(k: usize, job: &mut Job, pumping: &AtomicUsize) {
    for i in 0..job.ops.len() {
        let op = job.ops[i].clone();
        // processes until the others have ended and there is nothing left
        let pump = op["op"] == "pump";
        let real = if pump { json!({"op": "process", "id": op["id"], "max": op["max"], "st": op["st"]}) } else { op };
        loop {
            let alone = BUSY.load(SeqCst) <= pumping.load(SeqCst);
            let t1 = STAMP.fetch_add(1, SeqCst);
            if !pump { job.ev.lock().unwrap().push((t1, json!({"e": "inv", "t": k, "op": real}))); }
            let r = result(catch_unwind(AssertUnwindSafe(|| job.sess.exec(&real))));
            let t2 = STAMP.fetch_add(1, SeqCst);
            let nothing = pump && r["ok"] == true && r["happened"] == false && r["q"] == 0;
            if !nothing {
                let mut e = job.ev.lock().unwrap();
                if pump { e.push((t1, json!({"e": "inv", "t": k, "op": real}))); }
                e.push((t2, json!({"e": "res", "t": k, "res": r})));
            }
            if !pump || (alone && nothing) || r["ok"] != true { break }
        }
    }
}
fn worker(k: usize, slot: Slot, pumping: Arc<AtomicUsize>) {
    clock::mark_harness_thread();
    let mut seen = 0;
    loop {
        let t0 = clock::real_ns();
        let mut spins = 0u32;
        while ROUND.load(SeqCst) == seen { std::hint::spin_loop(); spins += 1; if spins % 4096 == 0 && clock::real_ns() - t0 > 2_000_000 { clock::real_sleep_us(50) } }
        seen = ROUND.load(SeqCst);
        let mut g = slot.lock().unwrap();
        // (a thread that is late must not begin the next round early)
        if let Some(job) = g.as_mut().filter(|j| j.round == seen) {
            set_t0(job.zero);
            ARRIVED.fetch_add(1, SeqCst);
            while ARRIVED.load(SeqCst) < EXPECTED.load(SeqCst) { std::hint::spin_loop() }
            let pumps = job.ops.iter().any(|o| o["op"] == "pump");
            perform(k, job, &pumping);
            if pumps { pumping.fetch_sub(1, SeqCst); }
            BUSY.fetch_sub(1, SeqCst);
        }
    }
}
static ARRIVED: AtomicUsize = AtomicUsize::new(0);
static EXPECTED: AtomicUsize = AtomicUsize::new(0);

fn gather(ev: &mut Vec<Value>, evs: &[Evs]) {
    let mut all: Vec<(u64, Value)> = evs.iter().flat_map(|e| e.lock().unwrap().clone()).collect();
    all.sort_by_key(|x| x.0);
    ev.extend(all.into_iter().map(|x| x.1));
}
fn round(def: &Value, slots: &[Slot], pumping: &Arc<AtomicUsize>) -> (Vec<Value>, bool) {
    let mut ev: Vec<Value> = vec![];
    let mut main = Session::new();
    let zero = t0();
    let seq = |main: &mut Session, ops: &Value, ev: &mut Vec<Value>| { for op in ops.as_array().unwrap() {
        let r = result(catch_unwind(AssertUnwindSafe(|| main.exec(op))));
        ev.push(json!({"e": "seq", "op": op, "res": r}));
    } };
    seq(&mut main, &def["setup"], &mut ev);
    let mut evs: Vec<Evs> = vec![];
    let ths = def["threads"].as_array().unwrap();
    for (k, th) in ths.iter().enumerate() {
        let mut s = Session::new();
        s.txs = main.txs.clone();
        s.drv.rel = main.drv.rel.clone();
        s.drv.atts = main.drv.atts.clone();
        for o in th["own"].as_array().unwrap() {
            let o = o.as_str().unwrap();
            if let Some(x) = main.objs.remove(o) { s.objs.insert(o.into(), x); }
            if let Some(x) = main.drv.handles.remove(o) { s.drv.handles.insert(o.into(), x); }
        }
        let e: Evs = Default::default();
        evs.push(e.clone());
        *slots[k].lock().unwrap() = Some(Job { round: ROUND.load(SeqCst) + 1, sess: s, ops: th["ops"].as_array().unwrap().clone(), zero, ev: e });
    }
    // (attached mounts: the handles of the main thread go, those of the threads stay)
    main.drv.atts.clear();
    BUSY.store(ths.len(), SeqCst);
    pumping.store(ths.iter().filter(|t| t["ops"].as_array().unwrap().iter().any(|o| o["op"] == "pump")).count(), SeqCst);
    ARRIVED.store(0, SeqCst);
    EXPECTED.store(ths.len(), SeqCst);
    ROUND.fetch_add(1, SeqCst);
    let t = clock::real_ns();
    let p = clock::awake_ns();
    let mut n = 0u32;
    while BUSY.load(SeqCst) > 0 {
        std::hint::spin_loop();
        n += 1;
        if n % 1024 == 0 { if clock::real_ns() - t > 1_000_000 { clock::real_sleep_us(20) } if clock::awake_ns() - p > 10_000_000_000 { gather(&mut ev, &evs); ev.push(json!({"e": "stuck"})); std::mem::forget(main); return (ev, true) } }
    }
    for (k, _) in ths.iter().enumerate() {
        let mut job = slots[k].lock().unwrap().take().unwrap();
        for (n, o) in job.sess.objs.drain() { main.objs.insert(n, o); }
        for (n, h) in job.sess.drv.handles.drain() { main.drv.handles.insert(n, h); }
        for (n, l) in job.sess.ctx.logs.drain() { main.ctx.logs.insert(n, l); }
        let ts = std::mem::take(&mut job.sess.drv.tickets);
        main.drv.tickets.extend(ts);
    }
    gather(&mut ev, &evs);
    seq(&mut main, &def["end"], &mut ev);
    let stuck = ev.iter().any(|e| e["e"] == "seq" && e["res"]["stuck"] == true);
    (ev, stuck)
}

/// IN: one round per line. OUT: every history that occurred, once, with how often
pub fn run(lines: impl Iterator<Item = String>, out: &mut dyn std::io::Write, millis: i64) {
    clock::mark_harness_thread();
    clock::start_virtual();
    clock::OPEN.store(true, SeqCst);
    std::panic::set_hook(Box::new(|_| {}));
    let defs: Vec<Value> = lines.filter(|l| !l.trim().is_empty()).map(|l| serde_json::from_str(&l).unwrap()).collect();
    let pumping = Arc::new(AtomicUsize::new(0));
    let slots: Vec<Slot> = (0..8).map(|_| Arc::new(Mutex::new(None))).collect();
    for (k, s) in slots.iter().enumerate() { let (s, p) = (s.clone(), pumping.clone()); std::thread::spawn(move || worker(k, s, p)); }
    let mut seen: HashSet<String> = HashSet::new();
    let mut counts: BTreeMap<usize, [u64; 2]> = BTreeMap::new();
    let t = clock::real_ns();
    let mut rounds = 0u64;
    'all: loop {
        for (k, d) in defs.iter().enumerate() {
            if clock::real_ns() - t > millis * 1_000_000 && rounds >= defs.len() as u64 { break 'all }
            let (ev, stuck) = round(d, &slots, &pumping);
            rounds += 1;
            let c = counts.entry(k).or_default();
            c[0] += 1;
            let h = Value::Array(ev).to_string();
            if seen.insert(h.clone()) {
                c[1] += 1;
                let mut m = Map::new();
                m.insert("round".into(), json!(k));
                m.insert("h".into(), serde_json::from_str(&h).unwrap());
                writeln!(out, "{}", Value::Object(m)).unwrap();
            }
            // threads may be lost for good: what was seen is enough
            if stuck { break 'all }
        }
    }
    eprintln!("ROUNDS {} DIFFERENT {}", rounds, seen.len());
    let _ = out.flush();
    std::process::exit(0)
}
