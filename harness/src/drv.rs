//! Drivers, attached mounts, blocked senders and snapshot requests: operations
//! that involve threads. All threads the library starts stop at gates
//! (clock.rs); calls that may block run in helper threads.
use crate::clock::{self, At};
use crate::comp::*;
use crate::seq::*;
use futures::FutureExt;
use metrix::attached_mount::AttachedMount;
use metrix::driver::*;
use metrix::processor::*;
use metrix::snapshot::Snapshot;
use metrix::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI32, Ordering::SeqCst};
use std::sync::mpsc;
use std::sync::{Arc, Mutex};

/// a processor that records how it is used and can hold up the thread that uses it
pub struct Probe { pub id: String, pub name: String, pub outs: Vec<[usize; 4]>, pub passes: usize, pub log: Log, pub gate_p: bool, pub gate_s: bool, pub rel: Arc<Mutex<Vec<String>>> }
pub fn out_strategy(s: &ProcessingStrategy) -> Value {
    match s {
        ProcessingStrategy::ProcessAll => json!({"k": "all"}), ProcessingStrategy::DropAll => json!({"k": "none"}),
        ProcessingStrategy::DropOlderThan { max_age, drop_deltas } => json!({"k": "age", "age": if *max_age == std::time::Duration::MAX { -1 } else { max_age.as_millis() as i64 }, "dd": drop_deltas}),
    }
}
impl ProcessesTelemetryMessages for Probe {
    fn process(&mut self, _max: usize, strategy: ProcessingStrategy) -> ProcessingOutcome {
        self.log.lock().unwrap().push(json!({"k": "p", "st": out_strategy(&strategy)}));
        if self.gate_p && clock::is_library_thread() { clock::gate(&format!("p:{}", self.id)); }
        let o = self.outs.get(self.passes).copied().unwrap_or_default();
        self.passes += 1;
        ProcessingOutcome { processed: o[0], dropped: o[1], instruments_updated: o[2], observations_enqueued: o[3] }
    }
}
impl PutsSnapshot for Probe {
    fn put_snapshot(&self, into: &mut Snapshot, d: bool) {
        self.log.lock().unwrap().push(json!({"k": "s", "d": d}));
        if self.gate_s && clock::is_library_thread() { clock::gate(&format!("s:{}", self.id)); }
        into.push(self.name.clone(), self.passes as u64)
    }
}
impl Drop for Probe { fn drop(&mut self) { self.rel.lock().unwrap().push(self.id.clone()); } }

/// a call that runs in a thread of its own
pub struct Helper { tid: Arc<AtomicI32>, done: Arc<AtomicBool> }
impl Helper {
    pub fn run(f: impl FnOnce() + Send + 'static) -> Helper {
        let (tid, done) = (Arc::new(AtomicI32::new(0)), Arc::new(AtomicBool::new(false)));
        let (t, d) = (tid.clone(), done.clone());
        let zero = t0();
        std::thread::spawn(move || {
            clock::mark_harness_thread();
            set_t0(zero);
            t.store(unsafe { libc::syscall(libc::SYS_gettid) } as i32, SeqCst);
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            d.store(true, SeqCst);
        });
        Helper { tid, done }
    }
    pub fn is_done(&self) -> bool { self.done.load(SeqCst) }
    /// whether the thread waits for something (as the kernel sees it)
    fn sleeping(&self) -> Option<String> {
        let tid = self.tid.load(SeqCst);
        if tid == 0 { return None }
        let st = std::fs::read_to_string(format!("/proc/self/task/{}/status", tid)).ok()?;
        let line = |k: &str| st.lines().find(|l| l.starts_with(k)).map(|l| l.to_string()).unwrap_or_default();
        if line("State:").contains("S") && line("State:").contains("sleeping") { Some(line("voluntary_ctxt_switches")) } else { None }
    }
    /// waits until the call has returned or waits for something
    pub fn settle(&self) {
        let t0 = clock::awake_ns();
        let mut last: Option<String> = None;
        let mut same = 0;
        loop {
            if self.is_done() { return }
            let now = self.sleeping();
            if now.is_some() && now == last { same += 1 } else { same = 0 }
            if same >= 3 { return }
            last = now;
            clock::real_sleep_us(if same > 0 { 60 } else { 20 });
            if clock::awake_ns() - t0 > 30_000_000_000 { return }
        }
    }
}

fn out_answer(r: Answer) -> Value { match r { Ok(sn) => json!({"err": false, "s": out_snapshot(&sn)}), Err(_) => json!({"err": true, "s": []}) } }
type Answer = Result<Snapshot, GetSnapshotError>;
pub enum Ticket { Async(Pin<Box<dyn Future<Output = Answer> + Send>>), Sync(Helper, mpsc::Receiver<Answer>) }
pub struct Drv { slot: usize, auto: bool }

#[derive(Default)]
pub struct Drivers {
    pub drvs: BTreeMap<String, Drv>,
    pub handles: HashMap<String, (String, TelemetryDriver)>,
    pub atts: HashMap<String, AttachedMount>,
    pub tickets: BTreeMap<String, Ticket>,
    pub blocked: BTreeMap<String, Helper>,
    pub plogs: HashMap<String, Log>,
    pub rel: Arc<Mutex<Vec<String>>>,
    pub relseen: usize,
}
fn hang(what: &str) -> ! { eprintln!("HANG {}", what); std::process::exit(42) }
const PATIENCE_US: u64 = 20_000_000;

/// while this exists drivers that run by themselves do so
pub struct Stepping(Arc<AtomicBool>, Option<std::thread::JoinHandle<()>>);
impl Drop for Stepping { fn drop(&mut self) { self.0.store(true, SeqCst); if let Some(h) = self.1.take() { let _ = h.join(); } } }
impl Drivers {
    pub fn stepping(&self) -> Option<Stepping> {
        let slots: Vec<usize> = self.drvs.values().filter(|d| d.auto).map(|d| d.slot).collect();
        if slots.is_empty() { return None }
        let stop = Arc::new(AtomicBool::new(false));
        let st = stop.clone();
        Some(Stepping(stop, Some(std::thread::spawn(move || {
            clock::mark_harness_thread();
            while !st.load(SeqCst) {
                for i in &slots { if let At::Gate(_) = clock::slot_at(*i) { clock::permit(*i); } }
                clock::real_sleep_us(20);
            }
        }))))
    }
    pub fn active(&self) -> bool { !self.drvs.is_empty() || !self.blocked.is_empty() || !self.tickets.is_empty() }
    pub fn probe(&mut self, d: &Value) -> Probe {
        let log: Log = Default::default();
        self.plogs.insert(s(&d["id"]), log.clone());
        Probe { id: s(&d["id"]), name: s(&d["n"]), outs: d["outs"].as_array().unwrap().iter().map(|o| { let v: Vec<usize> = o.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect(); [v[0], v[1], v[2], v[3]] }).collect(),
                passes: 0, log, gate_p: b(&d["gp"]), gate_s: b(&d["gs"]), rel: self.rel.clone() }
    }
    fn step_auto(&self) {
        for d in self.drvs.values() { if d.auto { if let At::Gate(_) = clock::slot_at(d.slot) { clock::permit(d.slot); } } }
    }
    /// drivers that run by themselves come to rest
    pub fn rest(&self, op: &Value) {
        for _ in 0..4 {
            self.step_auto();
            for d in self.drvs.values() { if d.auto && clock::wait_gate(d.slot, PATIENCE_US).is_none() { hang(&op.to_string()) } }
        }
    }
    pub fn settle(&self) { for h in self.blocked.values() { h.settle() } for t in self.tickets.values() { if let Ticket::Sync(h, _) = t { h.settle() } } }
    /// lets a thread go on to its next gate
    fn step(&self, id: &str, op: &Value) -> At {
        let d = &self.drvs[id];
        if clock::slot_at(d.slot) == At::Ended { return At::Ended }
        clock::permit(d.slot);
        let t0 = clock::awake_ns();
        loop {
            if let Some(a) = clock::wait_gate(d.slot, 2_000) { return a }
            self.step_auto();
            if clock::awake_ns() - t0 > PATIENCE_US as i64 * 1000 { hang(&op.to_string()) }
        }
    }
    fn answers(&mut self) -> Value {
        let mut out = vec![];
        let ids: Vec<String> = self.tickets.keys().cloned().collect();
        for t in ids {
            let r: Option<Answer> = match self.tickets.get_mut(&t).unwrap() {
                Ticket::Async(f) => f.as_mut().now_or_never(),
                Ticket::Sync(h, rx) => { h.settle(); if h.is_done() { Some(rx.try_recv().unwrap_or(Err(GetSnapshotError))) } else { None } }
            };
            if let Some(r) = r {
                self.tickets.remove(&t);
                out.push(match r { Ok(sn) => json!({"t": t, "err": false, "s": out_snapshot(&sn)}), Err(_) => json!({"t": t, "err": true, "s": []}) });
            }
        }
        Value::Array(out)
    }
    fn released(&mut self) -> Value {
        let r = self.rel.lock().unwrap();
        let v: Vec<String> = r[self.relseen..].to_vec();
        self.relseen = r.len();
        json!(v)
    }
    /// end of a session: all threads are let go
    pub fn close(&mut self) {
        self.tickets.clear(); self.blocked.clear(); self.atts.clear();
        for d in self.drvs.values() { clock::slot_free(d.slot) }
        self.handles.clear();
        let t0 = clock::awake_ns();
        for d in self.drvs.values() { while clock::slot_at(d.slot) != At::Ended && clock::awake_ns() - t0 < 200_000_000 { clock::real_sleep_us(100) } }
        self.drvs.clear();
    }
}

impl Session {
    pub fn exec_drv(&mut self, op: &Value) -> Value {
        let id = || op["id"].as_str().unwrap();
        match op["op"].as_str().unwrap() {
            "dnew" => {
                let x = &op["x"];
                let n0 = clock::slots();
                let st = strategy(&x["st"]);
                let m = b(&x["m"]);
                let h = match x["via"].as_str().unwrap() {
                    "new" => TelemetryDriver::new(opt_s(&x["n"]), opt_s(&x["ti"]), opt_s(&x["de"]), st, m),
                    "default" => TelemetryDriver::default(),
                    _ => {
                        let mut bd = match opt_s(&x["n"]) { Some(n) => if x["via"] == "builder2" { DriverBuilder::default().set_name(n) } else { DriverBuilder::new(n) }, None => DriverBuilder::default() };
                        if let Some(t) = opt_s(&x["ti"]) { bd = bd.set_title(t) }
                        if let Some(t) = opt_s(&x["de"]) { bd = bd.set_description(t) }
                        if x["st"]["k"] != "default" { bd = bd.set_processing_strategy(st) }
                        if !m { bd = bd.set_driver_metrics(false) }
                        bd.build()
                    }
                };
                let free = clock::OPEN.load(SeqCst);
                let t0 = clock::awake_ns();
                while !free && clock::slots() == n0 { clock::real_sleep_us(20); if clock::awake_ns() - t0 > PATIENCE_US as i64 * 1000 { hang(&op.to_string()) } }
                if !free && clock::wait_gate(n0, PATIENCE_US).is_none() { hang(&op.to_string()) }
                let res = json!({"own": h.name().map(|x| vec![x]).unwrap_or_default(), "ti": h.title().map(|x| vec![x]).unwrap_or_default(), "de": h.description().map(|x| vec![x]).unwrap_or_default()});
                self.drv.handles.insert(s(&op["h"]), (id().to_string(), h));
                if !free { self.drv.drvs.insert(id().to_string(), Drv { slot: n0, auto: b(&x["auto"]) }); }
                res
            }
            "dclone" => { let (d, h) = { let x = &self.drv.handles[op["h"].as_str().unwrap()]; (x.0.clone(), x.1.clone()) }; self.drv.handles.insert(s(&op["to"]), (d, h)); json!({}) }
            "ddrop" => { self.drv.handles.remove(op["h"].as_str().unwrap()).unwrap(); json!({}) }
            "dstep" => {
                let mut at = At::Running;
                for _ in 0..op["times"].as_u64().unwrap_or(1) { at = self.drv.step(id(), op); }
                self.drv.settle();
                let answers = self.drv.answers();
                let rel = self.drv.released();
                json!({"at": match at { At::Gate(l) => l, At::Ended => "ended".into(), At::Running => "running".into() }, "ans": answers, "rel": rel})
            }
            "dpause" => { self.drv.handles[op["h"].as_str().unwrap()].1.pause(); json!({}) }
            "dresume" => { self.drv.handles[op["h"].as_str().unwrap()].1.resume(); json!({}) }
            "dstrat" => { let st = strategy(&op["st"]); self.drv.handles[op["h"].as_str().unwrap()].1.change_processing_stragtegy(st); json!({}) }
            "dreq" => {
                let h = &self.drv.handles[op["h"].as_str().unwrap()].1;
                let d = b(&op["d"]);
                let t = if b(&op["sync"]) {
                    let h = h.clone();
                    let (tx, rx) = mpsc::channel();
                    let helper = Helper::run(move || { let r = h.snapshot(d); let _ = tx.send(r); drop(h); });
                    helper.settle();
                    Ticket::Sync(helper, rx)
                } else { Ticket::Async(Box::pin(h.snapshot_async(d))) };
                self.drv.tickets.insert(s(&op["t"]), t);
                json!({})
            }
            // the one who asked no longer waits
            "dcancel" => { let t = op["t"].as_str().unwrap(); if let Some(Ticket::Async(_)) = self.drv.tickets.get(t) { self.drv.tickets.remove(t); } json!({}) }
            // free running threads: asks and waits for the answer; waits for the
            // answer to an earlier request; waits until so many probes are gone
            "dask" => out_answer(self.drv.handles[op["h"].as_str().unwrap()].1.snapshot(b(&op["d"]))),
            "dawait" => {
                let t0 = clock::awake_ns();
                let mut f = match self.drv.tickets.remove(op["t"].as_str().unwrap()) { Some(Ticket::Async(f)) => f, _ => panic!("dawait") };
                loop {
                    if let Some(r) = f.as_mut().now_or_never() { break out_answer(r) }
                    clock::real_sleep_us(20);
                    if clock::awake_ns() - t0 > 10_000_000_000 { break json!({"stuck": true}) }
                }
            }
            "dend" => {
                let t0 = clock::awake_ns();
                while (self.drv.rel.lock().unwrap().len() as u64) < op["n"].as_u64().unwrap() && clock::awake_ns() - t0 < 10_000_000_000 { clock::real_sleep_us(20); }
                let n = self.drv.rel.lock().unwrap().len() as u64;
                let rel = self.drv.released();
                json!({"rel": rel, "stuck": n < op["n"].as_u64().unwrap()})
            }
            "drel" => { let rel = self.drv.released(); json!({"rel": rel}) }
            "plog" => json!({"log": Value::Array(self.drv.plogs.get(id()).map(|l| l.lock().unwrap().clone()).unwrap_or_default())}),
            // attach to a driver (h), an attached mount (a) or a mount (id)
            "put" => {
                let what = op["what"].as_str().unwrap();
                let dy = op["dyn"].as_bool().unwrap_or(false);
                macro_rules! proc_into { ($p:expr) => {{ let p = $p;
                    if let Some(h) = op.get("h") { self.drv.handles.get_mut(h.as_str().unwrap()).unwrap().1.add_processor(p) }
                    else if let Some(a) = op.get("a") { let a = self.drv.atts.get_mut(a.as_str().unwrap()).unwrap(); if dy { a.put_processor(p) } else { a.add_processor(p) } }
                    else { match self.objs.get_mut(id()).unwrap() { Obj::Mount(m) => if dy { m.add_processor_dyn(Box::new(p)) } else { m.add_processor(p) }, _ => panic!("put") } } }} }
                macro_rules! snap_into { ($p:expr) => {{ let p = $p;
                    if let Some(h) = op.get("h") { self.drv.handles.get_mut(h.as_str().unwrap()).unwrap().1.add_snapshooter(p) }
                    else if let Some(a) = op.get("a") { let a = self.drv.atts.get_mut(a.as_str().unwrap()).unwrap(); if dy { a.put_snapshooter(p) } else { a.add_snapshooter(p) } }
                    else { match self.objs.get_mut(id()).unwrap() { Obj::Mount(m) => if dy { m.add_snapshooter_dyn(Box::new(p)) } else { m.add_snapshooter(p) }, _ => panic!("put") } } }} }
                match what {
                    "probe" => { let p = self.drv.probe(&op["x"]); proc_into!(p) }
                    "obj" => { let child = self.objs.remove(op["child"].as_str().unwrap()).unwrap(); match child { Obj::Proc(p) => proc_into!(p), Obj::Mount(p) => proc_into!(p), _ => panic!("put obj") } }
                    "drv" => { let h = self.drv.handles.remove(op["child"].as_str().unwrap()).unwrap().1; if op["as"] == "snap" { snap_into!(h) } else { proc_into!(h) } }
                    "snap" => { let x = snapshooter(&op["x"], &mut self.ctx); snap_into!(x) }
                    // an attached mount made of a mount; the handle gets a name
                    "amount" => {
                        let m = match self.objs.remove(op["child"].as_str().unwrap()).unwrap() { Obj::Mount(m) => m, _ => panic!("amount") };
                        let a = if let Some(h) = op.get("h") { self.drv.handles.get_mut(h.as_str().unwrap()).unwrap().1.attached_mount(m) }
                            else if let Some(a) = op.get("a") { let a = self.drv.atts.get_mut(a.as_str().unwrap()).unwrap(); if dy { a.attach_mount::<ProcessorMount>(m) } else { a.attached_mount(m) } }
                            else { match self.objs.get_mut(id()).unwrap() { Obj::Mount(x) => x.attached_mount(m), _ => panic!("put") } };
                        self.drv.atts.insert(s(&op["to"]), a);
                    }
                    k => panic!("put {}", k),
                }
                json!({})
            }
            "aclone" => { let a = self.drv.atts[op["a"].as_str().unwrap()].clone(); self.drv.atts.insert(s(&op["to"]), a); json!({}) }
            "adrop" => { self.drv.atts.remove(op["a"].as_str().unwrap()).unwrap(); json!({}) }
            // a send that may wait for room
            "bsend" => {
                let tx = self.txs[op["tx"].as_str().unwrap()].clone();
                let op2 = op.clone();
                let mut handlers = Ctx::default();
                let helper = if let Some(c) = op.get("c") {
                    let c = c.clone();
                    // components are built here: they belong to this session
                    let pre = if c["k"] == "add_handler" { let h = handler(&c["x"], &mut handlers); Some(h) } else { None };
                    for (k, v) in handlers.logs.drain() { self.ctx.logs.insert(k, v); }
                    for (k, v) in handlers.cells.drain() { self.ctx.cells.insert(k, v); }
                    Helper::run(move || { match pre { Some(h) => { tx.add_handler(h); } None => control(&tx, &c, &mut Ctx::default()) } })
                } else { Helper::run(move || send(&tx, &op2)) };
                helper.settle();
                let done = helper.is_done();
                if !done { self.drv.blocked.insert(s(&op["b"]), helper); }
                json!({"done": done})
            }
            "bstat" => {
                self.drv.settle();
                let mut done = vec![];
                self.drv.blocked.retain(|k, h| if h.is_done() { done.push(k.clone()); false } else { true });
                json!({"done": done})
            }
            k => panic!("unknown op {}", k),
        }
    }
}
