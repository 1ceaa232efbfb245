//! Sequential interpreter: executes operation sequences on the real library
//! and records what every operation returned.
use crate::clock;
use crate::comp::*;
use metrix::cockpit::Cockpit;
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::{find_item, FindDurationItem, FindItem, ItemKind, JsonConfig, Snapshot};
use metrix::*;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub enum Obj { Cockpit(Cockpit<Lbl>), Panel(Panel<Lbl>), H(Dyn), R(Box<dyn Readable>), Proc(TelemetryProcessor<Lbl>), Mount(ProcessorMount) }

pub struct Session { pub ctx: Ctx, pub objs: HashMap<String, Obj>, pub txs: HashMap<String, TelemetryTransmitter<Lbl>>, pub drv: crate::drv::Drivers }
impl Drop for Session { fn drop(&mut self) { self.drv.close() } }

impl Session { pub fn new() -> Self { set_t0(Instant::now()); Session { ctx: Ctx::default(), objs: HashMap::new(), txs: HashMap::new(), drv: Default::default() } } }

pub fn strategy(v: &Value) -> ProcessingStrategy {
    match v["k"].as_str().unwrap() {
        "all" => ProcessingStrategy::ProcessAll,
        "none" => ProcessingStrategy::DropAll,
        "age" => ProcessingStrategy::DropOlderThan { max_age: dur(&v["age"]), drop_deltas: b(&v["dd"]) },
        "default" => ProcessingStrategy::default(),
        k => panic!("strategy {}", k),
    }
}
pub fn out_outcome(o: &ProcessingOutcome) -> Value {
    json!({"p": o.processed, "d": o.dropped, "u": o.instruments_updated, "q": o.observations_enqueued, "happened": o.something_happened()})
}

pub fn processor(d: &Value, ctx: &mut Ctx, txs: &mut HashMap<String, TelemetryTransmitter<Lbl>>) -> TelemetryProcessor<Lbl> {
    let cap = d["cap"].as_array().unwrap().first().map(|c| c.as_u64().unwrap() as usize);
    let name = opt_s(&d["n"]);
    let (tx, mut p) = match (name, cap) {
        (Some(n), None) if bit(d, 0) => { let (tx, mut p) = if bit(d, 1) { TelemetryProcessor::new_pair("first") } else { TelemetryProcessor::new_pair_without_name() }; p.set_name(n); (tx, p) }
        (Some(n), None) => TelemetryProcessor::new_pair(n),
        (Some(n), Some(c)) => TelemetryProcessor::new_pair_bounded(n, c, b(&d["block"])),
        (None, None) => TelemetryProcessor::new_pair_without_name(),
        (None, Some(c)) => TelemetryProcessor::new_pair_bounded_without_name(c, b(&d["block"])),
    };
    if let Some(l) = opt_dur(&d["limit"]) { conf!(p, d, 5, set_inactivity_limit(other(d)), inactivity_limit, l) }
    let show = b(&d["show"]);
    if needed(d, &show, true) { conf!(p, d, 6, set_show_activity_state(!show), show_activity_state, show) }
    for it in d["items"].as_array().unwrap() {
        let x = &it["x"];
        let by_builder = it["b"].as_bool().unwrap_or(false);
        match it["slot"].as_str().unwrap() {
            "cockpit" => { let c = cockpit(x, ctx); if by_builder { p = p.cockpit(c) } else { p.add_cockpit(c) } }
            "handler" => { let h = handler(x, ctx); if by_builder { p = p.handler(h) } else { p.add_handler(h) } }
            "snap" => { let h = snapshooter(x, ctx); if by_builder { p = p.snapshooter(h) } else { p.add_snapshooter(h) } }
            k => panic!("slot {}", k),
        }
    }
    txs.insert(s(&d["tx"]), tx);
    p
}
pub fn mount(d: &Value, ctx: &mut Ctx, txs: &mut HashMap<String, TelemetryTransmitter<Lbl>>) -> ProcessorMount {
    let mut m = match opt_s(&d["n"]) { Some(n) if bit(d, 0) => { let mut m = if bit(d, 1) { ProcessorMount::default() } else { ProcessorMount::new("first") }; m.set_name(n); m } Some(n) => ProcessorMount::new(n), None => ProcessorMount::default() };
    if let Some(l) = opt_dur(&d["limit"]) { if bit(d, 5) { m.set_inactivity_limit(other(d)) } m.set_inactivity_limit(l) }
    for it in d["items"].as_array().unwrap() {
        let x = &it["x"];
        match it["slot"].as_str().unwrap() {
            "proc" => m.add_processor(processor(x, ctx, txs)),
            "mount" => if it["b"].as_bool().unwrap_or(false) { m.add_processor_dyn(Box::new(mount(x, ctx, txs))) } else { m.add_processor(mount(x, ctx, txs)) },
            "snap" => if it["b"].as_bool().unwrap_or(false) { m.add_snapshooter_dyn(Box::new(snapshooter(x, ctx))) } else { m.add_snapshooter(snapshooter(x, ctx)) },
            k => panic!("slot {}", k),
        }
    }
    m
}

/// send an observation through one of the ways the transmitter offers
pub fn send(tx: &TelemetryTransmitter<Lbl>, op: &Value) {
    let o = &op["o"];
    let l = Lbl(o["l"].as_i64().unwrap());
    let k = o["k"].as_str().unwrap();
    match (op["api"].as_str().unwrap_or("transmit"), k) {
        ("transmit", _) => { tx.transmit(obs(o)); }
        ("observed", "n") => { tx.observed(l, w_u64(&o["c"]), at(&o["ts"])); }
        ("observed", "1") => { tx.observed_one(l, at(&o["ts"])); }
        ("observed", "v") => match src(&o["v"]) {
            // the natural typed calls
            Src::I8(x) => { tx.observed_one_value(l, x, at(&o["ts"])); } Src::I16(x) => { tx.observed_one_value(l, x, at(&o["ts"])); }
            Src::I32(x) => { tx.observed_one_value(l, x, at(&o["ts"])); } Src::I64(x) => { tx.observed_one_value(l, x, at(&o["ts"])); }
            Src::U8(x) => { tx.observed_one_value(l, x, at(&o["ts"])); } Src::U16(x) => { tx.observed_one_value(l, x, at(&o["ts"])); }
            Src::U32(x) => { tx.observed_one_value(l, x, at(&o["ts"])); } Src::U64(x) => { tx.observed_one_value(l, x, at(&o["ts"])); }
            Src::Us(x) => { tx.observed_one_value(l, x, at(&o["ts"])); } Src::F(x) => { tx.observed_one_value(l, x, at(&o["ts"])); }
            Src::B(x) => { tx.observed_one_value(l, x, at(&o["ts"])); } Src::D(x) => { tx.observed_duration(l, x, at(&o["ts"])); }
            Src::Tu(x, u) => { tx.observed_one_value(l, (x, u), at(&o["ts"])); } Src::Td(x, u) => { tx.observed_one_value(l, (x, u), at(&o["ts"])); }
            Src::Inc => { tx.observed_one_value(l, Increment, at(&o["ts"])); } Src::Dec => { tx.observed_one_value(l, Decrement, at(&o["ts"])); }
            Src::IncBy(x) => { tx.observed_one_value(l, IncrementBy(x), at(&o["ts"])); } Src::DecBy(x) => { tx.observed_one_value(l, DecrementBy(x), at(&o["ts"])); }
            Src::Chg(x) => { tx.observed_one_value(l, ChangeBy(x), at(&o["ts"])); }
        },
        // the variants that take the current time; "ts" is 0 in the operation
        ("now", "n") => { tx.observed_now(l, w_u64(&o["c"])); }
        ("now", "1") => { tx.observed_one_now(l); }
        ("now", "v") => match src(&o["v"]) { Src::D(x) => { tx.observed_one_duration_now(l, x); } x => { tx.observed_one_value_now(l, x); } },
        ("onow", "n") => { tx.transmit(Observation::observed_now(l, w_u64(&o["c"]))); }
        ("onow", "1") => { tx.transmit(Observation::observed_one_now(l)); }
        ("onow", "v") => { tx.transmit(Observation::observed_one_value_now(l, src(&o["v"]))); }
        x => panic!("api {:?}", x),
    }
}
pub fn control(tx: &TelemetryTransmitter<Lbl>, c: &Value, ctx: &mut Ctx) {
    match c["k"].as_str().unwrap() {
        "add_handler" => { tx.add_handler(handler(&c["x"], ctx)); }
        "add_cockpit" => { tx.add_cockpit(cockpit(&c["x"], ctx)); }
        "remove_cockpit" => { tx.remove_cockpit(s(&c["n"])); }
        "add_panel" => { tx.add_panel_to_cockpit(s(&c["c"]), panel(&c["x"], ctx)); }
        "remove_panel" => { tx.remove_panel_from_cockpit(s(&c["c"]), s(&c["n"])); }
        k => panic!("control {}", k),
    }
}
pub fn queue_info(tx: &TelemetryTransmitter<Lbl>) -> Value {
    json!({"size": tx.queue_size(), "full": tx.is_queue_full(), "empty": tx.is_queue_empty(), "cap": match tx.queue_capacity() { Some(c) => json!([c]), None => json!([]) }})
}
fn out_found(f: &FindItem) -> Value {
    let d = |x: FindDurationItem| match x {
        FindDurationItem::NotFound => json!({"r": "nf"}), FindDurationItem::NotADuration => json!({"r": "nd"}),
        FindDurationItem::Duration(d) => json!({"r": "d", "secs": out_w(d.as_secs()), "nanos": d.subsec_nanos()}),
    };
    let opt_agrees = |x: FindDurationItem| match x { FindDurationItem::Duration(d) => x.opt() == Some(d), _ => x.opt().is_none() };
    let disp_agrees = |x: FindDurationItem| { let t = x.to_string(); match x { FindDurationItem::Duration(d) => t == format!("{:?}", d), FindDurationItem::NotFound => t.contains("not found"), FindDurationItem::NotADuration => t.contains("not a duration") } };
    json!({"found": match f { FindItem::Found(v) => json!([out_item(v)]), FindItem::NotFound => json!([]) },
           "opt": match f.opt() { Some(v) => json!([out_item(v)]), None => json!([]) },
           "disp": f.to_string(),
           "ns": d(f.to_duration_nanoseconds()), "us": d(f.to_duration_microseconds()), "ms": d(f.to_duration_milliseconds()), "s": d(f.to_duration_seconds()),
           "optok": disp_agrees(f.to_duration_nanoseconds()) && opt_agrees(f.to_duration_nanoseconds()) && opt_agrees(f.to_duration_seconds())})
}

impl Session {
    fn snap(&self, id: &str, d: bool) -> Snapshot {
        let mut sn = Snapshot::default();
        let _stepping = self.drv.stepping();
        match &self.objs[id] { Obj::Cockpit(x) => x.put_snapshot(&mut sn, d), Obj::Panel(x) => x.put_snapshot(&mut sn, d), Obj::H(x) => x.put_snapshot(&mut sn, d), Obj::R(x) => x.put_snapshot(&mut sn, d), Obj::Proc(x) => x.put_snapshot(&mut sn, d), Obj::Mount(x) => x.put_snapshot(&mut sn, d) }
        sn
    }
    pub fn exec(&mut self, op: &Value) -> Value {
        let id = || op["id"].as_str().unwrap();
        if op["echo"].as_bool().unwrap_or(false) { self.ctx.txs = self.txs.clone(); } else { self.ctx.txs.clear(); }
        match op["op"].as_str().unwrap() {
            "adv" => { clock::advance_ns(op["ms"].as_i64().unwrap() * 1_000_000); json!({}) }
            // advance by ms in total, but as the clock is read (one ms per read) by the next operation
            "step" => { clock::set_step_ns(op["us"].as_i64().unwrap() * 1_000); json!({}) }
            "new" => {
                let d = &op["x"];
                let o = match d["k"].as_str().unwrap() {
                    "cockpit" => Obj::Cockpit(cockpit(d, &mut self.ctx)),
                    "panel" => Obj::Panel(panel(d, &mut self.ctx)),
                    "proc" => Obj::Proc(processor(d, &mut self.ctx, &mut self.txs)),
                    "mount" => Obj::Mount(mount(d, &mut self.ctx, &mut self.txs)),
                    "adp" | "gadp" => Obj::R(adapted(d)),
                    _ => Obj::H(handler(d, &mut self.ctx)),
                };
                self.objs.insert(id().to_string(), o);
                json!({})
            }
            "obs" => {
                let o = obs(&op["o"]);
                let n = match self.objs.get_mut(id()).unwrap() { Obj::Cockpit(x) => x.handle_observation(&o), Obj::Panel(x) => x.handle_observation(&o), Obj::H(x) => x.handle_observation(&o), Obj::R(x) => x.handle_observation(&o), _ => panic!("not a handler") };
                json!({"n": n})
            }
            "snap" => { let sn = self.snap(id(), b(&op["d"])); json!({"s": out_snapshot(&sn)}) }
            "send" => { send(&self.txs[op["tx"].as_str().unwrap()], op); json!({}) }
            "burst" => {
                let tx = &self.txs[op["tx"].as_str().unwrap()];
                let l = Lbl(op["l"].as_i64().unwrap());
                for j in 1..=op["n"].as_u64().unwrap() { tx.observed(l.clone(), j, at(&json!(0))); }
                json!({})
            }
            "measure" => {
                let from = at(&op["from"]);
                self.txs[op["tx"].as_str().unwrap()].measure_time(Lbl(op["l"].as_i64().unwrap()), from);
                json!({})
            }
            "ctl" => { control(&self.txs[op["tx"].as_str().unwrap()], &op["c"], &mut self.ctx); json!({}) }
            "clone" => { let t = self.txs[op["tx"].as_str().unwrap()].clone(); self.txs.insert(s(&op["to"]), t); json!({}) }
            "droptx" => { self.txs.remove(op["tx"].as_str().unwrap()).unwrap(); json!({}) }
            "qs" => { let t = &self.txs[op["tx"].as_str().unwrap()]; match op["what"].as_str().unwrap() { "size" => json!({"size": t.queue_size()}), "full" => json!({"b": t.is_queue_full()}), _ => json!({"b": t.is_queue_empty()}) } }
            "q" => queue_info(&self.txs[op["tx"].as_str().unwrap()]),
            "process" => {
                let max = { let w = w_str(&op["max"]); w.parse::<u64>().unwrap() as usize };
                let st = strategy(&op["st"]);
                let out = match self.objs.get_mut(id()).unwrap() { Obj::Proc(x) => x.process(max, st), Obj::Mount(x) => x.process(max, st), _ => panic!("not a processor") };
                out_outcome(&out)
            }
            "direct" => {
                let c = &op["c"];
                let x = &c["x"];
                match (self.objs.get_mut(id()).unwrap(), c["k"].as_str().unwrap()) {
                    // on a panel of a cockpit
                    (Obj::Cockpit(p), "nth") => {
                        let (j, x, n) = (c["j"].as_u64().unwrap() as usize, &c["c"]["x"], &c["c"]["n"]);
                        let mut ps = p.get_panels_mut();
                        if j <= ps.len() {
                            let p = &mut *ps[j - 1];
                            match c["c"]["k"].as_str().unwrap() {
                                "add_panel" => { let k = panel(x, &mut self.ctx); p.add_panel(k) }
                                "add_handler" => { let k = handler(x, &mut self.ctx); p.add_handler(k) }
                                "add_snap" => { let k = snapshooter(x, &mut self.ctx); p.add_snapshooter(k) }
                                _ => p.set_name(s(n)),
                            }
                        }
                    }
                    (Obj::Proc(p), "add_cockpit") => { let k = cockpit(x, &mut self.ctx); p.add_cockpit(k) }
                    (Obj::Proc(p), "add_handler") => { let k = handler(x, &mut self.ctx); p.add_handler(k) }
                    (Obj::Proc(p), "add_snap") => { let k = snapshooter(x, &mut self.ctx); p.add_snapshooter(k) }
                    (Obj::Proc(p), "set_name") => p.set_name(s(&c["n"])),
                    (Obj::Cockpit(p), "add_panel") => { let k = panel(x, &mut self.ctx); p.add_panel(k) }
                    (Obj::Cockpit(p), "remove_panel") => p.remove_panel(s(&c["n"])),
                    (Obj::Cockpit(p), "add_handler") => { let k = handler(x, &mut self.ctx); p.add_handler(k) }
                    (Obj::Cockpit(p), "add_snap") => { let k = snapshooter(x, &mut self.ctx); p.add_snapshooter(k) }
                    (Obj::Cockpit(p), "set_name") => p.set_name(s(&c["n"])),
                    (Obj::Panel(p), "add_panel") => { let k = panel(x, &mut self.ctx); p.add_panel(k) }
                    (Obj::Panel(p), "add_handler") => { let k = handler(x, &mut self.ctx); p.add_handler(k) }
                    (Obj::Panel(p), "add_snap") => { let k = snapshooter(x, &mut self.ctx); p.add_snapshooter(k) }
                    (Obj::Panel(p), "set_name") => p.set_name(s(&c["n"])),
                    (Obj::Mount(p), "add_snap") => { let k = snapshooter(x, &mut self.ctx); p.add_snapshooter(k) }
                    (Obj::Mount(p), "set_name") => p.set_name(s(&c["n"])),
                    (_, k) => panic!("direct {}", k),
                }
                json!({})
            }
            // move a processor or mount into a mount
            "attach" => {
                let child = self.objs.remove(op["child"].as_str().unwrap()).unwrap();
                match (self.objs.get_mut(id()).unwrap(), child) {
                    (Obj::Mount(m), Obj::Proc(p)) => m.add_processor(p),
                    (Obj::Mount(m), Obj::Mount(p)) => m.add_processor(p),
                    _ => panic!("attach"),
                }
                json!({})
            }
            "drop" => { self.objs.remove(id()).unwrap(); json!({}) }
            // what the getters tell
            "read" => json!({"r": match &self.objs[id()] { Obj::R(x) => x.read(), _ => panic!("read") }}),
            "gset" => { match self.objs.get_mut(id()).unwrap() { Obj::R(x) => x.set(src(&op["v"]).into()), _ => panic!("gset") } json!({}) }
            "log" => json!({"log": Value::Array(self.ctx.logs.get(id()).map(|l| l.lock().unwrap().clone()).unwrap_or_default())}),
            "cell" => { *self.ctx.cells[id()].lock().unwrap() = op["items"].clone(); json!({}) }
            "accepts" => json!({"a": match &self.objs[id()] { Obj::Panel(p) => p.accepts_label(&Lbl(op["l"].as_i64().unwrap())), _ => panic!("accepts") }}),
            "filter" => { let f = filter(&op["f"]); json!({"a": op["ls"].as_array().unwrap().iter().map(|l| f.accepts(&Lbl(l.as_i64().unwrap()))).collect::<Vec<_>>()}) }
            "names" => match &self.objs[id()] {
                Obj::Proc(p) => json!({"own": p.get_name().map(|x| vec![x]).unwrap_or_default(), "kids": p.get_cockpits().iter().map(|c| c.get_name().map(|x| vec![x]).unwrap_or_default()).collect::<Vec<_>>(), "nh": p.get_handlers().len(), "ns": p.get_snapshooters().len()}),
                Obj::Cockpit(p) => json!({"own": p.get_name().map(|x| vec![x]).unwrap_or_default(), "kids": p.get_panels().iter().map(|c| c.name().map(|x| vec![x]).unwrap_or_default()).collect::<Vec<_>>(), "nh": p.get_handlers().len(), "ns": p.get_snapshooters().len()}),
                Obj::Mount(p) => json!({"own": p.name().map(|x| vec![x]).unwrap_or_default(), "kids": [], "nh": p.processors().len(), "ns": p.snapshooters().len()}),
                _ => panic!("names"),
            },
            "conv" => {
                let v: ObservedValue = src(&op["v"]).into();
                let i = v.convert_to_i64(); let u = v.convert_to_u64(); let bo = v.convert_to_bool(); let k = v.to_item_kind();
                let k2: Option<metrix::snapshot::ItemKind> = v.into();
                json!({"v": out_value(&v), "i": i.map(|x| vec![out_w(x)]).unwrap_or_default(), "u": u.map(|x| vec![out_w(x)]).unwrap_or_default(), "b": bo.map(|x| vec![x]).unwrap_or_default(),
                       "k": k.map(|x| vec![out_item(&x)]).unwrap_or_default(), "k2": k2.map(|x| vec![out_item(&x)]).unwrap_or_default(), "delta": v.is_delta()})
            }
            "find" => {
                let sn = match op.get("id") { Some(_) => self.snap(id(), b(&op["d"])), None => in_snapshot(&op["sn"]) };
                let path = s(&op["path"]);
                let sep = s(&op["sep"]).chars().next().unwrap();
                let r = if sep == '/' { sn.find(&path) } else { sn.find_with_separator(&path, sep) };
                let mut o = out_found(&r);
                // the same by segments; a path without any leads to the item itself
                let segs: Vec<String> = path.split(sep).map(String::from).collect();
                let root = ItemKind::Snapshot(sn.clone());
                let same = |a: &FindItem, b: &FindItem| match (a, b) { (FindItem::Found(x), FindItem::Found(y)) => out_item(x) == out_item(y), (FindItem::NotFound, FindItem::NotFound) => true, _ => false };
                let refs = segs.iter().map(|x| x.as_str()).collect::<Vec<_>>();
                let found = FindItem::Found(&root);
                let expected = if segs.iter().any(|x| !x.is_empty()) { &r } else { &found };
                if !same(&find_item(&root, &segs), expected) || !same(&find_item(&root, &refs), expected) { o["found"] = json!("find_item disagrees") }
                if let Some(p2) = op["then"].as_array().and_then(|a| a.first()) {
                    let r2 = if sep == '/' { r.find(p2.as_str().unwrap()) } else { r.find_with_separator(p2.as_str().unwrap(), sep) };
                    o["then"] = json!([out_found(&r2)]);
                } else { o["then"] = json!([]); }
                o
            }
            "json" => {
                let sn = in_snapshot(&op["sn"]);
                let pretty = op["pretty"].as_array().unwrap().first().map(|x| x.as_u64().unwrap() as u16);
                let txt = if b(&op["dflt"]) { sn.to_default_json() } else { sn.to_json(&JsonConfig { make_booleans_ints: b(&op["bi"]), pretty }) };
                json!({"json_text": txt})
            }
            _ => self.exec_drv(op),
        }
    }
}

/// Runs one op with panics of the library caught. `timeout` guards against hangs.
pub fn run(lines: impl Iterator<Item = String>, out: &mut dyn std::io::Write) {
    clock::mark_harness_thread();
    clock::start_virtual();
    std::panic::set_hook(Box::new(|_| {}));
    let mut sess = Session::new();
    let mut dead = true;
    let mut n = 0usize;
    let beat = std::sync::Arc::new(std::sync::Mutex::new((0i64, String::new())));
    watchdog(beat.clone());
    for line in lines {
        if line.trim().is_empty() { continue }
        let op: Value = serde_json::from_str(&line).unwrap_or_else(|e| { eprintln!("bad op {}: {}", e, line); std::process::exit(3) });
        n += 1;
        let mut ev = Map::new();
        if op["op"] == "reset" {
            clock::set_step_ns(0);
            let old = std::mem::replace(&mut sess, Session::new());
            let _ = catch_unwind(AssertUnwindSafe(move || drop(old)));
            dead = false;
            ev.insert("op".into(), op);
            ev.insert("res".into(), json!({"ok": true}));
        } else if dead { continue } else {
            *beat.lock().unwrap() = (clock::awake_ns().max(1), line.clone());
            let r = catch_unwind(AssertUnwindSafe(|| {
                let r = sess.exec(&op);
                if sess.drv.active() { sess.drv.settle(); sess.drv.rest(&op); sess.drv.settle(); }
                r
            }));
            *beat.lock().unwrap() = (0, String::new());
            let res = match r {
                Ok(mut v) => { v["ok"] = json!(true); v }
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    dead = true;
                    json!({"ok": false, "panic": m})
                }
            };
            ev.insert("op".into(), op);
            ev.insert("res".into(), res);
        }
        writeln!(out, "{}", Value::Object(ev)).unwrap();
    }
    eprintln!("executed {} ops", n);
}
/// a call that does not return within 20 s of real time is a result, too: "hang"
fn watchdog(beat: std::sync::Arc<std::sync::Mutex<(i64, String)>>) {
    std::thread::spawn(move || { clock::mark_harness_thread(); loop {
        clock::real_sleep_us(200_000);
        let (t, l) = beat.lock().unwrap().clone();
        if t != 0 && clock::awake_ns() - t > 20_000_000_000 { eprintln!("HANG {}", l); std::process::exit(42) }
    }});
}
#[allow(dead_code)]
pub fn unused(_: Duration) {}
