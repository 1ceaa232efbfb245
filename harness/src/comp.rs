//! Builds components of the library from JSON definitions.
use metrix::cockpit::Cockpit;
use metrix::instruments::other_instruments::*;
use metrix::instruments::polled::*;
use metrix::instruments::switches::*;
use metrix::instruments::*;
use metrix::snapshot::{ItemKind, Snapshot};
use metrix::*;
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Lbl(pub i64);

pub type Log = Arc<Mutex<Vec<Value>>>;

pub fn opt_s(v: &Value) -> Option<String> { v.as_array().and_then(|a| a.first()).map(|x| x.as_str().unwrap().to_string()) }
pub fn w_str(v: &Value) -> &str { v["w"].as_str().unwrap_or_else(|| panic!("wide expected: {}", v)) }
pub fn w_u64(v: &Value) -> u64 { w_str(v).parse().unwrap() }
pub fn w_i64(v: &Value) -> i64 { w_str(v).parse().unwrap() }
pub fn fbits(v: &Value) -> f64 { f64::from_bits(u64::from_str_radix(v["fb"].as_str().unwrap(), 16).unwrap()) }
pub fn out_f(f: f64) -> Value { json!({"fb": format!("{:016x}", f.to_bits())}) }
pub fn out_w<T: std::fmt::Display>(x: T) -> Value { json!({"w": x.to_string()}) }
/// milliseconds, -1 stands for the largest representable duration
pub fn dur(v: &Value) -> Duration { let n = v.as_i64().unwrap(); if n < 0 { Duration::MAX } else { Duration::from_millis(n as u64) } }
pub fn opt_dur(v: &Value) -> Option<Duration> { v.as_array().and_then(|a| a.first()).map(dur) }
pub fn b(v: &Value) -> bool { v.as_bool().unwrap_or_else(|| panic!("bool expected: {}", v)) }
pub fn s(v: &Value) -> String { v.as_str().unwrap_or_else(|| panic!("string expected: {}", v)).to_string() }
pub fn unit(v: &Value) -> TimeUnit {
    match v.as_str().unwrap() { "ns" => TimeUnit::Nanoseconds, "us" => TimeUnit::Microseconds, "ms" => TimeUnit::Milliseconds, "s" => TimeUnit::Seconds, x => panic!("unit {}", x) }
}
pub fn unit_s(u: TimeUnit) -> &'static str { match u { TimeUnit::Nanoseconds => "ns", TimeUnit::Microseconds => "us", TimeUnit::Milliseconds => "ms", TimeUnit::Seconds => "s" } }
pub fn big_dur(v: &Value) -> Duration { Duration::new(w_u64(&v["secs"]), v["nanos"].as_u64().unwrap() as u32) }

/// A source value as an application passes it to the library.
#[derive(Clone, Debug)]
pub enum Src { I8(i8), I16(i16), I32(i32), I64(i64), U8(u8), U16(u16), U32(u32), U64(u64), Us(usize), F(f64), B(bool), D(Duration), Tu(u64, TimeUnit), Td(Duration, TimeUnit), Inc, Dec, IncBy(u32), DecBy(u32), Chg(i64) }
pub fn src(v: &Value) -> Src {
    let x = &v["x"];
    match v["vt"].as_str().unwrap() {
        "i8" => Src::I8(w_i64(x) as i8), "i16" => Src::I16(w_i64(x) as i16), "i32" => Src::I32(w_i64(x) as i32), "i64" => Src::I64(w_i64(x)),
        "u8" => Src::U8(w_u64(x) as u8), "u16" => Src::U16(w_u64(x) as u16), "u32" => Src::U32(w_u64(x) as u32), "u64" => Src::U64(w_u64(x)), "us" => Src::Us(w_u64(x) as usize),
        "f" => Src::F(fbits(x)), "b" => Src::B(b(x)),
        "d" => Src::D(big_dur(x)), "tu" => Src::Tu(w_u64(x), unit(&v["u"])), "td" => Src::Td(big_dur(x), unit(&v["u"])),
        "inc" => Src::Inc, "dec" => Src::Dec, "incby" => Src::IncBy(w_u64(x) as u32), "decby" => Src::DecBy(w_u64(x) as u32), "chg" => Src::Chg(w_i64(x)),
        t => panic!("src {}", t),
    }
}
impl From<Src> for ObservedValue {
    fn from(v: Src) -> Self {
        match v {
            Src::I8(x) => x.into(), Src::I16(x) => x.into(), Src::I32(x) => x.into(), Src::I64(x) => x.into(),
            Src::U8(x) => x.into(), Src::U16(x) => x.into(), Src::U32(x) => x.into(), Src::U64(x) => x.into(), Src::Us(x) => x.into(),
            Src::F(x) => x.into(), Src::B(x) => x.into(), Src::D(x) => x.into(), Src::Tu(x, u) => (x, u).into(), Src::Td(x, u) => (x, u).into(),
            Src::Inc => Increment.into(), Src::Dec => Decrement.into(), Src::IncBy(n) => IncrementBy(n).into(), Src::DecBy(n) => DecrementBy(n).into(), Src::Chg(n) => ChangeBy(n).into(),
        }
    }
}
pub fn out_value(v: &ObservedValue) -> Value {
    match *v {
        ObservedValue::SignedInteger(x) => json!({"t": "i", "x": out_w(x)}),
        ObservedValue::UnsignedInteger(x) => json!({"t": "u", "x": out_w(x)}),
        ObservedValue::Float(x) => json!({"t": "f", "x": out_f(x)}),
        ObservedValue::Bool(x) => json!({"t": "b", "x": x}),
        ObservedValue::Duration(x, u) => json!({"t": "d", "x": out_w(x), "u": unit_s(u)}),
        ObservedValue::ChangedBy(x) => json!({"t": "c", "x": out_w(x)}),
    }
}
pub fn out_item(v: &ItemKind) -> Value {
    match v {
        ItemKind::Text(x) => json!({"t": "s", "x": x}),
        ItemKind::Boolean(x) => json!({"t": "b", "x": x}),
        ItemKind::Float(x) => json!({"t": "f", "x": out_f(*x)}),
        ItemKind::UInt(x) => json!({"t": "u", "x": out_w(*x)}),
        ItemKind::Int(x) => json!({"t": "i", "x": out_w(*x)}),
        ItemKind::Snapshot(x) => json!({"t": "g", "x": out_snapshot(x)}),
    }
}
pub fn out_snapshot(x: &Snapshot) -> Value { Value::Array(x.items.iter().map(|(n, v)| json!({"n": n, "v": out_item(v)})).collect()) }
pub fn in_item(v: &Value) -> ItemKind {
    let x = &v["x"];
    match v["t"].as_str().unwrap() {
        // the conversions from whatever type the value fits
        "s" => { let t = s(x); if t.len() % 3 == 0 { t.as_str().into() } else if t.len() % 3 == 1 { t.into() } else { ItemKind::Text(t) } }
        "b" => b(x).into(),
        "f" => { let f = fbits(x); if f.is_finite() && f == (f as f32) as f64 && f.fract() == 0.0 { (f as f32).into() } else if f.is_nan() { ItemKind::Float(f) } else { f.into() } }
        "u" => { let n = w_u64(x); match n % 6 { 0 if n <= u32::MAX as u64 => (n as u32).into(), 1 if n <= u16::MAX as u64 => (n as u16).into(), 2 if n <= u8::MAX as u64 => (n as u8).into(), 3 => (n as usize).into(), 4 => ItemKind::UInt(n), _ => n.into() } }
        "i" => { let n = w_i64(x); match n.rem_euclid(6) { 0 if n as i32 as i64 == n => (n as i32).into(), 1 if n as i16 as i64 == n => (n as i16).into(), 2 if n as i8 as i64 == n => (n as i8).into(), 3 => (n as isize).into(), 4 => ItemKind::Int(n), _ => n.into() } }
        "g" => in_snapshot(x).into(), t => panic!("item {}", t),
    }
}
pub fn in_snapshot(v: &Value) -> Snapshot { Snapshot { items: v.as_array().unwrap().iter().map(|e| (s(&e["n"]), in_item(&e["v"]))).collect() } }

thread_local! { static T0: std::cell::Cell<Option<Instant>> = const { std::cell::Cell::new(None) }; }
pub fn set_t0(t: Instant) { T0.with(|c| c.set(Some(t))) }
pub fn t0() -> Instant { T0.with(|c| c.get().unwrap()) }
pub fn rel_ms(t: Instant, zero: Instant) -> i64 {
    if t >= zero { t.duration_since(zero).as_millis() as i64 } else { -(zero.duration_since(t).as_millis() as i64) }
}
pub fn out_obs(o: &Observation<Lbl>, zero: Instant) -> Value {
    match o {
        Observation::Observed { label, count, timestamp } => json!({"k": "n", "l": label.0, "c": out_w(*count), "ts": rel_ms(*timestamp, zero)}),
        Observation::ObservedOne { label, timestamp } => json!({"k": "1", "l": label.0, "ts": rel_ms(*timestamp, zero)}),
        Observation::ObservedOneValue { label, value, timestamp } => json!({"k": "v", "l": label.0, "v": out_value(value), "ts": rel_ms(*timestamp, zero)}),
    }
}
/// the parts of an observation, owned and borrowed, and what it tells about itself
fn splits(o: &Observation<Lbl>) -> bool {
    let twin = match o {
        Observation::Observed { label, count, timestamp } => Observation::Observed { label: label.clone(), count: *count, timestamp: *timestamp },
        Observation::ObservedOne { label, timestamp } => Observation::ObservedOne { label: label.clone(), timestamp: *timestamp },
        Observation::ObservedOneValue { label, value, timestamp } => Observation::ObservedOneValue { label: label.clone(), value: *value, timestamp: *timestamp },
    };
    let LabelAndUpdate(l, u) = twin.into();
    let BorrowedLabelAndUpdate(bl, bu) = o.into();
    let same = |u: &Update| match (o, u) {
        (Observation::Observed { count, timestamp, .. }, Update::Observations(c, t)) => c == count && t == timestamp,
        (Observation::ObservedOne { timestamp, .. }, Update::Observation(t)) => t == timestamp,
        (Observation::ObservedOneValue { value, timestamp, .. }, Update::ObservationWithValue(v, t)) => out_value(v) == out_value(value) && t == timestamp,
        _ => false,
    };
    l == *o.label() && *bl == l && same(&u) && same(&bu)
}
pub fn at(v: &Value) -> Instant {
    let off = v.as_i64().unwrap();
    let now = Instant::now();
    if off >= 0 { now + Duration::from_millis(off as u64) } else { now - Duration::from_millis((-off) as u64) }
}
pub fn obs(v: &Value) -> Observation<Lbl> {
    let l = Lbl(v["l"].as_i64().unwrap());
    let ts = at(&v["ts"]);
    match v["k"].as_str().unwrap() {
        "n" => Observation::observed(l, w_u64(&v["c"]), ts),
        "1" => Observation::observed_one(l, ts),
        "v" => Observation::observed_one_value(l, src(&v["v"]), ts),
        k => panic!("obs {}", k),
    }
}

// ---- filters -------------------------------------------------------------
fn ls(f: &Value) -> Vec<i64> { f["ls"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect() }
fn pred_of(f: &Value) -> impl Fn(&Lbl) -> bool + Send + 'static {
    let m = f["m"].as_i64().unwrap();
    let r = f["r"].as_i64().unwrap();
    move |l: &Lbl| l.0.rem_euclid(m) == r
}
pub fn filter(f: &Value) -> LabelFilter<Lbl> {
    let via = f["via"].as_str().unwrap();
    let l = |i: usize| Lbl(ls(f)[i]);
    let mut flt: LabelFilter<Lbl> = match (f["k"].as_str().unwrap(), via) {
        ("all", "conv") => AcceptAllLabels.into(),
        ("all", "default") => LabelFilter::default(),
        ("all", _) => LabelFilter::accept_all(),
        ("none", "conv") => AcceptNoLabel.into(),
        ("none", "vec") => LabelFilter::from(Vec::<Lbl>::new()),
        ("none", _) => LabelFilter::accept_none(),
        ("pred", "LP") => LP(pred_of(f)).into(),
        ("pred", "predicate") => LabelFilter::predicate(pred_of(f)),
        ("pred", _) => LabelPredicate(pred_of(f)).into(),
        ("labels", "new") => LabelFilter::new(l(0)),
        ("labels", "L") => metrix::instruments::L(l(0)).into(),
        ("labels", "one") => AcceptOneLabel(l(0)).into(),
        ("labels", "raw") => l(0).into(),
        ("labels", "t2") => (l(0), l(1)).into(),
        ("labels", "t3") => (l(0), l(1), l(2)).into(),
        ("labels", "t4") => (l(0), l(1), l(2), l(3)).into(),
        ("labels", "t5") => (l(0), l(1), l(2), l(3), l(4)).into(),
        ("labels", "another") => { let mut x = LabelFilter::accept_none(); for y in ls(f) { x.accept_another(Lbl(y)) } x }
        ("labels", _) => ls(f).into_iter().map(Lbl).collect::<Vec<_>>().into(),
        x => panic!("filter {:?}", x),
    };
    for a in f["add"].as_array().unwrap() { flt.accept_another(Lbl(a.as_i64().unwrap())) }
    flt
}

// ---- modifiers -------------------------------------------------------------
fn modifier(m: &Value) -> Option<Box<dyn Fn(&Lbl, Update) -> Update + Send + 'static>> {
    fn ts(u: &Update) -> Instant { match u { Update::Observations(_, t) => *t, Update::Observation(t) => *t, Update::ObservationWithValue(_, t) => *t } }
    let m = m.clone();
    match m["k"].as_str().unwrap() {
        "keep" => None,
        "one" => Some(Box::new(move |_, u| Update::Observation(ts(&u)))),
        "cnt" => { let n = w_u64(&m["c"]); Some(Box::new(move |_, u| Update::Observations(n, ts(&u)))) }
        "val" => { let v = src(&m["v"]); Some(Box::new(move |_, u| Update::ObservationWithValue(v.clone().into(), ts(&u)))) }
        "lbl" => Some(Box::new(move |l, u| Update::ObservationWithValue(ObservedValue::SignedInteger(l.0), ts(&u)))),
        "iflbl" => { let v = src(&m["v"]); let w = m["l"].as_i64().unwrap(); Some(Box::new(move |l, u| if l.0 == w { Update::ObservationWithValue(v.clone().into(), ts(&u)) } else { u })) }
        k => panic!("modifier {}", k),
    }
}
macro_rules! adapter {
    ($i:expr, $f:expr, $m:expr) => {{
        let i = $i;
        let f: &Value = $f;
        let l0 = || Lbl(ls(f)[0]);
        let lv = || ls(f).into_iter().map(Lbl).collect::<Vec<_>>();
        let plain = f["add"].as_array().unwrap().is_empty();
        let a: InstrumentAdapter<Lbl, _> = match (f["k"].as_str().unwrap(), f["how"].as_str().unwrap()) {
            ("all", "new") if plain => InstrumentAdapter::new(i),
            ("all", "for") if plain => i.for_all_labels(),
            ("all", "swap") if plain => InstrumentAdapter::deaf(i).accept_all_labels(),
            ("none", "new") if plain => InstrumentAdapter::deaf(i),
            ("none", "for") if plain => i.adapter(),
            ("none", "swap") if plain => InstrumentAdapter::new(i).accept_no_labels(),
            ("labels", "for") if plain && ls(f).len() == 1 => i.for_label(l0()),
            ("labels", "for") if plain => i.for_labels(lv()),
            ("labels", "new") if plain && ls(f).len() == 1 => InstrumentAdapter::for_label(l0(), i),
            ("labels", "new") if plain => InstrumentAdapter::for_labels(lv(), i),
            ("pred", "for") if plain => i.for_labels_by_predicate(pred_of(f)),
            ("pred", "new") if plain => InstrumentAdapter::by_predicate(pred_of(f), i),
            (_, "acc") => i.accept(filter(f)),
            _ => InstrumentAdapter::accept(filter(f), i),
        };
        match modifier($m) { Some(g) => a.modify_with(g), None => a }
    }};
}

// ---- instruments -------------------------------------------------------------
/// which of the equivalent ways of configuring a component is used
pub fn bit(d: &Value, i: u32) -> bool { d["vy"].as_u64().unwrap_or(0) >> i & 1 == 1 }
/// what a duration was before: longer or shorter than any of those used
pub fn other(d: &Value) -> Duration { if bit(d, 12) { Duration::from_millis(1) } else { Duration::from_secs(77) } }
/// by a setter or by a builder method, possibly after it had another value
macro_rules! conf {
    ($x:ident, $d:expr, $b:expr, $set:ident($other:expr), $build:ident, $v:expr) => {{
        if bit($d, $b) && bit($d, 10) { $x.$set($other) }
        let v = $v;
        if bit($d, $b) != bit($d, 11) { $x.$set(v) } else { $x = $x.$build(v) }
    }};
}
macro_rules! named {
    ($t:ident, $d:expr) => {{
        let n = s(&$d["n"]);
        let mut x = match (bit($d, 0), bit($d, 1)) { (false, false) => $t::new(n), (true, false) => { let mut x = $t::new("first"); x.set_name(n); x } (false, true) => $t::new("first").name(n), (true, true) => $t::new_with_defaults(n) };
        if let Some(t) = opt_s(&$d["ti"]) { conf!(x, $d, 2, set_title("another"), title, t) }
        if let Some(t) = opt_s(&$d["de"]) { conf!(x, $d, 3, set_description("another"), description, t) }
        x
    }};
}
/// settings that are the default anyway are left out
pub fn needed<T: PartialEq>(d: &Value, v: &T, default: T) -> bool { *v != default || bit(d, 4) }
macro_rules! descr { ($x:expr, $d:expr) => {{ if let Some(t) = opt_s(&$d["ti"]) { $x.set_title(t) } if let Some(t) = opt_s(&$d["de"]) { $x.set_description(t) } }}; }
pub fn counter(d: &Value) -> Counter {
    let mut x = named!(Counter, d);
    for n in d["pre"].as_array().into_iter().flatten() { if w_u64(n) == 1 && bit(d, 5) { x.inc() } else { x.inc_by(w_u64(n)) } }
    x
}
pub fn gauge(d: &Value) -> Gauge {
    let mut x = named!(Gauge, d);
    let (u, g, t) = (unit(&d["unit"]), b(&d["group"]), d["track"].as_u64().unwrap() as usize);
    if needed(d, &unit_s(u), "us") { conf!(x, d, 5, set_display_time_unit(TimeUnit::Seconds), display_time_unit, u) }
    if needed(d, &g, false) { x = x.group_values(g) }
    if t != 0 { conf!(x, d, 6, set_tracking(9), tracking, t) }
    if let Some(v) = d["init"].as_array().unwrap().first() { x = x.value(w_i64(v)) }
    x
}
macro_rules! rates {
    ($x:ident, $d:expr) => {{
        let (a, e, f) = (b(&$d["r1"]), b(&$d["r5"]), b(&$d["r15"]));
        if needed($d, &a, true) { conf!($x, $d, 5, set_one_minute_rate_enabled(!a), one_minute_rate_enabled, a) }
        if needed($d, &e, false) { conf!($x, $d, 6, set_five_minute_rate_enabled(!e), five_minute_rate_enabled, e) }
        if needed($d, &f, false) { conf!($x, $d, 7, set_fifteen_minute_rate_enabled(!f), fifteen_minute_rate_enabled, f) }
        if let Some(c) = opt_s(&$d["cut"]) { let c: f64 = c.parse().unwrap(); conf!($x, $d, 8, set_lower_cutoff(7.0), lower_cutoff, c) }
    }};
}
pub fn meter(d: &Value) -> Meter { let mut x = named!(Meter, d); rates!(x, d); x }
pub fn vmeter(d: &Value) -> ValueMeter {
    let mut x = named!(ValueMeter, d); rates!(x, d);
    let u = unit(&d["unit"]);
    if needed(d, &unit_s(u), "us") { conf!(x, d, 9, set_display_time_unit(TimeUnit::Seconds), display_time_unit, u) }
    x
}
pub fn histo(d: &Value) -> Histogram {
    let mut x = named!(Histogram, d);
    let (u, show, reset) = (unit(&d["unit"]), b(&d["show"]), b(&d["reset"]));
    if needed(d, &unit_s(u), "us") { conf!(x, d, 5, set_display_time_unit(TimeUnit::Seconds), display_time_unit, u) }
    if needed(d, &show, true) { conf!(x, d, 6, set_show_activity_state(!show), show_activity_state, show) }
    if needed(d, &reset, true) { conf!(x, d, 7, set_reset_after_inactivity(!reset), reset_after_inactivity, reset) }
    if let Some(l) = opt_dur(&d["limit"]) { conf!(x, d, 8, set_inactivity_limit(other(d)), inactivity_limit, l) }
    x
}
fn alt(d: &Value) -> Option<NameAlternation> {
    d["alt"].as_array().unwrap().first().map(|a| { let t = s(&a["s"]); match a["k"].as_str().unwrap() { "pre" => NameAlternation::Prefix(t), "post" => NameAlternation::Postfix(t), _ => NameAlternation::Rename(t) } })
}
macro_rules! alternation {
    ($x:ident, $d:expr) => {{
        match (bit($d, 7), alt($d)) {
            (_, None) => {}
            (true, Some(a)) => conf!($x, $d, 8, set_show_inverted(NameAlternation::Prefix("x".into())), show_inverted, a),
            (false, Some(NameAlternation::Prefix(p))) => conf!($x, $d, 8, set_show_inverted_prefixed("x"), show_inverted_prefixed, p),
            (false, Some(NameAlternation::Postfix(p))) => conf!($x, $d, 8, set_show_inverted_postfixed("x"), show_inverted_postfixed, p),
            (false, Some(NameAlternation::Rename(p))) => conf!($x, $d, 8, set_show_inverted_renamed("x"), show_inverted_renamed, p),
        }
    }};
}
pub fn flag(d: &Value) -> Flag {
    let init = d["init"].as_array().unwrap().first().map(b);
    let mut x = match init { Some(v) if !bit(d, 5) => { let mut x = Flag::new_with_state("first", v); x.set_name(s(&d["n"])); if let Some(t) = opt_s(&d["ti"]) { x.set_title(t) } if let Some(t) = opt_s(&d["de"]) { x = x.description(t) } x } _ => named_flag(d) };
    if let (Some(v), true) = (init, bit(d, 5)) { x = x.state(v) }
    alternation!(x, d);
    x
}
fn named_flag(d: &Value) -> Flag {
    let n = s(&d["n"]);
    let mut x = match (bit(d, 0), bit(d, 1)) { (true, _) => { let mut x = Flag::new("first"); x.set_name(n); x } (false, true) => Flag::new("first").name(n), _ => Flag::new(n) };
    if let Some(t) = opt_s(&d["ti"]) { conf!(x, d, 2, set_title("another"), title, t) }
    if let Some(t) = opt_s(&d["de"]) { conf!(x, d, 3, set_description("another"), description, t) }
    x
}
pub fn stair(d: &Value) -> StaircaseTimer {
    let mut x = named!(StaircaseTimer, d);
    if let Some(t) = opt_dur(&d["dur"]) { conf!(x, d, 5, set_switch_off_after(other(d)), switch_off_after, t) }
    let inv = b(&d["inv"]);
    if needed(d, &inv, false) { if inv && bit(d, 6) { x.enable_invert() } else { x.set_invert(!inv); x.set_invert(inv) } }
    alternation!(x, d);
    x
}
macro_rules! inverted {
    ($x:ident, $d:expr) => {{ let inv = b(&$d["inv"]); if needed($d, &inv, false) { if inv && bit($d, 9) { $x = $x.inverted() } else { conf!($x, $d, 6, set_invert_enabled(!inv), invert_enabled, inv) } } }};
}
pub fn occ(d: &Value) -> OccurrenceIndicator {
    let mut x = named!(OccurrenceIndicator, d);
    if let Some(t) = opt_dur(&d["dur"]) { conf!(x, d, 5, set_if_happened_within(other(d)), if_happened_within, t) }
    inverted!(x, d);
    alternation!(x, d);
    x
}
pub fn nonocc(d: &Value) -> NonOccurrenceIndicator {
    let mut x = named!(NonOccurrenceIndicator, d);
    if let Some(t) = opt_dur(&d["dur"]) { conf!(x, d, 5, set_if_not_happened_within(other(d)), if_not_happened_within, t) }
    inverted!(x, d);
    alternation!(x, d);
    x
}
pub fn disp(d: &Value) -> DataDisplay {
    let mut x = named!(DataDisplay, d);
    if let Some(t) = opt_dur(&d["dur"]) { conf!(x, d, 5, set_reset_after(other(d)), reset_after, t) }
    if let Some(v) = d["rv"].as_array().unwrap().first() { conf!(x, d, 6, set_reset_value(in_item(v)), reset_value, in_item(v)) }
    x
}
pub fn last(d: &Value) -> LastOccurrenceTracker {
    let mut x = named!(LastOccurrenceTracker, d);
    let z = b(&d["mkzero"]);
    if needed(d, &z, false) { conf!(x, d, 5, set_make_none_zero(!z), make_none_zero, z) }
    x
}

// ---- reading an instrument directly ----------------------------------------------
pub fn out_dur(t: Duration) -> i64 { if t == Duration::MAX { -1 } else { t.as_millis() as i64 } }
fn some<T: Into<Value>>(v: Option<T>) -> Value { match v { Some(v) => json!([v.into()]), None => json!([]) } }
fn val(t: &str, x: Value) -> Value { json!([{"t": t, "x": x}]) }
/// what its getters tell about an instrument: name, value (if there is a getter), settings
pub trait Reads { fn read(&self) -> Value; }
impl Reads for Counter { fn read(&self) -> Value { json!({"n": self.get_name(), "v": val("u", out_w(self.get())), "set": [], "rv": [], "ti": some(self.title_()), "de": some(self.descr_())}) } }
impl Reads for Gauge { fn read(&self) -> Value { json!({"n": self.get_name(), "v": self.get().map(|x| val("i", out_w(x))).unwrap_or(json!([])), "set": [], "rv": [], "ti": some(self.title_()), "de": some(self.descr_())}) } }
impl Reads for Flag { fn read(&self) -> Value { json!({"n": self.get_name(), "v": self.get_state().map(|x| val("b", json!(x))).unwrap_or(json!([])), "set": [], "rv": [], "ti": some(self.title_()), "de": some(self.descr_())}) } }
impl Reads for DataDisplay { fn read(&self) -> Value { json!({"n": self.get_name(), "v": self.value().map(|x| json!([out_item(&x)])).unwrap_or(json!([])), "set": [some(self.get_reset_after().map(out_dur))], "rv": self.get_reset_value().map(|x| json!([out_item(x)])).unwrap_or(json!([])), "ti": some(self.title_()), "de": some(self.descr_())}) } }
impl Reads for LastOccurrenceTracker { fn read(&self) -> Value { json!({"n": self.get_name(), "v": [], "set": [self.get_make_none_zero()], "rv": [], "ti": some(self.title_()), "de": some(self.descr_())}) } }
macro_rules! reads_switch { ($t:ident, $dur:ident, $inv:ident) => { impl Reads for $t { fn read(&self) -> Value { json!({"n": self.get_name(), "v": val("b", json!(self.state())), "set": [out_dur(self.$dur()), self.$inv()], "rv": [], "ti": some(self.title_()), "de": some(self.descr_())}) } } }; }
reads_switch!(StaircaseTimer, get_switch_off_after, invert);
reads_switch!(OccurrenceIndicator, get_if_happened_within, is_inverted);
reads_switch!(NonOccurrenceIndicator, get_if_not_happened_within, is_inverted);
macro_rules! reads_name { ($t:ident) => { impl Reads for $t { fn read(&self) -> Value { json!({"n": self.get_name(), "v": [], "set": [], "rv": [], "ti": some(self.title_()), "de": some(self.descr_())}) } } }; }
reads_name!(Meter);
reads_name!(ValueMeter);
reads_name!(Histogram);
/// title and description (the trait's names are those of the builder methods)
trait Texts { fn title_(&self) -> Option<&str>; fn descr_(&self) -> Option<&str>; }
impl<T: Descriptive> Texts for T { fn title_(&self) -> Option<&str> { Descriptive::title(self) } fn descr_(&self) -> Option<&str> { Descriptive::description(self) } }
pub trait Readable: HandlesObservations<Label = Lbl> { fn read(&self) -> Value; fn set(&mut self, _: ObservedValue) { panic!("set") } fn inner(self: Box<Self>) -> Option<Gauge> { None } }
impl<I: Instrument + Reads> Readable for InstrumentAdapter<Lbl, I> { fn read(&self) -> Value { self.instrument().read() } }
impl Readable for GaugeAdapter<Lbl> { fn read(&self) -> Value { self.gauge().read() } fn set(&mut self, v: ObservedValue) { self.gauge_mut().set(v) } fn inner(self: Box<Self>) -> Option<Gauge> { Some(self.into_inner()) } }

pub fn gauge_adapter(d: &Value) -> GaugeAdapter<Lbl> {
    let g = gauge(&d["i"]);
    let f = &d["f"];
    let plain = f["add"].as_array().unwrap().is_empty();
    let lv = |f: &Value| ls(f).into_iter().map(Lbl).collect::<Vec<_>>();
    match d["st"].as_str().unwrap() {
        "filter" => match (f["k"].as_str().unwrap(), f["how"].as_str().unwrap()) {
            ("all", "new") if plain => GaugeAdapter::new(g),
            ("all", "for") if plain => g.for_all_labels(),
            ("none", "new") if plain => GaugeAdapter::deaf(g),
            ("none", "for") if plain => g.adapter(),
            ("labels", "for") if plain && ls(f).len() == 1 => g.for_label(Lbl(ls(f)[0])),
            ("labels", "for") if plain => g.for_labels(lv(f)),
            ("labels", "new") if plain && ls(f).len() == 1 => GaugeAdapter::for_label(Lbl(ls(f)[0]), g),
            ("labels", "new") if plain => GaugeAdapter::for_labels(lv(f), g),
            ("pred", "for") if plain => g.for_labels_by_predicate(pred_of(f)),
            ("pred", "new") if plain => GaugeAdapter::for_labels_by_predicate(pred_of(f), g),
            (_, "acc") => g.accept(filter(f)),
            _ => GaugeAdapter::accept(filter(f), g),
        },
        "deltas" => match (f["k"].as_str().unwrap(), f["how"].as_str().unwrap()) {
            ("labels", "for") if plain && ls(f).len() == 1 => g.for_label_deltas_only(Lbl(ls(f)[0])),
            ("labels", "for") if plain => g.for_labels_deltas_only(lv(f)),
            ("labels", "new") if plain && ls(f).len() == 1 => GaugeAdapter::for_label_deltas_only(Lbl(ls(f)[0]), g),
            ("labels", "new") if plain => GaugeAdapter::for_labels_deltas_only(lv(f), g),
            ("pred", "for") if plain => g.for_labels_deltas_only_by_predicate(pred_of(f)),
            ("pred", "new") if plain => GaugeAdapter::for_labels_deltas_only_by_predicate(pred_of(f), g),
            (_, "acc") => g.deltas_only(filter(f)),
            _ => GaugeAdapter::deltas_only(filter(f), g),
        },
        "incdec" => {
            let f2 = &d["f2"];
            let plain = plain && f2["add"].as_array().unwrap().is_empty();
            match (f["k"].as_str().unwrap(), f2["k"].as_str().unwrap(), f["how"].as_str().unwrap()) {
                ("labels", "labels", "for") if plain => g.inc_dec_on_many(lv(f), lv(f2)),
                ("labels", "labels", "new") if plain => GaugeAdapter::inc_dec_on_many(lv(f), lv(f2), g),
                ("pred", "pred", "for") if plain => g.inc_dec_by_predicates(pred_of(f), pred_of(f2)),
                ("pred", "pred", "new") if plain => GaugeAdapter::inc_dec_by_predicates(pred_of(f), pred_of(f2), g),
                (_, _, "acc") => g.inc_dec_on(filter(f), filter(f2)),
                _ => GaugeAdapter::inc_dec_on(filter(f), filter(f2), g),
            }
        }
        x => panic!("gauge strategy {}", x),
    }
}

// ---- recorder -------------------------------------------------------------
pub struct Rec { pub name: String, pub ret: usize, pub log: Log, pub zero: Instant, pub deaf: bool }
impl HandlesObservations for Rec {
    type Label = Lbl;
    fn handle_observation(&mut self, o: &Observation<Lbl>) -> usize {
        if !self.deaf { self.log.lock().unwrap().push(if splits(o) { out_obs(o, self.zero) } else { json!({"k": "split differs"}) }); }
        self.ret
    }
}
impl PutsSnapshot for Rec {
    fn put_snapshot(&self, into: &mut Snapshot, _d: bool) { into.push(self.name.clone(), self.log.lock().unwrap().len() as u64) }
}
/// a snapshooter whose value a test can change
pub struct Cellv { pub items: Arc<Mutex<Value>> }
impl PutsSnapshot for Cellv {
    fn put_snapshot(&self, into: &mut Snapshot, _d: bool) { for (n, v) in in_snapshot(&self.items.lock().unwrap()).items { into.push(n, v) } }
}

#[derive(Default)]
pub struct Ctx { pub logs: std::collections::HashMap<String, Log>, pub cells: std::collections::HashMap<String, Arc<Mutex<Value>>>, pub txs: std::collections::HashMap<String, TelemetryTransmitter<Lbl>> }
/// a handler that sends an observation of its own whenever it is told label `l`
pub struct Echo { l: i64, l2: i64, tx: TelemetryTransmitter<Lbl> }
impl PutsSnapshot for Echo { fn put_snapshot(&self, _: &mut Snapshot, _: bool) {} }
impl HandlesObservations for Echo {
    type Label = Lbl;
    fn handle_observation(&mut self, o: &Observation<Lbl>) -> usize {
        if o.label().0 != self.l { return 0 }
        self.tx.observed_one(Lbl(self.l2), Instant::now());
        1
    }
}

/// snapshooter definitions
pub enum Snap { Cell(Cellv), Const(ConstantValue), Poll(PollingInstrument<Cellv>) }
impl PutsSnapshot for Snap {
    fn put_snapshot(&self, into: &mut Snapshot, d: bool) { match self { Snap::Cell(x) => x.put_snapshot(into, d), Snap::Const(x) => x.put_snapshot(into, d), Snap::Poll(x) => x.put_snapshot(into, d) } }
}
pub fn snapshooter(d: &Value, ctx: &mut Ctx) -> Snap {
    let mut cell = |items: &Value| { let a = Arc::new(Mutex::new(items.clone())); ctx.cells.insert(s(&d["id"]), a.clone()); Cellv { items: a } };
    match d["k"].as_str().unwrap() {
        "cell" => Snap::Cell(cell(&d["items"])),
        "const" => { let mut c = if bit(d, 0) { let mut c = ConstantValue::new("first", in_item(&d["v"])); c.set_name(s(&d["n"])); c } else { ConstantValue::new(s(&d["n"]), in_item(&d["v"])) }; descr!(c, d); assert_eq!(c.get_name(), s(&d["n"]), "the name it was given"); Snap::Const(c) }
        "poll" => {
            let mut p = if bit(d, 0) { let mut p = PollingInstrument::new_with_defaults("first", cell(&d["items"])); p.set_name(s(&d["n"])); p } else { PollingInstrument::new_with_defaults(s(&d["n"]), cell(&d["items"])) };
            descr!(p, d);
            let g = b(&d["group"]);
            if needed(d, &g, false) { if bit(d, 1) { p.set_create_group_with_name(!g) } p.set_create_group_with_name(g) }
            assert_eq!((p.get_name(), p.create_group_with_name()), (d["n"].as_str().unwrap(), g), "what it was given");
            Snap::Poll(p)
        }
        k => panic!("snapshooter {}", k),
    }
}

pub struct Dyn(pub Box<dyn HandlesObservations<Label = Lbl>>);
impl HandlesObservations for Dyn { type Label = Lbl; fn handle_observation(&mut self, o: &Observation<Lbl>) -> usize { self.0.handle_observation(o) } }
impl PutsSnapshot for Dyn { fn put_snapshot(&self, into: &mut Snapshot, d: bool) { self.0.put_snapshot(into, d) } }

pub fn handler(d: &Value, ctx: &mut Ctx) -> Dyn {
    Dyn(match d["k"].as_str().unwrap() {
        "rec" => { let log: Log = Default::default(); ctx.logs.insert(s(&d["id"]), log.clone()); Box::new(Rec { name: s(&d["n"]), ret: d["ret"].as_u64().unwrap() as usize, log, zero: t0(), deaf: false }) }
        "echo" => Box::new(Echo { l: d["l"].as_i64().unwrap(), l2: d["l2"].as_i64().unwrap(), tx: ctx.txs[d["tx"].as_str().unwrap()].clone() }),
        "panel" => Box::new(panel(d, ctx)),
        "cockpit" => Box::new(cockpit(d, ctx)),
        "gadp" | "adp" => { let x: Box<dyn HandlesObservations<Label = Lbl>> = adapted(d); x }
        k => panic!("handler {}", k),
    })
}
pub fn adapted(d: &Value) -> Box<dyn Readable> {
    if d["k"] == "gadp" { return Box::new(gauge_adapter(d)) }
    let (i, f, m) = (&d["i"], &d["f"], &d["m"]);
    match i["k"].as_str().unwrap() {
        "counter" => Box::new(adapter!(counter(i), f, m)),
        "gauge" => Box::new(adapter_g(i, f, m)),
        "meter" => Box::new(adapter!(meter(i), f, m)),
        "vmeter" => Box::new(adapter!(vmeter(i), f, m)),
        "histo" => Box::new(adapter!(histo(i), f, m)),
        "flag" => Box::new(adapter!(flag(i), f, m)),
        "stair" => Box::new(adapter!(stair(i), f, m)),
        "occ" => Box::new(adapter!(occ(i), f, m)),
        "nonocc" => Box::new(adapter!(nonocc(i), f, m)),
        "disp" => Box::new(adapter!(disp(i), f, m)),
        "last" => Box::new(adapter!(last(i), f, m)),
        k => panic!("instrument {}", k),
    }
}
/// a gauge in a plain instrument adapter (as `Panel::add_instrument` makes it)
fn adapter_g(i: &Value, f: &Value, m: &Value) -> InstrumentAdapter<Lbl, Gauge> {
    let a = InstrumentAdapter::accept(filter(f), gauge(i));
    match modifier(m) { Some(g) => a.modify_with(g), None => a }
}

/// accepts every label and modifies nothing: what an instrument is converted to
fn plain(x: &Value) -> bool { filter_is(&x["f"], "all") && (x["m"].is_null() || x["m"]["k"] == "keep") && bit(&x["i"], 9) }
fn filter_is(f: &Value, k: &str) -> bool { f["k"] == k && f["add"].as_array().unwrap().is_empty() }
pub fn panel(d: &Value, ctx: &mut Ctx) -> Panel<Lbl> {
    let f = &d["f"];
    let how = f["how"].as_str().unwrap();
    let name = opt_s(&d["n"]);
    let mut p: Panel<Lbl> = match (&name, how) {
        (Some(n), "for") if filter_is(f, "all") => Panel::accept_all_named(n.clone()),
        (None, "for") if filter_is(f, "all") => Panel::accept_all(),
        (Some(n), "acc") => Panel::accept_named(filter(f), n.clone()),
        (None, "acc") => Panel::accept(filter(f)),
        (Some(n), "swap") => { let mut p = Panel::new(filter(f)); p.set_name(n.clone()); p }
        (Some(n), _) => Panel::named(filter(f), n.clone()),
        (None, _) => Panel::new(filter(f)),
    };
    descr!(p, d);
    if let Some(l) = opt_dur(&d["limit"]) { conf!(p, d, 5, set_inactivity_limit(other(d)), inactivity_limit, l) }
    let show = b(&d["show"]);
    if needed(d, &show, true) { conf!(p, d, 6, set_show_activity_state(!show), show_activity_state, show) }
    for it in d["items"].as_array().unwrap() {
        let x = &it["x"];
        let by_builder = it["b"].as_bool().unwrap_or(false);
        match it["slot"].as_str().unwrap() {
            "counter" if plain(x) => { let a = counter(&x["i"]); if by_builder { p = p.counter(a) } else { p.add_counter(a) } }
            "counter" => { let a = adapter!(counter(&x["i"]), &x["f"], &x["m"]); if by_builder { p = p.counter(a) } else { p.add_counter(a) } }
            "gauge" if x["st"] == "filter" && plain(x) => { let a = gauge(&x["i"]); if by_builder { p = p.gauge(a) } else { p.add_gauge(a) } }
            "gauge" => { let a = gauge_adapter(x); if by_builder { p = p.gauge(a) } else { p.add_gauge(a) } }
            "meter" if plain(x) => { let a = meter(&x["i"]); if by_builder { p = p.meter(a) } else { p.add_meter(a) } }
            "meter" => { let a = adapter!(meter(&x["i"]), &x["f"], &x["m"]); if by_builder { p = p.meter(a) } else { p.add_meter(a) } }
            "histo" if plain(x) => { let a = histo(&x["i"]); if by_builder { p = p.histogram(a) } else { p.add_histogram(a) } }
            "histo" => { let a = adapter!(histo(&x["i"]), &x["f"], &x["m"]); if by_builder { p = p.histogram(a) } else { p.add_histogram(a) } }
            "panel" => { let q = panel(x, ctx); if by_builder { p = p.panel(q) } else { p.add_panel(q) } }
            "handler" => { let h = handler(x, ctx); if by_builder { p = p.handler(h) } else { p.add_handler(h) } }
            "snap" => { let h = snapshooter(x, ctx); if by_builder { p = p.snapshooter(h) } else { p.add_snapshooter(h) } }
            // plain instrument: accepts every label
            "instr" => match x["i"]["k"].as_str().unwrap() {
                "counter" => p.add_instrument(counter(&x["i"])), "gauge" => p.add_instrument(gauge(&x["i"])), "meter" => p.add_instrument(meter(&x["i"])),
                "vmeter" => p.add_instrument(vmeter(&x["i"])), "histo" => p.add_instrument(histo(&x["i"])), "flag" => p = p.instrument(flag(&x["i"])),
                "stair" => p = p.instrument(stair(&x["i"])), "occ" => p.add_instrument(occ(&x["i"])), "nonocc" => p.add_instrument(nonocc(&x["i"])),
                "disp" => p.add_instrument(disp(&x["i"])), "last" => p.add_instrument(last(&x["i"])), k => panic!("instrument {}", k),
            },
            k => panic!("slot {}", k),
        }
    }
    p
}
pub fn cockpit(d: &Value, ctx: &mut Ctx) -> Cockpit<Lbl> {
    let mut c = match opt_s(&d["n"]) { Some(n) if bit(d, 0) => { let mut c = if bit(d, 1) { Cockpit::new("first") } else { Cockpit::without_name() }; c.set_name(n); c } Some(n) => Cockpit::new(n), None => Cockpit::without_name() };
    descr!(c, d);
    if let Some(l) = opt_dur(&d["limit"]) { if bit(d, 5) { c.set_inactivity_limit(other(d)) } c.set_inactivity_limit(l) }
    let show = b(&d["show"]);
    if needed(d, &show, true) { conf!(c, d, 6, set_show_activity_state(!show), show_activity_state, show) }
    for it in d["items"].as_array().unwrap() {
        let x = &it["x"];
        let by_builder = it["b"].as_bool().unwrap_or(false);
        match it["slot"].as_str().unwrap() {
            "panel" => { let q = panel(x, ctx); if by_builder { c = c.panel(q) } else { c.add_panel(q) } }
            "handler" => { let h = handler(x, ctx); if by_builder { c = c.handler(h) } else { c.add_handler(h) } }
            "snap" => { let h = snapshooter(x, ctx); if by_builder { c = c.snapshooter(h) } else { c.add_snapshooter(h) } }
            k => panic!("slot {}", k),
        }
    }
    c
}
