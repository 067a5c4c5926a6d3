//! Per-thread seeding: executes schedules of spec/SeedGen.tla. Threads stop at the gates of the seed claim
//! (before the load, before the swap) until the schedule lets them pass; if the code has no such gates a thread simply
//! runs through. What is recorded - who drew what, and which operation ended before which began - is judged by SeedTrace.
use crate::json::J;
use crate::rand::unbig;
use crate::shape::big;
#[cfg(essay_verif)]
use essay_tensor::random::verif;
use essay_tensor::random::{random_seed, Rand32, Rand64};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Default)]
struct Sched { on: bool, at: Vec<u8>, go: Vec<bool> }    // at: 0 running, 1 at load, 2 at swap, 3 first draw done
static S: Mutex<Sched> = Mutex::new(Sched { on: false, at: vec![], go: vec![] });
static CV: Condvar = Condvar::new();
static CLOCK: AtomicUsize = AtomicUsize::new(1);
thread_local! { static ME: Cell<usize> = const { Cell::new(0) }; }

fn tick() -> usize { CLOCK.fetch_add(1, Ordering::SeqCst) }

fn gate(point: &'static str) {
    let me = ME.with(|m| m.get());
    if me == 0 { return; }
    let mut s = S.lock().unwrap();
    if !s.on { return; }
    s.at[me] = if point == "load" { 1 } else { 2 };
    CV.notify_all();
    while s.on && !s.go[me] { s = CV.wait(s).unwrap(); }
    s.go[me] = false;
    s.at[me] = 0;
}

fn draw(k: usize) -> J {
    if k % 2 == 0 { big(Rand64::new().0) } else { big(Rand32::new().0 as u128) }
}

fn set_op(v: &[i64]) -> J {
    let b = tick();
    random_seed(unbig(v) as u64);
    let e = tick();
    J::obj().with("skip", 0i64).with("o", "set").with("s", J::Arr(v.iter().map(|x| J::Int(*x)).collect())).with("begin", b as i64).with("end", e as i64).with("d", J::Arr(vec![]))
}
fn take_op(b: usize, e: usize, d: Vec<J>) -> J { take_skip(b, e, d, 0) }
fn take_skip(b: usize, e: usize, d: Vec<J>, skip: i64) -> J {
    J::obj().with("skip", skip).with("o", "take").with("s", J::Arr(vec![])).with("begin", b as i64).with("end", e as i64).with("d", J::Arr(d))
}

enum Msg { Draw(usize), Stop }

pub fn row(e: &J) -> J {
    #[cfg(essay_verif)]
    let _ = verif::GATE.set(gate);
    let nt = e.us("nt");
    let later = e.us("later");
    random_seed(unbig(&e.ints("s0")) as u64);
    let ops = match e.str("k") {
        "sched" => sched(e, nt, later),
        "free" => free(e, nt, later),
        "chain" => (0..nt).map(|_| {
            let b = tick();
            let d = std::thread::spawn(move || (0..later).map(draw).collect::<Vec<_>>()).join().unwrap();
            take_op(b, tick(), d)
        }).collect(),
        _ => seq(e, nt),
    };
    e.clone().with("ops", J::Arr(ops))
}

fn sched(e: &J, nt: usize, later: usize) -> Vec<J> {
    { let mut s = S.lock().unwrap(); s.on = true; s.at = vec![0; nt + 1]; s.go = vec![false; nt + 1]; }
    let mut ops = vec![];
    let mut th: Vec<Option<std::thread::JoinHandle<J>>> = (0..=nt).map(|_| None).collect();
    let start = |t: usize| std::thread::spawn(move || {
        ME.with(|m| m.set(t));
        let b = tick();
        let mut d = vec![draw(t)];
        let en = tick();
        { let mut s = S.lock().unwrap(); if s.at.len() > t { s.at[t] = 3; } CV.notify_all(); }
        for k in 0..later { d.push(draw(k)); }
        take_op(b, en, d)
    });
    // wait until thread t stands at a gate or has drawn
    let settle = |t: usize| {
        let end = Instant::now() + Duration::from_millis(300);
        let mut s = S.lock().unwrap();
        while s.at[t] == 0 || s.go[t] {
            let now = Instant::now();
            if now >= end { return; }
            s = CV.wait_timeout(s, end - now).unwrap().0;
        }
    };
    for st in e.arr("steps") {
        let t = st.us("t");
        if t == 0 { ops.push(set_op(&st.ints("s"))); continue; }
        if th[t].is_none() { th[t] = Some(start(t)); settle(t); }
        { let mut s = S.lock().unwrap(); if s.at[t] == st.us("p") as u8 { s.go[t] = true; CV.notify_all(); } else { continue; } }
        settle(t);
    }
    { let mut s = S.lock().unwrap(); s.on = false; CV.notify_all(); }
    for t in th.into_iter().flatten() { ops.push(t.join().unwrap()); }
    ops
}

fn free(e: &J, nt: usize, later: usize) -> Vec<J> {
    let sets: Vec<Vec<i64>> = e.arr("steps").iter().map(|s| s.ints("s")).collect();
    let all = nt + sets.len();
    let skip = e.int_or("skip", 0);
    let ready = std::sync::Arc::new(AtomicUsize::new(0));
    let th: Vec<_> = (0..all).map(|t| {
        let ready = ready.clone();
        let set = if t >= nt { Some(sets[t - nt].clone()) } else { None };
        std::thread::spawn(move || {
            ready.fetch_add(1, Ordering::SeqCst);
            let mut n = 0u64;
            while ready.load(Ordering::Acquire) < all { n += 1; if n % 1024 == 0 { std::thread::yield_now(); } std::hint::spin_loop(); }
            if let Some(v) = set { return set_op(&v); }
            let b = tick();
            let mut raw = vec![Rand64::new().0];
            let en = tick();
            for _ in 0..skip { Rand64::new(); }
            for _ in 0..later { raw.push(Rand64::new().0); }
            take_skip(b, en, raw.into_iter().map(big).collect(), skip)
        })
    }).collect();
    th.into_iter().map(|t| t.join().unwrap()).collect()
}

fn seq(e: &J, nt: usize) -> Vec<J> {
    let mut ops = vec![];
    let mut th: Vec<Option<(Sender<Msg>, Receiver<J>, usize, usize, Vec<J>, std::thread::JoinHandle<()>)>> = (0..=nt).map(|_| None).collect();
    for st in e.arr("steps") {
        let t = st.us("t");
        if t == 0 { ops.push(set_op(&st.ints("s"))); continue; }
        let b = tick();
        let fresh = th[t].is_none();
        if fresh {
            let (tx, rx) = channel::<Msg>();
            let (ty, ry) = channel();
            let j = std::thread::spawn(move || while let Ok(Msg::Draw(k)) = rx.recv() { let _ = ty.send(draw(k)); });
            th[t] = Some((tx, ry, b, 0, vec![], j));
        }
        let x = th[t].as_mut().unwrap();
        for k in 0..st.us("p") { x.0.send(Msg::Draw(k)).unwrap(); let v = x.1.recv().unwrap(); x.4.push(v); }
        if fresh { x.3 = tick(); }
    }
    for x in th.into_iter().flatten() {
        let _ = x.0.send(Msg::Stop);
        x.5.join().unwrap();
        ops.push(take_op(x.2, x.3, x.4));
    }
    ops
}
