//! Tensors shared between threads (spec/Share.tla): a program of its own, because whether tensors may cross threads at all
//! is part of what is judged.
#[allow(dead_code)]
#[path = "../alloc.rs"]
mod alloc;
#[allow(dead_code)]
#[path = "../elem.rs"]
mod elem;
#[allow(dead_code)]
#[path = "../json.rs"]
mod json;
use elem::{El, Elem};
use essay_tensor::tensor::{Tensor, Type};
use json::J;
use std::collections::BTreeSet;
use std::io::{BufRead, BufWriter, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::Arc;

#[global_allocator]
static ALLOC: alloc::Checked = alloc::Checked;

type T = Tensor<Elem>;
type Slots = Vec<Option<T>>;
#[derive(Clone)]
struct Op { t: usize, o: String, s: usize, d: usize, a: usize, n: usize, u: usize }

fn labs(t: &T) -> Vec<i64> {
    let v: Vec<i64> = t.as_slice().iter().map(|x| x.lab()).collect();
    // the other ways of reading, interleaved with other threads
    for (i, x) in t.iter().enumerate() { if x.lab() != v[i] { return vec![-1]; } }
    for i in 0..v.len() { if t.get(i).map(|x| x.lab()) != Some(v[i]) || t[i].lab() != v[i] { return vec![-2]; } }
    v
}

/// one operation of one thread; returns the contents it shows
fn step(sl: &mut Slots, op: &Op, churn: usize) -> Vec<Vec<i64>> {
    let src = |sl: &Slots| sl[op.s].clone().unwrap();
    let res = match op.o.as_str() {
        "clone" => sl[op.s].clone(),
        "sub" => Some(sl[op.s].as_ref().unwrap().subslice(op.a, op.n)),
        "flat" => Some(sl[op.s].as_ref().unwrap().subslice_flat(op.a, op.n, [op.n])),
        "reshape" => { let t = src(sl); let n = t.size(); Some(t.reshape([1, n]).reshape([n])) }
        "move" => { let t = sl[op.s].take().unwrap(); let n = t.size(); Some(t.reshape([n, 1]).flatten()) }
        "read" => return vec![labs(sl[op.s].as_ref().unwrap())],
        "map" => return vec![{ let m = sl[op.s].as_ref().unwrap().map(|x| x.clone()); labs(&m) }],
        "same" => {
            let t = sl[op.s].as_ref().unwrap();
            let c = t.clone();
            return vec![if *t == c { labs(&c) } else { vec![-3] }];
        }
        "churn" => {
            let mut seen = BTreeSet::new();
            for i in 0..churn {
                let a = sl[op.s].as_ref().unwrap().clone();
                let n = a.size();
                let b = a.subslice(i % n, n - i % n);
                drop(a);
                let c = b.clone();
                let w = labs(&c);
                let all = labs(sl[op.s].as_ref().unwrap());
                if all[i % n..] != w[..] { seen.insert(vec![-4]); }
                seen.insert(all);
            }
            return seen.into_iter().collect();
        }
        _ => { sl[op.s] = None; return vec![vec![]]; }
    };
    let l = labs(res.as_ref().unwrap());
    sl[op.d] = res;
    vec![l]
}

struct Case { ini: Vec<Vec<Vec<usize>>>, len: Vec<usize>, steps: Vec<Op>, churn: usize }

fn begin(c: &Case) -> (Vec<Slots>, usize) {
    Elem::reset();
    let bufs: Vec<T> = c.len.iter().enumerate().map(|(b, n)| T::from((1..=*n).map(|i| Elem::new(((b + 1) * 100 + i) as i64)).collect::<Vec<_>>())).collect();
    let last = Elem::new(0).uid();      // elements with a higher identity are copies made later
    (c.ini.iter().map(|th| th.iter().map(|w| if w[0] == 0 { None } else { Some(bufs[w[0] - 1].subslice(w[1], w[2])) }).collect()).collect(), last)
}

fn fin() -> (i64, i64, i64) { (Elem::live(), Elem::bad(), alloc::FAULTS.swap(0, Ordering::SeqCst)) }

fn sched(c: &Case) -> (Vec<J>, BTreeSet<(i64, i64, i64)>) {
    enum Msg { Do(Op), Take(usize), Put(usize, T), End }
    enum Rep { Seen(Vec<Vec<i64>>, bool), Handle(T), Done }
    let (slots, last) = begin(c);
    let churn = c.churn;
    let ths: Vec<(Sender<Msg>, Receiver<Rep>, std::thread::JoinHandle<()>)> = slots.into_iter().map(|mut sl| {
        let (tx, rx) = channel();
        let (ty, ry) = channel();
        let j = std::thread::spawn(move || loop {
            match rx.recv().unwrap() {
                Msg::Do(op) => {
                    let seen = step(&mut sl, &op, churn);
                    let copied = sl.iter().flatten().any(|t| t.as_slice().iter().any(|x| x.uid() > last));
                    ty.send(Rep::Seen(seen, copied)).unwrap();
                }
                Msg::Take(s) => ty.send(Rep::Handle(sl[s].take().unwrap())).unwrap(),
                Msg::Put(d, t) => { sl[d] = Some(t); ty.send(Rep::Done).unwrap(); }
                Msg::End => { drop(sl); return; }
            }
        });
        (tx, ry, j)
    }).collect();
    let mut ev = vec![];
    for op in &c.steps {
        let (mut seen, mut copied) = (vec![vec![]], false);
        if op.t > 0 {
            let th = &ths[op.t - 1];
            if op.o == "give" {
                th.0.send(Msg::Take(op.s)).unwrap();
                if let Rep::Handle(t) = th.1.recv().unwrap() { let to = &ths[op.u - 1]; to.0.send(Msg::Put(op.d, t)).unwrap(); to.1.recv().unwrap(); }
            } else {
                th.0.send(Msg::Do(op.clone())).unwrap();
                if let Rep::Seen(s, c) = th.1.recv().unwrap() { seen = s; copied = c; }
            }
        }
        ev.push(event(&seen, Elem::live(), copied));
    }
    for (tx, _, j) in ths { tx.send(Msg::End).unwrap(); j.join().unwrap(); }
    (ev, BTreeSet::from([fin()]))
}

fn event(seen: &[Vec<i64>], live: i64, copied: bool) -> J {
    J::obj().with("seen", J::Arr(seen.iter().map(|v| J::Arr(v.iter().map(|x| J::Int(*x)).collect())).collect())).with("live", live).with("copied", copied)
}

fn free(c: &Case, rep: usize) -> (Vec<J>, BTreeSet<(i64, i64, i64)>) {
    let mut seen: Vec<BTreeSet<Vec<i64>>> = vec![BTreeSet::new(); c.steps.len()];
    let mut fins = BTreeSet::new();
    for _ in 0..rep {
        let (slots, _) = begin(c);
        let n = slots.len();
        let ready = Arc::new(AtomicUsize::new(0));
        let th: Vec<_> = slots.into_iter().enumerate().map(|(t, mut sl)| {
            let ready = ready.clone();
            let ops: Vec<(usize, Op)> = c.steps.iter().cloned().enumerate().filter(|(_, o)| o.t == t + 1).collect();
            let churn = c.churn;
            std::thread::spawn(move || {
                ready.fetch_add(1, Ordering::SeqCst);
                let mut k = 0u64;
                while ready.load(Ordering::Acquire) < n { k += 1; if k % 512 == 0 { std::thread::yield_now(); } std::hint::spin_loop(); }
                let r: Vec<(usize, Vec<Vec<i64>>)> = ops.iter().map(|(i, o)| (*i, step(&mut sl, o, churn))).collect();
                // all threads let go of what they still hold at about the same time
                ready.fetch_add(1, Ordering::SeqCst);
                let mut k = 0u64;
                while ready.load(Ordering::Acquire) < 2 * n { k += 1; if k % 512 == 0 { std::thread::yield_now(); } std::hint::spin_loop(); }
                drop(sl);
                r
            })
        }).collect();
        for t in th { for (i, s) in t.join().unwrap() { seen[i].extend(s); } }
        fins.insert(fin());
    }
    (seen.iter().map(|s| { let v: Vec<_> = s.iter().cloned().collect(); let v = if v.is_empty() { vec![vec![]] } else { v }; event(&v, 0, false) }).collect(), fins)
}

// whether tensors of an element type are Send / Sync, decided by method resolution
struct Probe<X>(std::marker::PhantomData<X>);
trait No { fn send(&self) -> bool { false } fn sync(&self) -> bool { false } }
impl<X> No for &Probe<X> {}
trait YesSend { fn send(&self) -> bool { true } }
impl<X: Send> YesSend for Probe<X> {}
trait YesSync { fn sync(&self) -> bool { true } }
impl<X: Sync> YesSync for Probe<X> {}
macro_rules! probe { ($t:ty) => {{
    let p = Probe::<$t>(std::marker::PhantomData);
    let q = &p;
    #[allow(unused_imports)]
    (q.send(), q.sync())
}} }
#[allow(dead_code)]
struct Local(std::cell::Cell<i64>);          // may move between threads, not be shared
impl Type for Local {}
#[allow(dead_code)]
struct Bound(std::rc::Rc<i64>);              // must stay in its thread
impl Type for Bound {}
#[allow(dead_code)]
struct Stay(*mut u8);                        // may be shared, must not move
unsafe impl Sync for Stay {}
impl Type for Stay {}

fn bounds() -> J {
    let v = [probe!(T), probe!(Tensor<f32>), probe!(Tensor<String>), probe!(Tensor<Local>), probe!(Tensor<Bound>), probe!(Tensor<Stay>)];
    J::Arr(v.iter().map(|(a, b)| J::Arr(vec![J::Bool(*a), J::Bool(*b)])).collect())
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let input = std::io::BufReader::new(std::fs::File::open(&args[2]).unwrap());
    let mut out = BufWriter::new(std::fs::File::create(&args[3]).unwrap());
    for (n, line) in input.lines().enumerate() {
        std::fs::write(format!("{}.pos", &args[3]), format!("{}", n + 1)).unwrap();
        let e = J::parse(&line.unwrap());
        if e.str("k") == "bounds" { writeln!(out, "{}", e.clone().with("b", bounds()).text()).unwrap(); continue; }
        let c = Case {
            ini: e.arr("ini").iter().map(|t| t.as_arr().iter().map(|w| w.as_arr().iter().map(|x| x.as_int() as usize).collect()).collect()).collect(),
            len: e.uss("len"), churn: e.us("churn"),
            steps: e.arr("steps").iter().map(|o| Op { t: o.us("t"), o: o.str("o").into(), s: o.us("s").max(1) - 1, d: o.us("d").max(1) - 1, a: o.us("a"), n: o.us("n"), u: o.us("u") }).collect(),
        };
        alloc::FAULTS.store(0, Ordering::SeqCst);
        let (ev, fins) = if e.str("k") == "free" { free(&c, e.us("rep")) } else { sched(&c) };
        let fins = J::Arr(fins.iter().map(|(a, b, c)| J::Arr(vec![J::Int(*a), J::Int(*b), J::Int(*c)])).collect());
        writeln!(out, "{}", e.clone().with("ev", J::Arr(ev)).with("fin", fins).text()).unwrap();
    }
    out.flush().unwrap();
}
