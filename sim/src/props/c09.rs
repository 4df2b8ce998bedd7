use super::{c06, c07, c08, c10, c11, c14, Prop};
use crate::core::{mix, viol, Cx, Res, Viol};
use crate::de::{SimDe, St as DeSt};
use crate::gen::{self, Shape};
use crate::mutate;
use crate::sched::{self, in_process, Sched};
use crate::ser::{SimSer, St as SerSt};
use crate::util::clip;
use crate::y::{emit, Style};
use compose_spec::{Compose, Options};
use serde::{Deserialize, Serialize};
use serde_yaml::Value;
use std::cell::{Cell, RefCell};
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C09",
    run,
    quick_runs: 6500,
    apart: true,
    rule: "Each run, in a process of its own, takes a few documents (valid, with merge keys, or damaged) and operations on them: loads through every entry point and a simulated deserializer, saves through a writer and a simulated serializer, validations, conversions of the shared documents, and whole histories on values. What each gives alone is found out in a fresh process. One to four simulated threads then carry the operations out in drawn orders; a seeded scheduler switches between them at callbacks, allocations and waits for locks; callbacks start further operations on the same thread, three deep, and fail or panic, which abandons the operation around them, some many times in a row. Every operation that was not itself made to fail must give what it gives alone. Non-trivial: threads were switched or operations nested.",
    real: "all of compose_spec, serde_yaml, std threads, locks and thread-locals",
    stub: "thread scheduler (one thread runs at a time), memory allocator entry, futex waits, reader, writer, serde Serializer and Deserializer",
    probes: &[
        "thread switched",
        "switched at an allocation",
        "nested operation",
        "nested twice",
        "abandoned by an error",
        "abandoned by a panic",
        "abandoned many times",
        "repeated many times",
        "load with merging",
        "shared document saved",
        "shared document converted",
        "history on values",
    ],
    assume: &["threads are switched at callbacks, allocations and lock waits only, not between two arbitrary instructions"],
};

struct Doc {
    text: String,
    value: Option<Value>,
    c: Option<Compose>,
}

#[derive(Clone, Copy, Debug)]
enum Op {
    /// document, entry point, merging
    Load(usize, u64, bool),
    De(usize),
    Save(usize),
    Ser(usize),
    Validate(usize),
    Debug(usize),
    Convert(usize, u64),
    /// a run of another property's histories
    History(usize, u64),
}

const HISTORIES: &[&Prop] = &[&c14::PROP, &c07::PROP, &c08::PROP, &c10::PROP, &c06::PROP, &c11::PROP];

struct World {
    docs: Vec<Doc>,
    opts: [Options; 2],
    ops: Vec<Op>,
    want: Vec<String>,
}

/// What a callback of an operation does.
struct T<'a> {
    cx: &'a Cx,
    w: &'a World,
    depth: Cell<u32>,
    /// callbacks before the next event
    left: Cell<u64>,
    gap: u64,
    /// callbacks before the operation is made to fail, and whether by a panic
    fault: Cell<Option<(u64, bool)>>,
    fired: Cell<bool>,
    nested: Cell<u32>,
    bad: RefCell<Option<Viol>>,
}

const INJECTED: &str = "injected panic";

impl T<'_> {
    fn tick(&self) -> bool {
        if std::thread::panicking() {
            return false;
        }
        match self.fault.get() {
            Some((0, p)) => {
                self.fault.set(None);
                self.fired.set(true);
                self.cx.ev("fault", u64::from(p), 0);
                if p {
                    self.cx.count("abandoned by a panic");
                    std::panic::panic_any(INJECTED);
                }
                self.cx.count("abandoned by an error");
                return true;
            }
            Some((n, p)) => self.fault.set(Some((n - 1, p))),
            None => {}
        }
        if self.left.get() > 1 {
            self.left.set(self.left.get() - 1);
            return false;
        }
        self.left.set(1 + self.cx.draw(self.gap));
        match self.cx.draw(3) {
            2 if self.depth.get() < 3 && self.nested.get() < 12 => {
                self.nested.set(self.nested.get() + 1);
                self.cx.nontrivial();
                self.cx.count(if self.depth.get() > 1 { "nested twice" } else { "nested operation" });
                let k = self.cx.n(self.w.ops.len());
                self.op(k);
            }
            _ => sched::point(),
        }
        false
    }

    /// Carry out operation `k`, perhaps making it fail.
    fn op(&self, k: usize) {
        let plan = self.cx.chance(1, 4).then(|| (self.cx.draw(*self.cx.pick(&[4, 40, 400])), self.cx.coin()));
        self.op_with(k, plan);
    }

    fn op_with(&self, k: usize, plan: Option<(u64, bool)>) {
        if self.bad.borrow().is_some() {
            return;
        }
        self.cx.ev("op", k as u64, u64::from(self.depth.get()));
        let fault = self.fault.replace(plan);
        let fired = self.fired.replace(false);
        self.depth.set(self.depth.get() + 1);
        let r = catch_unwind(AssertUnwindSafe(|| perform(self.w, self.w.ops[k], Some(self))));
        self.depth.set(self.depth.get() - 1);
        let gone = self.fired.replace(fired);
        self.fault.set(fault);
        self.cx.ev("done", k as u64, u64::from(gone));
        if gone || self.bad.borrow().is_some() {
            return;
        }
        let what = || format!("{:?} at depth {} of a thread", self.w.ops[k], self.depth.get());
        let v = match r {
            Err(_) => viol("interference-panic", format!("{} panicked; alone it gives:\n{}", what(), clip(&self.w.want[k]))),
            Ok(r) if r != self.w.want[k] => viol(
                "interference",
                format!("{} gives\n{}\n--- but alone\n{}", what(), around(&r, &self.w.want[k]), around(&self.w.want[k], &r)),
            ),
            Ok(_) => Ok(()),
        };
        if let Err(v) = v {
            *self.bad.borrow_mut() = Some(v);
        }
    }
}

/// The part of `a` where it starts to differ from `b`.
fn around(a: &str, b: &str) -> String {
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let mut i = n.saturating_sub(300);
    while !a.is_char_boundary(i) {
        i += 1;
    }
    clip(&a[i..])
}

struct Stream<'s, 'a> {
    t: Option<&'s T<'a>>,
    data: &'s [u8],
    piece: usize,
    out: Vec<u8>,
}
impl Stream<'_, '_> {
    fn step(&self) -> io::Result<()> {
        if self.t.is_some_and(T::tick) {
            return Err(io::Error::new(io::ErrorKind::Other, "injected"));
        }
        Ok(())
    }
}
impl Read for Stream<'_, '_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.step()?;
        let n = self.data.len().min(buf.len()).min(self.piece);
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}
impl Write for Stream<'_, '_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.step()?;
        let n = buf.len().min(self.piece);
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.step()
    }
}

fn shown<E: std::fmt::Display>(r: Result<Compose, E>) -> String {
    match r {
        Ok(c) => match serde_yaml::to_string(&c) {
            Ok(t) => format!("loaded\n{t}"),
            Err(e) => format!("loaded, not saved: {e}"),
        },
        Err(e) => format!("rejected: {e}"),
    }
}

fn perform(w: &World, op: Op, t: Option<&T<'_>>) -> String {
    let stream = |data| Stream {
        t,
        data,
        piece: 150,
        out: Vec::new(),
    };
    let hook = || t.is_some_and(T::tick);
    let note = |what| {
        if let Some(t) = t {
            t.cx.count(what);
        }
    };
    let quiet = Cx::seeded(0);
    match op {
        Op::Load(d, how, merge) => {
            let o = &w.opts[usize::from(merge)];
            if merge {
                note("load with merging");
            }
            let d = &w.docs[d];
            match how {
                0 => shown(o.from_yaml_reader(stream(d.text.as_bytes()))),
                1 => shown(serde_yaml::from_reader::<_, Compose>(stream(d.text.as_bytes()))),
                2 => shown(o.from_yaml_str(&d.text)),
                3 => shown(o.from_yaml_slice(d.text.as_bytes())),
                _ => match &d.value {
                    Some(v) => shown(o.clone().from_yaml_value(v.clone())),
                    None => String::new(),
                },
            }
        }
        Op::De(d) => {
            let Some(v) = &w.docs[d].value else { return String::new() };
            let mut st = DeSt::new(&quiet, false, None);
            st.hook = Some(&hook);
            shown(Compose::deserialize(SimDe { st: &st, v }))
        }
        Op::Save(d) => {
            let Some(c) = &w.docs[d].c else { return String::new() };
            note("shared document saved");
            let mut o = stream(&[]);
            match serde_yaml::to_writer(&mut o, c) {
                Ok(()) => String::from_utf8_lossy(&o.out).into_owned(),
                Err(e) => format!("failed: {e}"),
            }
        }
        Op::Ser(d) => {
            let Some(c) = &w.docs[d].c else { return String::new() };
            note("shared document saved");
            let mut st = SerSt::new(&quiet, None);
            st.hook = Some(&hook);
            match c.serialize(SimSer(&st)) {
                Ok(v) => serde_yaml::to_string(&v).unwrap_or_default(),
                Err(e) => format!("failed: {e}"),
            }
        }
        Op::Validate(d) => {
            let Some(c) = &w.docs[d].c else { return String::new() };
            [
                c.validate_all(),
                c.validate_networks(),
                c.validate_volumes(),
                c.validate_configs(),
                c.validate_secrets(),
            ]
            .map(|r| r.map_or_else(|e| e.to_string(), |()| "ok".into()))
            .join("\n")
        }
        Op::Debug(d) => format!("{:?}", w.docs[d].c),
        Op::Convert(d, seed) => {
            let Some(c) = &w.docs[d].c else { return String::new() };
            note("shared document converted");
            let mut c = c.clone();
            let mut said = String::new();
            let cx = Cx::seeded(seed);
            for _ in 0..10 {
                match c10::convert(&cx, &mut c) {
                    Ok(x) => said.push_str(x.unwrap_or("-")),
                    Err(v) => {
                        said.push_str(&v.class);
                        break;
                    }
                }
            }
            said.push_str(&serde_yaml::to_string(&c).unwrap_or_default());
            said
        }
        Op::History(p, seed) => {
            note("history on values");
            let cx = Cx::seeded(seed);
            let r = (HISTORIES[p].run)(&cx);
            let o = cx.outcome(Ok(()));
            format!("{:016x} {} {:?}", o.hash, o.events, r.map_err(|v| (v.class, v.msg)))
        }
    }
}

fn a_doc(cx: &Cx) -> Doc {
    let sh = Shape::small(cx);
    let mut p = gen::compose(cx, sh);
    let text = match cx.draw(8) {
        0..=2 => emit(cx, &p.w, &Style::draw(cx)),
        3..=5 => c11::folded_text(cx, &p.w),
        6 => {
            for _ in 0..=cx.n(2) {
                mutate::tree(cx, &mut p.w);
            }
            emit(cx, &p.w, &Style::simple())
        }
        _ => {
            let t = emit(cx, &p.w, &Style::simple());
            let n = 1 + cx.n(3);
            String::from_utf8_lossy(&mutate::bytes(cx, t.as_bytes(), n)).into_owned()
        }
    };
    let text = if mutate::huge(text.as_bytes()) { "services: {}\n".to_owned() } else { text };
    Doc {
        text,
        value: None,
        c: None,
    }
}

fn an_op(cx: &Cx, docs: usize) -> Op {
    let d = cx.n(docs);
    match cx.draw(12) {
        0..=3 => Op::Load(d, cx.draw(5), cx.coin()),
        4 => Op::De(d),
        5 => Op::Save(d),
        6..=7 => Op::Ser(d),
        8 => Op::Validate(d),
        9 => Op::Convert(d, cx.draw(1 << 20)),
        10 => Op::History(cx.n(HISTORIES.len()), cx.draw(1 << 20)),
        _ => Op::Debug(d),
    }
}

fn run(cx: &Cx) -> Res {
    let docs: Vec<Doc> = (0..cx.range(1, 3)).map(|_| a_doc(cx)).collect();
    let mut on = Compose::options();
    on.apply_merge(true);
    let n = docs.len();
    let mut w = World {
        docs,
        opts: [Compose::options(), on],
        ops: (0..cx.range(2, 7)).map(|_| an_op(cx, n)).collect(),
        want: Vec::new(),
    };
    for d in &w.docs {
        cx.note(|| format!("document:\n{}", d.text));
    }
    cx.note(|| format!("operations: {:?}", w.ops));
    // each alone, in a process that has done nothing else
    for k in 0..w.ops.len() {
        let r = in_process(60, |_| {
            prepare(&mut w);
            perform(&w, w.ops[k], None).into_bytes()
        });
        match r {
            Ok(v) => w.want.push(String::from_utf8_lossy(&v).into_owned()),
            Err(e) => return viol(e, format!("{:?} alone ended with a {e}", w.ops[k])),
        }
    }
    prepare(&mut w);
    let threads = if cx.huge(40) { *cx.pick(&[5, 6, 8, 9, 12, 16, 17]) } else { cx.range(1, 4) };
    let scale = *cx.pick(&[0, 3, 30, 300, 3000]);
    cx.ev("threads", threads as u64, scale);
    if threads > 1 {
        cx.nontrivial();
    }
    let s = Sched::new(cx, threads, scale);
    let (w, c2) = (Arc::new(w), cx.clone());
    let out = s.run(threads, move |_| {
        let cx = &c2;
        let t = T {
            cx,
            w: &w,
            depth: Cell::new(0),
            left: Cell::new(0),
            gap: *cx.pick(&[1, 6, 40, 400]),
            fault: Cell::new(None),
            fired: Cell::new(false),
            nested: Cell::new(0),
            bad: RefCell::default(),
        };
        for _ in 0..cx.range(1, 5) {
            let k = cx.n(w.ops.len());
            let many = if matches!(w.ops[k], Op::History(..) | Op::Convert(..)) { 12 } else { 150 };
            match cx.draw(24) {
                23 => {
                    cx.count("abandoned many times");
                    let p = cx.coin();
                    for _ in 0..cx.range(10, many) {
                        t.op_with(k, Some((mix(t.left.get()) % 60, p)));
                    }
                    t.op_with(k, None);
                }
                22 => {
                    cx.count("repeated many times");
                    for _ in 0..cx.range(10, many) {
                        t.op_with(k, None);
                    }
                }
                _ => t.op(k),
            }
        }
        t.bad.into_inner()
    });
    for o in out {
        match o {
            Some(Some(v)) => return Err(v),
            Some(None) => {}
            None => return viol("panic", "a simulated thread panicked"),
        }
    }
    Ok(())
}

/// The values that are used but not loaded by the operations themselves.
fn prepare(w: &mut World) {
    for d in &mut w.docs {
        d.value = serde_yaml::from_str(&d.text).ok();
        d.c = catch_unwind(AssertUnwindSafe(|| w.opts[1].from_yaml_str(&d.text).ok())).ok().flatten();
    }
}
