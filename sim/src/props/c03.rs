use super::Prop;
use crate::comp::{self, At, How, Sink};
use crate::core::{guard, viol, Cx, Res};
use crate::de::INJECTED;
use crate::ensure;
use crate::io::{Fault, SimWriter, KINDS};
use crate::ser::{SimSer, St};
use crate::sess::Session;
use crate::util::*;
use serde::Serialize;
use serde_yaml::Value;

pub const PROP: Prop = Prop {
    id: "C03",
    run,
    quick_runs: 80000,
    apart: false,
    rule: "Each run loads a generated document, edits it, and saves it many times with faults at drawn points: a writer that fails or is full after k bytes (with short and interrupted writes), a serializer that fails at callback k, a formatter that fails at the k-th piece of a formatted string. The save must report the failure, make no further callback, leave a prefix of the undisturbed text, and a following save must be complete. Announced lengths and duplicate keys are checked on the undisturbed pass. Drawn parts of the document (sections, single settings, the structures flattened into them) are saved on their own in the same way. For small documents and parts every k is tried. Non-trivial: at least one fault fired.",
    real: "all of compose_spec's saving, serde, serde_yaml",
    stub: "output device, serde Serializer for the callback faults",
    probes: &[
        "write error",
        "disk full (write returns 0)",
        "short write",
        "write interrupted (EINTR)",
        "serializer error",
        "part saved alone",
        "every callback tried",
    ],
    assume: &["documents come from the harness's grammar"],
};

/// Undisturbed pass over the instrumented serializer: protocol checks and its number of callbacks.
pub fn clean<T: Serialize>(cx: &Cx, what: &str, v: &T) -> Res<(Value, u64)> {
    let st = St::new(cx, None);
    let r = guard(what, || v.serialize(SimSer(&st)))?;
    let out = match r {
        Ok(v) => v,
        Err(e) => return viol("save", format!("{what} cannot be saved: {e}")),
    };
    if let Some(b) = st.bad.borrow().first() {
        return viol("protocol", format!("{what}: {b}"));
    }
    Ok((out, st.calls.get()))
}

pub fn fail_ser<T: Serialize>(cx: &Cx, what: &str, v: &T, all_below: u64) -> Res {
    let (_, n) = clean(cx, what, v)?;
    let all = n <= 60 || (n <= all_below && cx.chance(1, 8));
    if all {
        cx.count("every callback tried");
    }
    let m = if all { n } else { 16 };
    for i in 0..m {
        let k = if all { i } else { cx.draw(n) };
        let st = St::new(cx, Some(k));
        let r = guard(what, || v.serialize(SimSer(&st)))?;
        ensure!(st.fired.get(), "callbacks-differ", "{what}: callback {k} of {n} was not made when saving again");
        match r {
            Ok(_) => return viol("swallowed-ser-error", format!("{what} was saved although the serializer failed at callback {k} of {n}")),
            Err(e) => ensure!(e.0.contains(INJECTED), "error-replaced", "{what}: the serializer's error became {e}"),
        }
        ensure!(st.late.get() == 0, "went-on", "{what}: {} callbacks were made after the failure at {k} of {n}", st.late.get());
        if let Some(b) = st.bad.borrow().first() {
            return viol("protocol", format!("{what}: {b}"));
        }
        cx.nontrivial();
    }
    Ok(())
}

/// Saves parts of the document on their own, failing.
struct Parts<'a>(&'a Cx);

impl Parts<'_> {
    fn one<T: Serialize>(&self, name: &str, v: &T) -> Res {
        let cx = self.0;
        cx.count("part saved alone");
        fail_ser(cx, name, v, 200)?;
        let text = match guard(name, || serde_yaml::to_string(v).map_err(|e| e.to_string()))? {
            Ok(t) => t,
            Err(e) => return viol("save", format!("{name} cannot be saved alone: {e}")),
        };
        let limit = cx.n(text.len());
        let mut w = SimWriter::new(cx, limit, Fault::Error(*cx.pick(KINDS)));
        let (fired, out) = (w.fired.clone(), w.out.clone());
        let r = guard(name, || serde_yaml::to_writer(&mut w, v))?;
        let out = out.borrow();
        ensure!(*fired.borrow() && r.is_err(), "swallowed-write-error", "{name} was saved although the device failed after {limit} of {} bytes", text.len());
        ensure!(text.as_bytes().starts_with(&out), "not-a-prefix", "{name}: after the failure the device holds\n{}\nwhich does not begin\n{}", clip(&String::from_utf8_lossy(&out)), clip(&text));
        Ok(())
    }
}

impl Sink for Parts<'_> {
    fn part<T: Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug + 'static>(&mut self, name: &str, v: &T, _: &At<'_>, _: How) -> Res {
        self.one(name, v)
    }
    fn saved_only<T: Serialize + 'static>(&mut self, name: &str, v: &T) -> Res {
        self.one(name, v)
    }
}

fn run(cx: &Cx) -> Res {
    let d = if cx.coin() { small_doc(cx) } else { doc(cx) };
    let c = match load(cx, &d.text, Via::Str)? {
        Ok(c) => c,
        Err(e) => return viol("rejected", format!("valid document rejected: {e}\n{}", clip(&d.text))),
    };
    let mut s = Session::new(c, d.p.c);
    for _ in 0..cx.n(3) {
        s.edit(cx)?;
    }
    let c = &s.c;
    let text = match save(c)? {
        Ok(t) => t,
        Err(e) => return viol("save", format!("cannot save: {e}")),
    };
    for _ in 0..=cx.n(5) {
        let fault = match cx.draw(5) {
            0..=2 => Fault::Error(*cx.pick(KINDS)),
            3 => Fault::Full,
            _ => Fault::None,
        };
        let limit = match cx.draw(4) {
            0 => 0,
            1 => text.len().saturating_sub(1 + cx.n(4)),
            _ => cx.n(text.len() + 1),
        };
        let mut w = SimWriter::new(cx, limit, fault);
        let (fired, out) = (w.fired.clone(), w.out.clone());
        let r = guard("saving", || serde_yaml::to_writer(&mut w, c))?;
        let out = out.borrow();
        cx.ev("saved", u64::from(r.is_ok()), out.len() as u64);
        match r {
            Ok(()) => {
                ensure!(!*fired.borrow(), "swallowed-write-error", "saved although the device failed after {limit} bytes");
                ensure!(**out == *text.as_bytes(), "output-differs", "the text written differs from the text saved before:\n{}", clip(&String::from_utf8_lossy(&out)));
            }
            Err(e) => {
                ensure!(*fired.borrow(), "save", "save failed without a fault: {e}");
                ensure!(text.as_bytes().starts_with(&out), "not-a-prefix", "after the failure the device holds\n{}\nwhich does not begin\n{}", clip(&String::from_utf8_lossy(&out)), clip(&text));
                cx.nontrivial();
            }
        }
    }
    let (v, _) = clean(cx, "the document", c)?;
    let want = guard("serializing", || serde_yaml::to_value(c).map_err(|e| e.to_string()))?;
    ensure!(want.as_ref() == Ok(&v) || text.contains(".nan"), "output-differs", "two serializers were given different values");
    fail_ser(cx, "the document", c, 1500)?;
    comp::some(cx, c, 3, &mut Parts(cx))?;
    ensure!(save(c)?.as_deref() == Ok(&text), "retry-differs", "after failed saves the document is saved differently");
    Ok(())
}
