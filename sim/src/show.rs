//! Formatting into simulated sinks: text sinks that fail, take part of a piece, panic or
//! format something else meanwhile; byte sinks that fail, fill up, take part of a write
//! or are interrupted; other threads.

use crate::core::{guard, viol, Cx, Res, Viol};
use crate::ensure;
use crate::io::{Fault, SimWriter, KINDS};
use std::cell::{Cell, RefCell};
use std::fmt::{self, Display};

#[derive(Clone, Copy, PartialEq, Debug)]
enum At {
    Never,
    /// refuse the piece that would pass this many bytes
    Byte(usize),
    /// take the piece up to this many bytes, then fail
    Within(usize),
    /// refuse this piece
    Piece(usize),
}

struct Sink<'a> {
    at: At,
    out: String,
    pieces: usize,
    failed: bool,
    late: usize,
    panics: bool,
    /// formatted by the sink between pieces
    nested: Option<(&'a dyn Display, &'a str)>,
    nested_bad: bool,
}

impl<'a> Sink<'a> {
    fn new(at: At) -> Self {
        Sink { at, out: String::new(), pieces: 0, failed: false, late: 0, panics: false, nested: None, nested_bad: false }
    }
    fn fail(&mut self) -> fmt::Result {
        self.failed = true;
        if self.panics {
            panic!("injected panic in the sink");
        }
        Err(fmt::Error)
    }
}

impl fmt::Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.is_empty() {
            return Ok(());
        }
        if self.failed {
            self.late += 1;
            return Err(fmt::Error);
        }
        if let Some((v, want)) = self.nested {
            self.nested_bad |= v.to_string() != want;
        }
        let n = self.pieces;
        self.pieces += 1;
        match self.at {
            At::Byte(k) if self.out.len() + s.len() > k => return self.fail(),
            At::Piece(k) if n == k => return self.fail(),
            At::Within(k) if self.out.len() + s.len() > k => {
                let mut m = k - self.out.len();
                while !s.is_char_boundary(m) {
                    m -= 1;
                }
                self.out.push_str(&s[..m]);
                return self.fail();
            }
            _ => {}
        }
        self.out.push_str(s);
        Ok(())
    }
}

/// How a value is put into the text.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Form {
    Plain,
    Around,
    Right,
    Left,
    Alternate,
    Plus,
    Zero,
    Precision,
    Twice,
}
const FORMS: &[Form] = &[Form::Plain, Form::Around, Form::Right, Form::Left, Form::Alternate, Form::Plus, Form::Zero, Form::Precision, Form::Twice];

fn put(w: &mut dyn fmt::Write, f: Form, v: &dyn Display) -> fmt::Result {
    match f {
        Form::Plain => write!(w, "{v}"),
        Form::Around => write!(w, "<{v}>"),
        Form::Right => write!(w, "{v:>12}"),
        Form::Left => write!(w, "{v:-<7}|"),
        Form::Alternate => write!(w, "{v:#}"),
        Form::Plus => write!(w, "{v:+}"),
        Form::Zero => write!(w, "{v:08}"),
        Form::Precision => write!(w, "{v:.2}"),
        Form::Twice => write!(w, "{v} {v}"),
    }
}

fn put_io(w: &mut dyn std::io::Write, f: Form, v: &dyn Display) -> std::io::Result<()> {
    match f {
        Form::Around => write!(w, "<{v}>"),
        Form::Twice => write!(w, "{v} {v}"),
        _ => write!(w, "{v}"),
    }
}

struct Shared<'a>(&'a dyn Display);
// Every type given to `check` is Send and Sync; the trait object does not say so.
unsafe impl Send for Shared<'_> {}
unsafe impl Sync for Shared<'_> {}

fn full(what: &str, f: Form, v: &dyn Display) -> Res<(String, usize)> {
    let mut s = Sink::new(At::Never);
    let r = guard(&format!("formatting {what}"), || put(&mut s, f, v))?;
    ensure!(r.is_ok(), "spurious-error", "formatting {what} ({f:?}) failed although the sink accepted everything: {:?}", s.out);
    Ok((s.out, s.pieces))
}

/// Format `v` into sinks of every kind. `what` names the type.
pub fn check(cx: &Cx, what: &str, v: &dyn Display) -> Res {
    let (text, pieces) = full(what, Form::Plain, v)?;
    let again = guard(what, || v.to_string())?;
    ensure!(again == text, "text-changes", "{what} formats as {text:?}, then as {again:?}");
    cx.count("value formatted");
    let limit = text.len();
    let every = limit <= 48 || (limit <= 300 && cx.chance(1, 6));
    let n = if every { limit } else { 6.min(limit) };
    if every {
        cx.count("every sink limit tried");
    }
    for i in 0..n {
        let k = if every { i } else { cx.n(limit) };
        fault(cx, what, v, Form::Plain, &text, if i % 2 == 0 { At::Byte(k) } else { At::Within(k) })?;
    }
    for i in 0..pieces.min(8) {
        let k = if pieces <= 8 { i } else { cx.n(pieces) };
        fault(cx, what, v, Form::Plain, &text, At::Piece(k))?;
    }
    for _ in 0..2 {
        let f = *cx.pick(FORMS);
        let (t, pieces) = full(what, f, v)?;
        match f {
            Form::Around => ensure!(t == format!("<{text}>"), "text-changes", "{what} formats as {text:?} alone, but with text around it gives {t:?}"),
            Form::Twice => ensure!(t == format!("{text} {text}"), "text-changes", "{what} formats as {text:?}, but twice in a row gives {t:?}"),
            _ => {}
        }
        if t.is_empty() {
            continue;
        }
        let at = match cx.draw(3) {
            0 => At::Byte(cx.n(t.len())),
            1 => At::Within(cx.n(t.len())),
            _ => At::Piece(cx.n(pieces)),
        };
        fault(cx, what, v, f, &t, at)?;
    }
    match cx.draw(5) {
        0 => bytes(cx, what, v, &text)?,
        1 => nested(cx, what, v, &text)?,
        2 if !text.is_empty() => panics(cx, what, v, &text)?,
        3 if cx.chance(1, 6) => {
            cx.count("formatted on another thread");
            let s = &Shared(v);
            let got = std::thread::scope(|sc| sc.spawn(|| guard(what, || { let s = s; s.0.to_string() })).join());
            match got {
                Ok(g) => {
                    let g = g?;
                    ensure!(g == text, "text-changes", "{what} formats as {text:?}, on another thread as {g:?}");
                }
                Err(_) => return viol("panic", format!("formatting {what} on another thread panicked")),
            }
        }
        _ => {}
    }
    let again = guard(what, || v.to_string())?;
    ensure!(again == text, "text-changes", "{what} formats as {text:?}; after failed formatting it formats as {again:?}");
    Ok(())
}

fn fault(cx: &Cx, what: &str, v: &dyn Display, f: Form, text: &str, at: At) -> Res {
    let mut s = Sink::new(at);
    let r = guard(&format!("formatting {what}"), || put(&mut s, f, v))?;
    ensure!(text.starts_with(&s.out), "not-a-prefix", "{what} ({f:?}): a sink failing at {at:?} got {:?}, not a prefix of {text:?}", s.out);
    if !s.failed {
        ensure!(r.is_ok(), "spurious-error", "formatting {what} ({f:?}) failed although the sink did not fail: {text:?}");
        ensure!(s.out == text, "text-changes", "{what} ({f:?}) formats as {text:?}, then as {:?}", s.out);
        return Ok(());
    }
    cx.count("sink error");
    cx.nontrivial();
    cx.ev("sink fault", s.pieces as u64, s.out.len() as u64);
    ensure!(r.is_err(), "swallowed-sink-error", "{what} ({f:?}): the sink failed at {at:?} of {text:?}, having got {:?}, and formatting reported success", s.out);
    ensure!(s.late == 0, "late-write", "{what} ({f:?}): the sink failed at {at:?} of {text:?} and was written to again {} times", s.late);
    Ok(())
}

fn bytes(cx: &Cx, what: &str, v: &dyn Display, text: &str) -> Res {
    let f = *cx.pick(&[Form::Plain, Form::Around, Form::Twice]);
    let (text, _) = if f == Form::Plain { (text.to_owned(), 0) } else { full(what, f, v)? };
    let kind = *cx.pick(KINDS);
    let fault = match cx.draw(4) {
        0 => Fault::None,
        1 => Fault::Full,
        _ => Fault::Error(kind),
    };
    let mut w = SimWriter::new(cx, cx.n(text.len() + 1), fault);
    let (out, fired) = (w.out.clone(), w.fired.clone());
    let r = guard(&format!("writing {what}"), || put_io(&mut w, f, v))?;
    let got = out.borrow().clone();
    ensure!(text.as_bytes().starts_with(&got), "not-a-prefix", "{what} ({f:?}): a failing output got {:?}, not a prefix of {text:?}", String::from_utf8_lossy(&got));
    cx.count("written to a byte output");
    match r {
        Ok(()) => {
            ensure!(!*fired.borrow(), "swallowed-write-error", "{what} ({f:?}): the output failed after {} bytes of {text:?} and writing reported success", got.len());
            ensure!(got == text.as_bytes(), "lost-bytes", "{what} ({f:?}): {:?} was written, not {text:?}", String::from_utf8_lossy(&got));
        }
        Err(e) => {
            ensure!(*fired.borrow(), "spurious-error", "{what} ({f:?}): writing failed although the output did not: {e}");
            if let Fault::Error(k) = fault {
                ensure!(e.kind() == k, "error-replaced", "{what}: the output's {k:?} became {e:?}");
            }
        }
    }
    Ok(())
}

fn nested(cx: &Cx, what: &str, v: &dyn Display, text: &str) -> Res {
    let mut s = Sink::new(At::Never);
    s.nested = Some((v, text));
    let r = guard(&format!("formatting {what}"), || put(&mut s, Form::Plain, v))?;
    cx.count("formatted while being formatted");
    ensure!(r.is_ok() && s.out == text && !s.nested_bad, "text-changes", "{what}: formatting it while it is being formatted gives {:?}, not {text:?}", s.out);
    Ok(())
}

fn panics(cx: &Cx, what: &str, v: &dyn Display, text: &str) -> Res {
    let k = cx.n(text.len());
    let mut s = Sink::new(At::Byte(k));
    s.panics = true;
    let r = guard("the sink", || put(&mut s, Form::Plain, v));
    cx.count("sink panic");
    ensure!(r.is_err(), "swallowed-panic", "{what}: the sink panicked and formatting returned {:?}", r.ok());
    ensure!(text.starts_with(&s.out), "not-a-prefix", "{what}: a panicking sink got {:?}, not a prefix of {text:?}", s.out);
    Ok(())
}

/// An error value and what it says caused it.
pub fn error(cx: &Cx, what: &str, e: &(dyn std::error::Error + 'static)) -> Res {
    cx.count("error value formatted");
    let mut e = Some(e);
    let mut depth = 0;
    while let Some(x) = e {
        check(cx, what, x)?;
        let t = guard(what, || (x.to_string(), format!("{x:?}"), format!("{x:?}")))?;
        ensure!(!t.0.is_empty(), "silent", "{what}: an error without a message: {}", t.1);
        ensure!(t.1 == t.2, "text-changes", "{what}: debug-formats as {}, then as {}", t.1, t.2);
        e = x.source();
        depth += 1;
        ensure!(depth < 20, "endless-sources", "{what}: sources do not end");
    }
    Ok(())
}

// ------------------------------------------------------------------ watching

thread_local! {
    static WATCH: RefCell<Option<Cx>> = const { RefCell::new(None) };
    static SEEN: RefCell<Option<Viol>> = const { RefCell::new(None) };
    static LEFT: Cell<u32> = const { Cell::new(0) };
}

/// Run `f`; every value formatted for a simulated serializer, and every error given to a
/// simulated format's error type, is checked. At most `most` values are.
pub fn watching<T>(cx: &Cx, most: u32, f: impl FnOnce() -> T) -> Res<T> {
    WATCH.with(|w| *w.borrow_mut() = Some(cx.clone()));
    LEFT.with(|l| l.set(most));
    let r = guard("a watched operation", f);
    WATCH.with(|w| *w.borrow_mut() = None);
    match SEEN.with(|s| s.borrow_mut().take()) {
        Some(v) => Err(v),
        None => r,
    }
}

/// Called for each value.
pub fn seen(what: &'static str, v: &dyn Display) {
    let Some(cx) = WATCH.with(|w| w.try_borrow().ok().and_then(|w| w.clone())) else { return };
    let left = LEFT.with(Cell::get);
    if left == 0 {
        return;
    }
    LEFT.with(|l| l.set(left - 1));
    // what the check itself formats is not watched
    WATCH.with(|w| *w.borrow_mut() = None);
    if let Err(v) = check(&cx, what, v) {
        SEEN.with(|s| {
            s.borrow_mut().get_or_insert(v);
        });
    }
    WATCH.with(|w| *w.borrow_mut() = Some(cx));
}
