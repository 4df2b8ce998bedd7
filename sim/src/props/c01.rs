use super::Prop;
use crate::core::{guard, viol, Cx, Res};
use crate::io::{End, SimReader};
use crate::mutate;
use crate::util::*;
use crate::y::{diff, emit, Style};
use compose_spec::{Compose, Options};
use serde_yaml::Value;

pub const PROP: Prop = Prop {
    id: "C01",
    run,
    quick_runs: 90000,
    apart: false,
    rule: "Each run generates one document (valid, or damaged in its values or its bytes), then loads it through a drawn number of entry points (string, slice, reader, parsed value, plain serde_yaml, builder with or without merging, one builder reused for several loads) while the simulated reader splits the bytes at drawn places, including inside characters, and interrupts reads. All outcomes must agree: equal values saving to equal bytes, or rejection everywhere (with the same message for the text entry points), and a valid document must save to its canonical form. Non-trivial: at least two entry points were compared.",
    real: "all of compose_spec (Options, loading, typed values, saving), serde, serde_yaml",
    stub: "byte source (simulated reader), hash seeds",
    probes: &[
        "read interrupted (EINTR)",
        "short read",
        "read split inside a character",
        "valid document",
        "damaged document accepted",
        "damaged document rejected",
        "builder reused",
    ],
    assume: &["documents without duplicate keys and custom tags, except that text entry points agree on those too"],
};

/// Load through one of the routes that parse straight from text.
fn text_route(cx: &Cx, o: &Options, k: u64, bytes: &[u8]) -> Res<Out> {
    let st = std::str::from_utf8(bytes).ok();
    let (what, r) = guard("load", || match (k, st) {
        (0, Some(t)) => ("from_yaml_str", o.from_yaml_str(t)),
        (1, _) => ("from_yaml_slice", o.from_yaml_slice(bytes)),
        (2, Some(t)) => ("serde_yaml::from_str", serde_yaml::from_str(t)),
        (3, _) => ("serde_yaml::from_reader", serde_yaml::from_reader(SimReader::new(cx, bytes, End::Eof))),
        (4, _) => ("serde_yaml::from_slice", serde_yaml::from_slice(bytes)),
        _ => ("from_yaml_reader", o.from_yaml_reader(SimReader::new(cx, bytes, End::Eof))),
    })?;
    finish(what, r)
}

/// Load through one of the routes that parse a generic value first.
fn value_route(cx: &Cx, merge: &Options, plain: &Options, k: u64, bytes: &[u8]) -> Res<Out> {
    let st = std::str::from_utf8(bytes).ok();
    let v = || serde_yaml::from_slice::<Value>(bytes);
    let (what, r) = guard("load", || match (k, st) {
        (0, Some(t)) => ("merge from_yaml_str", merge.from_yaml_str(t)),
        (1, _) => ("merge from_yaml_slice", merge.from_yaml_slice(bytes)),
        (2, _) => ("merge from_yaml_value", v().and_then(|v| merge.from_yaml_value(v))),
        (3, _) => ("from_yaml_value", v().and_then(|v| plain.from_yaml_value(v))),
        (4, _) => ("serde_yaml::from_value", v().and_then(serde_yaml::from_value)),
        _ => ("merge from_yaml_reader", merge.from_yaml_reader(SimReader::new(cx, bytes, End::Eof))),
    })?;
    finish(what, r)
}

fn run(cx: &Cx) -> Res {
    let plain = Compose::options();
    let mut merge = Compose::options();
    merge.apply_merge(true);
    // one builder used for several loads, of other documents too
    if cx.chance(1, 4) {
        let other = small_doc(cx);
        cx.count("builder reused");
        let _ = text_route(cx, &plain, 5, other.text.as_bytes())?;
        let _ = value_route(cx, &merge, &plain, 5, other.text.as_bytes())?;
    }
    let mut d = if cx.chance(1, 3) { small_doc(cx) } else { doc(cx) };
    let mut bytes = std::mem::take(&mut d.text).into_bytes();
    let kind = cx.draw(4);
    match kind {
        2 => {
            for _ in 0..=cx.n(2) {
                mutate::tree(cx, &mut d.p.w);
            }
            let st = Style::draw(cx);
            bytes = emit(cx, &d.p.w, &st).into_bytes();
        }
        3 => {
            let n = 1 + cx.n(3);
            bytes = mutate::bytes(cx, &bytes, n);
        }
        _ => {}
    }
    if mutate::huge(&bytes) {
        return Ok(());
    }
    cx.note(|| format!("document:\n{}", String::from_utf8_lossy(&bytes)));
    cx.nontrivial();

    let first = text_route(cx, &plain, 1, &bytes)?;
    for _ in 0..=cx.n(3) {
        let k = cx.draw(6);
        cx.ev("text route", k, 0);
        let o = text_route(cx, &plain, k, &bytes)?;
        agree(&first, &o, true, &bytes)?;
    }
    // documents with a merge key are the business of another property
    let has_merge = bytes.windows(2).any(|w| w == b"<<");
    let k0 = cx.draw(6);
    let other = value_route(cx, &merge, &plain, k0, &bytes)?;
    if !has_merge {
        for _ in 0..=cx.n(2) {
            let k = cx.draw(6);
            cx.ev("value route", k, 0);
            let o = value_route(cx, &merge, &plain, k, &bytes)?;
            agree(&other, &o, false, &bytes)?;
        }
    }
    if kind < 2 {
        cx.count("valid document");
        if !has_merge {
            agree(&first, &other, false, &bytes)?;
        }
        match &first.r {
            Err(e) => return viol("rejected", format!("valid document rejected: {e}\n{}", clip(&String::from_utf8_lossy(&bytes)))),
            Ok((_, t)) => {
                let v: Value = match serde_yaml::from_str(t) {
                    Ok(v) => v,
                    Err(e) => return viol("saved-not-yaml", format!("{e}\n{}", clip(t))),
                };
                if let Some(x) = diff(&v, &d.p.c, "") {
                    return viol("lost", x);
                }
            }
        }
    } else if first.r.is_ok() {
        cx.count("damaged document accepted");
    } else {
        cx.count("damaged document rejected");
    }
    Ok(())
}
