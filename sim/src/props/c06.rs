use super::Prop;
use crate::core::{guard, viol, Cx, Res};
use crate::ensure;
use crate::mutate;
use crate::rules;
use crate::scal::{Ref, KINDS};
use crate::util::*;
use crate::wild;
use crate::y::{diff, emit, int, s, Style, Y};
use compose_spec::Compose;
use serde_yaml::Value;

pub const PROP: Prop = Prop {
    id: "C06",
    run,
    quick_runs: 400000,
    apart: false,
    rule: "Each run does one of three things. (1) Damage: a generated document is damaged (bit flips, torn, lost, zeroed, duplicated or reordered blocks, replaced tokens and values) and loaded; whatever is accepted is saved, loaded again and saved again. (2) Scalars: a written form of one of the constrained scalars is generated, damaged step by step, put in a document and loaded; acceptance and the saved form must equal an independent reference parser's. (3) Sections: a drawn combination of fields, with missing, excluding, unknown, repeated and null ones, is loaded; acceptance and the saved fields must equal a table of the section's rules. Non-trivial: a load was judged.",
    real: "all of compose_spec's loading and saving, serde_yaml",
    stub: "storage that damages documents",
    probes: &["damaged document accepted", "damaged document rejected", "scalar accepted", "scalar rejected", "fields accepted", "fields rejected", "unknown field", "repeated field", "null field", "truncated (torn write)", "damaged scalar", "outline filled", "same text after reload"],
    assume: &["CPU sets and port ranges over millions of entries are not loaded; documents whose strings exceed a few kilobytes are not generated; forms the documentation leaves open (a leading plus sign, an image with a port but no tag) are not judged"],
};

fn run(cx: &Cx) -> Res {
    match cx.draw(8) {
        0..=2 => damage(cx),
        3..=5 => scalar(cx),
        _ => fields(cx),
    }
}

/// Saved, loaded, saved and loaded again.
pub fn stable(cx: &Cx, c: &Compose, text: &str) -> Res {
    let Ok(t1) = save(c)? else {
        return viol("unsaveable", format!("accepted, but cannot be saved:\n{}", clip(text)));
    };
    let c1 = match load(cx, &t1, pick_via_plain(cx))? {
        Ok(c) => c,
        Err(e) => return viol("unloadable", format!("accepted, but what it saves to is refused: {e}\n{}\n---\n{}", clip(text), clip(&t1))),
    };
    let Ok(t2) = save(&c1)? else {
        return viol("unsaveable", format!("reloaded, but cannot be saved:\n{}", clip(&t1)));
    };
    ensure!(t1 == t2, "text-changes", "saving, loading and saving changes the text:\n{}\n---\n{}", clip(&t1), clip(&t2));
    cx.count("same text after reload");
    // text with repeated keys is no value at all
    let v: Value = serde_yaml::from_str(text).unwrap_or(Value::Sequence(Vec::new()));
    if !t1.contains(".nan") {
        if !value_has_empty(&v) {
            ensure!(*c == c1, "value-changes", "the reloaded value differs (saved alike):\n{}", clip(&t1));
        }
        let c2 = match load(cx, &t2, Via::Str)? {
            Ok(c) => c,
            Err(e) => return viol("unloadable", format!("{e}\n{}", clip(&t2))),
        };
        ensure!(c1 == c2, "value-changes", "the value reloaded twice differs:\n{}", clip(&t2));
    }
    Ok(())
}

fn value_has_empty(v: &Value) -> bool {
    match v {
        Value::Sequence(v) => v.is_empty() || v.iter().any(value_has_empty),
        Value::Mapping(m) => m.is_empty() || m.iter().any(|(_, v)| value_has_empty(v)),
        Value::Tagged(t) => value_has_empty(&t.value),
        _ => false,
    }
}

const PLAIN: &[Via] = &[Via::Str, Via::Slice, Via::Reader, Via::SerdeStr, Via::SerdeReader];
fn pick_via_plain(cx: &Cx) -> Via {
    *cx.pick(PLAIN)
}

fn damage(cx: &Cx) -> Res {
    let mut d = if cx.coin() { small_doc(cx) } else { doc(cx) };
    let text = if cx.coin() {
        let n = 1 + cx.n(3);
        mutate::bytes(cx, d.text.as_bytes(), n)
    } else {
        for _ in 0..=cx.n(2) {
            mutate::tree(cx, &mut d.p.w);
        }
        let st = Style::draw(cx);
        emit(cx, &d.p.w, &st).into_bytes()
    };
    if mutate::huge(&text) {
        return Ok(());
    }
    cx.note(|| format!("damaged:\n{}", String::from_utf8_lossy(&text)));
    cx.nontrivial();
    let r = guard("loading a damaged document", || Compose::options().from_yaml_slice(&text))?;
    let mut m = Compose::options();
    let merged = guard("loading a damaged document with merge", || m.apply_merge(true).from_yaml_slice(&text))?;
    if let Ok(m) = &merged {
        // what is accepted is well-formed however it was loaded
        stable(cx, m, &String::from_utf8_lossy(&text))?;
    }
    match r {
        Ok(c) => {
            cx.count("damaged document accepted");
            stable(cx, &c, &String::from_utf8_lossy(&text))
        }
        Err(e) => {
            cx.count("damaged document rejected");
            let a = guard("formatting the error", || (e.to_string(), format!("{e:?}")))?;
            ensure!(!a.0.is_empty(), "silent", "an error without a message");
            Ok(())
        }
    }
}

fn plain_key(y: &Y) -> bool {
    matches!(y, Y::Str(x) if x == "<<")
}

fn scalar(cx: &Cx) -> Res {
    let k = &KINDS[cx.n(KINDS.len())];
    let p = (k.gen)(cx);
    match (k.refv)(&p.w) {
        Ref::Ok(c) => ensure!(
            format!("{c:?}") == format!("{:?}", p.c),
            "harness",
            "{}: the reference makes {:?} of {:?}, the generator {:?}",
            k.name,
            c,
            p.w,
            p.c
        ),
        Ref::Reject => return viol("harness", format!("{}: the reference rejects {:?}", k.name, p.w)),
        Ref::Skip => {}
    }
    let mut y = p.w;
    if cx.coin() {
        // outlines of the form
        for _ in 0..4 {
            let Some(x) = wild::text(cx, k.name) else { break };
            cx.count("outline filled");
            y = s(x);
            if mutate::huge(match &y { Y::Str(x) => x.as_bytes(), _ => b"" }) {
                continue;
            }
            judge(cx, k.name, &(k.wrap)(y.clone()), match (k.refv)(&y) {
                Ref::Skip => None,
                Ref::Ok(c) => Some(Some((k.wrap)(c))),
                Ref::Reject => Some(None),
            }, plain_key(&y))?;
        }
    }
    for step in 0..=cx.n(4) {
        if step > 0 {
            y = match (cx.draw(8), &y) {
                (0..=5, Y::Str(t)) => s(mutate::twist(cx, t)),
                (0..=5, Y::Int(n)) => match cx.draw(5) {
                    0 => int(n + 1),
                    1 => int(n - 1),
                    2 => int(-n),
                    3 => int(n.wrapping_mul(1 << 17)),
                    _ => s(n.to_string()),
                },
                (6, _) => s(cx.pick(mutate::TOKENS).to_string()),
                (7, _) => (*cx.pick(&[
                    Y::Bool(true),
                    Y::Int(0),
                    Y::Int(-1),
                    Y::Int(100),
                    Y::Int(101),
                    Y::Int(65535),
                    Y::Int(65536),
                    Y::Int(i128::from(u32::MAX)),
                    Y::Int(i128::from(u32::MAX) + 1),
                    Y::Int(i128::from(u64::MAX)),
                    Y::Float(1.5),
                ]))
                .clone(),
                _ => y,
            };
            cx.count("damaged scalar");
        }
        if matches!(y, Y::Int(i) if i > i128::from(u64::MAX) || i < i128::from(i64::MIN)) {
            return Ok(());
        }
        if matches!(&y, Y::Str(x) if mutate::huge(x.as_bytes()) || x.len() > 2000) {
            return Ok(());
        }
        judge(cx, k.name, &(k.wrap)(y.clone()), match (k.refv)(&y) {
            Ref::Skip => None,
            Ref::Ok(c) => Some(Some((k.wrap)(c))),
            Ref::Reject => Some(None),
        }, !matches!(y, Y::Str(_)) || plain_key(&y))?;
    }
    Ok(())
}

/// Load the document and compare with what the reference expects of it.
fn judge(cx: &Cx, name: &str, w: &Y, want: Option<Option<Y>>, values_only: bool) -> Res {
    let st = Style::draw(cx);
    let text = emit(cx, w, &st);
    // strings may be written without quotes in text, so other scalars are presented as values
    let vias: &[Via] = if values_only { &[Via::Value, Via::OptValue] } else { VIAS };
    let via = *cx.pick(vias);
    let r = load(cx, &text, via)?;
    cx.note(|| format!("{name} via {via:?}: {}\n{text}", if r.is_ok() { "accepted" } else { "rejected" }));
    let Some(want) = want else {
        return match r {
            Ok(c) => stable(cx, &c, &text),
            Err(_) => Ok(()),
        };
    };
    cx.nontrivial();
    match (r, want) {
        (Ok(c), Some(want)) => {
            cx.count("scalar accepted");
            let t = save(&c)?;
            let v = t.and_then(|t| serde_yaml::from_str::<Value>(&t).map_err(|e| e.to_string()));
            match v {
                Ok(v) => {
                    if let Some(x) = diff(&v, &want, "") {
                        return viol("scalar-changed", format!("{name}: {x}\n{}", clip(&text)));
                    }
                }
                Err(e) => return viol("unsaveable", format!("{name}: {e}\n{}", clip(&text))),
            }
            stable(cx, &c, &text)
        }
        (Err(_), None) => {
            cx.count("scalar rejected");
            Ok(())
        }
        (Ok(c), None) => viol(
            "scalar-accepted",
            format!("{name}: accepted via {via:?}, but it breaks the form's rules\n{}\n---\n{}", clip(&text), clip(&save(&c)?.unwrap_or_else(|e| e))),
        ),
        (Err(e), Some(_)) => viol("scalar-rejected", format!("{name}: rejected via {via:?}, but it follows the form's rules: {e}\n{}", clip(&text))),
    }
}

fn fields(cx: &Cx) -> Res {
    let case = rules::case(cx);
    let st = Style::draw(cx);
    let text = emit(cx, &case.w, &st);
    let via = pick_via_plain(cx);
    let r = load(cx, &text, via)?;
    cx.note(|| format!("{} via {via:?}: {}\n{text}", case.name, if r.is_ok() { "accepted" } else { "rejected" }));
    cx.nontrivial();
    match (r, case.c) {
        (Ok(c), Some(want)) => {
            cx.count("fields accepted");
            let v = save(&c)?.and_then(|t| serde_yaml::from_str::<Value>(&t).map_err(|e| e.to_string()));
            match v {
                Ok(v) => {
                    if let Some(x) = diff(&v, &want, "").filter(|_| !case.empty) {
                        return viol("fields-changed", format!("{}: {x}\n{}", case.name, clip(&text)));
                    }
                }
                Err(e) => return viol("unsaveable", format!("{}: {e}\n{}", case.name, clip(&text))),
            }
            stable(cx, &c, &text)
        }
        (Err(_), None) => {
            cx.count("fields rejected");
            Ok(())
        }
        (Ok(c), None) => viol(
            "fields-accepted",
            format!("{}: accepted, though fields are missing, unknown or exclude each other, so a setting is lost\n{}\n---\n{}", case.name, clip(&text), clip(&save(&c)?.unwrap_or_else(|e| e))),
        ),
        (Err(e), Some(_)) => viol("fields-rejected", format!("{}: rejected: {e}\n{}", case.name, clip(&text))),
    }
}
