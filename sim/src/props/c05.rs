use super::Prop;
use crate::core::{guard, on_thread, viol, Cx, Res};
use crate::ensure;
use crate::mutate;
use crate::sess::Session;
use crate::util::*;
use crate::y::{diff, emit, Style};
use compose_spec::Compose;
use serde_yaml::Value;

pub const PROP: Prop = Prop {
    id: "C05",
    run,
    quick_runs: 55000,
    apart: false,
    rule: "Each run takes a generated document (valid, or damaged) and lets several simulated processes, each with its own hash seeds and its own history of earlier loads, load it, validate it and save it: values, bytes, verdicts, messages and debug text must be the same in all, and the saved order must be the order of the document (compared with the canonical form, which is ordered). Also edits each copy the same way and compares again. Non-trivial: at least two processes with different hash seeds were compared.",
    real: "all of compose_spec, indexmap, serde_yaml, std hash maps with their real (seeded) hashers",
    stub: "processes (fresh threads), the OS entropy source behind hash seeds",
    probes: &["process started", "earlier load in the process", "valid document", "damaged document accepted", "damaged document rejected"],
    assume: &["the library's only per-process state is hash seeds (no files, environment or clock are read)"],
};

#[derive(PartialEq, Debug)]
struct Seen {
    loaded: Result<String, String>,
    debug: Option<String>,
    verdicts: Vec<String>,
    saved_as_value: Option<Value>,
}

fn look(text: &[u8], merge: bool) -> Res<Seen> {
    let mut o = Compose::options();
    o.apply_merge(merge);
    let r = guard("loading", || o.from_yaml_slice(text))?;
    Ok(match r {
        Err(e) => Seen {
            loaded: Err(format!("{e} / {e:?}")),
            debug: None,
            verdicts: vec![],
            saved_as_value: None,
        },
        Ok(c) => {
            let v = guard("validating", || {
                [
                    c.validate_all(),
                    c.validate_networks(),
                    c.validate_volumes(),
                    c.validate_configs(),
                    c.validate_secrets(),
                ]
                .map(|r| r.map_or_else(|e| e.to_string(), |()| "ok".into()))
                .to_vec()
            })?;
            Seen {
                loaded: save(&c)?,
                debug: Some(guard("debug text", || format!("{c:?}"))?),
                verdicts: v,
                saved_as_value: guard("serializing", || serde_yaml::to_value(&c).ok())?,
            }
        }
    })
}

fn run(cx: &Cx) -> Res {
    let mut d = if cx.coin() { small_doc(cx) } else { doc(cx) };
    let mut bytes = std::mem::take(&mut d.text).into_bytes();
    let kind = cx.draw(5);
    match kind {
        3 => {
            for _ in 0..=cx.n(3) {
                mutate::tree(cx, &mut d.p.w);
            }
            let st = Style::draw(cx);
            bytes = emit(cx, &d.p.w, &st).into_bytes();
        }
        4 => {
            let n = 1 + cx.n(3);
            bytes = mutate::bytes(cx, &bytes, n);
        }
        _ => {}
    }
    if mutate::huge(&bytes) {
        return Ok(());
    }
    let merge = cx.chance(1, 4);
    let edit_seed = cx.coin().then(|| cx.draw(1 << 30));
    cx.note(|| format!("document:\n{}", String::from_utf8_lossy(&bytes)));
    let mut first: Option<(Seen, Option<Result<String, String>>)> = None;
    let n = cx.range(2, 4);
    for p in 0..n {
        let entropy = cx.draw(1 << 30);
        let before = cx.n(3);
        let mut others = Vec::new();
        for _ in 0..before {
            cx.count("earlier load in the process");
            others.push(small_doc(cx).text);
        }
        cx.count("process started");
        cx.ev("process", entropy, before as u64);
        let b = bytes.clone();
        let dc = d.p.c.clone();
        let seen = on_thread(entropy, move || -> Res<_> {
            for o in &others {
                let _ = look(o.as_bytes(), merge)?;
            }
            let seen = look(&b, merge)?;
            // the same edits in every process
            let mut edited = None;
            if let (Some(e), true) = (edit_seed, seen.loaded.is_ok()) {
                let r = Compose::options().from_yaml_slice(&b);
                if let Ok(c) = r {
                    let cx = Cx::seeded(e);
                    let mut s = Session::new(c, dc);
                    for _ in 0..3 {
                        let _ = s.edit(&cx);
                    }
                    edited = Some(save(&s.c)?);
                }
            }
            Ok((seen, edited))
        })??;
        match &first {
            None => first = Some(seen),
            Some(f) => {
                cx.nontrivial();
                let (a, b) = (&f.0, &seen.0);
                let show = |x: &Result<String, String>| clip(x.as_ref().unwrap_or_else(|e| e));
                ensure!(a.loaded == b.loaded, "process-differs", "process 0 and process {p} disagree:\n{}\n---\n{}", show(&a.loaded), show(&b.loaded));
                ensure!(a.verdicts == b.verdicts, "verdict-differs", "process 0 says {:?}, process {p} says {:?}", a.verdicts, b.verdicts);
                ensure!(a.debug == b.debug, "debug-differs", "process 0 and process {p} print the value differently");
                let nan = a.loaded.as_ref().is_ok_and(|t| t.contains(".nan"));
                ensure!(nan || a.saved_as_value == b.saved_as_value, "process-differs", "process 0 and {p} serialize differently");
                ensure!(f.1 == seen.1, "edited-differs", "after the same edits process 0 and process {p} save differently");
            }
        }
    }
    let Some((a, _)) = first else { return Ok(()) };
    match (&a.loaded, kind < 3) {
        (Ok(t), true) => {
            cx.count("valid document");
            let v: Value = match serde_yaml::from_str(t) {
                Ok(v) => v,
                Err(e) => return viol("saved-not-yaml", format!("{e}\n{}", clip(t))),
            };
            if let Some(x) = diff(&v, &d.p.c, "") {
                return viol("lost", x);
            }
        }
        (Err(e), true) => return viol("rejected", format!("valid document rejected: {e}")),
        (Ok(_), false) => cx.count("damaged document accepted"),
        (Err(_), false) => cx.count("damaged document rejected"),
    }
    Ok(())
}
