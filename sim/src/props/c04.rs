use super::Prop;
use crate::core::{guard, on_thread, viol, Cx, Res};
use crate::ensure;
use crate::io::{Disk, Fault, SimWriter, KINDS};
use crate::sess::Session;
use crate::util::*;
use crate::y::{diff, Y};
use compose_spec::Compose;
use serde_yaml::Value;

pub const PROP: Prop = Prop {
    id: "C04",
    run,
    quick_runs: 55000,
    apart: false,
    rule: "Each run drives an editor through a drawn history on a simulated disk: load a generated document, edit it through the public API, save it (write to a temporary file, fsync, rename, sync the directory) with write errors, short writes, interruptions and full disks, crash at any step with torn and lost unsynced data, restart as a new process with other hash seeds, recover, go on. After every recovery and at the end the file must load and, parsed as plain YAML, equal the last acknowledged (or the in-flight) canonical model; saving what was reloaded must give the same bytes. Non-trivial: at least one save was acknowledged and read back.",
    real: "all of compose_spec (loading, typed values, saving), serde, serde_yaml, indexmap",
    stub: "disk (cache, durability, rename, torn writes), reader and writer, process restart (fresh thread with its own hash seeds)",
    probes: &[
        "acknowledged save",
        "crash",
        "torn write",
        "write error",
        "disk full (write returns 0)",
        "short write",
        "read split inside a character",
        "fsync error",
        "recovered the older version",
        "recovered the newer version",
    ],
    assume: &[
        "documents come from the harness's grammar of the Compose format",
        "the canonical form is computed by the harness, not by the library",
    ],
};

const FILE: &str = "compose.yaml";

fn check_file(cx: &Cx, bytes: Vec<u8>, wants: &[&Y], typed: Option<&Compose>) -> Res<(Compose, usize)> {
    let text = match String::from_utf8(bytes) {
        Ok(t) => t,
        Err(e) => return viol("saved-not-utf8", e.to_string()),
    };
    let v: Value = match serde_yaml::from_str(&text) {
        Ok(v) => v,
        Err(e) => return viol("saved-not-yaml", format!("{e}\n{}", clip(&text))),
    };
    let mut hit = None;
    let mut first = String::new();
    for (i, w) in wants.iter().enumerate() {
        match diff(&v, w, "") {
            None => {
                hit = Some(i);
                break;
            }
            Some(d) => {
                if i == 0 {
                    first = d;
                }
            }
        }
    }
    let Some(hit) = hit else {
        return viol("lost", first);
    };
    // a new process with other hash seeds
    let via = pick_via(cx);
    let (c2, t2, entropy) = (cx.clone(), text.clone(), cx.draw(1 << 30));
    let (c, again) = on_thread(entropy, move || {
        let c = match load(&c2, &t2, via)? {
            Ok(c) => c,
            Err(e) => return viol("reload", format!("saved document rejected: {e}\n{}", clip(&t2))),
        };
        let again = save(&c)?;
        Ok((c, again))
    })??;
    ensure!(again.as_deref() == Ok(&text), "not-fixpoint", "{}\n--- saved again:\n{}", clip(&text), clip(&again.unwrap_or_else(|e| e)));
    if let Some(t) = typed {
        ensure!(*t == c, "reload-differs", "{}", clip(&text));
    }
    Ok((c, hit))
}

fn run(cx: &Cx) -> Res {
    let d = doc(cx);
    let via = pick_via(cx);
    let c = match load(cx, &d.text, via)? {
        Ok(c) => c,
        Err(e) => return viol("rejected", format!("valid document rejected: {e}\n{}", clip(&d.text))),
    };
    let plain = !has_empty(&d.p.w);
    let mut s = Session::new(c, d.p.c);
    let mut disk = Disk::default();
    // what the file must hold: the acknowledged version, then versions in flight
    let mut acked: Option<Y> = None;
    let mut flight: Vec<Y> = Vec::new();

    let steps = if cx.huge(400) { *cx.pick(&[12usize, 17, 33]) } else { *cx.pick(&[0usize, 1, 2, 4, 7]) };
    for step in 0..=steps {
        let last = step == steps;
        if !last && cx.coin() {
            for _ in 0..=cx.n(2) {
                s.edit(cx)?;
            }
        }
        // one attempt to save
        let full = guard("serializing", || serde_yaml::to_string(&s.c).map(|x| x.len()).unwrap_or(0))?;
        let fault = if last {
            Fault::None
        } else {
            match cx.draw(6) {
                0..=2 => Fault::None,
                3 | 4 => Fault::Error(*cx.pick(KINDS)),
                _ => Fault::Full,
            }
        };
        let limit = if fault == Fault::None { 0 } else { cx.n(full + 1) };
        // the step of the protocol before which the process crashes
        let crash_at = if !last && cx.chance(1, 3) { 1 + cx.n(5) } else { 0 };
        let tmp = disk.create("compose.yaml.tmp");
        let mut w = SimWriter::new(cx, limit, fault);
        let fired = w.fired.clone();
        let out = w.out.clone();
        let r = guard("serializing", || serde_yaml::to_writer(&mut w, &s.c))?;
        disk.append(tmp, &out.borrow());
        cx.ev("saved", u64::from(r.is_ok()), out.borrow().len() as u64);
        let mut ok = match r {
            Ok(()) => {
                ensure!(!*fired.borrow(), "lost-write-error", "the save was acknowledged although a write failed at byte {limit}");
                true
            }
            Err(e) => {
                ensure!(*fired.borrow(), "save", "cannot save: {e}");
                false
            }
        };
        let mut crashed = crash_at == 1;
        if ok && !crashed {
            if !last && cx.chance(1, 8) {
                cx.count("fsync error");
                ok = false;
            } else {
                disk.fsync(tmp);
            }
        }
        crashed |= crash_at == 2;
        if ok && !crashed {
            flight.push(s.m.clone());
            disk.rename("compose.yaml.tmp", FILE);
            crashed |= crash_at == 3;
            if !crashed {
                disk.sync_dir();
                acked = Some(s.m.clone());
                flight.clear();
                cx.count("acknowledged save");
                cx.nontrivial();
            }
        }
        crashed |= crash_at == 4;
        if crashed || crash_at == 5 {
            disk.crash(cx);
            match disk.read(FILE) {
                None => ensure!(acked.is_none(), "lost-file", "the acknowledged file is gone"),
                Some(b) => {
                    let mut wants: Vec<&Y> = acked.iter().collect();
                    let n = wants.len();
                    wants.extend(flight.iter());
                    let (c, i) = check_file(cx, b, &wants, None)?;
                    cx.count(if i < n { "recovered the older version" } else { "recovered the newer version" });
                    let m = wants[i].clone();
                    s.c = c;
                    s.m = m.clone();
                    s.edits += 1;
                    acked = Some(m);
                    flight.clear();
                    disk.sync_dir();
                }
            }
        }
    }
    let Some(b) = disk.read(FILE) else {
        return viol("lost-file", "the acknowledged file is gone");
    };
    let typed = (plain && s.edits == 0).then_some(&s.c);
    check_file(cx, b, &[&s.m], typed)?;
    Ok(())
}
