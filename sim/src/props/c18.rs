use super::Prop;
use crate::comp::{self, At, How, Sink};
use crate::core::{guard, viol, Cx, Res};
use crate::de::{self, SimDe};
use crate::ensure;
use crate::io::{Disk, End, Fault, SimReader, SimWriter};
use crate::mutate;
use crate::sess::Session;
use crate::util::*;
use crate::y::Y;
use compose_spec::Compose;
use serde::{de::DeserializeOwned, Serialize};
use serde_yaml::Value;
use std::fmt::Debug;

pub const PROP: Prop = Prop {
    id: "C18",
    run,
    quick_runs: 120000,
    apart: false,
    rule: "Each run loads a generated document, edits it, and takes it apart: drawn parts (sections, single settings, the structures flattened into them) are saved on their own to files on a simulated disk. The text of a part must be the text the saved document has at its place. The process crashes; each acknowledged file must load, through a faulty reader and from the simulated deserializer, as an equal part that saves the same. Before edits, what the source document says at a part's place must load alone as the same part, and damaged it must be accepted or rejected alike alone and in the document, with the same meaning. The document assembled from parts loaded on their own must equal the original. Non-trivial: at least one part was reloaded after a crash.",
    real: "all of compose_spec's loading and saving, serde, serde_yaml",
    stub: "disk, output and input devices, serde Deserializer (for the loads from it)",
    probes: &["part reloaded", "part found in the saved document", "part loaded from the source document", "flattened part", "document assembled from parts", "damaged part accepted", "damaged part rejected", "flattened fields accepted", "flattened fields rejected", "crash"],
    assume: &["documents come from the harness's grammar"],
};

fn same<T: PartialEq + Serialize>(name: &str, how: &str, got: &T, want: &T, text: &str, typed: bool) -> Res {
    let again = match guard(name, || serde_yaml::to_string(got).map_err(|e| e.to_string()))? {
        Ok(t) => t,
        Err(e) => return viol("save", format!("{name} {how} cannot be saved: {e}")),
    };
    ensure!(again == text, "part-differs", "{name} {how} saves as\n{}\ninstead of\n{}", clip(&again), clip(text));
    ensure!(!typed || text.contains(".nan") || got == want, "part-differs", "{name} {how} differs from the part saved alike:\n{}", clip(text));
    Ok(())
}

struct Parts<'a> {
    cx: &'a Cx,
    /// the document as given, while it is still what was loaded
    raw: Option<&'a Value>,
    whole: &'a Value,
    /// nothing in it is empty, which is saved by leaving it out
    typed: bool,
    disk: Disk,
}

impl Parts<'_> {
    fn text<T: Serialize>(&self, name: &str, v: &T) -> Res<String> {
        match guard(name, || serde_yaml::to_string(v).map_err(|e| e.to_string()))? {
            Ok(t) => Ok(t),
            Err(e) => viol("save", format!("{name} cannot be saved alone: {e}")),
        }
    }
}

impl Parts<'_> {
    /// The same damage to a part is taken alike alone and in the document.
    fn damaged<T: Serialize + DeserializeOwned>(&self, name: &str, x: &Value, raw: &Value, at: &At<'_>) -> Res {
        let cx = self.cx;
        let mut y = Y::of(x);
        for _ in 0..=cx.n(2) {
            mutate::tree(cx, &mut y);
        }
        let x = y.to_value();
        let text = serde_yaml::to_string(&x).unwrap_or_default();
        if x.is_null() || mutate::huge(text.as_bytes()) {
            return Ok(());
        }
        // service networks are flattened: see `damaged_flat`
        if at.text().strip_prefix("/services/").is_some_and(|p| p.split('/').nth(1) == Some("networks")) && hollow(&x) {
            return Ok(());
        }
        let mut doc = raw.clone();
        at.put(&mut doc, x.clone());
        let alone = guard(name, || serde_yaml::from_value::<T>(x).map_err(|e| e.to_string()))?;
        let whole = guard("loading", || serde_yaml::from_value::<Compose>(doc.clone()).map_err(|e| e.to_string()))?;
        match (alone, whole) {
            (Ok(a), Ok(c)) => {
                cx.count("damaged part accepted");
                let a = guard(name, || serde_yaml::to_value(&a).map_err(|e| e.to_string()))?;
                let c = guard("saving", || serde_yaml::to_value(&c).map_err(|e| e.to_string()))?;
                if let (Ok(a), Ok(c)) = (a, c) {
                    // a set that lost an item no longer has it in its place
                    if let Some(there) = at.find_like(&c, &doc) {
                        let (a, there) = (serde_yaml::to_string(&a).unwrap_or_default(), serde_yaml::to_string(there).unwrap_or_default());
                        ensure!(a == there, "damaged-differs", "{name} at {} loaded alone is\n{}\nin the document it is\n{}", at.text(), clip(&a), clip(&there));
                    }
                }
            }
            (Err(_), Err(_)) => cx.count("damaged part rejected"),
            (Ok(_), Err(e)) => return viol("damaged-differs", format!("{name} is accepted on its own, but at {} it is rejected: {e}\n{}", at.text(), clip(&text))),
            (Err(e), Ok(_)) => return viol("damaged-differs", format!("{name} is accepted at {}, but rejected on its own: {e}\n{}", at.text(), clip(&text))),
        }
        Ok(())
    }
}

/// Has a null or a tag in it.
fn hollow(v: &Value) -> bool {
    match v {
        Value::Null | Value::Tagged(_) => true,
        Value::Sequence(v) => v.iter().any(hollow),
        Value::Mapping(m) => m.iter().any(|(k, v)| hollow(k) || hollow(v)),
        _ => false,
    }
}

/// The fields a flattened part may have.
fn family(name: &str) -> &'static [&'static str] {
    match name.rsplit("::").next().unwrap_or_default() {
        "Dockerfile" => &["dockerfile", "dockerfile_inline"],
        "NetworkConfig" => &["network_mode", "networks"],
        "Source" if name.contains("secret") => &["file", "environment"],
        "Source" => &["file", "environment", "content"],
        "Common" => &["target", "read_only", "consistency"],
        _ => &[],
    }
}

impl Parts<'_> {
    /// The fields of a flattened part are taken alike alone and among the others, damaged or not.
    fn damaged_flat<T: Serialize + DeserializeOwned>(&self, name: &str, section: &Value, raw: &Value, at: &At<'_>) -> Res {
        let cx = self.cx;
        let keys = family(name);
        let Some(m) = section.as_mapping() else { return Ok(()) };
        if keys.is_empty() {
            return Ok(());
        }
        let mut own = Y::Map(m.iter().filter(|(k, _)| k.as_str().is_some_and(|k| keys.contains(&k))).map(|(k, v)| (Y::of(k), Y::of(v))).collect());
        for _ in 0..cx.n(3) {
            let Y::Map(o) = &mut own else { break };
            let k = *cx.pick(keys);
            let mut v = match o.is_empty() {
                true => crate::y::s("a"),
                false => o[cx.n(o.len())].1.clone(),
            };
            if cx.coin() {
                mutate::tree(cx, &mut v);
            }
            match o.iter_mut().find(|(x, _)| *x == crate::y::s(k)) {
                Some((_, x)) => *x = v,
                None => o.insert(cx.n(o.len() + 1), (crate::y::s(k), v)),
            }
        }
        let own = own.to_value();
        let Some(own) = own.as_mapping() else { return Ok(()) };
        // serde_yaml takes a null for an empty map or list, serde's buffer of flattened fields does not
        if own.is_empty() || own.values().any(hollow) {
            return Ok(());
        }
        let text = serde_yaml::to_string(own).unwrap_or_default();
        if mutate::huge(text.as_bytes()) {
            return Ok(());
        }
        let mut all: serde_yaml::Mapping = m.iter().filter(|(k, _)| !own.contains_key(k)).map(|(k, v)| (k.clone(), v.clone())).collect();
        for (k, v) in own {
            all.insert(k.clone(), v.clone());
        }
        let mut doc = raw.clone();
        at.put(&mut doc, all.into());
        let alone = guard(name, || serde_yaml::from_value::<T>(own.clone().into()).map_err(|e| e.to_string()))?;
        let whole = guard("loading", || serde_yaml::from_value::<Compose>(doc).map_err(|e| e.to_string()))?;
        match (alone, whole) {
            (Ok(a), Ok(c)) => {
                cx.count("flattened fields accepted");
                let a = guard(name, || serde_yaml::to_value(&a).map_err(|e| e.to_string()))?;
                let c = guard("saving", || serde_yaml::to_value(&c).map_err(|e| e.to_string()))?;
                if let (Ok(a), Ok(c)) = (a, c) {
                    if let (Some(a), Some(there)) = (a.as_mapping(), at.find(&c).and_then(Value::as_mapping)) {
                        for k in keys {
                            let y = |m: &serde_yaml::Mapping| m.get(k).map(|v| serde_yaml::to_string(v).unwrap_or_default());
                            ensure!(y(a) == y(there), "damaged-differs", "{name} at {} loaded alone from\n{}\nhas {k}: {:?}, in the document {:?}", at.text(), clip(&text), y(a), y(there));
                        }
                    }
                }
            }
            (Err(_), Err(_)) => cx.count("flattened fields rejected"),
            (Ok(_), Err(e)) => return viol("damaged-differs", format!("{name} is accepted on its own, but at {} it is rejected: {e}\n{}", at.text(), clip(&text))),
            (Err(e), Ok(_)) => return viol("damaged-differs", format!("{name} is accepted at {}, but rejected on its own: {e}\n{}", at.text(), clip(&text))),
        }
        Ok(())
    }
}

/// Write to a file and acknowledge it, crash, and load the file back.
fn stored<T: Serialize + DeserializeOwned>(cx: &Cx, disk: &mut Disk, name: &str, v: &T) -> Res<T> {
    let f = disk.create("part.yaml");
    let mut w = SimWriter::new(cx, 0, Fault::None);
    let out = w.out.clone();
    if let Err(e) = guard(name, || serde_yaml::to_writer(&mut w, v))? {
        return viol("save", format!("{name} cannot be saved alone: {e}"));
    }
    disk.append(f, &out.borrow());
    disk.fsync(f);
    disk.sync_dir();
    let other = disk.create("unfinished.yaml");
    disk.append(other, &out.borrow());
    disk.crash(cx);
    let Some(b) = disk.read("part.yaml") else {
        return viol("lost-file", "the acknowledged file is gone");
    };
    let text = String::from_utf8_lossy(&b).into_owned();
    match guard(name, || serde_yaml::from_reader::<_, T>(SimReader::new(cx, b, End::Eof)))? {
        Ok(x) => Ok(x),
        Err(e) => viol("reload", format!("{name} saved alone is rejected: {e}\n{}", clip(&text))),
    }
}

impl Sink for Parts<'_> {
    fn part<T: Serialize + DeserializeOwned + PartialEq + Debug + 'static>(&mut self, name: &str, v: &T, at: &At<'_>, how: How) -> Res {
        let cx = self.cx;
        cx.note(|| format!("part {name} at {}", at.text()));
        let text = self.text(name, v)?;
        let val: Value = match guard(name, || serde_yaml::to_value(v).map_err(|e| e.to_string()))? {
            Ok(v) => v,
            Err(e) => return viol("save", format!("{name} cannot be saved alone: {e}")),
        };
        // as in the saved document
        let yaml = |v: &Value| serde_yaml::to_string(v).unwrap_or_default();
        if let Some(there) = at.find(self.whole) {
            cx.count("part found in the saved document");
            if how == How::Flat {
                cx.count("flattened part");
                let Some(m) = val.as_mapping() else {
                    return viol("part-differs", format!("{name} saved alone is not a mapping:\n{}", clip(&text)));
                };
                for (k, x) in m {
                    let y = there.as_mapping().and_then(|m| m.get(k));
                    ensure!(y.is_some_and(|y| yaml(x) == yaml(y)), "part-differs", "{name} saved alone has {k:?}: {x:?}, in the document it is {y:?}");
                }
            } else {
                ensure!(yaml(&val) == yaml(there), "part-differs", "{name} saved alone is\n{}\nin the document it is\n{}", clip(&text), clip(&yaml(there)));
            }
        }
        // on its own, through a crash
        let got: T = stored(cx, &mut self.disk, name, v)?;
        cx.count("part reloaded");
        cx.nontrivial();
        same(name, "reloaded on its own", &got, v, &text, self.typed)?;
        // from another format
        let st = de::St::new(cx, true, None);
        match guard(name, || T::deserialize(SimDe { st: &st, v: &val }))? {
            Ok(x) => same(name, "loaded from a deserializer", &x, v, &text, self.typed)?,
            Err(e) => return viol("reload", format!("{name} saved alone is rejected: {e}\n{}", clip(&text))),
        }
        if let (Some(raw), How::Flat) = (self.raw, how) {
            if let Some(x) = at.find_like(raw, self.whole) {
                self.damaged_flat::<T>(name, x, raw, at)?;
            }
        }
        // from what the source document says
        if let (Some(raw), How::Whole) = (self.raw, how) {
            if let Some(x) = at.find_like(raw, self.whole) {
                cx.count("part loaded from the source document");
                let r = match cx.draw(3) {
                    0 => guard(name, || serde_yaml::from_value::<T>(x.clone()))?.map_err(|e| e.to_string()),
                    1 => {
                        let t = yaml(x);
                        guard(name, || serde_yaml::from_reader(SimReader::new(cx, t, End::Eof)))?.map_err(|e| e.to_string())
                    }
                    _ => {
                        let st = de::St::new(cx, true, None);
                        guard(name, || T::deserialize(SimDe { st: &st, v: x }))?.map_err(|e| e.to_string())
                    }
                };
                match r {
                    Ok(got) => same(name, "loaded alone from the source", &got, v, &text, self.typed)?,
                    Err(e) => return viol("alone-rejected", format!("{name} is rejected on its own: {e}\n{}", clip(&yaml(x)))),
                }
                if cx.coin() {
                    self.damaged::<T>(name, x, raw, at)?;
                }
            }
        }
        Ok(())
    }
}

/// Take a document apart into files and put it together again.
fn assemble(cx: &Cx, c: &Compose, disk: &mut Disk) -> Res {
    let mut n = Compose {
        version: c.version.clone(),
        name: c.name.as_ref().map(|x| stored(cx, disk, "Name", x)).transpose()?,
        ..Compose::default()
    };
    for x in &c.include {
        n.include.push(stored(cx, disk, "Include", x)?);
    }
    for (k, x) in &c.services {
        n.services.insert(stored(cx, disk, "Identifier", k)?, stored(cx, disk, "Service", x)?);
    }
    if cx.coin() {
        n.networks = stored(cx, disk, "Networks", &c.networks)?;
        n.volumes = stored(cx, disk, "Volumes", &c.volumes)?;
        n.configs = stored(cx, disk, "Configs", &c.configs)?;
        n.secrets = stored(cx, disk, "Secrets", &c.secrets)?;
    } else {
        for (k, x) in &c.networks {
            n.networks.insert(k.clone(), stored(cx, disk, "Resource<Network>", x)?);
        }
        for (k, x) in &c.volumes {
            n.volumes.insert(k.clone(), stored(cx, disk, "Resource<Volume>", x)?);
        }
        for (k, x) in &c.configs {
            n.configs.insert(k.clone(), stored(cx, disk, "Resource<Config>", x)?);
        }
        for (k, x) in &c.secrets {
            n.secrets.insert(k.clone(), stored(cx, disk, "Resource<Secret>", x)?);
        }
    }
    n.extensions = stored(cx, disk, "Extensions", &c.extensions)?;
    cx.count("document assembled from parts");
    let (a, b) = (save(c)?, save(&n)?);
    ensure!(a == b, "assembled-differs", "the document assembled from its parts is\n{}\ninstead of\n{}", clip(&b.unwrap_or_else(|e| e)), clip(&a.unwrap_or_else(|e| e)));
    Ok(())
}

fn run(cx: &Cx) -> Res {
    let d = if cx.chance(1, 3) { small_doc(cx) } else { doc(cx) };
    let via = pick_via(cx);
    let c = match load(cx, &d.text, via)? {
        Ok(c) => c,
        Err(e) => return viol("rejected", format!("valid document rejected: {e}\n{}", clip(&d.text))),
    };
    let raw = match serde_yaml::from_str::<Value>(&d.text) {
        Ok(v) => v,
        Err(e) => return viol("harness", e.to_string()),
    };
    let plain = !has_empty(&d.p.w);
    let mut s = Session::new(c, d.p.c);
    for round in 0..=cx.n(3) {
        if round > 0 {
            s.edit(cx)?;
        }
        let whole = match guard("serializing", || serde_yaml::to_value(&s.c).map_err(|e| e.to_string()))? {
            Ok(v) => v,
            Err(e) => return viol("save", format!("cannot save: {e}")),
        };
        let mut sink = Parts {
            cx,
            raw: (round == 0).then_some(&raw),
            whole: &whole,
            typed: round == 0 && plain,
            disk: Disk::default(),
        };
        comp::some(cx, &s.c, 6, &mut sink)?;
        if cx.chance(1, 3) {
            assemble(cx, &s.c, &mut Disk::default())?;
        }
    }
    Ok(())
}
