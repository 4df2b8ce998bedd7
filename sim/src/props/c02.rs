use super::Prop;
use crate::comp::{self, At, How, Sink};
use crate::core::{guard, viol, Cx, Res};
use crate::de::{SimDe, St};
use crate::ensure;
use crate::io::{End, SimReader, KINDS};
use crate::util::*;
use compose_spec::service::{self, Service};
use compose_spec::{Compose, Network, Options, Resource, Volume};
use serde::Deserialize;
use serde_yaml::Value;

pub const PROP: Prop = Prop {
    id: "C02",
    run,
    quick_runs: 80000,
    apart: false,
    rule: "Each run generates a valid document and then injects, several times at drawn points: a reader that fails with a drawn error after k bytes (loading must fail), a reader that ends after k bytes (outcome equal to loading those bytes), a deserializer failing at callback k while building the document or one of its sections or parts (must fail), each followed by a fault-free load with the same builder, which must give the original value. For small documents every k is tried. Non-trivial: at least one fault fired.",
    real: "all of compose_spec's loading, serde, serde_yaml",
    stub: "byte source, serde Deserializer for the callback faults",
    probes: &[
        "read error",
        "input cut off",
        "cut-off input accepted",
        "deserializer error",
        "every callback tried",
        "read split inside a character",
        "section loaded alone",
        "part loaded alone",
    ],
    assume: &["documents come from the harness's grammar"],
};

fn via_reader(o: &Options, k: u64, r: SimReader<'_>) -> Res<Result<Compose, serde_yaml::Error>> {
    guard("loading", || match k {
        0 => serde_yaml::from_reader(r),
        _ => o.from_yaml_reader(r),
    })
}

/// Fail `T`'s deserialization at drawn callbacks.
fn fail_de<T: for<'d> Deserialize<'d>>(cx: &Cx, what: &str, v: &Value) -> Res {
    let st = St::new(cx, false, None);
    let r = guard(what, || T::deserialize(SimDe { st: &st, v }).map(drop))?;
    if r.is_err() {
        // not loadable this way without faults (e.g. an enum in tagged form): no verdict
        cx.count("section not loadable alone");
        return Ok(());
    }
    let n = st.calls.get();
    let all = n <= 40 || (n <= 400 && cx.chance(1, 20));
    if all {
        cx.count("every callback tried");
    }
    let m = if all { n } else { 12 };
    for i in 0..m {
        let k = if all { i } else { cx.draw(n) };
        let form = cx.chance(1, 4);
        let st = St::new(cx, form, Some(k));
        let r = guard(what, || T::deserialize(SimDe { st: &st, v }).map(drop))?;
        ensure!(
            r.is_err() || !st.fired.get(),
            "swallowed-de-error",
            "{what} loaded although the deserializer failed at callback {k} of {n}:\n{}",
            clip(&serde_yaml::to_string(v).unwrap_or_default())
        );
        ensure!(form || st.fired.get(), "callbacks-differ", "{what}: callback {k} of {n} was not made in a repeated load");
        if st.fired.get() {
            cx.nontrivial();
        }
    }
    Ok(())
}

fn sub<'v>(v: &'v Value, path: &[&str]) -> Option<&'v Value> {
    path.iter().try_fold(v, |v, k| v.as_mapping()?.get(*k))
}
fn vals(v: Option<&Value>) -> Vec<Value> {
    match v {
        Some(Value::Mapping(m)) => m.values().cloned().collect(),
        Some(Value::Sequence(s)) => s.clone(),
        _ => vec![],
    }
}

fn sections(cx: &Cx, doc: &Value) -> Res {
    let services = vals(sub(doc, &["services"]));
    for _ in 0..2 {
        cx.count("section loaded alone");
        let pick = |x: &[Value]| if x.is_empty() { None } else { Some(x[cx.n(x.len())].clone()) };
        let s = pick(&services).unwrap_or(Value::Null);
        macro_rules! one {
            ($t:ty, $v:expr) => {
                if let Some(v) = $v {
                    fail_de::<$t>(cx, stringify!($t), &v)?
                }
            };
        }
        let at = |p: &[&str]| sub(&s, p).cloned();
        match cx.draw(20) {
            0..=2 => one!(Service, Some(s.clone())),
            3 => one!(service::Build, at(&["build"]).filter(Value::is_mapping)),
            4 => one!(service::Deploy, at(&["deploy"])),
            5 => one!(service::Healthcheck, at(&["healthcheck"])),
            6 => one!(service::Ports, at(&["ports"])),
            7 => one!(service::Volumes, at(&["volumes"])),
            8 => one!(service::BlkioConfig, at(&["blkio_config"])),
            9 => one!(service::DependsOn, at(&["depends_on"])),
            10 => one!(service::EnvFile, at(&["env_file"])),
            11 => one!(compose_spec::ListOrMap, at(&["environment"]).or(at(&["labels"]))),
            12 => one!(service::Ulimits, at(&["ulimits"])),
            13 => one!(service::User, at(&["user"])),
            14 => one!(service::Develop, at(&["develop"])),
            15 => one!(service::CredentialSpec, at(&["credential_spec"])),
            16 => one!(Resource<Network>, pick(&vals(sub(doc, &["networks"]))).filter(Value::is_mapping)),
            17 => one!(Resource<Volume>, pick(&vals(sub(doc, &["volumes"]))).filter(Value::is_mapping)),
            18 => one!(service::volumes::Mount, pick(&vals(sub(&s, &["volumes"]))).filter(Value::is_mapping)),
            _ => one!(service::ConfigOrSecret, pick(&vals(sub(&s, &["secrets"]))).filter(Value::is_mapping)),
        }
    }
    Ok(())
}

/// Loads parts of the document on their own, failing, from what the document says of them.
struct Parts<'a> {
    cx: &'a Cx,
    raw: &'a Value,
    whole: &'a Value,
}

impl Sink for Parts<'_> {
    fn part<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug + 'static>(&mut self, name: &str, v: &T, at: &At<'_>, how: How) -> Res {
        let cx = self.cx;
        cx.count("part loaded alone");
        if how == How::Flat {
            match guard(name, || serde_yaml::to_value(v).map_err(|e| e.to_string()))? {
                Ok(x) => fail_de::<T>(cx, name, &x),
                Err(e) => viol("save", format!("{name} cannot be saved alone: {e}")),
            }
        } else {
            at.find_like(self.raw, self.whole).map_or(Ok(()), |x| fail_de::<T>(cx, name, x))
        }
    }
}

fn run(cx: &Cx) -> Res {
    let mut o = Compose::options();
    o.apply_merge(cx.coin());
    let d = if cx.coin() { small_doc(cx) } else { doc(cx) };
    let bytes = d.text.as_bytes();
    let whole = match guard("loading", || o.from_yaml_slice(bytes))? {
        Ok(c) => c,
        Err(e) => return viol("rejected", format!("valid document rejected: {e}\n{}", clip(&d.text))),
    };
    let text = save(&whole)?;
    let retry = |what: &str| -> Res {
        match guard("loading again", || o.from_yaml_reader(SimReader::new(cx, bytes, End::Eof)))? {
            Ok(c) => {
                ensure!(save(&c)? == text, "retry-differs", "after {what} the same builder loads another value:\n{}", clip(&d.text));
                Ok(())
            }
            Err(e) => viol("retry-fails", format!("after {what} the same builder rejects the document: {e}\n{}", clip(&d.text))),
        }
    };
    for _ in 0..=cx.n(4) {
        let k = match cx.draw(6) {
            0 => bytes.len(),
            1 => 0,
            2 => bytes.len().saturating_sub(1 + cx.n(3)),
            _ => cx.n(bytes.len() + 1),
        };
        let how = cx.draw(4);
        let part = &bytes[..k];
        if cx.coin() {
            let kind = *cx.pick(KINDS);
            cx.ev("cut with error", k as u64, how);
            let r = SimReader::new(cx, part, End::Error(kind));
            let failed = r.failed.clone();
            let r = via_reader(&o, how, r)?;
            ensure!(
                r.is_err(),
                "swallowed-read-error",
                "a document was loaded although reading failed ({kind:?}) after {k} of {} bytes (error reached: {}):\n{}",
                bytes.len(),
                failed.borrow(),
                clip(&d.text)
            );
            cx.nontrivial();
            retry("a read error")?;
        } else {
            cx.ev("cut", k as u64, how);
            cx.count("input cut off");
            let r = via_reader(&o, how, SimReader::new(cx, part, End::Eof))?;
            let same = guard("loading", || match how {
                0 => serde_yaml::from_slice(part),
                _ => o.from_yaml_slice(part),
            })?;
            let (a, b) = (finish("cut-off reader", r)?, finish("the bytes that arrived", same)?);
            agree(&a, &b, true, part)?;
            if a.r.is_ok() {
                cx.count("cut-off input accepted");
            } else {
                retry("cut-off input")?;
            }
            cx.nontrivial();
        }
    }
    if cx.coin() {
        let v = match serde_yaml::from_str::<Value>(&d.text) {
            Ok(v) => v,
            Err(e) => return viol("harness", e.to_string()),
        };
        fail_de::<Compose>(cx, "the document", &v)?;
        sections(cx, &v)?;
        let all = guard("serializing", || serde_yaml::to_value(&whole).unwrap_or_default())?;
        comp::some(cx, &whole, 3, &mut Parts { cx, raw: &v, whole: &all })?;
        retry("a deserializer error")?;
    }
    Ok(())
}
