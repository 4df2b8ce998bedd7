use super::Prop;
use crate::core::{guard, viol, Cx, Res};
use crate::de::{SimDe, St};
use crate::ensure;
use crate::mutate;
use crate::util::*;
use crate::y::{diff, Y};
use compose_spec::{
    service::{self, Build, Service},
    Compose, Config, Identifier, ItemOrList, ListOrMap, Network, Number, Resource, Secret, ShortOrLong, StringOrNumber, Volume,
};
use serde::{de::DeserializeOwned, Deserialize};
use serde_yaml::Value;
use std::fmt::Debug;

pub const PROP: Prop = Prop {
    id: "C13",
    run,
    quick_runs: 150000,
    apart: false,
    rule: "Each run generates a document (valid, or damaged in its values), presents it several times through a simulated deserializer that draws at every callback how to deliver: borrowed, transient or owned strings, any integer width that holds the value, none or unit, size hints exact, absent, zero, too large or absurd. Every outcome must equal loading the same parsed YAML value; where non-negative integers are delivered as signed ones, an accepted document must still save to the same text; valid documents must save to their canonical form. Drawn nodes of the document, some damaged, are then loaded on their own as any of the crate's types that might take them, from the value and from the simulated deserializer: both accept with equal values or both refuse. Non-trivial: at least one varied load was compared.",
    real: "all of compose_spec's loading, serde",
    stub: "serde Deserializer",
    probes: &["transient string", "owned string", "wrong size hint", "accepted with signed integers", "valid document", "damaged document accepted", "damaged document rejected", "type alone accepts", "type alone refuses"],
    assume: &["a deserializer that delivers non-negative integers as signed may have them refused, but not changed; strings are never delivered as bytes"],
};

fn run(cx: &Cx) -> Res {
    let mut d = if cx.coin() { small_doc(cx) } else { doc(cx) };
    let valid = !cx.chance(1, 3);
    if !valid {
        for _ in 0..=cx.n(2) {
            mutate::tree(cx, &mut d.p.w);
        }
    }
    let v = d.p.w.to_value();
    let text = serde_yaml::to_string(&v).unwrap_or_default();
    if mutate::huge(text.as_bytes()) {
        return Ok(());
    }
    if !valid {
        cx.note(|| format!("damaged:\n{text}"));
    }
    let base = finish("from_yaml_value", guard("loading", || Compose::options().from_yaml_value(v.clone()))?)?;
    match (&base.r, valid) {
        (Ok((_, t)), true) => {
            cx.count("valid document");
            let v: Value = match serde_yaml::from_str(t) {
                Ok(v) => v,
                Err(e) => return viol("saved-not-yaml", format!("{e}\n{}", clip(t))),
            };
            if let Some(x) = diff(&v, &d.p.c, "") {
                return viol("lost", x);
            }
        }
        (Err(e), true) => return viol("rejected", format!("valid document rejected: {e}\n{}", clip(&text))),
        (Ok(_), false) => cx.count("damaged document accepted"),
        (Err(_), false) => cx.count("damaged document rejected"),
    }
    for _ in 0..=cx.n(3) {
        let mut st = St::new(cx, true, None);
        st.signed = cx.chance(1, 4);
        let r = guard("loading from the simulated deserializer", || Compose::deserialize(SimDe { st: &st, v: &v }))?;
        cx.ev("delivered", st.calls.get(), u64::from(r.is_ok()));
        cx.nontrivial();
        let out = match r {
            Ok(c) => Out {
                what: "the simulated deserializer".into(),
                r: match save(&c)? {
                    Ok(t) => Ok((c, t)),
                    Err(e) => return viol("save", e),
                },
            },
            Err(e) => Out {
                what: "the simulated deserializer".into(),
                r: Err(e.to_string()),
            },
        };
        if st.signed {
            // An integer may not be accepted in this form, but its value may not change.
            if let Ok((_, t)) = &out.r {
                cx.count("accepted with signed integers");
                ensure!(
                    base.r.as_ref().is_ok_and(|(_, b)| b == t),
                    "signed",
                    "non-negative integers delivered as signed ones load as another document:\n{}\ninstead of\n{}",
                    clip(t),
                    clip(&base.r.as_ref().map_or_else(Clone::clone, |(_, b)| b.clone()))
                );
            }
            continue;
        }
        agree(&base, &out, false, text.as_bytes())?;
    }
    for _ in 0..=cx.n(4) {
        alone(cx, &v)?;
    }
    Ok(())
}

/// A type of the library, loaded from `v` on its own: presenting it in other forms changes nothing.
fn one<T: DeserializeOwned + Debug>(cx: &Cx, v: &Value) -> Res {
    let name = std::any::type_name::<T>();
    let base = guard(name, || T::deserialize(v.clone()))?;
    let st = St::new(cx, true, None);
    let got = guard(name, || T::deserialize(SimDe { st: &st, v }))?;
    cx.count(if base.is_ok() { "type alone accepts" } else { "type alone refuses" });
    match (base, got) {
        (Ok(a), Ok(b)) => {
            let (a, b) = (format!("{a:?}"), format!("{b:?}"));
            ensure!(a == b, "alone", "{name} from {v:?} is {b} from the simulated deserializer, {a} from the value");
            Ok(())
        }
        (Err(_), Err(_)) => Ok(()),
        (Ok(a), Err(e)) => viol("alone", format!("{name} from {v:?} is {a:?}, but from the simulated deserializer: {e}")),
        (Err(e), Ok(b)) => viol("alone", format!("{name} from {v:?} is refused ({e}), but is {b:?} from the simulated deserializer")),
    }
}

/// A drawn node of the document, loaded as any type that might take it.
fn alone(cx: &Cx, v: &Value) -> Res {
    let mut nodes = vec![v];
    let mut i = 0;
    while let Some(n) = nodes.get(i).copied() {
        i += 1;
        match n {
            Value::Sequence(s) => nodes.extend(s),
            Value::Mapping(m) => nodes.extend(m.values()),
            _ => (),
        }
    }
    let mut y = Y::of(nodes[cx.n(nodes.len())]);
    if cx.chance(1, 3) {
        mutate::tree(cx, &mut y);
    }
    let v = y.to_value();
    if mutate::huge(serde_yaml::to_string(&v).unwrap_or_default().as_bytes()) {
        return Ok(());
    }
    macro_rules! any {
        ($($T:ty),* $(,)?) => {{
            const OF: &[fn(&Cx, &Value) -> Res] = &[$(one::<$T>),*];
            if OF.len() > 24 {
                // the parts of the node each type takes first are alike: a few will do
                for _ in 0..12 {
                    cx.pick(OF)(cx, &v)?;
                }
                Ok(())
            } else {
                OF.iter().try_for_each(|f| f(cx, &v))
            }
        }};
    }
    match v {
        Value::Mapping(_) => any!(
            Service, Build, service::Deploy, service::Develop, service::Healthcheck, service::Logging, service::BlkioConfig, service::CredentialSpec,
            service::DependsOn, service::Ulimits, service::ConfigOrSecret, service::EnvFile, service::network_config::Network, service::NetworkConfig,
            service::deploy::Resources, service::deploy::UpdateOrRollbackConfig, service::deploy::RestartPolicy, service::deploy::Placement,
            service::deploy::resources::Device, service::volumes::Mount, service::ports::Port, ListOrMap, compose_spec::Extensions, compose_spec::Include,
            Resource<Network>, Resource<Volume>, Resource<Config>, Resource<Secret>, Network, Volume, Config, Secret, compose_spec::network::Ipam,
            compose_spec::config::Source, compose_spec::secret::Source, ItemOrList<String>, service::network_config::Networks, indexmap::IndexMap<Identifier, Service>,
            service::build::Dockerfile,
        ),
        Value::Sequence(_) => any!(
            service::Ports, service::Volumes, service::EnvFile, service::Command, ListOrMap, service::DependsOn, service::network_config::Networks,
            ItemOrList<String>, ItemOrList<service::Hostname>, Vec<service::Device>,
            ShortOrLong<String, Vec<u64>>, Vec<service::ConfigOrSecret>, Vec<compose_spec::Include>,
        ),
        _ => any!(
            Number, StringOrNumber, compose_spec::Value, service::ports::ShortRanges, service::ports::Range, service::ports::ShortPort, service::Expose,
            service::Limit<u64>, service::Limit<service::ByteValue>, service::Limit<u32>, service::deploy::resources::Cpus, service::ByteValue, service::Percent,
            service::OomScoreAdj, service::blkio_config::Weight, service::CpuSet, service::network_config::MacAddress, service::Platform, service::User,
            service::user::IdOrName, service::Command, ItemOrList<String>, service::Image, service::Hostname, service::Device,
            service::device::CgroupRule, service::Link, service::Ipc, service::VolumesFrom, service::network_config::NetworkMode,
            service::volumes::ShortVolume, service::volumes::AbsolutePath, service::volumes::HostPath, service::volumes::SELinux,
            service::build::Context, service::build::Cache, service::build::SshAuth, Identifier, compose_spec::MapKey, compose_spec::Name,
            compose_spec::ExtensionKey, service::PullPolicy, service::Restart, service::Cgroup, service::Uts, service::Condition, service::EnvFile,
            service::deploy::Mode, service::deploy::EndpointMode, service::deploy::resources::Capability, service::develop::Action,
            ShortOrLong<service::build::Context, Build>, ShortOrLong<service::Limit<u64>, service::Ulimit>, Resource<Network>, Resource<Config>,
            service::volumes::mount::BindPropagation, compose_spec::Include, ListOrMap, compose_spec::network::Driver, service::ports::Protocol,
        ),
    }
}
