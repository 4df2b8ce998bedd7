use super::Prop;
use crate::core::{guard, on_thread, viol, Cx, Res};
use crate::ensure;
use crate::gen::prim::{abs_path, hostname, ident, ip, item_or_list, item_or_paths, list_of, list_or_map, map_of, same, set_of, sstr};
use crate::gen::{self, svc, top::R, Shape, P};
use crate::io::{Disk, Fault, SimWriter, KINDS};
use crate::scal;
use crate::util::*;
use crate::y::Y;
use compose_spec::service::build::Context;
use compose_spec::service::ports::{self, Port, ShortPort};
use compose_spec::service::volumes::mount::{Bind, Volume};
use compose_spec::service::volumes::{self, Mount, ShortVolume, Source};
use compose_spec::service::{env_file, Build, ConfigOrSecret, EnvFile, Limit, NetworkConfig, Service, Ulimit};
use compose_spec::{AsShort, AsShortIter, Compose, Identifier, Include, ItemOrList, ListOrMap, Resource, ShortOrLong};
use indexmap::{IndexMap, IndexSet};
use serde_yaml::{Mapping, Value};
use std::fmt::Debug;
use std::hash::Hash;
use std::path::PathBuf;

pub const PROP: Prop = Prop {
    id: "C10",
    run,
    quick_runs: 110000,
    apart: false,
    rule: "Each run loads a generated document and drives a drawn history of conversions of its parts (ports, volumes, env files, dependencies, networks, configs, secrets, builds, ulimits, includes, single items and lists, lists and maps), forth and back, through the public API, with saves to a simulated disk that fail and crashes that restart from the last complete save in a process with other hash seeds. After every operation the document is saved, expanded to its long form by the harness's own expander, and must equal the expansion of the original; what a short form was made from must convert back to it; every refusal must hand back an equal value and have a reason. Non-trivial: at least one part changed its form.",
    real: "all of compose_spec and its derive macros (AsShort, FromShort), serde, serde_yaml, indexmap",
    stub: "disk, process restart",
    probes: &[
        "refused",
        "crash",
        "failed save",
        "ports to long",
        "ports to short",
        "volumes to long",
        "volumes to short",
        "env_file",
        "depends_on",
        "networks",
        "configs and secrets",
        "build",
        "ulimits",
        "item or list",
        "list to map",
        "map to list",
        "include",
        "paths with a colon",
    ],
    assume: &[
        "an item `KEY=` becoming a null value in a map is documented and taken as the same setting",
        "a bind mount without bind options is taken to be free to create its host path",
    ],
};

// ------------------------------------------------------------------ expansion to the long form

fn k(x: &str) -> Value {
    Value::String(x.into())
}
fn sv(x: impl Into<String>) -> Value {
    Value::String(x.into())
}
fn text_of(v: &Value) -> Option<String> {
    match v {
        Value::String(x) => Some(x.clone()),
        Value::Bool(b) => Some(b.to_string()),
        Value::Number(n) => Some(if let Some(u) = n.as_u64() {
            u.to_string()
        } else if let Some(i) = n.as_i64() {
            i.to_string()
        } else {
            let f = n.as_f64().unwrap_or(f64::NAN);
            if f.is_finite() {
                f.to_string()
            } else {
                format!("not finite {f}")
            }
        }),
        _ => None,
    }
}
fn path_text(v: &mut Value) {
    if let Value::String(x) = v {
        *x = crate::gen::prim::path_key(x);
    }
}
fn at<'a>(v: &'a mut Value, key: &str) -> Option<&'a mut Value> {
    v.as_mapping_mut()?.get_mut(key)
}
fn each(v: Option<&mut Value>, f: impl Fn(&mut Value)) {
    match v {
        Some(Value::Sequence(x)) => x.iter_mut().for_each(f),
        Some(Value::Mapping(x)) => x.values_mut().for_each(f),
        _ => {}
    }
}
fn rec(m: Vec<(&str, Value)>) -> Value {
    Value::Mapping(m.into_iter().map(|(a, b)| (k(a), b)).collect())
}
fn dedup(v: &mut Vec<Value>) {
    let mut out: Vec<Value> = Vec::new();
    for x in v.drain(..) {
        if !out.contains(&x) {
            out.push(x);
        }
    }
    *v = out;
}

fn x_list_or_map(v: &mut Value) {
    let mut out = Mapping::new();
    match v {
        Value::Sequence(items) => {
            for i in items {
                let Value::String(i) = i else { return };
                let (a, b) = match i.split_once('=') {
                    Some((a, b)) if !b.is_empty() => (a, sv(b)),
                    Some((a, _)) => (a, Value::Null),
                    None => (i.as_str(), Value::Null),
                };
                out.insert(sv(a), b);
            }
        }
        Value::Mapping(m) => {
            for (a, b) in m {
                let b = match text_of(b) {
                    Some(t) if !t.is_empty() => sv(t),
                    _ => Value::Null,
                };
                out.insert(a.clone(), b);
            }
        }
        _ => return,
    }
    *v = Value::Mapping(out);
}
fn x_item_or_list(v: &mut Value) {
    if !v.is_sequence() && !v.is_null() {
        *v = Value::Sequence(vec![v.take()]);
    }
}
trait Take {
    fn take(&mut self) -> Value;
}
impl Take for Value {
    fn take(&mut self) -> Value {
        std::mem::replace(self, Value::Null)
    }
}

fn range_text((a, b): (u128, u128)) -> String {
    if a == b {
        a.to_string()
    } else {
        format!("{a}-{b}")
    }
}
fn x_ports(v: &mut Value) {
    let Value::Sequence(items) = v else { return };
    let mut out = Vec::new();
    for i in items.drain(..) {
        if let Value::Mapping(mut m) = i {
            if let Some(p) = m.get_mut("published") {
                if let Some(t) = text_of(p) {
                    *p = sv(t);
                }
            }
            out.push(Value::Mapping(m));
            continue;
        }
        let Some(p) = text_of(&i).and_then(|t| scal::short_port(&t)) else {
            out.push(i);
            continue;
        };
        // big ranges: the ends and the size are enough to tell them apart
        for n in 0..=(p.container.1 - p.container.0) {
            let mut m = vec![("target", Value::from((p.container.0 + n) as u64))];
            if let Some(h) = p.host {
                m.push(("published", sv((h.0 + n).to_string())));
            }
            if let Some(ip) = p.ip {
                m.push(("host_ip", sv(ip.to_string())));
            }
            if let Some(x) = &p.proto {
                m.push(("protocol", sv(x)));
            }
            out.push(rec(m));
        }
    }
    let mut seen = std::collections::HashSet::new();
    out.retain(|x| seen.insert(format!("{x:?}")));
    *items = out;
}

/// `labels`: whether a named volume keeps its SELinux label (see the known finding).
fn x_volumes(v: &mut Value, labels: bool) {
    let Value::Sequence(items) = v else { return };
    for i in items.iter_mut() {
        if let Value::String(x) = i {
            let mut it = x.splitn(3, ':');
            let a = it.next().unwrap_or_default().to_owned();
            *i = match it.next() {
                None => rec(vec![("type", sv("volume")), ("target", sv(a))]),
                Some(target) => {
                    let host = a.starts_with(['.', '/']);
                    let mut m = vec![("source", sv(&a)), ("target", sv(target))];
                    let mut bind = vec![("create_host_path", Value::Bool(true))];
                    for o in it.next().into_iter().flat_map(|o| o.split(',')) {
                        match o {
                            "ro" => m.push(("read_only", Value::Bool(true))),
                            "z" | "Z" => {
                                if host {
                                    bind.push(("selinux", sv(o)));
                                } else if labels {
                                    m.push(("selinux", sv(o)));
                                }
                            }
                            _ => {}
                        }
                    }
                    m.push(("type", sv(if host { "bind" } else { "volume" })));
                    if host {
                        m.push(("bind", rec(bind)));
                    }
                    rec(m)
                }
            };
        } else {
            if i.get("type").and_then(Value::as_str) == Some("bind") && i.get("bind").is_none() {
                if let Some(m) = i.as_mapping_mut() {
                    m.insert(k("bind"), rec(vec![("create_host_path", Value::Bool(true))]));
                }
            }
            if let Some(m) = i.as_mapping_mut() {
                if m.get("volume").and_then(Value::as_mapping).is_some_and(Mapping::is_empty) {
                    m.remove("volume");
                }
            }
        }
        for p in ["source", "target"] {
            if let Some(p) = at(i, p) {
                path_text(p);
            }
        }
        if let Some(p) = at(i, "volume").and_then(|v| at(v, "subpath")) {
            path_text(p);
        }
    }
    dedup(items);
}
fn x_named(v: &mut Value, key: &str) {
    if v.is_string() {
        *v = rec(vec![(key, v.take())]);
    }
}
fn x_env_file(v: &mut Value) {
    x_item_or_list(v);
    each(Some(v), |e| x_named(e, "path"));
}
fn x_networks(v: &mut Value) {
    if let Value::Sequence(x) = v {
        *v = Value::Mapping(x.drain(..).map(|i| (i, Value::Null)).collect());
    }
    each(Some(v), |n| {
        if n.as_mapping().is_some_and(Mapping::is_empty) {
            *n = Value::Null;
        }
    });
}
fn x_depends(v: &mut Value) {
    if let Value::Sequence(x) = v {
        *v = Value::Mapping(
            x.drain(..).map(|i| (i, rec(vec![("condition", sv("service_started"))]))).collect(),
        );
    }
}
fn x_ulimit(v: &mut Value) {
    if !v.is_mapping() {
        let l = v.take();
        *v = rec(vec![("soft", l.clone()), ("hard", l)]);
    }
}
fn on(v: &mut Value, key: &str, f: impl Fn(&mut Value)) {
    if let Some(x) = at(v, key) {
        f(x);
    }
}

fn expand(mut v: Value, labels: bool) -> Value {
    on(&mut v, "include", |x| {
        each(Some(x), |i| {
            if i.is_string() {
                *i = rec(vec![("path", i.take())]);
            }
            on(i, "path", x_item_or_list);
            on(i, "env_file", x_item_or_list);
        });
    });
    each(at(&mut v, "services"), |sv| {
        on(sv, "ports", x_ports);
        on(sv, "volumes", |x| x_volumes(x, labels));
        on(sv, "env_file", x_env_file);
        on(sv, "depends_on", x_depends);
        on(sv, "networks", x_networks);
        for n in ["configs", "secrets"] {
            each(at(sv, n), |x| x_named(x, "source"));
        }
        for n in ["dns", "dns_search", "tmpfs"] {
            on(sv, n, x_item_or_list);
        }
        for n in ["environment", "annotations", "labels", "sysctls"] {
            on(sv, n, x_list_or_map);
        }
        each(at(sv, "ulimits"), x_ulimit);
        on(sv, "build", |b| {
            x_named(b, "context");
            on(b, "args", x_list_or_map);
            on(b, "labels", x_list_or_map);
            each(at(b, "secrets"), |x| x_named(x, "source"));
            each(at(b, "ulimits"), x_ulimit);
        });
        on(sv, "deploy", |d| on(d, "labels", x_list_or_map));
    });
    for sec in ["networks", "volumes", "configs", "secrets"] {
        each(at(&mut v, sec), |n| on(n, "labels", x_list_or_map));
    }
    v
}

// ------------------------------------------------------------------ conversions

/// Why a refusal may not have handed back the value, or a conversion not back.
fn same_back<T: PartialEq + Debug>(what: &str, before: &T, after: &T) -> Res {
    ensure!(before == after, format!("refusal:{what}"), "refusing to convert {before:?} hands back {after:?}");
    Ok(())
}

/// A part with a derived or written `AsShort`, taken to one form or the other.
fn flip<S, L>(cx: &Cx, what: &'static str, v: &mut ShortOrLong<S, L>, long: bool) -> Res
where
    L: AsShort<Short = S> + From<S> + From<ShortOrLong<S, L>> + Clone + PartialEq + Debug,
    S: Clone + PartialEq + Debug,
{
    cx.ev("flip", u64::from(v.is_short()), u64::from(long));
    let before = v.clone();
    if long {
        let l: L = guard(what, || match cx.draw(3) {
            0 => v.clone().into_long(),
            1 => v.clone().into(),
            _ => match v.clone() {
                ShortOrLong::Short(x) => L::from(x),
                ShortOrLong::Long(x) => x,
            },
        })?;
        match &before {
            ShortOrLong::Short(x) => {
                ensure!(l.as_short() == Some(x), format!("back:{what}"), "{x:?} becomes {l:?}, whose short form is {:?}", l.as_short());
                ensure!(before.as_short() == Some(x) && before.as_long().is_none(), format!("back:{what}"), "as_short of {before:?}");
                *v = ShortOrLong::Long(l);
                cx.nontrivial();
            }
            ShortOrLong::Long(x) => {
                ensure!(*x == l && before.as_long() == Some(x), format!("back:{what}"), "{x:?} becomes {l:?}");
            }
        }
    } else {
        let x = guard(what, || v.as_short().cloned())?;
        match x {
            Some(x) => {
                if before.is_long() {
                    cx.nontrivial();
                }
                *v = ShortOrLong::Short(x);
            }
            None => cx.count("refused"),
        }
    }
    Ok(())
}

/// A set of names, or a map from names to options.
fn flip_keys<V>(cx: &Cx, what: &'static str, v: &mut ShortOrLong<IndexSet<Identifier>, IndexMap<Identifier, V>>, long: bool) -> Res
where
    V: Default + Clone + PartialEq + Debug,
    for<'a> IndexMap<Identifier, V>: AsShortIter<'a, Iter = indexmap::map::Keys<'a, Identifier, V>>,
{
    let before = v.clone();
    if long {
        let m: IndexMap<Identifier, V> = guard(what, || if cx.coin() { v.clone().into_long() } else { v.clone().into() })?;
        match &before {
            ShortOrLong::Short(x) => {
                ensure!(m.keys().eq(x.iter()), format!("back:{what}"), "{x:?} becomes {m:?}");
                let back: Option<Vec<_>> = m.as_short_iter().map(|i| i.cloned().collect());
                ensure!(back.is_some_and(|b| b.iter().eq(x.iter())), format!("back:{what}"), "{x:?} becomes {m:?}, which is refused a short form");
                cx.nontrivial();
            }
            ShortOrLong::Long(x) => ensure!(*x == m, format!("back:{what}"), "{x:?} becomes {m:?}"),
        }
        *v = ShortOrLong::Long(m);
    } else {
        let x: Option<IndexSet<Identifier>> = guard(what, || v.as_short_iter().map(|i| i.cloned().collect()))?;
        match x {
            Some(x) => {
                if before.is_long() {
                    cx.nontrivial();
                }
                *v = ShortOrLong::Short(x);
            }
            None => cx.count("refused"),
        }
    }
    Ok(())
}

fn flip_item<T: Eq + Hash + Clone + Debug>(cx: &Cx, v: &mut ItemOrList<T>, list: bool) -> Res {
    cx.count("item or list");
    if list {
        let l: IndexSet<T> = guard("into_list", || if cx.coin() { v.clone().into_list() } else { v.clone().into() })?;
        if let Some(x) = v.as_list() {
            ensure!(l.iter().eq(x.iter()), "back:item", "{v:?} becomes {l:?}");
        } else {
            ensure!(l.len() == 1 && l.first() == v.as_item(), "back:item", "{v:?} becomes {l:?}");
            cx.nontrivial();
        }
        *v = l.into();
    } else {
        match v.as_item().cloned() {
            Some(x) => *v = x.into(),
            None => {
                ensure!(v.as_list().is_some_and(|l| l.len() != 1), "back:item", "as_item of {v:?} is refused");
                cx.count("refused");
            }
        }
    }
    Ok(())
}

fn flip_list(cx: &Cx, v: &mut ListOrMap, map: bool) -> Res<&'static str> {
    if map {
        // every key that can be one must be accepted
        let ok = match &*v {
            ListOrMap::List(l) => l.iter().all(|i| {
                let key = i.split('=').next().unwrap_or_default();
                !key.is_empty() && !key.contains('\n')
            }),
            ListOrMap::Map(_) => true,
        };
        let r = guard("into_map", || v.clone().into_map())?;
        ensure!(r.is_ok() == ok, "back:into_map", "into_map of {v:?} is {r:?}");
        match r {
            Ok(m) => {
                cx.count("list to map");
                let split = guard("into_map_split_on", || v.clone().into_map_split_on(&['=']))?;
                ensure!(format!("{split:?}") == format!("Ok({m:?})"), "back:into_map", "into_map of {v:?} is {m:?}, split on = {split:?}");
                if let ListOrMap::List(l) = &*v {
                    // in the order of the first item of each key
                    let mut keys: Vec<&str> = Vec::new();
                    for i in l {
                        let key = i.split('=').next().unwrap_or_default();
                        if !keys.contains(&key) {
                            keys.push(key);
                        }
                    }
                    ensure!(m.keys().map(|x| x.as_str()).eq(keys.iter().copied()), "back:into_map", "into_map of {l:?} is {m:?}");
                    // the last value of each, none if it is empty
                    for (k, x) in &m {
                        let last = l.iter().filter(|i| i.split('=').next() == Some(k.as_str())).last();
                        let want = last.and_then(|i| i.split_once('=')).map(|x| x.1).filter(|x| !x.is_empty());
                        ensure!(x.as_ref().map(ToString::to_string).as_deref() == want, "back:into_map", "into_map of {l:?} is {m:?}");
                    }
                    cx.nontrivial();
                }
                *v = ListOrMap::Map(m);
            }
            Err(_) => cx.count("refused"),
        }
        Ok("list to map")
    } else {
        let l = guard("into_list", || v.clone().into_list())?;
        cx.count("map to list");
        let mut class = "map to list";
        if let ListOrMap::Map(m) = &*v {
            if m.keys().any(|key| key.as_str().contains('=')) {
                class = "list-key-equals";
            } else {
                let keys = l.iter().map(|i| i.split('=').next().unwrap_or_default());
                ensure!(keys.eq(m.keys().map(|x| x.as_str())), "back:into_list", "into_list of {m:?} is {l:?}");
                // a variable without a value is not one whose value is empty
                let items = m.iter().map(|(k, x)| x.as_ref().map_or_else(|| k.to_string(), |x| format!("{k}={x}")));
                ensure!(items.eq(l.iter().cloned()), "back:into_list", "into_list of {m:?} is {l:?}");
            }
            cx.nontrivial();
        }
        *v = ListOrMap::List(l);
        Ok(class)
    }
}

/// Settings of a long port or volume that its short form has no place for.
fn port_needs_long(p: &Port) -> bool {
    p.name.is_some() || p.app_protocol.is_some() || p.mode.is_some() || !p.extensions.is_empty() || p.published.is_some_and(|r| r.end().is_some())
}
fn colon(p: &std::path::Path) -> bool {
    p.to_string_lossy().contains(':')
}
fn mount_needs_long(m: &Mount) -> bool {
    let c = m.common();
    if c.consistency.is_some() || !c.extensions.is_empty() || colon(c.target.as_path()) {
        return true;
    }
    match m {
        Mount::Volume(v) => v.volume.as_ref().is_some_and(|o| !o.is_empty()) || (v.source.is_none() && c.read_only),
        Mount::Bind(b) => {
            colon(b.source.as_path())
                || b.bind.as_ref().is_some_and(|o| o.propagation.is_some() || !o.create_host_path || !o.extensions.is_empty())
        }
        _ => true,
    }
}

fn range_size(p: &ShortPort) -> u64 {
    let r = p.ranges.container();
    u64::from(r.end().unwrap_or(r.start())) - u64::from(r.start()) + 1
}

fn op_ports(cx: &Cx, x: &mut Service, long: bool) -> Res<bool> {
    let before = x.ports.clone();
    if before.is_empty() {
        return Ok(false);
    }
    if long {
        // one form by one or all at once
        let size: u64 = before.iter().map(|p| if let ShortOrLong::Short(p) = p { range_size(p) } else { 1 }).sum();
        if size > 2000 {
            return Ok(false);
        }
        cx.count("ports to long");
        let got: Vec<Port> = guard("ports::into_long_iter", || ports::into_long_iter(before.clone()).collect())?;
        ensure!(got.len() as u64 == size, "back:ports", "{before:?} becomes {} ports", got.len());
        let mut i = got.iter();
        for p in &before {
            match p {
                ShortOrLong::Long(p) => ensure!(i.next() == Some(p), "back:ports", "{p:?} is changed into long form"),
                ShortOrLong::Short(p) => {
                    let n = range_size(p) as usize;
                    let mine: Vec<&Port> = i.by_ref().take(n).collect();
                    let one: Vec<Port> = guard("ShortPort::into_long_iter", || p.clone().into_long_iter().collect())?;
                    ensure!(mine.iter().copied().eq(one.iter()), "back:ports", "{p:?} becomes {mine:?} or {one:?}");
                    if n == 1 {
                        let back = guard("into_short", || one[0].clone().into_short())?;
                        ensure!(back.as_ref().is_ok_and(|b: &ShortPort| b == p), "back:ports", "{p:?} becomes {one:?}, and that {back:?}");
                    }
                    cx.nontrivial();
                }
            }
        }
        x.ports = got.into_iter().map(ShortOrLong::Long).collect();
    } else {
        cx.count("ports to short");
        let got: Vec<Result<ShortPort, Port>> = guard("ports::into_short_iter", || ports::into_short_iter(before.clone()).collect())?;
        ensure!(got.len() == before.len(), "back:ports", "{before:?} becomes {got:?}");
        let mut out = ports::Ports::new();
        for (p, g) in before.iter().zip(got) {
            match (p, g) {
                (ShortOrLong::Short(p), g) => {
                    ensure!(g.as_ref().is_ok_and(|g| g == p), "back:ports", "{p:?} becomes {g:?}");
                    out.insert(ShortOrLong::Short(p.clone()));
                }
                (ShortOrLong::Long(p), Ok(g)) => {
                    ensure!(!port_needs_long(p), "lossy:ports", "{p:?} becomes {g:?}");
                    cx.nontrivial();
                    out.insert(ShortOrLong::Short(g));
                }
                (ShortOrLong::Long(p), Err(e)) => {
                    same_back("ports", p, &e)?;
                    ensure!(port_needs_long(p), "refused:ports", "{p:?} is refused a short form");
                    cx.count("refused");
                    out.insert(ShortOrLong::Long(e));
                }
            }
        }
        x.ports = out;
    }
    Ok(true)
}

fn op_volumes(cx: &Cx, x: &mut Service, long: bool) -> Res<Option<&'static str>> {
    let before = x.volumes.clone();
    if before.is_empty() {
        return Ok(None);
    }
    let mut class = if long { "volumes to long" } else { "volumes to short" };
    if long {
        let labelled = |v: &ShortVolume| v.options.as_ref().is_some_and(|o| o.selinux.is_some() && matches!(o.source, Source::Volume(_)));
        if before.iter().any(|v| matches!(v, ShortOrLong::Short(v) if labelled(v))) {
            // known finding: look elsewhere most of the time
            if !cx.chance(1, 16) {
                return Ok(None);
            }
            class = "named-volume-selinux";
        }
        cx.count("volumes to long");
        let got: Vec<Mount> = guard("volumes::into_long_iter", || volumes::into_long_iter(before.clone()).collect())?;
        ensure!(got.len() == before.len(), "back:volumes", "{before:?} becomes {got:?}");
        for (v, g) in before.iter().zip(&got) {
            match v {
                ShortOrLong::Long(v) => ensure!(v == g, "back:volumes", "{v:?} becomes {g:?}"),
                ShortOrLong::Short(v) => {
                    let also = guard("into_long", || v.clone().into_long())?;
                    ensure!(also == *g && Mount::from(v.clone()) == *g, "back:volumes", "{v:?} becomes {g:?} or {also:?}");
                    if let Some(b) = g.as_bind() {
                        ensure!(b.bind.as_ref().is_some_and(|o| o.create_host_path), "back:volumes", "{v:?} becomes {g:?}, which does not create its host path");
                    }
                    if !labelled(v) {
                        let back = guard("into_short", || also.into_short())?;
                        ensure!(back.as_ref().is_ok_and(|b| b == v), "back:volumes", "{v:?} becomes {g:?}, and that {back:?}");
                    }
                    cx.nontrivial();
                }
            }
        }
        x.volumes = got.into_iter().map(ShortOrLong::Long).collect();
    } else {
        cx.count("volumes to short");
        let got: Vec<Result<ShortVolume, Mount>> = guard("volumes::into_short_iter", || volumes::into_short_iter(before.clone()).collect())?;
        ensure!(got.len() == before.len(), "back:volumes", "{before:?} becomes {got:?}");
        let mut out = volumes::Volumes::new();
        for (v, g) in before.iter().zip(got) {
            match (v, g) {
                (ShortOrLong::Short(v), g) => {
                    ensure!(g.as_ref().is_ok_and(|g| g == v), "back:volumes", "{v:?} becomes {g:?}");
                    out.insert(ShortOrLong::Short(v.clone()));
                }
                (ShortOrLong::Long(v), g) => {
                    // the kinds have their own conversions
                    let also: Result<ShortVolume, Mount> = guard("into_short", || match v.clone() {
                        Mount::Volume(m) => Volume::into_short(m).map_err(Mount::Volume),
                        Mount::Bind(m) => Bind::into_short(m).map_err(Mount::Bind),
                        m => m.into_short(),
                    })?;
                    ensure!(also == g, "back:volumes", "{v:?} becomes {g:?} or {also:?}");
                    match g {
                        Ok(g) => {
                            ensure!(!mount_needs_long(v), "lossy:volumes", "{v:?} becomes {g:?}");
                            cx.nontrivial();
                            out.insert(ShortOrLong::Short(g));
                        }
                        Err(e) => {
                            same_back("volumes", v, &e)?;
                            ensure!(mount_needs_long(v), "refused:volumes", "{v:?} is refused a short form");
                            cx.count(if colon(v.common().target.as_path()) { "paths with a colon" } else { "refused" });
                            out.insert(ShortOrLong::Long(e));
                        }
                    }
                }
            }
        }
        x.volumes = out;
    }
    Ok(Some(class))
}

fn op_env_file(cx: &Cx, x: &mut Service, long: bool) -> Res<bool> {
    let Some(e) = &mut x.env_file else { return Ok(false) };
    cx.count("env_file");
    match cx.draw(3) {
        0 => {
            if long {
                let l = guard("into_list", || e.clone().into_list())?;
                if let EnvFile::Single(p) = &*e {
                    ensure!(l.len() == 1 && l[0].as_short() == Some(p), "back:env_file", "{e:?} becomes {l:?}");
                    cx.nontrivial();
                }
                *e = l.into();
                let single = e.as_single().cloned();
                cx.ev("single", u64::from(single.is_some()), 0);
            } else if let Some(p) = e.as_single().cloned() {
                *e = p.into();
                cx.nontrivial();
            } else {
                cx.count("refused");
            }
        }
        1 => {
            // rebuilt from its items
            let l = guard("into_list", || e.clone().into_list())?;
            *e = if cx.coin() { l.into_iter().collect() } else { EnvFile::List(l) };
        }
        _ => {
            if let EnvFile::List(l) = e {
                for i in l {
                    flip::<PathBuf, env_file::Config>(cx, "env_file", i, long)?;
                }
            }
        }
    }
    Ok(true)
}

fn labels_of<T>(r: &mut Option<Resource<T>>, f: impl Fn(&mut T) -> &mut ListOrMap) -> Option<&mut ListOrMap> {
    match r {
        Some(Resource::Compose(t)) => Some(f(t)),
        _ => None,
    }
}

/// Every list or map of the document.
fn lists(c: &mut Compose) -> Vec<&mut ListOrMap> {
    let mut out = Vec::new();
    for x in c.services.values_mut() {
        out.push(&mut x.environment);
        out.push(&mut x.annotations);
        out.push(&mut x.labels);
        out.push(&mut x.sysctls);
        if let Some(ShortOrLong::Long(b)) = &mut x.build {
            out.push(&mut b.args);
            out.push(&mut b.labels);
        }
        if let Some(d) = &mut x.deploy {
            out.push(&mut d.labels);
        }
    }
    out.extend(c.networks.values_mut().filter_map(|r| labels_of(r, |t| &mut t.labels)));
    out.extend(c.volumes.values_mut().filter_map(|r| labels_of(r, |t| &mut t.labels)));
    out.extend(c.configs.values_mut().filter_map(|r| match r {
        Resource::Compose(t) => Some(&mut t.labels),
        Resource::External { .. } => None,
    }));
    out.extend(c.secrets.values_mut().filter_map(|r| match r {
        Resource::Compose(t) => Some(&mut t.labels),
        Resource::External { .. } => None,
    }));
    out.retain(|l| !l.is_empty());
    out
}

/// One conversion; gives the name of what was done.
pub fn convert(cx: &Cx, c: &mut Compose) -> Res<Option<&'static str>> {
    let long = cx.coin();
    let op = cx.draw(13);
    cx.ev("convert", op, u64::from(long));
    if op == 11 {
        if c.include.is_empty() {
            return Ok(None);
        }
        cx.count("include");
        let n = cx.n(c.include.len());
        let i = &mut c.include[n];
        if let (ShortOrLong::Long(l), true) = (&mut *i, cx.coin()) {
            if cx.coin() {
                flip_item(cx, &mut l.path, long)?;
            } else if let Some(e) = &mut l.env_file {
                flip_item(cx, e, long)?;
            }
        } else {
            flip::<PathBuf, Include>(cx, "include", i, long)?;
        }
        return Ok(Some("include"));
    }
    if op >= 9 && op != 12 {
        let mut l = lists(c);
        if l.is_empty() {
            return Ok(None);
        }
        let n = cx.n(l.len());
        // known finding: look elsewhere most of the time
        if !long && l[n].as_map().is_some_and(|m| m.keys().any(|x| x.as_str().contains('='))) && !cx.chance(1, 16) {
            return Ok(None);
        }
        return flip_list(cx, l[n], long).map(Some);
    }
    if c.services.is_empty() {
        return Ok(None);
    }
    let n = cx.n(c.services.len());
    let x = &mut c.services[n];
    Ok(match op {
        0 => op_ports(cx, x, long)?.then_some(if long { "ports to long" } else { "ports to short" }),
        1 | 12 => op_volumes(cx, x, long)?,
        2 => op_env_file(cx, x, long)?.then_some("env_file"),
        3 => {
            if matches!(&x.depends_on, ShortOrLong::Short(x) if x.is_empty()) {
                return Ok(None);
            }
            cx.count("depends_on");
            flip_keys(cx, "depends_on", &mut x.depends_on, long)?;
            Some("depends_on")
        }
        4 => match &mut x.network_config {
            Some(NetworkConfig::Networks(n)) => {
                cx.count("networks");
                flip_keys(cx, "networks", n, long)?;
                Some("networks")
            }
            _ => None,
        },
        5 => {
            let l = match (cx.draw(3), &mut x.build) {
                (0, Some(ShortOrLong::Long(b))) => &mut b.secrets,
                (1, _) => &mut x.configs,
                _ => &mut x.secrets,
            };
            if l.is_empty() {
                return Ok(None);
            }
            cx.count("configs and secrets");
            for i in l {
                flip::<Identifier, ConfigOrSecret>(cx, "config or secret", i, long)?;
            }
            Some("configs and secrets")
        }
        6 => match &mut x.build {
            Some(b) => {
                cx.count("build");
                flip::<Context, Build>(cx, "build", b, long)?;
                Some("build")
            }
            None => None,
        },
        7 => {
            let u = match &mut x.build {
                Some(ShortOrLong::Long(b)) if cx.coin() => &mut b.ulimits,
                _ => &mut x.ulimits,
            };
            if u.is_empty() {
                return Ok(None);
            }
            cx.count("ulimits");
            for i in u.values_mut() {
                flip::<Limit<u64>, Ulimit>(cx, "ulimits", i, long)?;
            }
            Some("ulimits")
        }
        _ => {
            match cx.draw(3) {
                0 => match &mut x.dns {
                    Some(v) => flip_item(cx, v, long)?,
                    None => return Ok(None),
                },
                1 => match &mut x.dns_search {
                    Some(v) => flip_item(cx, v, long)?,
                    None => return Ok(None),
                },
                _ => match &mut x.tmpfs {
                    Some(v) => flip_item(cx, v, long)?,
                    None => return Ok(None),
                },
            }
            Some("item or list")
        }
    })
}

// ------------------------------------------------------------------ the run

/// A service made of convertible parts.
fn focused(cx: &Cx) -> P {
    let mut r = R::new(cx, 1);
    let d = *cx.pick(&[2u64, 0, 6]);
    for _ in 0..cx.range(1, 4) {
        let key = *cx.pick(&[
            "ports", "volumes", "env_file", "depends_on", "networks", "configs", "secrets", "build", "ulimits", "dns", "dns_search",
            "tmpfs", "environment", "annotations", "labels", "sysctls", "deploy",
        ]);
        let v = match key {
            "ports" => set_of(cx, 1, 4, |cx| svc::port(cx, d)),
            "volumes" if cx.chance(1, 3) => near(cx),
            "volumes" => svc::volumes(cx, d),
            "env_file" => svc::env_file(cx, 16),
            "depends_on" => svc::depends_on(cx, if cx.coin() { 16 } else { 0 }),
            "networks" => svc::service_networks(cx, d),
            "configs" | "secrets" => list_of(cx, 1, 3, |cx| svc::config_or_secret(cx, d)),
            "build" => svc::build(cx, d),
            "ulimits" => svc::ulimits(cx, d),
            "dns" => item_or_list(cx, |cx| sstr(ip(cx))),
            "dns_search" => item_or_list(cx, |cx| sstr(hostname(cx))),
            "tmpfs" => item_or_paths(cx, |cx| sstr(abs_path(cx))),
            "deploy" => {
                let mut r = R::new(cx, 0);
                r.put("labels", any_list(cx));
                r.done()
            }
            _ => any_list(cx),
        };
        if !matches!(&v.w, Y::Seq(x) if x.is_empty()) && !r.has(key) {
            r.put(key, v);
        }
    }
    r.done()
}
/// Mounts with at most one thing that their short form cannot hold.
fn near(cx: &Cx) -> P {
    let mut odd = Some(cx.draw(8));
    let mut is = |n: u64| odd == Some(n) && odd.take().is_some();
    let mut r = R::new(cx, 0);
    let target = if is(1) { "/a:b" } else { "/t" };
    r.put("target", sstr(target));
    if cx.coin() {
        r.put("type", sstr("volume"));
        if cx.coin() {
            r.put("source", sstr(ident(cx)));
        }
        if is(2) {
            let mut r2 = R::new(cx, 0);
            r2.put("nocopy", same(Y::Bool(true)));
            r.put("volume", r2.done());
        } else if is(3) {
            let mut r2 = R::new(cx, 0);
            r2.put("subpath", sstr("p"));
            r.put("volume", r2.done());
        }
    } else {
        r.put("type", sstr("bind"));
        r.put("source", sstr(if is(2) { "./x:y" } else { "./x" }));
        let mut r2 = R::new(cx, 0);
        if !is(3) {
            r2.put("create_host_path", same(Y::Bool(true)));
        }
        if is(4) {
            r2.put("propagation", sstr("rslave"));
        }
        if cx.coin() {
            r2.put("selinux", sstr(if cx.coin() { "z" } else { "Z" }));
        }
        if is(5) {
            r2.put("x-a", sstr("b"));
        }
        r.put("bind", r2.done());
    }
    if is(6) {
        r.put("consistency", sstr("cached"));
    }
    if is(7) {
        r.put("x-b", sstr("b"));
    }
    if cx.coin() {
        r.put("read_only", same(Y::Bool(true)));
    }
    let p = r.done();
    crate::gen::p(Y::Seq(vec![p.w]), Y::Seq(vec![p.c]))
}
/// Lists and maps, with values that look like numbers.
fn any_list(cx: &Cx) -> P {
    if cx.coin() {
        return list_or_map(cx);
    }
    set_of(cx, 1, 3, |cx| {
        let v = *cx.pick(&[
            "1.50", "1.5", "007", "+1", "-1", "-0", "1e3", "inf", "nan", "NaN", "infinity", "true", "True", "18446744073709551615",
            "18446744073709551616", "0.1", ".5", "5.", "1_000", "0x10", "a=b", "", " 1", "9007199254740993", "-9223372036854775808",
            "1e400", "0.30000000000000004", "null", "~",
        ]);
        sstr(format!("{}={v}", gen::word(cx)))
    })
}

fn store(disk: &mut Disk, text: &str) {
    let f = disk.create("tmp");
    disk.append(f, text.as_bytes());
    disk.fsync(f);
    disk.rename("tmp", "f");
    disk.sync_dir();
}

fn run(cx: &Cx) -> Res {
    let p = if cx.chance(1, 5) {
        gen::compose(cx, Shape::small(cx))
    } else {
        let mut r = R::new(cx, *cx.pick(&[0, 6]));
        r.coll("include", |cx| list_of(cx, 1, 3, |cx| gen::include(cx, 8)));
        r.put("services", map_of(cx, 1, 2, ident, |cx, _| focused(cx)));
        r.coll("networks", |cx| gen::resources(cx, 8, gen::network));
        r.coll("secrets", |cx| gen::resources(cx, 8, gen::secret));
        r.done()
    };
    let d = doc_of(cx, p);
    let mut c = match load(cx, &d.text, pick_via(cx))? {
        Ok(c) => c,
        Err(e) => return viol("rejected", format!("valid document rejected: {e}\n{}", clip(&d.text))),
    };
    let parse = |t: &str| match serde_yaml::from_str::<Value>(t) {
        Ok(v) => Ok(v),
        Err(e) => viol("saved-not-yaml", format!("{e}\n{}", clip(t))),
    };
    let text = match save(&c)? {
        Ok(t) => t,
        Err(e) => return viol("save", e),
    };
    let first = parse(&text)?;
    if svc_ports(&first) > 5000 {
        return Ok(());
    }
    let want = expand(first.clone(), true);
    let mut last = text.clone();
    let mut disk = Disk::default();
    store(&mut disk, &text);

    for _ in 0..cx.range(1, 12) {
        let mut what = None;
        for _ in 0..6 {
            what = convert(cx, &mut c)?;
            if what.is_some() {
                break;
            }
        }
        let Some(what) = what else { continue };
        let text = match save(&c)? {
            Ok(t) => t,
            Err(e) => return viol(format!("save:{what}"), format!("after {what}: {e}")),
        };
        cx.note(|| format!("after {what}:\n{text}"));
        let got = expand(parse(&text)?, true);
        if got != want {
            let class = match what {
                "named-volume-selinux" if expand(parse(&text)?, false) != expand(first.clone(), false) => "changed:volumes to long",
                "named-volume-selinux" | "list-key-equals" => what,
                _ => &format!("changed:{what}"),
            };
            return viol(class, format!("{what} changes what the document says: {}\nbefore:\n{}\nafter:\n{}", differ(&want, &got, ""), clip(&last), clip(&text)));
        }
        // another process reads it back
        let (t2, e) = (text.clone(), cx.draw(1 << 30));
        let back = on_thread(e, move || serde_yaml::from_str::<Compose>(&t2).map_err(|e| e.to_string()))?;
        match back {
            Ok(b) => {
                ensure!(has_empty(&d.p.w) || b == c, format!("reload:{what}"), "after {what} the document is saved as\n{}\nwhich loads differently", clip(&text));
                if cx.chance(1, 4) {
                    c = b;
                }
            }
            Err(e) => return viol(format!("reload:{what}"), format!("after {what} the document does not load again: {e}\n{}", clip(&text))),
        }
        last = text;
        match cx.draw(8) {
            0 => {
                store(&mut disk, &last);
            }
            1 => {
                let mut w = SimWriter::new(cx, cx.n(last.len().max(1)), Fault::Error(*cx.pick(KINDS)));
                let r = guard("saving", || serde_yaml::to_writer(&mut w, &c))?;
                ensure!(r.is_err(), "save", "saving reports success though the disk failed");
                cx.count("failed save");
            }
            2 => {
                disk.crash(cx);
                let t = String::from_utf8(disk.read("f").unwrap_or_default()).unwrap_or_default();
                c = match load(cx, &t, pick_via(cx))? {
                    Ok(c) => c,
                    Err(e) => return viol("reload", format!("{e}\n{}", clip(&t))),
                };
                last = t;
                cx.count("crash");
            }
            _ => {}
        }
    }
    Ok(())
}

/// How many long ports the document has.
fn svc_ports(v: &Value) -> u128 {
    let mut n = 0;
    let Some(Value::Mapping(m)) = v.get("services") else { return 0 };
    for x in m.values() {
        if let Some(Value::Sequence(p)) = x.get("ports") {
            for p in p {
                if let Some(p) = text_of(p).and_then(|t| scal::short_port(&t)) {
                    n += p.container.1 - p.container.0 + 1;
                }
            }
        }
    }
    n
}

fn differ(a: &Value, b: &Value, at: &str) -> String {
    if let (Value::Mapping(x), Value::Mapping(y)) = (a, b) {
        for (k, v) in x {
            let key = format!("{at}/{}", text_of(k).unwrap_or_default());
            match y.get(k) {
                None => return format!("{key} is lost"),
                Some(w) if v != w => return differ(v, w, &key),
                _ => {}
            }
        }
        for k in y.keys() {
            if !x.contains_key(k) {
                return format!("{at}/{} is new", text_of(k).unwrap_or_default());
            }
        }
    }
    if let (Value::Sequence(x), Value::Sequence(y)) = (a, b) {
        if x.len() == y.len() {
            if let Some(i) = (0..x.len()).find(|i| x[*i] != y[*i]) {
                return differ(&x[i], &y[i], &format!("{at}/{i}"));
            }
        }
    }
    clip(&format!("{at} was {a:?} and is {b:?}"))
}
