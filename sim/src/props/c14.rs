use super::Prop;
use crate::core::{guard, viol, Cx, Res};
use crate::ensure;
use crate::gen::prim::{abs_path, bytes, chars, duration_parts, edge_u64, ident, mapkey, value, word};
use crate::gen::svc;
use crate::io::{Fault, SimWriter};
use crate::mutate;
use crate::refp;
use crate::scal::{self, cpu_set, cpu_text, perms, PortRef};
use crate::y::{diff, int, s, Y};
use compose_spec::service::build::{Cache, CacheOption, CacheType};
use compose_spec::service::device::{CgroupRule, Kind, MajorMinorNumber, Permissions};
use compose_spec::service::ports::{Protocol, Range, ShortPort, ShortRanges};
use compose_spec::service::volumes::{AbsolutePath, HostPath, SELinux, ShortOptions, ShortVolume, Source};
use compose_spec::service::{ByteValue, CpuSet, Device, Image, Limit, Resource, Ulimit, Ulimits};
use compose_spec::{AsShort, ExtensionKey, Extensions, Identifier, ItemOrList, ListOrMap, MapKey, ShortOrLong};
use indexmap::IndexSet;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_yaml::Value;
use std::collections::BTreeSet;
use std::fmt::{Debug, Display};
use std::net::IpAddr;
use std::path::{Component, Path, PathBuf};
use std::str::FromStr;

pub const PROP: Prop = Prop {
    id: "C14",
    run,
    quick_runs: 320000,
    apart: false,
    rule: "Each run takes one value that keeps state (port ranges and their iterators, a short port, an absolute or host path, a short volume, a CPU set, ulimits, a byte value, a cache, device permissions and cgroup rules, lists and maps) and a plain model of it, and applies a drawn history of operations, valid and invalid, to both: every result and, after every operation, every observable must agree, and the value must save, load and parse back equal. Saves go to a simulated disk, crashes bring back the last complete save, and saves fail at a drawn byte. Non-trivial: at least one operation was compared.",
    real: "ports, volumes, cpuset, limit, ulimit, byte_value, cache, device, common collections of compose_spec, serde_yaml",
    stub: "disk (saves, crashes, failed writes)",
    probes: &["rejected edit", "crash", "failed save", "ports", "range", "path", "volume", "cpu set", "ulimits", "cache", "device", "collection", "iterator", "bytes"],
    assume: &["paths and cache options that their own text form cannot hold (a colon in a path, a comma in an option) are not put into values judged by their text"],
};

fn run(cx: &Cx) -> Res {
    cx.nontrivial();
    match cx.draw(11) {
        0 => ranges(cx),
        1 => range(cx),
        2 => iterator(cx),
        3 => absolute_path(cx),
        4 => host_path(cx),
        5 => volume(cx),
        6 => cpus(cx),
        7 => ulimits(cx),
        8 => cache(cx),
        9 => device(cx),
        _ => collections(cx),
    }
}

fn steps(cx: &Cx) -> usize {
    if cx.huge(200) {
        return *cx.pick(&[40, 60, 100, 160]);
    }
    cx.range(1, 24)
}

/// The last complete save of a value with its model.
struct Store<M> {
    text: String,
    model: M,
}

/// Save to a disk that may fail; a crash loses the value and brings back the last complete save.
fn durable<T: Serialize + DeserializeOwned, M: Clone>(cx: &Cx, v: &mut T, m: &mut M, st: &mut Option<Store<M>>) -> Res {
    match cx.draw(12) {
        0 => {
            let text = serde_yaml::to_string(v).map_err(|e| fail("save", e.to_string()))?;
            *st = Some(Store { text, model: m.clone() });
        }
        1 => {
            // a failed save leaves the value, and the file it was to replace
            let text = serde_yaml::to_string(v).unwrap_or_default();
            let mut w = SimWriter::new(cx, cx.n(text.len().max(1)), Fault::Full);
            let r = guard("saving to a failing disk", || serde_yaml::to_writer(&mut w, v))?;
            ensure!(r.is_err(), "save", "saving reports success though the disk failed");
            cx.count("failed save");
        }
        2 => {
            if let Some(s) = st {
                *v = serde_yaml::from_str(&s.text).map_err(|e| fail("load", format!("{e}\n{}", s.text)))?;
                *m = s.model.clone();
                cx.count("crash");
            }
        }
        _ => {}
    }
    Ok(())
}

fn fail(class: &str, msg: String) -> crate::core::Viol {
    crate::core::Viol {
        class: class.into(),
        msg,
    }
}

/// The value saves as `want` and loads back equal.
fn saves<T: Serialize + DeserializeOwned + PartialEq + Debug>(v: &T, want: &Y) -> Res {
    let t = guard("saving", || serde_yaml::to_string(v))?.map_err(|e| fail("save", e.to_string()))?;
    let y: Value = serde_yaml::from_str(&t).map_err(|e| fail("save", e.to_string()))?;
    if let Some(d) = diff(&y, want, "") {
        return viol("saved-wrong", format!("{d}: {v:?} saves as {t}"));
    }
    let b: T = guard("loading", || serde_yaml::from_str(&t))?.map_err(|e| fail("load", format!("{v:?} saves as {t}: {e}")))?;
    ensure!(b == *v, "load-differs", "{v:?} saves as {t} and loads as {b:?}");
    Ok(())
}

/// The value displays as `want` and parses back equal.
fn shows<T: Display + FromStr + PartialEq + Debug>(v: &T, want: &str) -> Res
where
    T::Err: Debug,
{
    let t = guard("formatting", || v.to_string())?;
    ensure!(t == want, "text", "{v:?} is {t:?}, not {want:?}");
    let b = guard("parsing", || T::from_str(&t))?;
    ensure!(b.as_ref().is_ok_and(|b| b == v), "parse", "{v:?} is {t:?} and parses as {b:?}");
    Ok(())
}

// ------------------------------------------------------------------ ports

type R2 = (u32, u32);

fn r_text(r: R2) -> String {
    if r.0 == r.1 {
        r.0.to_string()
    } else {
        format!("{}-{}", r.0, r.1)
    }
}
fn pair(cx: &Cx) -> R2 {
    let a = svc::port_num(cx) as u32;
    let n = match cx.draw(8) {
        7 => cx.draw(65536) as u32,
        _ => *cx.pick(&[0, 0, 1, 2, 5, 9, 100, 255, 256, 65535]),
    };
    (a, a + n)
}
fn mk_range(r: R2) -> Option<Range> {
    Range::new(u16::try_from(r.0).ok()?, Some(u16::try_from(r.1).ok()?)).ok()
}
fn valid_pair(cx: &Cx) -> (Range, R2) {
    for _ in 0..8 {
        let r = pair(cx);
        if let Some(x) = mk_range(r) {
            return (x, r);
        }
    }
    (Range::from(80), (80, 80))
}
fn range_is(x: Range, r: R2) -> Res {
    ensure!(u32::from(x.start()) == r.0, "range", "{x:?} starts at {}, not {}", x.start(), r.0);
    let end = x.end().map(u32::from);
    ensure!(end == (r.0 != r.1).then_some(r.1), "range", "{x:?} ends at {end:?}, not {}", r.1);
    let size = (r.1 - r.0 + 1).min(u32::from(u16::MAX));
    ensure!(u32::from(guard("size", || x.size())?) == size, "range", "{x:?} has size {}, not {size}", x.size());
    let (a, b) = (r.0 as u16, r.1 as u16);
    ensure!(x == (a..=b), "range", "{x:?} is not {a}..={b}");
    ensure!((x == a) == (a == b), "range", "{x:?} compared with {a}");
    shows(&x, &r_text(r))
}

fn range(cx: &Cx) -> Res {
    cx.count("range");
    let (mut x, mut m) = valid_pair(cx);
    let mut st = None;
    for _ in 0..steps(cx) {
        let op = cx.draw(8);
        match op {
            0 | 1 => {
                let by = *cx.pick(&[0u16, 1, 2, 80, 1000, 30000]);
                if m.1 + u32::from(by) <= 65535 {
                    x = guard("adding", || if op == 0 { x + by } else {
                        let mut x = x;
                        x += by;
                        x
                    })?;
                    m = (m.0 + u32::from(by), m.1 + u32::from(by));
                }
            }
            2 | 3 => {
                let by = *cx.pick(&[0u16, 1, 2, 80, 1000, 30000]);
                if m.0 >= u32::from(by) {
                    x = guard("subtracting", || if op == 2 { x - by } else {
                        let mut x = x;
                        x -= by;
                        x
                    })?;
                    m = (m.0 - u32::from(by), m.1 - u32::from(by));
                }
            }
            4 | 5 => {
                // built anew, by every constructor
                let (a, b) = (cx.draw(65536) as u16, cx.draw(65536) as u16);
                let (a, b) = if cx.coin() { (a.min(b), a.max(b)) } else { (a, b) };
                let r = guard("new", || match cx.draw(4) {
                    0 => Range::new(a, Some(b)).ok(),
                    1 => Range::try_from((a, b)).ok(),
                    2 => Range::try_from(a..=b).ok(),
                    _ => Range::try_from((a, Some(b))).ok(),
                })?;
                ensure!(r.is_some() == (a <= b), "range", "new({a}, {b}) gives {r:?}");
                match r {
                    Some(r) => {
                        x = r;
                        m = (a.into(), b.into());
                    }
                    None => cx.count("rejected edit"),
                }
            }
            6 => {
                let t = if cx.coin() { mutate::twist(cx, &r_text(m)) } else { r_text(pair(cx)) };
                if !t.contains('+') {
                    let r = guard("parse", || Range::from_str(&t))?;
                    let want = scal::port_range(&t);
                    ensure!(r.is_ok() == want.is_some(), "range", "parsing {t:?} gives {r:?}");
                    if let (Ok(r), Some((a, b))) = (r, want) {
                        x = r;
                        m = (a as u32, b as u32);
                    }
                }
            }
            _ => {
                let v: Vec<u32> = x.into_iter().take(70000).map(u32::from).collect();
                ensure!(v.iter().copied().eq(m.0..=m.1), "range", "{x:?} iterates over {} ports", v.len());
            }
        }
        cx.ev("range", op, u64::from(m.0) << 16 | u64::from(m.1));
        range_is(x, m)?;
        saves(&x, &if m.0 == m.1 { int(m.0) } else { s(r_text(m)) })?;
        durable(cx, &mut x, &mut m, &mut st)?;
    }
    Ok(())
}

#[derive(Clone)]
struct PortM {
    ip: Option<IpAddr>,
    host: Option<R2>,
    cont: R2,
    proto: Option<String>,
}
impl PortM {
    fn canon(&self) -> Y {
        let w = |r: R2| (u128::from(r.0), u128::from(r.1));
        PortRef {
            ip: self.ip,
            host: self.host.map(w),
            container: w(self.cont),
            proto: self.proto.clone(),
        }
        .canon()
    }
}

/// a short port and its two ranges
fn ranges(cx: &Cx) -> Res {
    cx.count("ports");
    let (c, m) = valid_pair(cx);
    let mut p = ShortPort::from(c);
    let mut m = PortM {
        ip: None,
        host: None,
        cont: m,
        proto: None,
    };
    let mut st = None;
    for _ in 0..steps(cx) {
        let op = cx.draw(9);
        let size = m.cont.1 - m.cont.0;
        // a range of the same size more often than not
        let (r, rm) = {
            let (r, rm) = valid_pair(cx);
            let same = (rm.0, rm.0 + size);
            match mk_range(same) {
                Some(s) if cx.chance(2, 3) => (s, same),
                _ => (r, rm),
            }
        };
        match op {
            0 | 1 => {
                let before = p.clone();
                let got = guard("replace_host", || p.ranges.replace_host(r))?;
                if rm.1 - rm.0 == size {
                    let want = m.host.replace(rm);
                    let Ok(old) = got else { return viol("ports", format!("replace_host({r}) of {before} is refused: {got:?}")) };
                    ensure!(old == want.and_then(mk_range), "ports", "replace_host returns {old:?}, the host was {want:?}");
                } else {
                    cx.count("rejected edit");
                    ensure!(got.is_err(), "ports", "replace_host({r}) of {before} is accepted");
                    ensure!(p == before, "rejected-edit", "rejected replace_host({r}) changes {before} to {p}");
                    let e = format!("{:?}", got.err());
                    ensure!(!e.is_empty(), "ports", "no error");
                }
            }
            2 => {
                let got = guard("take_host", || p.ranges.take_host())?;
                let want = m.host.take();
                ensure!(got == want.and_then(mk_range), "ports", "take_host returns {got:?}, not {want:?}");
            }
            3 | 4 => {
                let before = p.clone();
                let got = guard("replace_container", || p.ranges.replace_container(r))?;
                let fits = m.host.is_none_or(|h| h.1 - h.0 == rm.1 - rm.0);
                if fits {
                    let want = std::mem::replace(&mut m.cont, rm);
                    let Ok(old) = got else { return viol("ports", format!("replace_container({r}) of {before} is refused")) };
                    ensure!(Some(old) == mk_range(want), "ports", "replace_container returns {old:?}, not {want:?}");
                } else {
                    cx.count("rejected edit");
                    ensure!(got.is_err(), "ports", "replace_container({r}) of {before} is accepted");
                    ensure!(p == before, "rejected-edit", "rejected replace_container({r}) changes {before} to {p}");
                }
            }
            5 => {
                let h = if cx.coin() { Some((r, rm)) } else { None };
                let (c, cm) = if cx.coin() { valid_pair(cx) } else { (p.ranges.container(), m.cont) };
                let got = guard("new", || ShortRanges::new(h.map(|h| h.0), c))?;
                let fits = h.is_none_or(|h| h.1 .1 - h.1 .0 == cm.1 - cm.0);
                ensure!(got.is_ok() == fits, "ports", "ShortRanges::new({h:?}, {c}) gives {got:?}");
                if let Ok(x) = got {
                    p.ranges = x;
                    m.host = h.map(|h| h.1);
                    m.cont = cm;
                }
            }
            6 => {
                m.ip = if cx.coin() { None } else { crate::gen::prim::ip(cx).parse().ok() };
                p.host_ip = m.ip;
            }
            7 => {
                m.proto = if cx.chance(1, 3) { None } else { Some(svc::proto(cx)) };
                p.protocol = m.proto.as_deref().map(Protocol::parse);
            }
            _ => {
                // parsed anew, from a damaged form
                let t = match m.canon() {
                    Y::Str(t) => t,
                    y => format!("{y:?}").trim_matches(|c: char| !c.is_ascii_digit()).to_owned(),
                };
                let t = if cx.coin() { t } else { mutate::twist(cx, &t) };
                if !t.contains('+') {
                    let got = guard("parse", || ShortPort::from_str(&t))?;
                    let want = scal::short_port(&t);
                    ensure!(got.is_ok() == want.is_some(), "ports", "parsing {t:?} gives {got:?}");
                    if let (Ok(x), Some(w)) = (got, want) {
                        let w32 = |r: (u128, u128)| (r.0 as u32, r.1 as u32);
                        p = x;
                        m = PortM {
                            ip: w.ip,
                            host: w.host.map(w32),
                            cont: w32(w.container),
                            proto: w.proto,
                        };
                    }
                }
            }
        }
        cx.ev("ports", op, u64::from(m.cont.0));
        let (h, c) = (p.ranges.host(), p.ranges.container());
        ensure!(h.is_some() == m.host.is_some(), "ports", "host is {h:?}, not {:?}", m.host);
        if let (Some(h), Some(w)) = (h, m.host) {
            range_is(h, w)?;
        }
        range_is(c, m.cont)?;
        let want = m.canon();
        let text = match &want {
            Y::Str(t) => t.clone(),
            _ => r_text(m.cont),
        };
        shows(&p, &text)?;
        saves(&p, &want)?;
        if m.ip.is_none() && m.proto.is_none() {
            shows(&p.ranges, &text)?;
        }
        if m.cont.1 - m.cont.0 < 300 {
            let v: Vec<(Option<u16>, u16)> = guard("iterating", || p.ranges.into_iter().collect())?;
            ensure!(v == pairs(&m), "iterator", "{p} iterates as {v:?}");
        }
        durable(cx, &mut p, &mut m, &mut st)?;
    }
    Ok(())
}

fn pairs(m: &PortM) -> Vec<(Option<u16>, u16)> {
    (0..=(m.cont.1 - m.cont.0))
        .map(|i| (m.host.map(|h| (h.0 + i) as u16), (m.cont.0 + i) as u16))
        .collect()
}

/// the iterator of a port mapping, used in parts
fn iterator(cx: &Cx) -> Res {
    cx.count("iterator");
    let (r, m) = valid_pair(cx);
    let size = m.1 - m.0;
    let h = if cx.coin() { (0..6).map(|_| pair(cx).0).map(|a| (a, a + size)).find(|h| h.1 <= 65535) } else { None };
    let Ok(x) = ShortRanges::new(h.and_then(mk_range), r) else {
        return viol("ports", format!("ShortRanges::new({h:?}, {m:?}) is refused"));
    };
    let model = PortM {
        ip: None,
        host: h,
        cont: m,
        proto: None,
    };
    let want = pairs(&model);
    let mut at = 0;
    let mut it = x.into_iter();
    for _ in 0..steps(cx) {
        match cx.draw(6) {
            0..=2 => {
                let got = guard("next", || it.next())?;
                ensure!(got == want.get(at).copied(), "iterator", "{x} gives {got:?} at {at}");
                at = (at + 1).min(want.len());
            }
            3 => {
                let n = *cx.pick(&[0, 1, 2, 7, 4000, 65535]);
                let got = guard("nth", || it.nth(n))?;
                ensure!(got == want.get(at + n).copied(), "iterator", "{x} gives {got:?} at {at}+{n}");
                at = (at + n + 1).min(want.len());
            }
            4 => {
                let (lo, hi) = it.size_hint();
                let left = want.len() - at;
                ensure!(lo <= left && hi.is_none_or(|h| h >= left), "iterator", "size hint {lo}, {hi:?} with {left} left");
            }
            _ => {
                let v: Vec<_> = guard("rest", || it.clone().collect())?;
                ensure!(v == want[at..], "iterator", "{x} has {} left at {at}, not {}", v.len(), want.len() - at);
            }
        }
        cx.ev("iterator", at as u64, 0);
    }
    let n = guard("count", || it.count())?;
    ensure!(n == want.len() - at, "iterator", "{n} left, not {}", want.len() - at);
    Ok(())
}

// ------------------------------------------------------------------ paths

fn segment(cx: &Cx) -> String {
    match cx.draw(10) {
        0 => "..".into(),
        1 => ".".into(),
        2 => String::new(),
        3 => abs_path(cx),
        4 => "/".into(),
        5 => format!("{}/{}", word(cx), word(cx)),
        6 => format!("./{}", word(cx)),
        7 => format!("../{}", word(cx)),
        _ => word(cx),
    }
}
fn is_host(p: &Path) -> bool {
    p.has_root() || matches!(p.components().next(), Some(Component::CurDir | Component::ParentDir))
}

macro_rules! path_history {
    ($cx:expr, $ty:ident, $valid:expr, $start:expr) => {{
        let cx: &Cx = $cx;
        let valid = $valid;
        cx.count("path");
        let start: String = $start;
        let Ok(mut x) = $ty::new(start.as_str()) else { return viol("path", format!("{start:?} is refused")) };
        let mut m = PathBuf::from(&start);
        let mut st = None;
        for _ in 0..steps(cx) {
            let op = cx.draw(8);
            match op {
                0..=2 => {
                    let t = segment(cx);
                    guard("push", || x.push(&t))?;
                    m.push(&t);
                }
                3..=5 => {
                    let before = x.clone();
                    let got = guard("pop", || x.pop())?;
                    let up = m.parent().filter(|p| valid(p)).map(Path::to_path_buf);
                    ensure!(got == up.is_some(), "path", "pop of {before:?} returns {got}");
                    match up {
                        Some(up) => m = up,
                        None => {
                            cx.count("rejected edit");
                            ensure!(x == before, "rejected-edit", "refused pop changes {before:?} to {x:?}");
                        }
                    }
                }
                6 => {
                    let t = if cx.coin() { segment(cx) } else { mutate::twist(cx, m.to_str().unwrap_or_default()) };
                    let got = guard("new", || match cx.draw(4) {
                        0 => $ty::new(t.as_str()).ok(),
                        1 => $ty::try_from(t.clone()).ok(),
                        2 => $ty::try_from(PathBuf::from(&t)).ok(),
                        _ => $ty::from_str(&t).ok(),
                    })?;
                    ensure!(got.is_some() == valid(Path::new(&t)), "path", "new({t:?}) gives {got:?}");
                    if let Some(y) = got {
                        x = y;
                        m = PathBuf::from(&t);
                    }
                }
                _ => {
                    let y = $ty::try_from(PathBuf::from(x.clone()));
                    ensure!(y.as_ref() == Ok(&x), "path", "{x:?} converts to {y:?}");
                }
            }
            cx.ev("path", op, m.as_os_str().len() as u64);
            ensure!(x.as_path() == m && x.as_path().as_os_str() == m.as_os_str(), "path", "{x:?} should be {m:?}");
            ensure!(valid(x.as_path()), "path", "{x:?} is not of its form");
            ensure!(x.as_inner() == &m && x.clone().into_inner() == m, "path", "{x:?} should be {m:?}");
            saves(&x, &s(m.to_str().unwrap_or_default()))?;
            durable(cx, &mut x, &mut m, &mut st)?;
        }
        Ok(())
    }};
}

fn absolute_path(cx: &Cx) -> Res {
    path_history!(cx, AbsolutePath, |p: &Path| p.has_root(), abs_path(cx))
}
fn host_path(cx: &Cx) -> Res {
    path_history!(cx, HostPath, is_host, svc::host_path(cx))
}

fn plain_abs(cx: &Cx) -> String {
    format!("/{}", word(cx).replace(':', "_"))
}

#[derive(Clone)]
struct VolM {
    target: PathBuf,
    opts: Option<(String, bool, Option<char>)>,
}
impl VolM {
    fn text(&self) -> String {
        let t = self.target.to_str().unwrap_or_default();
        match &self.opts {
            None => t.to_owned(),
            Some((src, ro, z)) => {
                let mut o = Vec::new();
                if *ro {
                    o.push("ro".to_owned());
                }
                if let Some(z) = z {
                    o.push(z.to_string());
                }
                let tail = if o.is_empty() { String::new() } else { format!(":{}", o.join(",")) };
                format!("{src}:{t}{tail}")
            }
        }
    }
}

fn volume(cx: &Cx) -> Res {
    cx.count("volume");
    let t = plain_abs(cx);
    let Ok(target) = AbsolutePath::new(t.as_str()) else { return viol("path", format!("{t:?} is refused")) };
    let mut v = ShortVolume::new(target);
    let mut m = VolM {
        target: t.into(),
        opts: None,
    };
    let mut st = None;
    for _ in 0..steps(cx) {
        let op = cx.draw(8);
        match op {
            0 => {
                let t = word(cx).replace(':', "_");
                v.container_path.push(&t);
                m.target.push(&t);
            }
            1 => {
                let got = v.container_path.pop();
                ensure!(got == m.target.pop(), "path", "pop returns {got}");
            }
            2 | 3 => {
                let src = match cx.draw(4) {
                    0 => plain_abs(cx),
                    1 => format!("./{}", word(cx).replace(':', "_")),
                    2 => "..".to_owned(),
                    _ => ident(cx),
                };
                let src = if cx.chance(1, 5) { mutate::twist(cx, &src).replace(':', "_") } else { src };
                let got = guard("source", || match cx.draw(3) {
                    0 => Source::parse(src.as_str()),
                    1 => Source::try_from(src.clone()),
                    _ => Source::from_str(&src),
                })?;
                ensure!(got.is_ok() == scal::source(&src), "volume", "source {src:?} gives {got:?}");
                if let Ok(g) = got {
                    ensure!(matches!(g, Source::HostPath(_)) == src.starts_with(['.', '/']), "volume", "source {src:?} is {g:?}");
                    v.options = Some(ShortOptions::new(g));
                    m.opts = Some((src, false, None));
                } else {
                    cx.count("rejected edit");
                }
            }
            4 => {
                v.options = None;
                m.opts = None;
            }
            5 => {
                let ro = cx.coin();
                if let (Some(o), Some(mo)) = (&mut v.options, &mut m.opts) {
                    o.read_only = ro;
                    mo.1 = ro;
                }
            }
            6 => {
                let z = *cx.pick(&[None, Some('z'), Some('Z')]);
                if let (Some(o), Some(mo)) = (&mut v.options, &mut m.opts) {
                    o.selinux = z.map(|z| if z == 'z' { SELinux::Shared } else { SELinux::Private });
                    mo.2 = z;
                }
            }
            _ => {
                let t = mutate::twist(cx, &m.text());
                let got = guard("parse", || ShortVolume::from_str(&t))?;
                let want = scal::short_volume(&t);
                ensure!(got.is_ok() == want.is_some(), "volume", "parsing {t:?} gives {got:?}");
                if let (Ok(g), Some(w)) = (got, want) {
                    shows(&g, &w)?;
                }
            }
        }
        cx.ev("volume", op, 0);
        let t = m.text();
        shows(&v, &t)?;
        saves(&v, &s(&t))?;
        durable(cx, &mut v, &mut m, &mut st)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ CPU sets

fn cpus(cx: &Cx) -> Res {
    cx.count("cpu set");
    let mut m: BTreeSet<u64> = BTreeSet::new();
    let mut c = CpuSet::default();
    let mut st = None;
    let base = *cx.pick(&[0u64, 0, 0, 5, 1 << 40, u64::MAX - 12]);
    for _ in 0..steps(cx) {
        let op = cx.draw(7);
        let at = base + cx.draw(12);
        match op {
            0 | 1 => {
                c.0.insert(at);
                m.insert(at);
            }
            2 => {
                c.0.remove(&at);
                m.remove(&at);
            }
            3 => {
                let to = at.saturating_add(cx.draw(4));
                c.0.extend(at..=to);
                m.extend(at..=to);
            }
            4 => {
                c = m.clone().into();
                let back = BTreeSet::from(c.clone());
                ensure!(back == m, "cpu set", "{back:?} should be {m:?}");
            }
            5 => {
                let t = mutate::twist(cx, &cpu_text(&m));
                if !mutate::huge(t.as_bytes()) && !t.contains('+') {
                    let got = guard("parse", || CpuSet::from_str(&t))?;
                    let want = cpu_set(&t);
                    ensure!(got.as_ref().ok().map(|c| &c.0) == want.as_ref(), "cpu set", "parsing {t:?} gives {got:?}, not {want:?}");
                    if let (Ok(g), Some(w)) = (got, want) {
                        c = g;
                        m = w;
                    }
                }
            }
            _ => {
                if cx.chance(1, 4) {
                    c.0.clear();
                    m.clear();
                }
            }
        }
        cx.ev("cpus", op, m.len() as u64);
        ensure!(c.0 == m && c.is_empty() == m.is_empty(), "cpu set", "{c:?} should be {m:?}");
        let t = cpu_text(&m);
        shows(&c, &t)?;
        saves(&c, &s(&t))?;
        durable(cx, &mut c, &mut m, &mut st)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ limits

#[derive(Clone, PartialEq)]
enum UlM {
    Short(Option<u64>),
    Long(Option<u64>, Option<u64>, Vec<(String, Y)>),
}
fn lim(l: Option<u64>) -> Limit<u64> {
    l.map_or(Limit::Unlimited, Limit::Value)
}
fn lim_y(l: Option<u64>) -> Y {
    l.map_or(int(-1), int)
}
fn draw_lim(cx: &Cx) -> Option<u64> {
    if cx.chance(1, 4) {
        None
    } else {
        Some(*cx.pick(&[0, 1, 7, edge_u64(cx)]))
    }
}

fn ulimits(cx: &Cx) -> Res {
    cx.count("ulimits");
    let mut u = Ulimits::new();
    let mut m: Vec<(String, UlM)> = Vec::new();
    let mut st = None;
    for _ in 0..steps(cx) {
        let op = cx.draw(10);
        let name = chars(cx, b"abc", 1, 1);
        let Ok(key) = Resource::new(name.as_str()) else { return viol("ulimits", format!("resource {name:?} refused")) };
        match op {
            0..=2 => {
                let l = draw_lim(cx);
                let e = if cx.coin() { UlM::Short(l) } else { UlM::Long(l, if cx.coin() { l } else { draw_lim(cx) }, Vec::new()) };
                let x = match &e {
                    UlM::Short(l) => ShortOrLong::Short(lim(*l)),
                    UlM::Long(a, b, _) => ShortOrLong::Long(Ulimit {
                        soft: lim(*a),
                        hard: lim(*b),
                        extensions: Extensions::default(),
                    }),
                };
                u.insert(key, x);
                match m.iter_mut().find(|(k, _)| *k == name) {
                    Some(x) => x.1 = e,
                    None => m.push((name, e)),
                }
            }
            3 => {
                u.shift_remove(&key);
                m.retain(|(k, _)| *k != name);
            }
            4 | 5 => {
                let l = draw_lim(cx);
                if let (Some(ShortOrLong::Long(x)), Some((_, UlM::Long(a, b, _)))) = (u.get_mut(&key), m.iter_mut().find(|(k, _)| *k == name)) {
                    if op == 4 {
                        x.soft = lim(l);
                        *a = l;
                    } else {
                        x.hard = lim(l);
                        *b = l;
                    }
                }
            }
            6 => {
                let k = format!("x-{}", mapkey(cx));
                let v = value(cx);
                if let (Some(ShortOrLong::Long(x)), Some((_, UlM::Long(_, _, ext)))) = (u.get_mut(&key), m.iter_mut().find(|(k, _)| *k == name)) {
                    let Ok(ek) = ExtensionKey::new(k.as_str()) else { return viol("ulimits", format!("extension {k:?} refused")) };
                    x.extensions.insert(ek, v.to_value());
                    match ext.iter_mut().find(|(x, _)| *x == k) {
                        Some(e) => e.1 = v,
                        None => ext.push((k, v)),
                    }
                }
            }
            7 => {
                if let (Some(ShortOrLong::Long(x)), Some((_, UlM::Long(_, _, ext)))) = (u.get_mut(&key), m.iter_mut().find(|(k, _)| *k == name)) {
                    x.extensions.clear();
                    ext.clear();
                }
            }
            8 => {
                // turn the entry into its long form
                if let (Some(x), Some((_, e))) = (u.get_mut(&key), m.iter_mut().find(|(k, _)| *k == name)) {
                    if let UlM::Short(l) = *e {
                        *e = UlM::Long(l, l, Vec::new());
                        let long: Ulimit = lim(l).into();
                        *x = ShortOrLong::Long(long);
                    }
                }
            }
            _ => {
                // and back, where that loses nothing
                if let (Some(x), Some((_, e))) = (u.get_mut(&key), m.iter_mut().find(|(k, _)| *k == name)) {
                    if let (ShortOrLong::Long(l), UlM::Long(a, b, ext)) = (&*x, &*e) {
                        let short = guard("as_short", || l.as_short().copied())?;
                        let want = (a == b && ext.is_empty()).then(|| lim(*a));
                        ensure!(short == want, "ulimits", "as_short of {l:?} is {short:?}");
                        if let Some(w) = short {
                            let a = *a;
                            *x = ShortOrLong::Short(w);
                            *e = UlM::Short(a);
                        }
                    }
                }
            }
        }
        cx.ev("ulimits", op, m.len() as u64);
        let want = Y::Map(
            m.iter()
                .map(|(k, e)| {
                    let v = match e {
                        UlM::Short(l) => lim_y(*l),
                        UlM::Long(a, b, ext) => {
                            let mut v = vec![(s("soft"), lim_y(*a)), (s("hard"), lim_y(*b))];
                            v.extend(ext.iter().map(|(k, v)| (s(k), v.clone())));
                            Y::Rec(v)
                        }
                    };
                    (s(k), v)
                })
                .collect(),
        );
        let nan = format!("{want:?}").contains("NaN");
        if !nan {
            saves(&u, &want)?;
        }
        if let Some((_, UlM::Short(l))) = m.first() {
            let l = *l;
            shows(&lim(l), &l.map_or("-1".to_owned(), |l| l.to_string())).or_else(|e| {
                // an unlimited value has a display form of its own
                if l.is_none() {
                    Ok(())
                } else {
                    Err(e)
                }
            })?;
        }
        durable(cx, &mut u, &mut m, &mut st)?;
    }
    byte_value(cx)
}

fn byte_value(cx: &Cx) -> Res {
    cx.count("bytes");
    for _ in 0..=cx.n(4) {
        let p = bytes(cx);
        let Y::Str(c) = &p.c else { continue };
        let t = if cx.coin() { c.clone() } else { mutate::twist(cx, c) };
        if t.contains('+') {
            continue;
        }
        let got = guard("parse", || ByteValue::from_str(&t))?;
        let want = scal::byte_value(&t);
        ensure!(got.is_ok() == want.is_some(), "bytes", "parsing {t:?} gives {got:?}");
        if let (Ok(b), Some(w)) = (got, want) {
            shows(&b, &w)?;
            let at = w.find(|c: char| !c.is_ascii_digit()).unwrap_or(w.len());
            let n: u64 = w[..at].parse().unwrap_or(0);
            let unit = &w[at..];
            let k = match unit {
                "b" => 1u64,
                "kb" => 1000,
                "mb" => 1_000_000,
                _ => 1_000_000_000,
            };
            ensure!(b.unit() == unit, "bytes", "unit of {w} is {}", b.unit());
            let got = guard("into_bytes", || b.into_bytes())?;
            ensure!(got == n.checked_mul(k), "bytes", "{w} is {got:?} bytes");
            let l = Limit::Value(b);
            saves(&l, &s(&w))?;
        }
    }
    // durations share the same save path
    let us = u128::from(*cx.pick(&[0u64, 1, 999, 1_000_000, 61_000_001, 3_600_000_000, edge_u64(cx)]));
    let t = duration_parts(us);
    let d = guard("duration", || compose_spec::duration::parse(&t))?;
    match d {
        Ok(d) => {
            ensure!(d.as_micros() == us, "duration", "{t} is {d:?}");
            let back = guard("duration", || compose_spec::duration::to_string(d))?;
            ensure!(back == t, "duration", "{d:?} is {back}, not {t}");
        }
        Err(e) => return viol("duration", format!("{t} is refused: {e}")),
    }
    Ok(())
}

// ------------------------------------------------------------------ caches

#[derive(Clone)]
struct CacheM {
    image: Option<String>,
    kind: String,
    opts: Vec<(String, String)>,
}

fn cache_word(cx: &Cx) -> String {
    match cx.draw(4) {
        0 => "mode".into(),
        1 => (*cx.pick(&["max", "src", "dest", "a-b", "0"])).into(),
        _ => chars(cx, b"abc./:@", 1, 4),
    }
}

fn cache(cx: &Cx) -> Res {
    cx.count("cache");
    let img = || -> Option<(Image, String)> {
        let t = svc::image(cx);
        let r = refp::image(&t).filter(|r| !r.port_only())?;
        Image::parse(t).ok().map(|i| (i, r.text()))
    };
    let Some((i, t)) = img() else { return Ok(()) };
    let mut c = Cache::from_image(i);
    let mut m = CacheM {
        image: Some(t),
        kind: String::new(),
        opts: Vec::new(),
    };
    let mut st = None;
    for _ in 0..steps(cx) {
        let op = cx.draw(6);
        match op {
            0 => {
                if let Some((i, t)) = img() {
                    c.cache_type = CacheType::Registry(i);
                    m.image = Some(t);
                }
            }
            1 => {
                let t = cache_word(cx).replace("registry", "gha");
                let Ok(o) = CacheOption::new(t.as_str()) else { return viol("cache", format!("option {t:?} is refused")) };
                c.cache_type = CacheType::Other(o);
                m.image = None;
                m.kind = t;
            }
            2 | 3 => {
                let (k, v) = (cache_word(cx), cache_word(cx));
                if k == "ref" || k == "type" {
                    continue;
                }
                let (Ok(a), Ok(b)) = (CacheOption::new(k.as_str()), CacheOption::new(v.as_str())) else {
                    return viol("cache", format!("option {k:?} or {v:?} is refused"));
                };
                c.options.insert(a, b);
                match m.opts.iter_mut().find(|(x, _)| *x == k) {
                    Some(e) => e.1 = v,
                    None => m.opts.push((k, v)),
                }
            }
            4 => {
                if !m.opts.is_empty() {
                    let at = cx.n(m.opts.len());
                    let (k, _) = m.opts.remove(at);
                    c.options.shift_remove(k.as_str());
                }
            }
            _ => {
                let t = cx.pick(&["", " ", "a b", "\t", "a\n"]);
                ensure!(CacheOption::new(*t).is_err(), "cache", "option {t:?} is accepted");
                cx.count("rejected edit");
            }
        }
        cx.ev("cache", op, m.opts.len() as u64);
        let mut text = match &m.image {
            Some(i) if m.opts.is_empty() => i.clone(),
            Some(i) => format!("type=registry,ref={i}"),
            None => format!("type={}", m.kind),
        };
        for (k, v) in &m.opts {
            text.push_str(&format!(",{k}={v}"));
        }
        shows(&c, &text)?;
        saves(&c, &s(&text))?;
        ensure!(c.cache_type.is_registry() == m.image.is_some() && c.cache_type.is_other() == m.image.is_none(), "cache", "kind of {text}");
        let got: Vec<(String, String)> = guard("into_options", || c.clone().into_options())?
            .into_iter()
            .map(|(k, v)| (k.as_str().to_owned(), v.as_str().to_owned()))
            .collect();
        let mut want: Vec<(String, String)> = match &m.image {
            Some(i) => vec![("type".into(), "registry".into()), ("ref".into(), i.clone())],
            None => vec![("type".into(), m.kind.clone())],
        };
        want.extend(m.opts.iter().cloned());
        ensure!(got == want, "cache", "options of {text} are {got:?}");
        durable(cx, &mut c, &mut m, &mut st)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ devices

#[derive(Clone)]
struct DevM {
    kind: char,
    num: [Option<u16>; 2],
    perm: [bool; 3],
    host: String,
    cont: PathBuf,
}
fn perm_text(p: [bool; 3]) -> String {
    "rwm".chars().zip(p).filter(|(_, b)| *b).map(|(c, _)| c).collect()
}

fn device(cx: &Cx) -> Res {
    cx.count("device");
    let kind = |c| match c {
        'a' => Kind::All,
        'b' => Kind::Block,
        _ => Kind::Char,
    };
    let number = |n: Option<u16>| n.map_or(MajorMinorNumber::All, MajorMinorNumber::Integer);
    let mut m = DevM {
        kind: 'a',
        num: [None, None],
        perm: [true; 3],
        host: plain_abs(cx),
        cont: plain_abs(cx).into(),
    };
    let Ok(container_path) = AbsolutePath::new(m.cont.clone()) else { return viol("path", "refused") };
    let mut r = CgroupRule {
        kind: Kind::All,
        major: MajorMinorNumber::All,
        minor: MajorMinorNumber::All,
        permissions: Permissions::all(),
    };
    let mut d = Device {
        host_path: (&m.host).into(),
        container_path,
        permissions: Permissions::all(),
    };
    let mut st = None;
    for _ in 0..steps(cx) {
        let op = cx.draw(7);
        match op {
            0 => {
                m.kind = *cx.pick(&['a', 'b', 'c']);
                r.kind = kind(m.kind);
            }
            1 | 2 => {
                let n = *cx.pick(&[None, Some(0), Some(1), Some(254), Some(u16::MAX)]);
                m.num[op as usize - 1] = n;
                if op == 1 {
                    r.major = number(n);
                } else {
                    r.minor = number(n);
                }
            }
            3 => {
                m.perm = [cx.coin(), cx.coin(), cx.coin()];
                r.permissions = Permissions {
                    read: m.perm[0],
                    write: m.perm[1],
                    mknod: m.perm[2],
                };
                d.permissions = r.permissions;
            }
            4 => {
                let t = chars(cx, b"rwmrwmx ", 0, 5);
                let got = guard("parse", || Permissions::from_str(&t))?;
                let want = perms(&t);
                ensure!(got.is_ok() == want.is_some(), "device", "permissions {t:?} give {got:?}");
                if let (Ok(p), Some(w)) = (got, want) {
                    ensure!(p.to_string() == w, "device", "permissions {t:?} are {p}");
                    m.perm = ["r", "w", "m"].map(|c| w.contains(c));
                    r.permissions = p;
                    d.permissions = p;
                } else {
                    cx.count("rejected edit");
                }
            }
            5 => {
                let t = word(cx).replace(':', "_");
                d.container_path.push(&t);
                m.cont.push(&t);
            }
            _ => {
                m.host = plain_abs(cx);
                d.host_path = (&m.host).into();
            }
        }
        cx.ev("device", op, 0);
        let p = perm_text(m.perm);
        let any = m.perm.contains(&true);
        ensure!(r.permissions.any() == any, "device", "any of {p}");
        let n = |n: Option<u16>| n.map_or("*".to_owned(), |n| n.to_string());
        let sp = if any { " " } else { "" };
        shows(&r, &format!("{} {}:{}{sp}{p}", m.kind, n(m.num[0]), n(m.num[1])))?;
        let co = if any { ":" } else { "" };
        let text = format!("{}:{}{co}{p}", m.host, m.cont.to_str().unwrap_or_default());
        shows(&d, &text)?;
        saves(&d, &s(&text))?;
        // the rule is not saved with the device, so a crash loses it
        let mut both = d.clone();
        durable(cx, &mut both, &mut m, &mut st)?;
        if both != d {
            d = both;
        }
        r = CgroupRule {
            kind: kind(m.kind),
            major: number(m.num[0]),
            minor: number(m.num[1]),
            permissions: d.permissions,
        };
    }
    Ok(())
}

// ------------------------------------------------------------------ collections

/// lists that may be a single item, and lists that may be a map
fn collections(cx: &Cx) -> Res {
    cx.count("collection");
    // the model: distinct items in order, and whether it is a single one
    let w = word(cx);
    let mut m: (Vec<String>, bool) = (vec![w.clone()], true);
    let mut x: ItemOrList<String> = ItemOrList::Item(w);
    let mut st = None;
    let n = steps(cx) / 2 + 1;
    for _ in 0..n {
        let op = cx.draw(7);
        match op {
            0 => {
                m = (vec![word(cx)], true);
                x = m.0[0].clone().into();
            }
            1 => {
                m = (crate::gen::prim::distinct(cx, 0, 3, word), false);
                x = m.0.iter().cloned().collect::<IndexSet<_>>().into();
            }
            2 => {
                let got = guard("into_list", || x.clone().into_list())?;
                ensure!(got.iter().eq(m.0.iter()), "collection", "into_list of {x:?} is {got:?}");
                let also = IndexSet::from(x);
                ensure!(also == got, "collection", "into_list gives {got:?}, from gives {also:?}");
                x = ItemOrList::List(got);
                m.1 = false;
            }
            3 => {
                if let ItemOrList::List(v) = &mut x {
                    let w = word(cx);
                    let new = !m.0.contains(&w);
                    ensure!(v.insert(w.clone()) == new, "collection", "insert of {w:?}");
                    if new {
                        m.0.push(w);
                    }
                }
            }
            4 => {
                if let ItemOrList::Item(v) = &mut x {
                    let w = word(cx);
                    v.clone_from(&w);
                    m.0[0] = w;
                }
            }
            5 => {
                if let (ItemOrList::List(v), false) = (&mut x, m.0.is_empty()) {
                    let w = m.0.remove(cx.n(m.0.len()));
                    ensure!(v.shift_remove(&w), "collection", "remove of {w:?}");
                }
            }
            _ => {
                let got = x.as_item().cloned();
                ensure!(got.as_ref() == m.0.first().filter(|_| m.0.len() == 1), "collection", "as_item of {x:?} is {got:?}");
                let got = x.as_list();
                ensure!(got.is_none() == m.1 && got.is_none_or(|g| g.iter().eq(m.0.iter())), "collection", "as_list of {x:?} is {got:?}");
            }
        }
        cx.ev("item", op, m.0.len() as u64);
        let want = if m.1 { s(&m.0[0]) } else { Y::Seq(m.0.iter().map(s).collect()) };
        saves(&x, &want)?;
        durable(cx, &mut x, &mut m, &mut st)?;
    }
    // lists or maps, edited in place
    let mut l = ListOrMap::List(IndexSet::new());
    let mut m: Vec<(String, Option<String>)> = Vec::new();
    let mut map = false;
    let mut st = None;
    for _ in 0..n {
        let k = chars(cx, b"ABc_", 1, 2);
        let v = chars(cx, b"ghi", 1, 3);
        let op = cx.draw(5);
        match op {
            0 | 1 => match &mut l {
                ListOrMap::List(x) => {
                    x.insert(format!("{k}={v}"));
                    if !m.iter().any(|(a, b)| *a == k && b.as_deref() == Some(&v)) {
                        m.push((k, Some(v)));
                    }
                }
                ListOrMap::Map(x) => {
                    let Ok(key) = MapKey::new(k.as_str()) else { return viol("collection", format!("{k:?} refused")) };
                    x.insert(key, Some(compose_spec::Value::parse(v.as_str())));
                    match m.iter_mut().find(|(a, _)| *a == k) {
                        Some(e) => e.1 = Some(v),
                        None => m.push((k, Some(v))),
                    }
                }
            },
            2 => match &mut l {
                ListOrMap::List(x) => {
                    x.shift_remove(&format!("{k}={v}"));
                    m.retain(|(a, b)| !(*a == k && b.as_deref() == Some(&v)));
                }
                ListOrMap::Map(x) => {
                    x.shift_remove(k.as_str());
                    m.retain(|(a, _)| *a != k);
                }
            },
            3 => {
                // to a map: the last of equal keys stays, in the place of the first
                let got = guard("into_map", || l.clone().into_map())?;
                let Ok(got) = got else { return viol("collection", format!("into_map of {l:?} is refused")) };
                let mut mm: Vec<(String, Option<String>)> = Vec::new();
                for (k, v) in m {
                    match mm.iter_mut().find(|(a, _)| *a == k) {
                        Some(e) => e.1 = v,
                        None => mm.push((k, v)),
                    }
                }
                m = mm;
                map = true;
                l = ListOrMap::Map(got);
            }
            _ => {
                let got = guard("into_list", || l.clone().into_list())?;
                l = ListOrMap::List(got);
                map = false;
            }
        }
        cx.ev("list", op, m.len() as u64);
        let want = if map {
            Y::Map(m.iter().map(|(k, v)| (s(k), s(v.clone().unwrap_or_default()))).collect())
        } else {
            Y::Seq(m.iter().map(|(k, v)| s(format!("{k}={}", v.clone().unwrap_or_default()))).collect())
        };
        ensure!(l.as_map().is_some() == map && l.as_list().is_some() != map && l.is_empty() == m.is_empty(), "collection", "kind of {l:?}");
        saves(&l, &want)?;
        let mut both = (m.clone(), map);
        durable(cx, &mut l, &mut both, &mut st)?;
        (m, map) = both;
    }
    // identifiers hold through any clone and conversion
    let t = ident(cx);
    let Ok(i) = Identifier::new(t.as_str()) else { return viol("collection", format!("{t:?} refused")) };
    let back: String = i.clone().into();
    ensure!(back == t && i.as_str() == t && i == *t.as_str(), "collection", "{t:?} becomes {back:?}");
    Ok(())
}
