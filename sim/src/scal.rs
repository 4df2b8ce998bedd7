//! Scalars: for each kind, a generator of valid written forms, an independent reference parser
//! (written text or number to canonical form, or rejection) and a place in a document.

use crate::core::Cx;
use crate::gen::prim::*;
use crate::gen::svc;
use crate::gen::P;
use crate::refp;
use crate::y::{int, s, Y};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};

/// What the reference says about a written form.
pub enum Ref {
    /// Accepted and saved as this.
    Ok(Y),
    Reject,
    /// Outside what the documentation settles.
    Skip,
}
use Ref::{Reject, Skip};

pub struct Kind {
    pub name: &'static str,
    pub gen: fn(&Cx) -> P,
    pub refv: fn(&Y) -> Ref,
    pub wrap: fn(Y) -> Y,
}

// ------------------------------------------------------------------ documents

pub fn rec(k: &str, v: Y) -> Y {
    Y::Rec(vec![(s(k), v)])
}
pub fn nest(path: &[&str], v: Y) -> Y {
    path.iter().rev().fold(v, |v, k| rec(k, v))
}
pub fn sv(v: Y) -> Y {
    nest(&["services", "a"], v)
}
pub fn fld(k: &str, v: Y) -> Y {
    sv(rec(k, v))
}
pub fn lst(k: &str, v: Y) -> Y {
    fld(k, Y::Seq(vec![v]))
}
pub fn key(y: Y, v: Y) -> Y {
    Y::Rec(vec![(y, v)])
}
/// a document with `services: {}` and something else
pub fn top(k: &str, v: Y) -> Y {
    Y::Rec(vec![(s(k), v), (s("services"), Y::Map(vec![]))])
}

// ------------------------------------------------------------------ reference parsers

fn ok(b: bool, y: impl FnOnce() -> Y) -> Ref {
    if b {
        Ref::Ok(y())
    } else {
        Reject
    }
}
fn on_str(y: &Y, f: impl FnOnce(&str) -> Ref) -> Ref {
    match y {
        Y::Str(x) => f(x),
        _ => Reject,
    }
}
fn keep(y: &Y, f: impl FnOnce(&str) -> bool) -> Ref {
    on_str(y, |x| ok(f(x), || s(x)))
}
/// Unsigned decimal. `None` is a rejection; a leading plus is left open by the callers.
fn dec(x: &str, max: u128) -> Option<u128> {
    if x.is_empty() || !x.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let t = x.trim_start_matches('0');
    if t.is_empty() {
        return Some(0);
    }
    if t.len() > 30 {
        return None;
    }
    t.parse::<u128>().ok().filter(|n| *n <= max)
}
const U16: u128 = u16::MAX as u128;
const U32: u128 = u32::MAX as u128;
const U64: u128 = u64::MAX as u128;

pub fn identifier(x: &str) -> bool {
    x.starts_with(|c: char| c.is_ascii_alphanumeric()) && x.chars().all(|c| c.is_ascii_alphanumeric() || "._-".contains(c))
}
pub fn project_name(x: &str) -> bool {
    let a = |c: char| c.is_ascii_lowercase() || c.is_ascii_digit();
    x.starts_with(a) && x.chars().all(|c| a(c) || c == '_' || c == '-')
}
pub fn map_key(x: &str) -> bool {
    !x.is_empty() && !x.contains('\n')
}
pub fn host_name(x: &str) -> bool {
    x.split('.').all(|l| {
        !l.is_empty() && l.chars().all(|c| c.is_ascii_alphanumeric() || c == '-') && !l.starts_with('-') && !l.ends_with('-')
    })
}
pub fn user_name(x: &str) -> bool {
    let body = x.strip_suffix('$').unwrap_or(x);
    let ok = body.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-');
    ok && !x.is_empty() && x.len() <= 32 && !x.starts_with('-') && !x.chars().all(|c| c.is_ascii_digit())
}
/// canonical text of a user or group
fn id_or_name(x: &str) -> Option<Y> {
    match dec(x, U32) {
        Some(n) => Some(int(n as i128)),
        None => user_name(x).then(|| s(x)),
    }
}
fn ytext(y: &Y) -> String {
    match y {
        Y::Int(i) => i.to_string(),
        Y::Str(x) => x.clone(),
        y => format!("{y:?}"),
    }
}
pub fn micros(x: &str) -> Option<u128> {
    let b: Vec<char> = x.chars().collect();
    if b.is_empty() {
        return None;
    }
    let mut i = 0;
    let mut total = 0u128;
    while i < b.len() {
        let at = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        let n = dec(&b[at..i].iter().collect::<String>(), U64)?;
        let at = i;
        while i < b.len() && !b[i].is_ascii_digit() {
            i += 1;
        }
        let unit: String = b[at..i].iter().collect();
        let size = match unit.as_str() {
            "h" => 3_600_000_000,
            "m" => 60_000_000,
            "s" => 1_000_000,
            "ms" => 1_000,
            "us" => 1,
            _ => return None,
        };
        total += n * size;
        if total / 1_000_000 > U64 {
            return None;
        }
    }
    Some(total)
}
pub fn byte_value(x: &str) -> Option<String> {
    let at = x.find(|c: char| !c.is_ascii_digit()).unwrap_or(x.len());
    let unit = match &x[at..] {
        "" | "b" | "B" => "b",
        "k" | "kb" | "K" => "kb",
        "m" | "mb" | "M" => "mb",
        "g" | "gb" | "G" => "gb",
        _ => return None,
    };
    Some(format!("{}{unit}", dec(&x[..at], U64)?))
}
fn byte_ref(y: &Y) -> Ref {
    match y {
        Y::Int(i) if *i >= 0 => ok((*i as u128) <= U64, || s(format!("{i}b"))),
        Y::Str(x) if x.contains('+') => Skip,
        Y::Str(x) => byte_value(x).map_or(Reject, |t| Ref::Ok(s(t))),
        _ => Reject,
    }
}
fn limit_ref(y: &Y, f: impl Fn(&Y) -> Ref) -> Ref {
    match y {
        Y::Int(-1) => Ref::Ok(int(-1)),
        Y::Str(x) if x == "-1" => Ref::Ok(int(-1)),
        y => f(y),
    }
}
fn uint(y: &Y, max: u128) -> Ref {
    match y {
        Y::Int(i) => ok(*i >= 0 && (*i as u128) <= max, || int(*i)),
        _ => Reject,
    }
}
/// start and end
pub fn port_range(x: &str) -> Option<(u128, u128)> {
    let (a, b) = match x.split_once('-') {
        Some((a, b)) => (dec(a, U16)?, dec(b, U16)?),
        None => {
            let a = dec(x, U16)?;
            (a, a)
        }
    };
    (a <= b).then_some((a, b))
}
pub fn range_y((a, b): (u128, u128)) -> Y {
    if a == b {
        int(a as i128)
    } else {
        s(format!("{a}-{b}"))
    }
}
fn range_ref(y: &Y) -> Ref {
    match y {
        Y::Int(_) => uint(y, U16),
        Y::Str(x) if x.contains('+') => Skip,
        Y::Str(x) => port_range(x).map_or(Reject, |r| Ref::Ok(range_y(r))),
        _ => Reject,
    }
}
fn expose_ref(y: &Y) -> Ref {
    match y {
        Y::Str(x) if x.contains('/') => {
            let Some((r, p)) = x.split_once('/') else { return Reject };
            match range_ref(&s(r)) {
                Ref::Ok(c) => Ref::Ok(s(format!("{}/{p}", ytext(&c)))),
                r => r,
            }
        }
        y => range_ref(y),
    }
}
fn brackets(x: &str) -> &str {
    x.strip_prefix('[').and_then(|x| x.strip_suffix(']')).unwrap_or(x)
}
pub struct PortRef {
    pub ip: Option<IpAddr>,
    pub host: Option<(u128, u128)>,
    pub container: (u128, u128),
    pub proto: Option<String>,
}
pub fn short_port(x: &str) -> Option<PortRef> {
    let (addr, proto) = match x.split_once('/') {
        Some((a, p)) => (a, Some(p.to_owned())),
        None => (x, None),
    };
    let parts: Vec<&str> = addr.split(':').collect();
    let n = parts.len();
    let container = port_range(parts[n - 1])?;
    let host = match (n > 1).then(|| parts[n - 2]) {
        None | Some("") => None,
        Some(h) => Some(port_range(h)?),
    };
    if host.is_some_and(|h| h.1 - h.0 != container.1 - container.0) {
        return None;
    }
    let ip = if n > 2 {
        Some(brackets(&parts[..n - 2].join(":")).parse().ok()?)
    } else {
        None
    };
    Some(PortRef {
        ip,
        host,
        container,
        proto,
    })
}
impl PortRef {
    pub fn canon(&self) -> Y {
        let mut o = String::new();
        if let Some(ip) = self.ip {
            o.push_str(&format!("{ip}:"));
        }
        match self.host {
            Some(h) => o.push_str(&format!("{}:", ytext(&range_y(h)))),
            None if self.ip.is_some() => o.push(':'),
            None => {}
        }
        let c = range_y(self.container);
        if o.is_empty() && self.proto.is_none() {
            return c;
        }
        o.push_str(&ytext(&c));
        if let Some(p) = &self.proto {
            o.push_str(&format!("/{p}"));
        }
        s(o)
    }
}
fn port_ref(y: &Y) -> Ref {
    match y {
        Y::Int(_) => uint(y, U16),
        Y::Str(x) if x.contains('+') => Skip,
        Y::Str(x) => short_port(x).map_or(Reject, |p| Ref::Ok(p.canon())),
        _ => Reject,
    }
}
pub fn absolute(x: &str) -> bool {
    x.starts_with('/')
}
pub fn host_path(x: &str) -> bool {
    absolute(x) || matches!(x.split('/').next(), Some("." | ".."))
}
pub fn source(x: &str) -> bool {
    if x.starts_with(['.', '/']) {
        host_path(x)
    } else {
        identifier(x)
    }
}
/// canonical text
pub fn short_volume(x: &str) -> Option<String> {
    let mut it = x.splitn(3, ':');
    let a = it.next()?;
    let Some(target) = it.next() else {
        return absolute(a).then(|| a.to_owned());
    };
    if !source(a) || !absolute(target) {
        return None;
    }
    let mut mode = Vec::new();
    let mut label = Vec::new();
    if let Some(o) = it.next() {
        for o in o.split(',') {
            match o {
                "ro" | "rw" => mode.push(o),
                "z" | "Z" => label.push(o),
                _ => return None,
            }
        }
    }
    if mode.len() > 1 || label.len() > 1 {
        return None;
    }
    let mut opts: Vec<&str> = mode.into_iter().filter(|m| *m == "ro").collect();
    opts.extend(label);
    let tail = if opts.is_empty() { String::new() } else { format!(":{}", opts.join(",")) };
    Some(format!("{a}:{target}{tail}"))
}
pub fn perms(x: &str) -> Option<String> {
    x.chars().all(|c| "rwm".contains(c)).then(|| "rwm".chars().filter(|c| x.contains(*c)).collect())
}
fn device_ref(y: &Y) -> Ref {
    on_str(y, |x| {
        let mut it = x.splitn(3, ':');
        let host = it.next().unwrap_or_default();
        let Some(cont) = it.next().filter(|c| absolute(c)) else { return Reject };
        match perms(it.next().unwrap_or_default()) {
            Some(p) if p.is_empty() => Ref::Ok(s(format!("{host}:{cont}"))),
            Some(p) => Ref::Ok(s(format!("{host}:{cont}:{p}"))),
            None => Reject,
        }
    })
}
fn cgroup_rule_ref(y: &Y) -> Ref {
    on_str(y, |x| {
        if x.contains('+') {
            return Skip;
        }
        let r = || {
            let mut it = x.splitn(3, ' ');
            let kind = it.next().filter(|k| matches!(*k, "a" | "b" | "c"))?;
            let (a, b) = it.next()?.split_once(':')?;
            let num = |n: &str| {
                if n.is_empty() || n == "*" {
                    Some("*".to_owned())
                } else {
                    dec(n, U16).map(|n| n.to_string())
                }
            };
            let p = perms(it.next().unwrap_or_default())?;
            let sp = if p.is_empty() { "" } else { " " };
            Some(format!("{kind} {}:{}{sp}{p}", num(a)?, num(b)?))
        };
        r().map_or(Reject, |t| Ref::Ok(s(t)))
    })
}
pub fn cpu_set(x: &str) -> Option<std::collections::BTreeSet<u64>> {
    let mut out = std::collections::BTreeSet::new();
    if x.is_empty() {
        return Some(out);
    }
    let mut parts: Vec<&str> = x.split(',').collect();
    if parts.last() == Some(&"") {
        parts.pop();
    }
    for p in parts {
        let (a, b) = p.split_once('-').unwrap_or((p, p));
        let (a, b) = (dec(a, U64)? as u64, dec(b, U64)? as u64);
        if b < a {
            return None;
        }
        out.extend(a..=b);
    }
    Some(out)
}
pub fn cpu_text(set: &std::collections::BTreeSet<u64>) -> String {
    let mut runs: Vec<(u64, u64)> = Vec::new();
    for c in set {
        match runs.last_mut() {
            Some((_, e)) if e.checked_add(1) == Some(*c) => *e = *c,
            _ => runs.push((*c, *c)),
        }
    }
    let t: Vec<String> = runs
        .into_iter()
        .map(|(a, b)| if a == b { a.to_string() } else { format!("{a}-{b}") })
        .collect();
    t.join(",")
}
fn cpuset_ref(y: &Y) -> Ref {
    on_str(y, |x| {
        if x.contains('+') || crate::mutate::huge(x.as_bytes()) {
            return Skip;
        }
        match cpu_set(x) {
            Some(c) if c.is_empty() => Skip,
            Some(c) => Ref::Ok(s(cpu_text(&c))),
            None => Reject,
        }
    })
}
pub fn mac(x: &str) -> Option<String> {
    let p: Vec<&str> = x.split(':').collect();
    if p.len() != 6 {
        return None;
    }
    let b: Option<Vec<String>> = p
        .iter()
        .map(|h| {
            let ok = !h.is_empty() && h.bytes().all(|b| b.is_ascii_hexdigit());
            let t = h.trim_start_matches('0');
            (ok && t.len() <= 2).then(|| format!("{:0>2}", t.to_ascii_lowercase()))
        })
        .collect();
    Some(b?.join(":"))
}
fn image_ref(x: &str) -> Ref {
    match refp::image(x) {
        Some(i) if i.port_only() => Skip,
        Some(i) => Ref::Ok(s(i.text())),
        None => Reject,
    }
}
fn cache_ref(y: &Y) -> Ref {
    on_str(y, |x| {
        if !x.contains(',') && !x.starts_with("type=") {
            return image_ref(x);
        }
        let word = |w: &str| !w.is_empty() && !w.contains(char::is_whitespace);
        let mut it = x.split(',');
        let Some(ty) = it.next().and_then(|t| t.strip_prefix("type=")) else { return Reject };
        let mut opts: Vec<(String, String)> = Vec::new();
        for o in it {
            let (k, v) = o.split_once('=').unwrap_or((o, ""));
            if !word(k) || !word(v) {
                return Reject;
            }
            match opts.iter_mut().find(|(x, _)| x == k) {
                Some(e) => e.1 = v.to_owned(),
                None => opts.push((k.to_owned(), v.to_owned())),
            }
        }
        let mut out = format!("type={ty}");
        if ty == "registry" {
            let Some(i) = opts.iter().position(|(k, _)| k == "ref") else { return Reject };
            let (_, img) = opts.remove(i);
            match image_ref(&img) {
                Ref::Ok(i) if opts.is_empty() => return Ref::Ok(i),
                Ref::Ok(_) => out.push_str(&format!(",ref={img}")),
                r => return r,
            }
        } else if !word(ty) {
            return Reject;
        }
        for (k, v) in opts {
            out.push_str(&format!(",{k}={v}"));
        }
        Ref::Ok(s(out))
    })
}
const OS: &[(&str, &str)] = &[
    ("aix", "ppc64"),
    ("android", "386 amd64 arm arm64"),
    ("darwin", "amd64 arm64"),
    ("dragonfly", "amd64"),
    ("freebsd", "386 amd64 arm"),
    ("illumos", "amd64"),
    ("ios", "arm64"),
    ("js", "wasm"),
    ("linux", "386 amd64 arm arm64 loong64 mips mipsle mips64 mips64le ppc64 ppc64le riscv64 s390x"),
    ("netbsd", "386 amd64 arm"),
    ("openbsd", "386 amd64 arm arm64"),
    ("plan9", "386 amd64 arm"),
    ("solaris", "amd64"),
    ("wasip1", "wasm"),
    ("windows", "386 amd64 arm arm64"),
];
const VARIANTS: &[(&str, &str)] = &[("arm", "v6 v7 v8"), ("arm64", "v8")];
pub fn platform(x: &str) -> bool {
    let p: Vec<&str> = x.split('/').collect();
    let Some((_, archs)) = OS.iter().find(|(o, _)| *o == p[0]) else { return false };
    if p.len() == 1 {
        return true;
    }
    if !archs.split(' ').any(|a| a == p[1]) {
        return false;
    }
    match p.len() {
        2 => true,
        3 => VARIANTS.iter().any(|(a, v)| *a == p[1] && v.split(' ').any(|v| v == p[2])),
        _ => false,
    }
}
fn gen_platform(cx: &Cx) -> P {
    let (os, archs) = cx.pick(OS);
    let archs: Vec<&str> = archs.split(' ').collect();
    let arch = *cx.pick(&archs);
    let mut t = (*os).to_owned();
    if !cx.chance(1, 6) {
        t = format!("{os}/{arch}");
        if let Some((_, v)) = VARIANTS.iter().find(|(a, _)| *a == arch) {
            let v: Vec<&str> = v.split(' ').collect();
            if cx.coin() {
                t = format!("{t}/{}", cx.pick(&v));
            }
        }
    }
    sstr(t)
}
fn cpus_ref(y: &Y) -> Ref {
    let f = |f: f64| ok(f.is_finite() && f.is_sign_positive(), || Y::Float(f));
    match y {
        Y::Int(i) if *i < 0 => Reject,
        Y::Int(i) if *i as u128 <= U32 => Ref::Ok(Y::Float(*i as f64)),
        Y::Int(_) => Skip,
        Y::Float(x) => f(*x),
        Y::Str(x) => x.parse::<f64>().map_or(Reject, f),
        _ => Reject,
    }
}
fn closed(y: &Y, set: &[&str]) -> Ref {
    keep(y, |x| set.contains(&x))
}
fn pick_of(cx: &Cx, set: &[&'static str]) -> P {
    sstr(*cx.pick(set))
}
fn prefixed(x: &str, p: &[&str]) -> bool {
    p.iter().all(|p| x.strip_prefix(p).is_none_or(identifier))
}
fn dur_ref(y: &Y, ints: bool) -> Ref {
    match y {
        Y::Int(i) if ints => ok(*i >= 0 && (*i as u128) <= U64, || s(duration_parts(*i as u128))),
        Y::Int(_) => Skip,
        Y::Str(x) => micros(x).map_or(Reject, |m| Ref::Ok(s(duration_parts(m)))),
        _ => Reject,
    }
}
fn volumes_from(x: &str) -> Option<String> {
    let (src, mode) = match x.strip_suffix(":ro") {
        Some(v) => (v, ":ro"),
        None => (x.strip_suffix(":rw").unwrap_or(x), ""),
    };
    if !identifier(src.strip_prefix("container:").unwrap_or(src)) {
        return None;
    }
    let odd = src == "container:ro" || src == "container:rw";
    Some(format!("{src}{}", if odd && mode.is_empty() { ":rw" } else { mode }))
}
fn net_ref(y: &Y) -> Ref {
    on_str(y, |x| {
        let Some((a, p)) = x.split_once('/') else { return Reject };
        if p.contains('+') || (p.starts_with('0') && p.len() > 1) || a.split(['.', ':']).any(|o| o.len() > 1 && o.starts_with('0')) {
            return Skip;
        }
        let max = match a.parse::<IpAddr>() {
            Ok(IpAddr::V4(_)) => 32,
            Ok(IpAddr::V6(_)) => 128,
            Err(_) => return Reject,
        };
        match (a.parse::<IpAddr>(), dec(p, max)) {
            (Ok(a), Some(p)) => Ref::Ok(s(format!("{a}/{p}"))),
            _ => Reject,
        }
    })
}
fn gen_net(cx: &Cx) -> P {
    if cx.coin() {
        sstr(format!("{}/{}", ip4(cx), cx.pick(&[0, 8, 24, 31, 32])))
    } else {
        sstr(format!("{}/{}", ip6(cx), cx.pick(&[0, 64, 127, 128])))
    }
}
/// What is not an extension key may still be some other field.
fn ext_key(y: &Y) -> Ref {
    match y {
        Y::Str(x) if !x.starts_with("x-") && x.bytes().all(|b| b.is_ascii_lowercase() || b == b'_') => Skip,
        y => keep(y, |x| x.starts_with("x-") && !x.contains('\n')),
    }
}
fn gen_ulimit(cx: &Cx) -> P {
    limit(cx, |cx| same(int(edge_u64(cx))))
}

const PROPAGATION: &[&str] = &["private", "shared", "slave", "unbindable", "rprivate", "rshared", "rslave", "runbindable"];

pub const KINDS: &[Kind] = &[
    Kind { name: "identifier (service)", gen: |cx| sstr(ident(cx)), refv: |y| keep(y, identifier), wrap: |y| rec("services", key(y, rec("image", s("i")))) },
    Kind { name: "identifier (profile)", gen: |cx| sstr(ident(cx)), refv: |y| keep(y, identifier), wrap: |y| lst("profiles", y) },
    Kind { name: "identifier (container name)", gen: |cx| sstr(ident(cx)), refv: |y| keep(y, identifier), wrap: |y| fld("container_name", y) },
    Kind { name: "identifier (network)", gen: |cx| sstr(ident(cx)), refv: |y| keep(y, identifier), wrap: |y| top("networks", key(y, rec("driver", s("d")))) },
    Kind { name: "identifier (config)", gen: |cx| sstr(ident(cx)), refv: |y| keep(y, identifier), wrap: |y| lst("configs", y) },
    Kind { name: "project name", gen: |cx| sstr(name(cx)), refv: |y| keep(y, project_name), wrap: |y| top("name", y) },
    Kind { name: "map key", gen: |cx| sstr(mapkey(cx)), refv: |y| keep(y, map_key), wrap: |y| fld("environment", key(y, int(1))) },
    Kind { name: "map key (driver option)", gen: |cx| sstr(mapkey(cx)), refv: |y| keep(y, map_key), wrap: |y| top("volumes", rec("v", rec("driver_opts", key(y, s("v"))))) },
    Kind { name: "extension key", gen: |cx| sstr(format!("x-{}", mapkey(cx))), refv: ext_key, wrap: |y| sv(key(y, int(1))) },
    Kind { name: "extension key (healthcheck)", gen: |cx| sstr(format!("x-{}", mapkey(cx))), refv: ext_key, wrap: |y| fld("healthcheck", key(y, int(1))) },
    Kind { name: "extension key (top)", gen: |cx| sstr(format!("x-{}", mapkey(cx))), refv: ext_key, wrap: |y| Y::Rec(vec![(s("services"), Y::Map(vec![])), (y, int(1))]) },
    Kind { name: "hostname", gen: |cx| sstr(hostname(cx)), refv: |y| keep(y, host_name), wrap: |y| fld("hostname", y) },
    Kind { name: "hostname (alias)", gen: |cx| sstr(hostname(cx)), refv: |y| keep(y, host_name), wrap: |y| fld("networks", rec("n", rec("aliases", Y::Seq(vec![y])))) },
    Kind { name: "hostname (extra host)", gen: |cx| sstr(hostname(cx)), refv: |y| keep(y, host_name), wrap: |y| fld("extra_hosts", key(y, s("10.0.0.1"))) },
    Kind { name: "user", gen: svc::user, refv: |y| on_str(y, |x| {
        if x.contains('+') {
            return Skip;
        }
        let r = match x.split_once(':') {
            Some((a, b)) => id_or_name(a).and_then(|a| Some(format!("{}:{}", ytext(&a), ytext(&id_or_name(b)?)))),
            None => id_or_name(x).map(|a| ytext(&a)),
        };
        r.map_or(Reject, |t| Ref::Ok(s(t)))
    }), wrap: |y| fld("user", y) },
    Kind { name: "group", gen: svc::group, refv: |y| match y {
        Y::Int(_) => uint(y, U32),
        Y::Str(x) if x.contains('+') => Skip,
        Y::Str(x) => id_or_name(x).map_or(Reject, Ref::Ok),
        _ => Reject,
    }, wrap: |y| lst("group_add", y) },
    Kind { name: "uid", gen: |cx| sstr(svc::u32_edge(cx).to_string()), refv: |y| match y {
        Y::Str(x) if x.contains('+') => Skip,
        Y::Str(x) => dec(x, U32).map_or(Reject, |n| Ref::Ok(s(n.to_string()))),
        _ => Skip,
    }, wrap: |y| lst("secrets", Y::Rec(vec![(s("source"), s("a")), (s("uid"), y)])) },
    Kind { name: "gid", gen: |cx| sstr(svc::u32_edge(cx).to_string()), refv: |y| match y {
        Y::Str(x) if x.contains('+') => Skip,
        Y::Str(x) => dec(x, U32).map_or(Reject, |n| Ref::Ok(s(n.to_string()))),
        _ => Skip,
    }, wrap: |y| lst("configs", Y::Rec(vec![(s("source"), s("a")), (s("gid"), y)])) },
    Kind { name: "mode", gen: |cx| same(int(svc::u32_edge(cx))), refv: |y| uint(y, U32), wrap: |y| lst("configs", Y::Rec(vec![(s("source"), s("a")), (s("mode"), y)])) },
    Kind { name: "duration", gen: svc::us_or_dur, refv: |y| dur_ref(y, true), wrap: |y| fld("stop_grace_period", y) },
    Kind { name: "duration (start_interval)", gen: dur, refv: |y| dur_ref(y, false), wrap: |y| fld("healthcheck", rec("start_interval", y)) },
    Kind { name: "duration (update delay)", gen: dur, refv: |y| dur_ref(y, false), wrap: |y| fld("deploy", nest(&["update_config", "delay"], y)) },
    Kind { name: "microseconds", gen: svc::us, refv: |y| uint(y, U64), wrap: |y| fld("cpu_period", y) },
    Kind { name: "bytes", gen: bytes, refv: byte_ref, wrap: |y| fld("mem_limit", y) },
    Kind { name: "bytes (tmpfs)", gen: bytes, refv: byte_ref, wrap: |y| lst("volumes", Y::Rec(vec![(s("type"), s("tmpfs")), (s("target"), s("/t")), (s("tmpfs"), rec("size", y))])) },
    Kind { name: "bytes or unlimited", gen: |cx| limit(cx, bytes), refv: |y| limit_ref(y, byte_ref), wrap: |y| fld("memswap_limit", y) },
    Kind { name: "pids limit", gen: svc::pids, refv: |y| limit_ref(y, |y| uint(y, U32)), wrap: |y| fld("pids_limit", y) },
    Kind { name: "pids limit (deploy)", gen: svc::pids, refv: |y| limit_ref(y, |y| uint(y, U32)), wrap: |y| fld("deploy", nest(&["resources", "limits", "pids"], y)) },
    Kind { name: "ulimit", gen: gen_ulimit, refv: |y| limit_ref(y, |y| uint(y, U64)), wrap: |y| fld("ulimits", rec("nofile", y)) },
    Kind { name: "ulimit (soft)", gen: gen_ulimit, refv: |y| limit_ref(y, |y| uint(y, U64)), wrap: |y| fld("ulimits", rec("nofile", Y::Rec(vec![(s("soft"), y), (s("hard"), int(7)), (s("x-a"), int(1))]))) },
    Kind { name: "ulimit resource", gen: |cx| sstr(chars(cx, b"abnofilez", 1, 6)), refv: |y| keep(y, |x| !x.is_empty() && x.bytes().all(|b| b.is_ascii_lowercase())), wrap: |y| fld("ulimits", key(y, int(1))) },
    Kind { name: "port range", gen: svc::range, refv: range_ref, wrap: |y| lst("ports", Y::Rec(vec![(s("target"), int(80)), (s("published"), y)])) },
    Kind { name: "port number", gen: |cx| same(int(svc::port_num(cx))), refv: |y| uint(y, U16), wrap: |y| lst("ports", rec("target", y)) },
    Kind { name: "exposed port", gen: svc::expose, refv: expose_ref, wrap: |y| lst("expose", y) },
    Kind { name: "short port", gen: svc::short_port, refv: port_ref, wrap: |y| lst("ports", y) },
    Kind { name: "address", gen: |cx| sstr(ip(cx)), refv: |y| on_str(y, |x| x.parse::<IpAddr>().map_or(Reject, |i| Ref::Ok(s(i.to_string())))), wrap: |y| fld("dns", y) },
    Kind { name: "IPv4 address", gen: |cx| sstr(ip4(cx)), refv: |y| on_str(y, |x| x.parse::<Ipv4Addr>().map_or(Reject, |i| Ref::Ok(s(i.to_string())))), wrap: |y| fld("networks", rec("n", rec("ipv4_address", y))) },
    Kind { name: "IPv6 address", gen: |cx| sstr(ip6(cx)), refv: |y| on_str(y, |x| x.parse::<Ipv6Addr>().map_or(Reject, |i| Ref::Ok(s(i.to_string())))), wrap: |y| fld("networks", rec("n", rec("ipv6_address", y))) },
    Kind { name: "subnet", gen: gen_net, refv: net_ref, wrap: |y| top("networks", rec("n", rec("ipam", rec("config", Y::Seq(vec![rec("subnet", y)]))))) },
    Kind { name: "short volume", gen: svc::short_volume, refv: |y| on_str(y, |x| short_volume(x).map_or(Reject, |t| Ref::Ok(s(t)))), wrap: |y| lst("volumes", y) },
    Kind { name: "absolute path", gen: |cx| sstr(abs_path(cx)), refv: |y| keep(y, absolute), wrap: |y| fld("working_dir", y) },
    Kind { name: "absolute path (tmpfs)", gen: |cx| sstr(abs_path(cx)), refv: |y| keep(y, absolute), wrap: |y| fld("tmpfs", y) },
    Kind { name: "absolute path (mount)", gen: |cx| sstr(abs_path(cx)), refv: |y| keep(y, absolute), wrap: |y| lst("volumes", Y::Rec(vec![(s("type"), s("volume")), (s("target"), y), (s("x-a"), int(1))])) },
    Kind { name: "host path", gen: |cx| sstr(svc::host_path(cx)), refv: |y| keep(y, host_path), wrap: |y| lst("volumes", Y::Rec(vec![(s("type"), s("bind")), (s("source"), y), (s("target"), s("/t")), (s("x-a"), int(1))])) },
    Kind { name: "device", gen: svc::device, refv: device_ref, wrap: |y| lst("devices", y) },
    Kind { name: "cgroup rule", gen: svc::cgroup_rule, refv: cgroup_rule_ref, wrap: |y| lst("device_cgroup_rules", y) },
    Kind { name: "cpu set", gen: svc::cpuset, refv: cpuset_ref, wrap: |y| fld("cpuset", y) },
    Kind { name: "mac address", gen: svc::mac, refv: |y| on_str(y, |x| if x.contains('+') { Skip } else { mac(x).map_or(Reject, |t| Ref::Ok(s(t))) }), wrap: |y| fld("mac_address", y) },
    Kind { name: "image", gen: |cx| sstr(svc::image(cx)), refv: |y| on_str(y, |x| if x.contains(":+") { Skip } else { image_ref(x) }), wrap: |y| fld("image", y) },
    Kind { name: "image (build tag)", gen: |cx| sstr(svc::image(cx)), refv: |y| on_str(y, |x| if x.contains(":+") { Skip } else { image_ref(x) }), wrap: |y| fld("build", rec("tags", Y::Seq(vec![y]))) },
    Kind { name: "cache", gen: svc::cache, refv: |y| if matches!(y, Y::Str(x) if x.contains(":+")) { Skip } else { cache_ref(y) }, wrap: |y| fld("build", rec("cache_from", Y::Seq(vec![y]))) },
    Kind { name: "ssh", gen: svc::ssh, refv: |y| keep(y, |x| x == "default" || x.split_once('=').is_some_and(|(a, b)| !a.is_empty() && !b.is_empty())), wrap: |y| fld("build", rec("ssh", Y::Seq(vec![y]))) },
    Kind { name: "build network", gen: |cx| if cx.coin() { sstr("none") } else { sstr(ident(cx)) }, refv: |y| keep(y, identifier), wrap: |y| fld("build", rec("network", y)) },
    Kind { name: "platform", gen: gen_platform, refv: |y| keep(y, platform), wrap: |y| fld("platform", y) },
    Kind { name: "platform (build)", gen: gen_platform, refv: |y| keep(y, platform), wrap: |y| fld("build", rec("platforms", Y::Seq(vec![y]))) },
    Kind { name: "link", gen: svc::link, refv: |y| keep(y, |x| identifier(x.split(':').next().unwrap_or_default())), wrap: |y| lst("links", y) },
    Kind { name: "ipc", gen: |cx| sstr(match cx.draw(3) { 0 => "shareable".to_owned(), 1 => format!("service:{}", ident(cx)), _ => text(cx) }), refv: |y| keep(y, |x| prefixed(x, &["service:"])), wrap: |y| fld("ipc", y) },
    Kind { name: "network mode", gen: svc::network_mode, refv: |y| keep(y, |x| prefixed(x, &["service:", "container:"])), wrap: |y| fld("network_mode", y) },
    Kind { name: "volumes from", gen: |cx| { let i = format!("{}{}{}", cx.pick(&["", "container:"]), ident(cx), cx.pick(&["", ":ro", ":rw"])); let c = volumes_from(&i).unwrap_or_default(); p(s(i), s(c)) }, refv: |y| on_str(y, |x| volumes_from(x).map_or(Reject, |t| Ref::Ok(s(t)))), wrap: |y| lst("volumes_from", y) },
    Kind { name: "percent", gen: svc::percent, refv: |y| uint(y, 100), wrap: |y| fld("cpu_percent", y) },
    Kind { name: "percent (swappiness)", gen: svc::percent, refv: |y| uint(y, 100), wrap: |y| fld("mem_swappiness", y) },
    Kind { name: "oom score", gen: |cx| same(int(*cx.pick(&[0i64, 999, -999, 1000, -1000]))), refv: |y| match y { Y::Int(i) => ok((-1000..=1000).contains(i), || int(*i)), _ => Reject }, wrap: |y| fld("oom_score_adj", y) },
    Kind { name: "weight", gen: svc::weight, refv: |y| match y { Y::Int(i) => ok((10..=1000).contains(i), || int(*i)), _ => Reject }, wrap: |y| fld("blkio_config", rec("weight", y)) },
    Kind { name: "cpus", gen: svc::cpus, refv: cpus_ref, wrap: |y| fld("cpus", y) },
    Kind { name: "cpus (reservation)", gen: svc::cpus, refv: cpus_ref, wrap: |y| fld("deploy", nest(&["resources", "reservations", "cpus"], y)) },
    Kind { name: "device count", gen: |cx| if cx.coin() { sstr("all") } else { same(int(edge_u64(cx))) }, refv: |y| match y {
        Y::Int(_) => uint(y, U64),
        Y::Str(x) if x.contains('+') => Skip,
        Y::Str(x) if x == "all" => Ref::Ok(s("all")),
        Y::Str(x) => dec(x, U64).map_or(Reject, |n| Ref::Ok(int(n as i128))),
        _ => Reject,
    }, wrap: |y| fld("deploy", nest(&["resources", "reservations", "devices"], Y::Seq(vec![Y::Rec(vec![(s("capabilities"), Y::Seq(vec![s("gpu")])), (s("count"), y)])]))) },
    Kind { name: "replicas", gen: |cx| same(int(edge_u64(cx))), refv: |y| uint(y, U64), wrap: |y| fld("deploy", rec("replicas", y)) },
    Kind { name: "restart", gen: |cx| pick_of(cx, &["no", "always", "on-failure", "unless-stopped"]), refv: |y| closed(y, &["no", "always", "on-failure", "unless-stopped"]), wrap: |y| fld("restart", y) },
    Kind { name: "pull policy", gen: |cx| { let (w, c) = *cx.pick(&[("always", "always"), ("never", "never"), ("missing", "missing"), ("build", "build"), ("if_not_present", "missing")]); p(s(w), s(c)) }, refv: |y| if matches!(y, Y::Str(x) if x == "if_not_present") { Ref::Ok(s("missing")) } else { closed(y, &["always", "never", "missing", "build"]) }, wrap: |y| fld("pull_policy", y) },
    Kind { name: "cgroup", gen: |cx| pick_of(cx, &["host", "private"]), refv: |y| closed(y, &["host", "private"]), wrap: |y| fld("cgroup", y) },
    Kind { name: "uts", gen: |cx| pick_of(cx, &["host"]), refv: |y| closed(y, &["host"]), wrap: |y| fld("uts", y) },
    Kind { name: "port mode", gen: |cx| pick_of(cx, &["host", "ingress"]), refv: |y| closed(y, &["host", "ingress"]), wrap: |y| lst("ports", Y::Rec(vec![(s("target"), int(80)), (s("mode"), y)])) },
    Kind { name: "deploy mode", gen: |cx| pick_of(cx, &["global", "replicated"]), refv: |y| closed(y, &["global", "replicated"]), wrap: |y| fld("deploy", rec("mode", y)) },
    Kind { name: "condition", gen: |cx| pick_of(cx, &["service_started", "service_healthy", "service_completed_successfully"]), refv: |y| closed(y, &["service_started", "service_healthy", "service_completed_successfully"]), wrap: |y| fld("depends_on", rec("b", Y::Rec(vec![(s("condition"), y), (s("restart"), Y::Bool(true))]))) },
    Kind { name: "restart condition", gen: |cx| pick_of(cx, &["none", "on-failure", "any"]), refv: |y| closed(y, &["none", "on-failure", "any"]), wrap: |y| fld("deploy", nest(&["restart_policy", "condition"], y)) },
    Kind { name: "order", gen: |cx| pick_of(cx, &["stop-first", "start-first"]), refv: |y| closed(y, &["stop-first", "start-first"]), wrap: |y| fld("deploy", nest(&["rollback_config", "order"], y)) },
    Kind { name: "failure action", gen: |cx| pick_of(cx, &["continue", "pause"]), refv: |y| closed(y, &["continue", "pause"]), wrap: |y| fld("deploy", nest(&["update_config", "failure_action"], y)) },
    Kind { name: "watch action", gen: |cx| pick_of(cx, &["sync", "rebuild", "sync+restart"]), refv: |y| closed(y, &["sync", "rebuild", "sync+restart"]), wrap: |y| fld("develop", rec("watch", Y::Seq(vec![Y::Rec(vec![(s("action"), y), (s("path"), s("p"))])]))) },
    Kind { name: "propagation", gen: |cx| pick_of(cx, PROPAGATION), refv: |y| closed(y, PROPAGATION), wrap: |y| lst("volumes", Y::Rec(vec![(s("type"), s("bind")), (s("source"), s("/s")), (s("target"), s("/t")), (s("bind"), rec("propagation", y))])) },
    Kind { name: "selinux", gen: |cx| pick_of(cx, &["z", "Z"]), refv: |y| closed(y, &["z", "Z"]), wrap: |y| lst("volumes", Y::Rec(vec![(s("type"), s("bind")), (s("source"), s("/s")), (s("target"), s("/t")), (s("bind"), rec("selinux", y))])) },
];
