use super::Prop;
use crate::core::{guard, viol, Cx, Res};
use crate::de::{SimDe, St};
use crate::ensure;
use crate::gen::{self, svc};
use crate::mutate;
use crate::scal::{Ref, KINDS};
use crate::ser::{SimSer, St as SerSt};
use crate::show;
use crate::util::*;
use crate::y::Y;
use compose_spec::service::{build, deploy, develop, device, image, network_config, platform, ports, user, volumes, *};
use compose_spec::{duration, Compose, ExtensionKey, Identifier, MapKey, Name, Number, StringOrNumber, Value};
use serde::{Deserialize, Serialize};
use std::fmt::{self, Display, LowerExp, UpperExp};
use std::str::FromStr;

pub const PROP: Prop = Prop {
    id: "C12",
    run,
    quick_runs: 900000,
    apart: false,
    rule: "Each run formats values into simulated sinks: (1) every value a generated (sometimes edited or damaged) document formats while it is saved, and every error it causes while it is loaded by a simulated format; (2) values of one of some sixty public types parsed from generated, sometimes damaged texts, or the error that gives, with its sources; (3) validation, conversion and range errors. A value is formatted into text sinks that fail at drawn (for short texts, at all) byte limits, in the middle of a piece or at a piece, with drawn format specifications and surrounding text, into sinks that panic or format it again, into byte outputs that fail, fill up, take part of a write or are interrupted, and on another thread; parsed values must also format as the reference says and parse again to the same text. Non-trivial: a sink failed.",
    real: "all of compose_spec's formatting, parsing, loading and saving",
    stub: "text and byte sinks, serde Serializer and Deserializer",
    probes: &[
        "sink error", "every sink limit tried", "sink panic", "formatted while being formatted", "formatted on another thread",
        "written to a byte output", "write error", "disk full (write returns 0)", "short write", "write interrupted (EINTR)",
        "error value formatted", "parsed value formatted", "parse error formatted", "validation error formatted", "exponent formatted",
        "formatted as the reference says",
    ],
    assume: &["values reachable from the harness's documents and texts"],
};

fn run(cx: &Cx) -> Res {
    match cx.draw(8) {
        0 => document(cx),
        1 => validation(cx),
        2 => numbers(cx),
        _ => typed(cx),
    }
}

// ------------------------------------------------------------------ documents

fn document(cx: &Cx) -> Res {
    let mut d = small_doc(cx);
    let damaged = cx.coin();
    if damaged {
        for _ in 0..=cx.n(2) {
            mutate::tree(cx, &mut d.p.w);
        }
        let st = crate::y::Style::draw(cx);
        d.text = crate::y::emit(cx, &d.p.w, &st);
    }
    if mutate::huge(d.text.as_bytes()) {
        return Ok(());
    }
    let Ok(v) = serde_yaml::from_str::<serde_yaml::Value>(&d.text) else { return Ok(()) };
    let st = St::new(cx, cx.coin(), None);
    match show::watching(cx, 6, || Compose::deserialize(SimDe { st: &st, v: &v }))? {
        Ok(c) => {
            let st = SerSt::new(cx, None);
            let r = show::watching(cx, 60, || c.serialize(SimSer(&st)))?;
            ensure!(r.is_ok(), "save", "cannot be saved: {:?}\n{}", r.err(), clip(&d.text));
        }
        Err(e) => show::check(cx, "load error", &e)?,
    }
    if damaged {
        if let Err(e) = guard("loading", || Compose::options().from_yaml_str(&d.text))? {
            show::check(cx, "serde_yaml::Error", &e)?;
        }
    }
    Ok(())
}

fn validation(cx: &Cx) -> Res {
    let d = small_doc(cx);
    let Ok(mut c) = guard("loading", || Compose::options().from_yaml_str(&d.text))? else {
        return viol("rejected", format!("valid document rejected:\n{}", clip(&d.text)));
    };
    for _ in 0..3 {
        match cx.draw(4) {
            0 => c.networks.clear(),
            1 => c.volumes.clear(),
            2 => c.configs.clear(),
            _ => c.secrets.clear(),
        }
    }
    for r in [c.validate_all(), c.validate_networks(), c.validate_volumes(), c.validate_configs(), c.validate_secrets()] {
        if let Err(e) = r {
            cx.count("validation error formatted");
            show::error(cx, "ValidationError", &e)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ numbers

struct Lower<'a, T>(&'a T);
impl<T: LowerExp> Display for Lower<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        LowerExp::fmt(self.0, f)
    }
}
struct Upper<'a, T>(&'a T);
impl<T: UpperExp> Display for Upper<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        UpperExp::fmt(self.0, f)
    }
}

fn err<T, E: std::error::Error + 'static>(cx: &Cx, what: &str, r: Result<T, E>) -> Res {
    match r {
        Ok(_) => Ok(()),
        Err(e) => show::error(cx, what, &e),
    }
}

fn numbers(cx: &Cx) -> Res {
    let (n, d, l, u) = match cx.draw(3) {
        0 => {
            let x = gen::prim::edge_u64(cx);
            (Number::UnsignedInt(x), x.to_string(), format!("{x:e}"), format!("{x:E}"))
        }
        1 => {
            let x = gen::prim::edge_i64(cx);
            (Number::SignedInt(x), x.to_string(), format!("{x:e}"), format!("{x:E}"))
        }
        _ => {
            let x = *cx.pick(&[0.0, -0.0, 1.5, -2.25, 1e21, 5e-324, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.1]);
            let x = if cx.coin() { x } else { f64::from_bits(cx.u64()) };
            (Number::Float(x), x.to_string(), format!("{x:e}"), format!("{x:E}"))
        }
    };
    cx.count("exponent formatted");
    ensure!(n.to_string() == d, "number-text", "{n:?} formats as {n}, not {d}");
    ensure!(format!("{n:e}") == l && format!("{n:E}") == u, "number-text", "{n:?} formats as {n:e} and {n:E}, not {l} and {u}");
    show::check(cx, "Number", &n)?;
    show::check(cx, "Number (LowerExp)", &Lower(&n))?;
    show::check(cx, "Number (UpperExp)", &Upper(&n))?;
    show::check(cx, "StringOrNumber", &StringOrNumber::Number(n.clone()))?;
    show::check(cx, "Value", &Value::from(n.clone()))?;
    let v = match cx.draw(4) {
        0 => Value::String(gen::prim::text(cx)),
        1 => Value::Bool(cx.coin()),
        _ => Value::from(n.clone()),
    };
    err(cx, "TryFromNumberError", u64::try_from(n.clone()))?;
    err(cx, "TryFromNumberError", i64::try_from(n.clone()))?;
    err(cx, "TryFromIntError", f64::try_from(n))?;
    err(cx, "TryFromValueError", u64::try_from(v.clone()))?;
    err(cx, "TryFromValueError", i64::try_from(v.clone()))?;
    err(cx, "TryFromValueError", f64::try_from(v.clone()))?;
    err(cx, "TryFromValueError", bool::try_from(v.clone()))?;
    err(cx, "TryFromValueError", Number::try_from(v.clone()))?;
    show::check(cx, "Value", &v)?;
    let b = cx.draw(256) as u8;
    err(cx, "RangeError", Percent::new(b))?;
    err(cx, "RangeError", OomScoreAdj::new(cx.draw(65536) as u16 as i16))?;
    err(cx, "WeightRangeError", blkio_config::Weight::new(cx.draw(65536) as u16))?;
    err(cx, "InvalidCpusError", Cpus::new(*cx.pick(&[-1.0, f64::NAN, f64::INFINITY, -0.0, 1.0])))?;
    let p = || cx.draw(65536) as u16;
    let (a, b, c, d) = (p(), p(), p(), p());
    err(cx, "ports::RangeError", ports::Range::new(a, Some(b)))?;
    if let (Ok(x), Ok(y)) = (ports::Range::new(a.min(b), Some(a.max(b))), ports::Range::new(c.min(d), Some(c.max(d)))) {
        show::check(cx, "ports::Range", &x)?;
        err(cx, "ShortRangesError", ports::ShortRanges::new(Some(x), y))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ parsed values

type Check = fn(&Cx, &str, &str, Option<&str>) -> Res;

/// Parse, format, parse again.
fn parsed<T>(cx: &Cx, what: &str, t: &str, want: Option<&str>) -> Res
where
    T: FromStr + Display + PartialEq + fmt::Debug,
    T::Err: std::error::Error + 'static,
{
    let r = guard(&format!("parsing {what}"), || t.parse::<T>())?;
    match r {
        Ok(v) => {
            cx.count("parsed value formatted");
            let text = guard(what, || v.to_string())?;
            if let Some(w) = want {
                cx.count("formatted as the reference says");
                ensure!(text == w, "wrong-text", "{what} parsed from {t:?} formats as {text:?}, not {w:?}");
            }
            show::check(cx, what, &v)?;
            match guard(what, || text.parse::<T>())? {
                Ok(v2) => {
                    let t2 = v2.to_string();
                    ensure!(t2 == text, "unstable-text", "{what} parsed from {t:?} formats as {text:?}, which parses and formats as {t2:?}");
                    // a number's text does not say which kind of number it is
                    ensure!(v2 == v || what == "Number", "unstable-value", "{what} parsed from {t:?} formats as {text:?}, which parses as another value: {v2:?}, not {v:?}");
                }
                Err(e) => return viol("unparsable-text", format!("{what} parsed from {t:?} formats as {text:?}, which does not parse: {e}")),
            }
        }
        Err(e) => {
            cx.count("parse error formatted");
            if let Some(w) = want {
                return viol("refused", format!("{what} refuses {t:?} (which stands for {w:?}): {e}"));
            }
            show::error(cx, what, &e)?;
        }
    }
    Ok(())
}

/// A closed set of texts, only reachable by deserializing.
fn named<T>(cx: &Cx, what: &str, t: &str, _: Option<&str>) -> Res
where
    T: for<'d> Deserialize<'d> + Serialize + Display,
{
    let v = serde_yaml::Value::String(t.to_owned());
    let st = St::new(cx, false, None);
    match show::watching(cx, 4, || T::deserialize(SimDe { st: &st, v: &v }))? {
        Ok(v) => {
            show::check(cx, what, &v)?;
            let text = v.to_string();
            if let Ok(serde_yaml::Value::String(s)) = guard(what, || serde_yaml::to_value(&v))? {
                ensure!(s == text, "wrong-text", "{what} from {t:?} formats as {text:?} but is saved as {s:?}");
            }
        }
        Err(e) => show::check(cx, what, &e)?,
    }
    Ok(())
}

macro_rules! typed {
    ($($t:ty $(, $k:literal)?;)*) => {
        &[$((stringify!($t), typed!(@ $($k)?), parsed::<$t> as Check),)*]
    };
    (@ $k:literal) => { $k };
    (@) => { "" };
}

const TYPED: &[(&str, &str, Check)] = typed! {
    Identifier, "identifier (profile)";
    MapKey;
    ExtensionKey;
    Name, "project name";
    Number;
    Hostname, "hostname";
    User, "user";
    IdOrName, "group";
    user::Name;
    ByteValue;
    Limit<u64>;
    Limit<ByteValue>;
    ports::Range, "port range";
    ports::ShortPort, "short port";
    ports::ShortRanges;
    ports::Protocol;
    Expose, "exposed port";
    volumes::ShortVolume, "short volume";
    volumes::Source;
    Device, "device";
    device::Permissions;
    device::CgroupRule, "cgroup rule";
    device::Kind;
    device::MajorMinorNumber;
    CpuSet, "cpu set";
    MacAddress, "mac address";
    network_config::NetworkMode, "network mode";
    Image, "image";
    build::Cache, "cache";
    build::CacheOption;
    build::SshAuth, "ssh";
    build::SshAuthId;
    build::Network, "build network";
    build::Context;
    Platform, "platform";
    Link, "link";
    Ipc, "ipc";
    VolumesFrom, "volumes from";
    VolumesFromSource;
    deploy::EndpointMode;
    deploy::resources::Capability;
    Resource, "ulimit resource";
};

const NAMED: &[(&str, Check, &[&str])] = &[
    ("ports::Mode", named::<ports::Mode>, &["host", "ingress"]),
    ("deploy::Mode", named::<deploy::Mode>, &["global", "replicated"]),
    ("RestartCondition", named::<deploy::RestartCondition>, &["none", "on-failure", "any"]),
    ("FailureAction", named::<deploy::FailureAction>, &["continue", "pause"]),
    ("Order", named::<deploy::Order>, &["stop-first", "start-first"]),
    ("develop::Action", named::<develop::Action>, &["sync", "rebuild", "sync+restart"]),
    ("BindPropagation", named::<volumes::mount::BindPropagation>, &["private", "shared", "slave", "unbindable", "rprivate", "rshared", "rslave", "runbindable"]),
    ("SELinux", named::<volumes::SELinux>, &["z", "Z"]),
    ("Cgroup", named::<Cgroup>, &["host", "private"]),
    ("Condition", named::<Condition>, &["service_started", "service_healthy", "service_completed_successfully"]),
    ("Uts", named::<Uts>, &["host"]),
    ("PullPolicy", named::<PullPolicy>, &["always", "never", "missing", "if_not_present", "build"]),
    ("Restart", named::<Restart>, &["no", "always", "on-failure", "unless-stopped"]),
    ("AbsolutePath", named::<Plain<volumes::AbsolutePath>>, &["/", "/a/b", "a", "", "./a"]),
    ("HostPath", named::<Plain<volumes::HostPath>>, &["/", "/a/b", "a", "", "./a", "~/a", "~", "../a"]),
    ("User (deserialized)", named::<User>, &["a", "0", "0:0", "a:b"]),
];

/// A type without a text form of its own; only its errors are formatted.
struct Plain<T>(T);
impl<T> Display for Plain<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("plain")
    }
}
impl<'d, T: Deserialize<'d>> Deserialize<'d> for Plain<T> {
    fn deserialize<D: serde::Deserializer<'d>>(d: D) -> Result<Self, D::Error> {
        T::deserialize(d).map(Plain)
    }
}
impl<T> Serialize for Plain<T> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let _ = &self.0;
        s.serialize_unit()
    }
}

fn scalar(y: &Y) -> Option<String> {
    match y {
        Y::Str(x) => Some(x.clone()),
        Y::Int(i) => Some(i.to_string()),
        _ => None,
    }
}

/// A text for `kind` and, when it is not damaged, the text it stands for.
fn text_of(cx: &Cx, kind: &str) -> (String, Option<String>) {
    let k = KINDS.iter().find(|k| k.name == kind).unwrap_or(&KINDS[0]);
    let outline = if cx.chance(1, 3) { crate::wild::text(cx, k.name) } else { None };
    let w = match outline {
        Some(t) if !mutate::huge(t.as_bytes()) => Y::Str(t),
        _ => (k.gen)(cx).w,
    };
    // a number stands for itself only where the form written is text
    let (Some(t), true) = (scalar(&w), matches!(w, Y::Str(_))) else {
        return (scalar(&w).unwrap_or_default(), None);
    };
    match (k.refv)(&w) {
        Ref::Ok(c) => (t, scalar(&c)),
        _ => (t, None),
    }
}

fn any_text(cx: &Cx) -> String {
    match cx.draw(12) {
        0 => gen::prim::text(cx),
        1 => gen::prim::abs_path(cx),
        2 => svc::host_path(cx),
        3 => svc::image_name(cx),
        4 => svc::tag(cx),
        5 => svc::digest(cx),
        6 => svc::perms(cx).0,
        7 => (*cx.pick(&["tcp", "udp", "sctp", "vip", "dnsrr", "gpu", "nvidia", "type=registry", "a=b", "c 1:2", "1:*", "*:3", "none", "host", "default", "id=/p", "1e3", "-5", "-1", "0.1", "1gb", "10kb", "-0", "18446744073709551616"])).to_owned(),
        8 => scalar(&svc::context(cx).w).unwrap_or_default(),
        9 => scalar(&gen::prim::bytes(cx).w).unwrap_or_default(),
        _ => {
            let w = (KINDS[cx.n(KINDS.len())].gen)(cx).w;
            scalar(&w).unwrap_or_default()
        }
    }
}

fn damage(cx: &Cx, mut t: String) -> String {
    for _ in 0..cx.n(3) {
        t = mutate::twist(cx, &t);
    }
    t
}

fn typed(cx: &Cx) -> Res {
    match cx.draw(10) {
        0 => {
            let (what, f, texts) = NAMED[cx.n(NAMED.len())];
            let t = (*cx.pick(texts)).to_owned();
            let t = if cx.coin() { t } else { damage(cx, t) };
            f(cx, what, &t, None)
        }
        1 => {
            let t = if cx.coin() { gen::prim::duration(cx).0 } else { any_text(cx) };
            let t = damage(cx, t);
            if let Err(e) = guard("parsing a duration", || duration::parse(&t))? {
                cx.count("parse error formatted");
                show::error(cx, "ParseDurationError", &e)?;
            }
            Ok(())
        }
        2 => {
            let t = if cx.coin() { svc::image(cx) } else { any_text(cx) };
            let t = damage(cx, t);
            parts(cx, &t)
        }
        3 => paths(cx),
        _ => {
            let (what, kind, f) = TYPED[cx.n(TYPED.len())];
            let (t, want) = if kind.is_empty() || cx.chance(1, 8) { (any_text(cx), None) } else { text_of(cx, kind) };
            let (t, want) = if cx.chance(1, 3) { (damage(cx, t), None) } else { (t, want) };
            if mutate::huge(t.as_bytes()) {
                return Ok(());
            }
            cx.note(|| format!("{what} {t:?}"));
            f(cx, what, &t, want.as_deref())
        }
    }
}

fn parts(cx: &Cx, t: &str) -> Res {
    match guard("an image name", || image::Name::new(t))? {
        Ok(v) => show::check(cx, "image::Name", &v)?,
        Err(e) => show::error(cx, "InvalidNamePartError", &e)?,
    }
    match guard("an image tag", || image::Tag::new(t))? {
        Ok(v) => show::check(cx, "image::Tag", &v)?,
        Err(e) => show::error(cx, "InvalidTagError", &e)?,
    }
    match guard("an image digest", || image::Digest::new(t))? {
        Ok(v) => show::check(cx, "image::Digest", &v)?,
        Err(e) => show::error(cx, "InvalidDigestError", &e)?,
    }
    if let Ok(i) = guard("an image", || Image::parse(t))? {
        show::check(cx, "image::Name", &i.as_name())?;
        if let Some(t) = i.as_tag() {
            show::check(cx, "image::Tag", &t)?;
        }
        if let Some(d) = i.as_digest() {
            show::check(cx, "image::Digest", &d)?;
        }
    }
    Ok(())
}

fn paths(cx: &Cx) -> Res {
    let t = if cx.coin() { svc::host_path(cx) } else { any_text(cx) };
    let t = damage(cx, t);
    err(cx, "AbsolutePathError", guard("a path", || volumes::AbsolutePath::new(&t))?)?;
    err(cx, "HostPathError", guard("a path", || volumes::HostPath::new(&t))?)?;
    err(cx, "ParseSourceError", guard("a source", || volumes::Source::parse(t.clone()))?)?;
    err(cx, "InvalidArchError", guard("an arch", || t.parse::<platform::Arch>())?)?;
    err(cx, "ParseNetworkModeError", guard("a network mode", || network_config::NetworkMode::parse(t.clone()))?)?;
    Ok(())
}
