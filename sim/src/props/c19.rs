use super::c16::{pick_text, texts};
use super::Prop;
use crate::comp::{self, At, How, Sink};
use crate::core::{guard, viol, Cx, Res};
use crate::de::{self, SimDe};
use crate::ensure;
use crate::io::{Disk, End, Fault, SimReader, SimWriter};
use crate::{made, mutate};
use crate::sess::Session;
use crate::util::*;
use compose_spec::service::Resource as UlimitResource;
use compose_spec::service::{
    blkio_config, build, deploy, device, env_file, healthcheck, image, network_config, platform::Platform, ports, user, volumes, *
};
use compose_spec::{
    network, Compose, Config, ExtensionKey, Identifier, ItemOrList, ListOrMap, Map, MapKey, Name, Network, Number, Resource, Secret,
    ShortOrLong, StringOrNumber, Value, Volume,
};
use indexmap::{IndexMap, IndexSet};
use serde::{de::DeserializeOwned, Serialize};
use serde_yaml::Value as Y;
use std::any::Any;
use std::borrow::{Borrow, Cow};
use std::fmt::{Debug, Display};
use std::path::{Path, PathBuf};

pub const PROP: Prop = Prop {
    id: "C19",
    run,
    quick_runs: 200000,
    apart: false,
    rule: "Each run either (1) loads a generated document through a faulty reader, edits it, saves it to a simulated disk, crashes and reloads it, and after every step asks drawn parts of it (and parts thinned to a few of their entries and reloaded) everything they report of themselves: emptiness, form, kind, accessors, comparisons with plain strings and numbers, conversions into strings; the part as it is saved is the reference. Or (2) parses generated, damaged texts by every route a type offers (FromStr, its constructor, conversions from borrowed, owned and boxed strings and paths, deserialization from YAML and from the simulated deserializer): all must accept the same texts with equal values, give the same error, and each way of taking the text back out must give what is saved. Or (3) assembles a value from drawn parts by every constructor and conversion its type offers: all must give equal values, saved as the parts are written, that load back equal. Non-trivial: a value said something of itself that was judged.",
    real: "all of compose_spec's accessors, conversions, parsing, loading and saving",
    stub: "disk, output and input devices, serde Deserializer (for the loads from it)",
    probes: &[
        "emptiness judged", "found empty", "accessor judged", "comparison judged", "routes accept", "routes reject", "text taken out",
        "part thinned", "value made of parts", "crash", "document reloaded", "short read", "read interrupted (EINTR)",
    ],
    assume: &["documents and texts come from the harness's grammar, and damage to it"],
};

// ------------------------------------------------------------------ texts

type Got<T> = (&'static str, Result<T, String>);

fn err<T, E: Display>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| e.to_string())
}

/// Every route gives the same.
fn routes<T: PartialEq + Debug>(cx: &Cx, what: &str, t: &str, got: Vec<Got<T>>) -> Res<Option<T>> {
    let mut i = got.into_iter();
    let Some((first, a)) = i.next() else { return Ok(None) };
    for (how, b) in i {
        let same = match (&a, &b) {
            // not a number is not itself
            (Ok(a), Ok(b)) => a == b || (format!("{a:?}") == "Float(NaN)" && format!("{b:?}") == "Float(NaN)"),
            // errors of a deserializer have their own texts
            (Err(a), Err(b)) => a == b || how.starts_with("de"),
            _ => false,
        };
        ensure!(same, "routes-differ", "{what} from {t:?}: {first} gives {a:?}, {how} gives {b:?}");
    }
    cx.nontrivial();
    cx.count(if a.is_ok() { "routes accept" } else { "routes reject" });
    Ok(a.ok())
}

/// Loading the text with serde gives the same.
fn serde_routes<T: DeserializeOwned>(cx: &Cx, t: &str, got: &mut Vec<Got<T>>) {
    let v = Y::String(t.to_owned());
    let st = de::St::new(cx, false, None);
    got.push(("deserializing", err(T::deserialize(SimDe { st: &st, v: &v }))));
    got.push(("deserializing from YAML", err(serde_yaml::from_value(v))));
}

fn scalar(y: &Y) -> Option<String> {
    match y {
        Y::String(s) => Some(s.clone()),
        Y::Number(n) => Some(n.to_string()),
        _ => None,
    }
}

/// Each way of taking the text out gives what is saved.
fn outs(cx: &Cx, what: &str, v: &dyn Debug, text: &str, got: Vec<(&str, String)>) -> Res {
    for (how, x) in got {
        ensure!(x == text, "text-differs", "{what} {v:?} is saved as {text:?}, but {how} gives {x:?}");
    }
    cx.count("text taken out");
    cx.nontrivial();
    Ok(())
}

macro_rules! route {
    ($t:ident $T:ty, fromstr) => { ("from_str", err($t.parse::<$T>())) };
    ($t:ident $T:ty, str) => { ("&str", err(<$T>::try_from($t))) };
    ($t:ident $T:ty, string) => { ("String", err(<$T>::try_from($t.to_owned()))) };
    ($t:ident $T:ty, boxed) => { ("Box<str>", err(<$T>::try_from(Box::<str>::from($t)))) };
    ($t:ident $T:ty, cow) => { ("Cow<str>", err(<$T>::try_from(Cow::Borrowed($t)))) };
    ($t:ident $T:ty, cowned) => { ("owned Cow<str>", err(<$T>::try_from(Cow::<str>::Owned($t.to_owned())))) };
    ($t:ident $T:ty, parse) => { ("parse", err(<$T>::parse($t))) };
    ($t:ident $T:ty, parsed) => { ("parse of a String", err(<$T>::parse($t.to_owned()))) };
    ($t:ident $T:ty, make) => { ("parse", Ok(<$T>::parse($t))) };
    ($t:ident $T:ty, maked) => { ("parse of a String", Ok(<$T>::parse($t.to_owned()))) };
    ($t:ident $T:ty, new) => { ("new", err(<$T>::new($t))) };
    ($t:ident $T:ty, newed) => { ("new of a String", err(<$T>::new($t.to_owned()))) };
    ($t:ident $T:ty, path) => { ("&Path", err(<$T>::try_from(Path::new($t)))) };
    ($t:ident $T:ty, pathbuf) => { ("PathBuf", err(<$T>::try_from(PathBuf::from($t)))) };
    ($t:ident $T:ty, boxpath) => { ("Box<Path>", err(<$T>::try_from(Box::<Path>::from(Path::new($t))))) };
    ($t:ident $T:ty, cowpath) => { ("Cow<Path>", err(<$T>::try_from(Cow::Borrowed(Path::new($t))))) };
    ($t:ident $T:ty, cowpathed) => { ("owned Cow<Path>", err(<$T>::try_from(Cow::<Path>::Owned(PathBuf::from($t))))) };
}
macro_rules! out {
    ($v:ident, asstr) => { ("as_str", $v.as_str().to_owned()) };
    ($v:ident, asref) => { ("as_ref", AsRef::<str>::as_ref($v).to_owned()) };
    ($v:ident, borrow) => { ("borrow", Borrow::<str>::borrow($v).to_owned()) };
    ($v:ident, string) => { ("String::from", String::from($v.clone())) };
    ($v:ident, boxed) => { ("Box::<str>::from", Box::<str>::from($v.clone()).into_string()) };
    ($v:ident, cow) => { ("Cow::from", Cow::<'static, str>::from($v.clone()).into_owned()) };
    ($v:ident, display) => { ("to_string", $v.to_string()) };
    ($v:ident, aspath) => { ("as_path", $v.as_path().to_string_lossy().into_owned()) };
    ($v:ident, asinner) => { ("as_inner", $v.as_inner().to_string_lossy().into_owned()) };
    ($v:ident, intoinner) => { ("into_inner", $v.clone().into_inner().to_string_lossy().into_owned()) };
    ($v:ident, refpath) => { ("as_ref", AsRef::<Path>::as_ref($v).to_string_lossy().into_owned()) };
    ($v:ident, refbuf) => { ("as_ref to PathBuf", AsRef::<PathBuf>::as_ref($v).to_string_lossy().into_owned()) };
    ($v:ident, borrowpath) => { ("borrow", Borrow::<Path>::borrow($v).to_string_lossy().into_owned()) };
    ($v:ident, pathbuf) => { ("PathBuf::from", PathBuf::from($v.clone()).to_string_lossy().into_owned()) };
    ($v:ident, boxpath) => { ("Box::<Path>::from", Box::<Path>::from($v.clone()).to_string_lossy().into_owned()) };
}

struct Text {
    name: &'static str,
    kind: &'static str,
    text: fn(&Cx, &str) -> Res,
    part: fn(&Cx, &dyn Any, &Y) -> Res<bool>,
}

macro_rules! table {
    ($($T:ty, $kind:literal: $($in:ident)* => $($out:ident)* ; $serde:ident;)*) => {
        const TEXTS: &[Text] = &[$(Text {
            name: stringify!($T),
            kind: $kind,
            text: |cx, t| {
                let what = stringify!($T);
                let got = guard(what, || {
                    #[allow(unused_mut)]
                    let mut got: Vec<Got<$T>> = vec![$(route!(t $T, $in)),*];
                    table!(@ $serde, cx, t, got);
                    got
                })?;
                if let Some(v) = routes(cx, what, t, got)? {
                    table!(@out $serde, cx, what, v, $T, $($out)*);
                }
                Ok(())
            },
            part: |cx, v, y| {
                let what = stringify!($T);
                let Some(v) = v.downcast_ref::<$T>() else { return Ok(false) };
                let Some(text) = scalar(y) else { return Ok(true) };
                // a float's text is as Rust writes it ("0"), not as YAML does ("0.0")
                if matches!(y, Y::Number(n) if n.is_f64()) {
                    return Ok(true);
                }
                guard(what, || outs(cx, what, v, &text, vec![$(out!(v, $out)),*]))??;
                let t = text.as_str();
                let got = guard(what, || vec![$(route!(t $T, $in)),*])?;
                match routes(cx, what, t, got)? {
                    Some(x) => ensure!(x == *v, "routes-differ", "{what} {v:?} is saved as {t:?}, which is {x:?}"),
                    None => return viol("routes-differ", format!("{what} {v:?} is saved as {t:?}, which is refused")),
                }
                Ok(true)
            },
        }),*];
    };
    (@ serde, $cx:ident, $t:ident, $got:ident) => { serde_routes($cx, $t, &mut $got); };
    (@ bare, $cx:ident, $t:ident, $got:ident) => { let _ = $cx; };
    (@out serde, $cx:ident, $what:ident, $v:ident, $T:ty, $($out:ident)*) => {
        let y = guard($what, || serde_yaml::to_value(&$v).map_err(|e| e.to_string()))?;
        let y = match y {
            Ok(y) => y,
            Err(e) => return viol("save", format!("{} {:?} cannot be saved: {e}", $what, $v)),
        };
        if let Some(text) = scalar(&y) {
            let v = &$v;
            guard($what, || outs($cx, $what, v, &text, vec![$(out!(v, $out)),*]))??;
            known($cx, v, &y)?;
        }
    };
    (@out bare, $cx:ident, $what:ident, $v:ident, $T:ty, $($out:ident)*) => {
        let v = &$v;
        let text = v.to_string();
        guard($what, || outs($cx, $what, v, &text, vec![$(out!(v, $out)),*]))??;
    };
}

table! {
    network::Driver, "": fromstr str string boxed cow cowned make maked => asstr asref string cow display; serde;
    network_config::NetworkMode, "network mode": fromstr str string boxed cow cowned parse parsed => string cow display; serde;
    deploy::EndpointMode, "": fromstr str string boxed cow cowned make maked => asstr asref string cow display; serde;
    deploy::resources::Capability, "": fromstr str string boxed cow cowned make maked => asstr asref string cow display; serde;
    ports::Protocol, "": fromstr str string boxed cow cowned make maked => asstr asref string cow display; serde;
    Image, "image": fromstr str string boxed cow cowned parse parsed => asstr asref borrow string display; serde;
    User, "user": fromstr str string boxed cow cowned parse parsed => string display; serde;
    IdOrName, "group": fromstr str string boxed cow cowned parse parsed => string display; serde;
    build::Network, "build network": fromstr str string boxed cow cowned parse parsed => asstr asref string cow display; serde;
    build::Cache, "cache": fromstr str string boxed cow cowned parse parsed => display; serde;
    build::Context, "path": fromstr str string boxed cow cowned make maked => display; serde;
    build::SshAuth, "ssh": fromstr => display; serde;
    build::SshAuthId, "ssh": fromstr => display; bare;
    Link, "link": fromstr str string boxed cow cowned parse parsed => string display; serde;
    Ipc, "ipc": fromstr str string boxed cow cowned parse parsed => string cow display; serde;
    VolumesFrom, "volumes from": fromstr str string boxed cow cowned parse parsed => string display; serde;
    VolumesFromSource, "volumes from": fromstr str string boxed cow cowned parse parsed => string display; serde;
    Identifier, "identifier (profile)": fromstr str string boxed cow cowned new newed => asstr asref borrow string boxed display; serde;
    MapKey, "map key": fromstr str string boxed cow cowned new newed => asstr asref borrow string boxed display; serde;
    ExtensionKey, "extension key": fromstr str string boxed cow cowned new newed => asstr asref borrow string boxed display; serde;
    Hostname, "hostname": fromstr str string boxed cow cowned new newed => asstr asref borrow string boxed display; serde;
    UlimitResource, "ulimit resource": fromstr str string boxed cow cowned new newed => asstr asref borrow string boxed display; serde;
    user::Name, "group": fromstr str string boxed cow cowned new newed => asstr asref borrow string boxed display; serde;
    build::CacheOption, "map key": fromstr str string boxed cow cowned new newed => asstr asref borrow string boxed display; serde;
    Name, "project name": fromstr str string boxed new newed => asstr asref string boxed display; serde;
    volumes::AbsolutePath, "path": fromstr str string path pathbuf boxpath cowpath cowpathed new newed => aspath asinner intoinner refpath refbuf borrowpath pathbuf boxpath; serde;
    volumes::HostPath, "host path": fromstr str string path pathbuf boxpath cowpath cowpathed new newed => aspath asinner intoinner refpath refbuf borrowpath pathbuf boxpath; serde;
    volumes::Source, "host path": str string fromstr parse parsed => display; bare;
    volumes::ShortVolume, "short volume": fromstr => display; serde;
    ports::ShortPort, "short port": fromstr str => display; serde;
    ports::ShortRanges, "port range": fromstr str => display; bare;
    ports::Range, "port range": fromstr str => display; serde;
    Expose, "exposed port": fromstr str => display; serde;
    CpuSet, "cpu set": fromstr str => display; serde;
    Device, "device": fromstr str => display; serde;
    device::Permissions, "device": fromstr str => display; bare;
    device::CgroupRule, "cgroup rule": fromstr str => display; serde;
    device::Kind, "": fromstr str => display; bare;
    device::MajorMinorNumber, "": fromstr str => display; bare;
    network_config::MacAddress, "mac address": fromstr str => display; serde;
    Platform, "platform": fromstr => display; serde;
    ByteValue, "": fromstr => display; serde;
    Number, "": fromstr str => display; bare;
}

const WORDS: &[&str] = &[
    "host", "none", "vip", "dnsrr", "gpu", "tpu", "tcp", "udp", "a", "b", "c", "*", "0", "7", "65535", "65536", "rwm", "rw", "",
    "service:a", "service:", "container:a", "container:", "shareable", "bridge", "10mb", "3k", "4gb", "12b", "-1", "1.5", "-3", "default",
    "https://example.com/a.git#main:sub", "https://example.com/a.git#:sub", "HTTP://example.com/a.GIT#b", "http://e.com/a.git#b:", "git://e.com/a.git#m",
    "https://example.com/a.tar.gz#m:s", "https://e.com/.git#m", "c:/a", "18446744073709551615", "18446744073709551616", "-9223372036854775808",
    "type=local,dest=a", "type=registry,ref=a", "type=registry,ref=a,mode=max", "a:b", "a:b:c", "0:0", "4294967296", "root:0", "x-a", "x-",
    "-0", "+5", "+0", "-00", "007", "1e3", "-1E-2", "inf", "-inf", "NaN", "nan", "true", "false", "+", "-", "5.", ".5", "1_0", "0x1f", "-9223372036854775809",
];

fn written(cx: &Cx) -> Res {
    let k = cx.pick(TEXTS);
    let pick = |cx: &Cx| {
        if k.kind.is_empty() || cx.chance(1, 4) {
            (*cx.pick(WORDS)).to_owned()
        } else if k.kind == "path" {
            crate::gen::prim::path(cx)
        } else {
            pick_text(cx, k.kind)
        }
    };
    for t in texts(cx, &pick) {
        if mutate::huge(t.as_bytes()) {
            continue;
        }
        cx.note(|| format!("{} from {t:?}", k.name));
        (k.text)(cx, &t)?;
        if k.name == "Number" {
            number_text(cx, &t)?;
        }
    }
    Ok(())
}

/// What a text is as a number: an integer if it is written as one, otherwise what the standard
/// library reads in it; what is not a number stays a string.
fn number_text(cx: &Cx, t: &str) -> Res {
    let digits = t.strip_prefix(['+', '-']).unwrap_or(t);
    let got = guard("Number", || t.parse::<Number>())?.ok();
    let want = if !digits.is_empty() && digits.bytes().all(|b| b.is_ascii_digit()) {
        if t.starts_with('-') {
            t.parse().ok().map(Number::SignedInt)
        } else {
            digits.parse().ok().map(Number::UnsignedInt)
        }
    } else {
        t.parse().ok().map(Number::Float)
    };
    let show = |n: &Option<Number>| format!("{n:?}");
    fact(cx, "number parsed", &t, show(&got), show(&want))?;
    fact(cx, "StringOrNumber::parse", &t, show(&StringOrNumber::parse(t).as_number()), show(&want))?;
    let v = Value::parse(t);
    fact(cx, "Value::parse", &t, show(&v.as_number().copied()), show(&want))?;
    fact(cx, "Value::parse as bool", &t, v.as_bool(), t.parse().ok())
}

// ------------------------------------------------------------------ values

/// Nothing is in it, whatever is said about what counts as nothing.
fn bare(y: &Y) -> bool {
    match y {
        Y::Null => true,
        Y::Sequence(s) => s.iter().all(bare),
        Y::Mapping(m) => m.iter().all(|(k, v)| !k.as_str().is_some_and(|k| k.starts_with("x-")) && bare(v)),
        _ => false,
    }
}

fn fact<T: PartialEq + Debug>(cx: &Cx, what: &str, v: &dyn Debug, got: T, want: T) -> Res {
    ensure!(got == want, "report-differs", "{what} of {v:?} is {got:?}, not {want:?}");
    cx.count("accessor judged");
    cx.nontrivial();
    Ok(())
}

fn empty(cx: &Cx, what: &str, v: &dyn Debug, is: bool, y: &Y) -> Res {
    let none = match y {
        Y::Mapping(m) => m.is_empty(),
        Y::Sequence(s) => s.is_empty(),
        Y::Null => true,
        Y::String(s) => s.is_empty(),
        _ => false,
    };
    if none {
        cx.count("found empty");
        ensure!(is, "emptiness", "{what}::is_empty is false for {v:?}, which is saved as {y:?}");
    } else if !bare(y) {
        ensure!(!is, "emptiness", "{what}::is_empty is true for {v:?}, which is saved as {y:?}");
    } else {
        return Ok(());
    }
    cx.count("emptiness judged");
    cx.nontrivial();
    Ok(())
}

fn number(cx: &Cx, n: Number, y: &Y) -> Res {
    let f = |x: Option<f64>| x.map(f64::to_bits);
    fact(cx, "number of kinds", &n, u8::from(n.is_unsigned_int()) + u8::from(n.is_signed_int()) + u8::from(n.is_float()), 1)?;
    fact(cx, "as_unsigned_int", &n, n.as_unsigned_int(), y.as_u64().filter(|_| n.is_unsigned_int()))?;
    fact(cx, "as_signed_int", &n, n.as_signed_int(), y.as_i64().filter(|_| n.is_signed_int()))?;
    if !y.as_f64().is_some_and(f64::is_nan) {
        fact(cx, "as_float", &n, f(n.as_float()), f(y.as_f64().filter(|_| n.is_float())))?;
    }
    fact(cx, "is_float", &n, n.is_float(), y.is_f64())
}

fn value(cx: &Cx, v: &Value, y: &Y) -> Res {
    fact(cx, "is_string", v, v.is_string(), y.is_string())?;
    fact(cx, "as_string", v, v.as_string().map(String::as_str), y.as_str())?;
    fact(cx, "is_number", v, v.is_number(), y.is_number())?;
    fact(cx, "is_bool", v, v.is_bool(), y.is_bool())?;
    fact(cx, "as_bool", v, v.as_bool(), y.as_bool())?;
    fact(cx, "as_number is some", v, v.as_number().is_some(), y.is_number())?;
    fact(cx, "String::from", v, String::from(v.clone()), v.to_string())?;
    if let Some(s) = y.as_str() {
        fact(cx, "to_string", v, v.to_string(), s.to_owned())?;
        fact(cx, "From<&str>", v, Value::from(s), v.clone())?;
        fact(cx, "From<String>", v, Value::from(s.to_owned()), v.clone())?;
        fact(cx, "From<Box<str>>", v, Value::from(Box::<str>::from(s)), v.clone())?;
        fact(cx, "From<Cow<str>>", v, Value::from(Cow::Borrowed(s)), v.clone())?;
        // parsing a text
        let p = Value::parse(s);
        fact(cx, "parse of a String", v, format!("{:?}", Value::parse(s.to_owned())), format!("{p:?}"))?;
        let plain = s.parse::<bool>().is_err() && s.parse::<f64>().is_err();
        if plain {
            fact(cx, "parse", v, &p, v)?;
        }
        fact(cx, "parse as bool", v, p.as_bool(), s.parse().ok())?;
    }
    if let Some(b) = y.as_bool() {
        fact(cx, "to_string", v, v.to_string(), b.to_string())?;
        fact(cx, "parse", v, Value::parse(if b { "true" } else { "false" }), v.clone())?;
        fact(cx, "bool::try_from", v, bool::try_from(v.clone()).ok(), Some(b))?;
    } else {
        fact(cx, "bool::try_from", v, bool::try_from(v.clone()).ok(), None)?;
    }
    if let Some(n) = v.as_number() {
        number(cx, *n, y)?;
    }
    Ok(())
}

fn string_or_number(cx: &Cx, v: &StringOrNumber, y: &Y) -> Res {
    fact(cx, "is_string", v, v.is_string(), y.is_string())?;
    fact(cx, "as_string", v, v.as_string().map(String::as_str), y.as_str())?;
    fact(cx, "is_number", v, v.is_number(), y.is_number())?;
    fact(cx, "as_number is some", v, v.as_number().is_some(), y.is_number())?;
    fact(cx, "String::from", v, String::from(v.clone()), v.to_string())?;
    if let Some(s) = y.as_str() {
        fact(cx, "to_string", v, v.to_string(), s.to_owned())?;
        fact(cx, "From<&str>", v, StringOrNumber::from(s), v.clone())?;
        fact(cx, "From<String>", v, StringOrNumber::from(s.to_owned()), v.clone())?;
        fact(cx, "From<Box<str>>", v, StringOrNumber::from(Box::<str>::from(s)), v.clone())?;
        fact(cx, "From<Cow<str>>", v, StringOrNumber::from(Cow::Borrowed(s)), v.clone())?;
        if s.parse::<f64>().is_err() {
            fact(cx, "parse", v, StringOrNumber::parse(s), v.clone())?;
        }
        fact(cx, "Number::try_from", v, format!("{:?}", Number::try_from(v.clone())), format!("{:?}", s.parse::<Number>()))?;
    }
    if let Some(n) = v.as_number() {
        number(cx, n, y)?;
        fact(cx, "Number::try_from", v, format!("{:?}", Number::try_from(v.clone())), format!("Ok({n:?})"))?;
    }
    Ok(())
}

fn at<'a>(y: &'a Y, k: &str) -> Option<&'a Y> {
    y.as_mapping().and_then(|m| m.get(k))
}

fn list_or_map(cx: &Cx, v: &ListOrMap, y: &Y) -> Res {
    empty(cx, "ListOrMap", v, v.is_empty(), y)?;
    fact(cx, "as_list is some", v, v.as_list().is_some(), y.is_sequence())?;
    fact(cx, "as_map is some", v, v.as_map().is_some(), y.is_mapping())?;
    if let (Some(m), Some(y)) = (v.as_map(), y.as_mapping()) {
        map(cx, m, y)?;
    }
    Ok(())
}

fn map(cx: &Cx, m: &Map, y: &serde_yaml::Mapping) -> Res {
    for (k, x) in m {
        if let (Some(x), Some(y)) = (x, y.get(k.as_str())) {
            value(cx, x, y)?;
        }
    }
    Ok(())
}

fn item_or_list<T: Serialize + Debug>(cx: &Cx, v: &ItemOrList<T>, y: &Y) -> Res {
    fact(cx, "as_list is some", v, v.as_list().is_some(), y.is_sequence())?;
    let one = if let Some(s) = y.as_sequence() { (s.len() == 1).then(|| &s[0]) } else { Some(y) };
    fact(cx, "as_item", v, v.as_item().and_then(|x| serde_yaml::to_value(x).ok()).as_ref(), one)
}

fn resource<T>(cx: &Cx, v: &Resource<T>, y: &Y, name: Option<&str>) -> Res
where
    Resource<T>: Debug,
{
    let external = at(y, "external").and_then(Y::as_bool) == Some(true);
    fact(cx, "is_external", v, v.is_external(), external)?;
    fact(cx, "is_compose", v, v.is_compose(), !external)?;
    fact(cx, "as_compose is some", v, v.as_compose().is_some(), !external)?;
    fact(cx, "name", v, name, at(y, "name").and_then(Y::as_str))
}

fn compared(cx: &Cx) {
    cx.count("comparison judged");
}

/// Numbers near one
fn near(cx: &Cx, n: u64) -> u64 {
    match cx.draw(5) {
        0 => n.wrapping_add(1),
        1 => n.wrapping_sub(1),
        2 => crate::gen::prim::edge_u64(cx),
        _ => n,
    }
}

fn path_str(p: Option<&Path>) -> Option<&str> {
    p.and_then(Path::to_str)
}

/// What a git URL says after the `#`, read from its text.
fn git(text: &str) -> Option<Option<(&str, Option<&str>)>> {
    let (url, frag) = match text.split_once('#') {
        Some((u, f)) => (u, Some(f)),
        None => (text, None),
    };
    let url = url.split('?').next()?;
    let rest = url.strip_prefix("https://").or_else(|| url.strip_prefix("http://"))?;
    let (_, path) = rest.split_once('/')?;
    let last = path.trim_end_matches('/').rsplit('/').next()?;
    let stem = last.get(..last.len().checked_sub(4)?)?;
    if stem.is_empty() || !last[stem.len()..].eq_ignore_ascii_case(".git") {
        return None;
    }
    Some(frag.map(|f| match f.split_once(':') {
        Some((b, s)) => (b, Some(s)),
        None => (f, None),
    }))
}

fn mount(cx: &Cx, m: &volumes::Mount, y: &Y) -> Res {
    let kind = at(y, "type").and_then(Y::as_str).unwrap_or_default();
    fact(cx, "kind", m, m.kind(), kind)?;
    let is = [m.is_volume(), m.is_bind(), m.is_tmpfs(), m.is_named_pipe(), m.is_cluster()];
    let some = [m.as_volume().is_some(), m.as_bind().is_some(), m.as_tmpfs().is_some(), m.as_named_pipe().is_some(), m.as_cluster().is_some()];
    let want = ["volume", "bind", "tmpfs", "npipe", "cluster"].map(|k| k == kind);
    fact(cx, "is_*", m, is, want)?;
    fact(cx, "as_* is some", m, some, want)?;
    fact(cx, "source_to_string", m, m.source_to_string().as_deref(), at(y, "source").and_then(Y::as_str))?;
    let c = m.common();
    fact(cx, "common().target", m, c.target.as_path().to_str(), at(y, "target").and_then(Y::as_str))?;
    fact(cx, "common().read_only", m, c.read_only, at(y, "read_only").and_then(Y::as_bool).unwrap_or(false))?;
    fact(cx, "common().consistency", m, c.consistency.as_deref(), at(y, "consistency").and_then(Y::as_str))
}

/// Everything a value of a known type reports.
fn known(cx: &Cx, v: &dyn Any, y: &Y) -> Res {
    macro_rules! on {
        ($x:ident: $T:ty => $e:expr) => {
            if let Some($x) = v.downcast_ref::<$T>() {
                return guard(stringify!($T), || $e)?;
            }
        };
    }
    macro_rules! empties {
        ($($T:ty),* $(,)?) => { $(on!(x: $T => empty(cx, stringify!($T), x, x.is_empty(), y));)* };
    }
    empties!(
        Network, network::Ipam, network::IpamConfig, Volume, volumes::mount::VolumeOptions, volumes::mount::TmpfsOptions,
        network_config::Network, deploy::Resources, deploy::resources::Limits, deploy::resources::Reservations, deploy::resources::Device,
        deploy::resources::GenericResource, deploy::resources::DiscreteResourceSpec, Deploy, deploy::Placement, deploy::Preference,
        deploy::RestartPolicy, deploy::UpdateOrRollbackConfig, BlkioConfig, Build, healthcheck::Command, Logging, CpuSet,
    );
    let text = y.as_str();
    on!(x: volumes::mount::BindOptions => empty(cx, "BindOptions", x, x.is_empty(), y));
    on!(x: ListOrMap => list_or_map(cx, x, y));
    on!(x: Map => if let Some(y) = y.as_mapping() { map(cx, x, y) } else { Ok(()) });
    on!(x: IndexMap<MapKey, StringOrNumber> => {
        for (k, x) in x {
            if let Some(y) = at(y, k.as_str()) { string_or_number(cx, x, y)?; }
        }
        Ok(())
    });
    on!(x: IndexMap<MapKey, Option<StringOrNumber>> => {
        for (k, x) in x {
            if let (Some(x), Some(y)) = (x, at(y, k.as_str())) { string_or_number(cx, x, y)?; }
        }
        Ok(())
    });
    on!(x: ItemOrList<std::net::IpAddr> => item_or_list(cx, x, y));
    on!(x: ItemOrList<Hostname> => item_or_list(cx, x, y));
    on!(x: ItemOrList<volumes::AbsolutePath> => item_or_list(cx, x, y));
    on!(x: Resource<Network> => resource(cx, x, y, x.name().map(String::as_str)));
    on!(x: Resource<Volume> => resource(cx, x, y, x.name().map(String::as_str)));
    on!(x: Resource<Config> => resource(cx, x, y, at(y, "name").and_then(Y::as_str)));
    on!(x: Resource<Secret> => resource(cx, x, y, at(y, "name").and_then(Y::as_str)));
    on!(x: network_config::NetworkMode => {
        let t = text.unwrap_or_default();
        let (s, c) = (t.strip_prefix("service:"), t.strip_prefix("container:"));
        let other = s.or(c).is_none() && t != "none" && t != "host";
        fact(cx, "is_none", x, x.is_none(), t == "none")?;
        fact(cx, "is_host", x, x.is_host(), t == "host")?;
        fact(cx, "is_service", x, x.is_service(), s.is_some())?;
        fact(cx, "as_service", x, x.as_service().map(Identifier::as_str), s)?;
        fact(cx, "is_container", x, x.is_container(), c.is_some())?;
        fact(cx, "as_container", x, x.as_container().map(Identifier::as_str), c)?;
        fact(cx, "is_other", x, x.is_other(), other)?;
        fact(cx, "as_other", x, x.as_other().map(String::as_str), other.then_some(t))
    });
    on!(x: Ipc => {
        let t = text.unwrap_or_default();
        let s = t.strip_prefix("service:");
        let other = s.is_none() && t != "shareable";
        fact(cx, "is_shareable", x, x.is_shareable(), t == "shareable")?;
        fact(cx, "is_service", x, x.is_service(), s.is_some())?;
        fact(cx, "as_service", x, x.as_service().map(Identifier::as_str), s)?;
        fact(cx, "is_other", x, x.is_other(), other)?;
        fact(cx, "as_other", x, x.as_other().map(String::as_str), other.then_some(t))
    });
    on!(x: deploy::EndpointMode => {
        fact(cx, "is_vip", x, x.is_vip(), text == Some("vip"))?;
        fact(cx, "is_dnsrr", x, x.is_dnsrr(), text == Some("dnsrr"))
    });
    on!(x: deploy::resources::Capability => {
        fact(cx, "is_gpu", x, x.is_gpu(), text == Some("gpu"))?;
        fact(cx, "is_tpu", x, x.is_tpu(), text == Some("tpu"))
    });
    on!(x: ports::Protocol => {
        fact(cx, "is_tcp", x, x.is_tcp(), text == Some("tcp"))?;
        fact(cx, "is_udp", x, x.is_udp(), text == Some("udp"))
    });
    on!(x: build::Network => {
        fact(cx, "is_none", x, x.is_none(), text == Some("none"))?;
        fact(cx, "into_option", x, x.clone().into_option().map(String::from), text.filter(|t| *t != "none").map(String::from))
    });
    on!(x: build::Cache => cache(cx, x, text.unwrap_or_default()));
    on!(x: build::SshAuth => {
        let id = text.filter(|t| *t != "default").and_then(|t| t.split_once('='));
        fact(cx, "as_id is some", x, x.as_id().is_some(), id.is_some())?;
        fact(cx, "id", x, x.id(), id.map(|x| x.0))?;
        fact(cx, "path", x, path_str(x.path()), id.map(|x| x.1))?;
        fact(cx, "as_id", x, x.as_id().map(|x| (x.id(), path_str(Some(x.path())).unwrap_or_default())), id)
    });
    on!(x: build::Context => context(cx, x, text.unwrap_or_default()));
    on!(x: build::Dockerfile => {
        let (file, inline) = (at(y, "dockerfile").is_some(), at(y, "dockerfile_inline").is_some());
        fact(cx, "kind", x, (matches!(x, build::Dockerfile::File(_)), matches!(x, build::Dockerfile::Inline(_))), (file, inline))
    });
    on!(x: User => {
        let t = scalar(y).unwrap_or_default();
        let (u, g) = match t.split_once(':') { Some((u, g)) => (u, Some(g)), None => (t.as_str(), None) };
        fact(cx, "user", x, x.user.to_string().as_str(), u)?;
        fact(cx, "group", x, x.group.as_ref().map(ToString::to_string).as_deref(), g)
    });
    on!(x: IdOrName => {
        let t = scalar(y).unwrap_or_default();
        let id = t.bytes().all(|b| b.is_ascii_digit()).then(|| t.parse::<u32>().ok()).flatten();
        fact(cx, "is_id", x, x.is_id(), id.is_some())?;
        fact(cx, "as_id", x, x.as_id(), id)?;
        fact(cx, "is_name", x, x.is_name(), id.is_none())?;
        fact(cx, "as_name", x, x.as_name().map(user::Name::as_str), id.is_none().then_some(t.as_str()))
    });
    on!(x: Link => {
        let t = text.unwrap_or_default();
        let (s, a) = match t.split_once(':') { Some((s, a)) => (s, Some(a)), None => (t, None) };
        fact(cx, "service", x, x.service.as_str(), s)?;
        fact(cx, "alias", x, x.alias.as_deref(), a)
    });
    on!(x: VolumesFrom => {
        let t = text.unwrap_or_default();
        let ro = t.ends_with(":ro");
        let rest = t.strip_suffix(":ro").or_else(|| t.strip_suffix(":rw")).unwrap_or(t);
        fact(cx, "read_only", x, x.read_only, ro)?;
        fact(cx, "source", x, x.source.to_string().as_str(), rest)?;
        fact(cx, "String::from(source)", x, String::from(x.source.clone()).as_str(), rest)?;
        fact(cx, "container", x, matches!(x.source, VolumesFromSource::Container(_)), rest.starts_with("container:"))
    });
    on!(x: ExtensionKey => fact(cx, "strip_prefix", x, Some(x.strip_prefix()), text.and_then(|t| t.strip_prefix("x-"))));
    on!(x: EnvFile => {
        let one = match y {
            Y::Sequence(s) if s.len() == 1 => match &s[0] {
                Y::String(s) => Some(s.as_str()),
                m => at(m, "path").and_then(Y::as_str).filter(|_| at(m, "required").and_then(Y::as_bool) != Some(false)),
            },
            y => y.as_str(),
        };
        fact(cx, "as_single", x, path_str(x.as_single().map(PathBuf::as_path)), one)?;
        let want = match y { Y::Sequence(s) => s.clone(), y => vec![y.clone()] };
        fact(cx, "into_list", x, serde_yaml::to_value(x.clone().into_list()).ok(), Some(Y::Sequence(want)))
    });
    on!(x: env_file::Config => {
        let short = at(y, "required").and_then(Y::as_bool) != Some(false);
        use compose_spec::AsShort;
        fact(cx, "as_short", x, path_str(x.as_short().map(PathBuf::as_path)), at(y, "path").and_then(Y::as_str).filter(|_| short))
    });
    on!(x: ByteValue => {
        let t = text.unwrap_or_default();
        let digits = t.trim_end_matches(|c: char| c.is_ascii_alphabetic());
        let unit = &t[digits.len()..];
        let by: u64 = match unit { "b" => 1, "kb" => 1_000, "mb" => 1_000_000, "gb" => 1_000_000_000, _ => 0 };
        fact(cx, "unit", x, x.unit(), unit)?;
        fact(cx, "into_bytes", x, x.into_bytes(), digits.parse::<u64>().ok().and_then(|n| n.checked_mul(by)))
    });
    on!(x: Percent => {
        let n = y.as_u64().unwrap_or(u64::MAX);
        fact(cx, "into_inner", x, u64::from(x.into_inner()), n)?;
        fact(cx, "u8::from", x, u64::from(u8::from(*x)), n)?;
        let m = near(cx, n) as u8;
        compared(cx);
        fact(cx, "== u8", x, *x == m, n == u64::from(m))
    });
    on!(x: blkio_config::Weight => {
        let n = y.as_u64().unwrap_or(u64::MAX);
        fact(cx, "into_inner", x, u64::from(x.into_inner().get()), n)?;
        fact(cx, "u16::from", x, u64::from(u16::from(*x)), n)?;
        fact(cx, "NonZeroU16::from", x, u64::from(std::num::NonZeroU16::from(*x).get()), n)?;
        let m = near(cx, n) as u16;
        compared(cx);
        fact(cx, "== u16", x, *x == m, n == u64::from(m))?;
        match std::num::NonZeroU16::new(m) {
            Some(m) => fact(cx, "== NonZeroU16", x, *x == m, n == u64::from(m.get())),
            None => Ok(()),
        }
    });
    on!(x: OomScoreAdj => {
        let n = y.as_i64().unwrap_or(i64::MAX);
        fact(cx, "i16::from", x, i64::from(i16::from(*x)), n)?;
        let m = match cx.draw(4) { 0 => n as i16, 1 => -(n as i16), _ => near(cx, n as u64) as i16 };
        compared(cx);
        fact(cx, "== i16", x, *x == m, n == i64::from(m))
    });
    on!(x: Cpus => {
        let n = y.as_f64().unwrap_or(f64::NAN);
        fact(cx, "into_inner", x, x.into_inner(), n)?;
        fact(cx, "f64::from", x, f64::from(*x), n)?;
        let m = match cx.draw(4) { 0 => f64::NAN, 1 => n + 1.0, 2 => n / 2.0, _ => n };
        compared(cx);
        fact(cx, "== f64", x, *x == m, n == m)?;
        fact(cx, "partial_cmp", x, x.partial_cmp(&m), n.partial_cmp(&m))
    });
    on!(x: deploy::resources::Count => {
        let n = y.as_u64();
        compared(cx);
        fact(cx, "is all", x, matches!(x, deploy::resources::Count::All), n.is_none())?;
        let m = near(cx, n.unwrap_or(0));
        fact(cx, "== u64", x, *x == m, n == Some(m))
    });
    on!(x: ports::Range => {
        let t = scalar(y).unwrap_or_default();
        let (a, b) = match t.split_once('-') { Some((a, b)) => (a.parse().ok(), b.parse::<u16>().ok()), None => (t.parse::<u16>().ok(), None) };
        fact(cx, "start", x, Some(x.start()), a)?;
        fact(cx, "end", x, x.end(), b)?;
        let (lo, hi) = (a.unwrap_or(0), b.or(a).unwrap_or(0));
        let m = near(cx, u64::from(lo)) as u16;
        compared(cx);
        fact(cx, "== u16", x, *x == m, b.is_none() && lo == m)?;
        let k = near(cx, u64::from(hi)) as u16;
        fact(cx, "== RangeInclusive", x, *x == (m..=k), (m, k) == (lo, hi))
    });
    on!(x: ports::ShortPort => {
        let t = scalar(y).unwrap_or_default();
        let (body, proto) = match t.split_once('/') { Some((b, p)) => (b, Some(p)), None => (t.as_str(), None) };
        fact(cx, "protocol", x, x.protocol.as_ref().map(ports::Protocol::as_str), proto)?;
        let want = body.rsplit(':').next().unwrap_or_default();
        fact(cx, "container", x, x.ranges.container().to_string().as_str(), want)?;
        let host = body.rsplit(':').nth(1).filter(|h| !h.is_empty() && !h.ends_with(']'));
        fact(cx, "host", x, x.ranges.host().map(|r| r.to_string()).as_deref(), host)
    });
    on!(x: Device => {
        let t = text.unwrap_or_default();
        let p = t.rsplit(':').next().filter(|_| t.matches(':').count() > 1).unwrap_or_default();
        if x.host_path.as_path().to_string_lossy().contains(':') || x.container_path.as_path().to_string_lossy().contains(':') { return Ok(()) }
        permissions(cx, x.permissions, p)
    });
    on!(x: device::CgroupRule => {
        let t = text.unwrap_or_default();
        let mut i = t.split([' ', ':']);
        let kind = i.next().unwrap_or_default();
        fact(cx, "as_char", x, x.kind.as_char().to_string().as_str(), kind)?;
        fact(cx, "char::from", x, char::from(x.kind).to_string().as_str(), kind)?;
        fact(cx, "Kind::try_from(char)", x, device::Kind::try_from(x.kind.as_char()).ok(), Some(x.kind))?;
        for (n, t) in [(x.major, i.next()), (x.minor, i.next())] {
            let t = t.unwrap_or_default();
            fact(cx, "number", x, n.to_string().as_str(), t)?;
            let m = near(cx, t.parse().unwrap_or(0)) as u16;
            compared(cx);
            fact(cx, "== u16", x, n == m, t == m.to_string())?;
        }
        permissions(cx, x.permissions, i.next().unwrap_or_default())
    });
    on!(x: network_config::MacAddress => {
        let want: Vec<u8> = text.unwrap_or_default().split(':').filter_map(|h| u8::from_str_radix(h, 16).ok()).collect();
        fact(cx, "as_ref", x, AsRef::<[u8]>::as_ref(x), want.as_slice())?;
        let b: [u8; 6] = (*x).into();
        fact(cx, "bytes", x, b.as_slice(), want.as_slice())?;
        fact(cx, "From<[u8; 6]>", x, network_config::MacAddress::from(b), *x)
    });
    on!(x: volumes::Mount => mount(cx, x, y));
    on!(x: ShortOrLong<ports::ShortPort, ports::Port> => short_or_long(cx, x, y));
    on!(x: ShortOrLong<volumes::ShortVolume, volumes::Mount> => short_or_long(cx, x, y));
    on!(x: ShortOrLong<build::Context, Build> => short_or_long(cx, x, y));
    on!(x: ShortOrLong<Identifier, ConfigOrSecret> => short_or_long(cx, x, y));
    on!(x: DependsOn => short_or_long(cx, x, y));
    on!(x: network_config::Networks => short_or_long(cx, x, y));
    on!(x: ShortOrLong<Limit<u64>, Ulimit> => short_or_long(cx, x, y));
    on!(x: Service => service(cx, x, y));
    on!(x: IndexSet<deploy::resources::Capability> => {
        let gpu = y.as_sequence().is_some_and(|s| s.iter().any(|y| y.as_str() == Some("gpu")));
        fact(cx, "a gpu", x, x.iter().any(deploy::resources::Capability::is_gpu), gpu)
    });
    Ok(())
}

fn service(cx: &Cx, s: &Service, y: &Y) -> Res {
    if let Some(x) = &s.image {
        image_parts(cx, x, at(y, "image").and_then(Y::as_str).unwrap_or_default())?;
    }
    let t = |k: &str| at(y, k).and_then(Y::as_str);
    macro_rules! strs {
        ($($f:ident $k:literal;)*) => { $(
            if let Some(x) = &s.$f {
                fact(cx, "as_str", x, Some(x.as_str()), t($k))?;
                fact(cx, "as_ref", x, Some(AsRef::<str>::as_ref(x)), t($k))?;
                fact(cx, "to_string", x, Some(x.to_string().as_str()), t($k))?;
            }
        )* };
    }
    strs! { cgroup "cgroup"; uts "uts"; pull_policy "pull_policy"; restart "restart"; }
    Ok(())
}

/// The parts of an image, read from its text.
fn image_parts(cx: &Cx, x: &Image, t: &str) -> Res {
    let (rest, digest) = match t.split_once('@') {
        Some((r, d)) => (r, Some(d)),
        None => (t, None),
    };
    let slash = rest.rfind('/').map_or(0, |i| i + 1);
    let (name, tag) = match rest[slash..].find(':').map(|i| i + slash).filter(|_| digest.is_none()) {
        Some(i) => (&rest[..i], Some(&rest[i + 1..])),
        None => (rest, None),
    };
    fact(cx, "name", x, x.name(), name)?;
    fact(cx, "tag", x, x.tag(), tag)?;
    fact(cx, "digest", x, x.digest(), digest)?;
    fact(cx, "as_name", x, x.as_name().into_inner(), name)?;
    fact(cx, "as_tag", x, x.as_tag().map(image::Tag::into_inner), tag)?;
    fact(cx, "as_digest", x, x.as_digest().map(image::Digest::into_inner), digest)?;
    fact(cx, "as_tag_or_digest is some", x, x.as_tag_or_digest().is_some(), tag.or(digest).is_some())?;
    fact(cx, "registries", x, x.registry(), x.as_name().registry())?;
    compared(cx);
    fact(cx, "== str", x, *x == *t && *x == t, true)?;
    fact(cx, "into_inner", x, x.clone().into_inner().as_str(), t)
}

fn short_or_long<S: Debug, L: Debug>(cx: &Cx, x: &ShortOrLong<S, L>, y: &Y) -> Res {
    fact(cx, "is_long", x, x.is_long(), y.is_mapping())?;
    fact(cx, "is_short", x, x.is_short(), !y.is_mapping())?;
    fact(cx, "as_long is some", x, x.as_long().is_some(), y.is_mapping())
}

fn permissions(cx: &Cx, x: device::Permissions, t: &str) -> Res {
    fact(cx, "any", &x, x.any(), !t.is_empty())?;
    fact(cx, "permissions", &x, (x.read, x.write, x.mknod), (t.contains('r'), t.contains('w'), t.contains('m')))?;
    fact(cx, "== all()", &x, x == device::Permissions::all(), t.len() == 3)
}

fn context(cx: &Cx, x: &build::Context, t: &str) -> Res {
    fact(cx, "as_path or as_url", x, x.as_path().is_some(), x.as_url().is_none())?;
    fact(cx, "as_path", x, x.as_path().and_then(|p| p.to_str()), x.as_path().map(|_| t))?;
    fact(cx, "as_url", x, x.as_url().map(|u| u.as_str()), x.as_url().map(|_| t))?;
    fact(cx, "into_string", x, x.clone().into_string().ok().as_deref(), Some(t))?;
    let g = git(t).filter(|_| x.as_url().is_some());
    fact(cx, "is_git_repo_url", x, x.is_git_repo_url(), g.is_some())?;
    fact(cx, "branch_or_tag", x, x.branch_or_tag(), g.flatten().map(|x| x.0))?;
    fact(cx, "subdirectory", x, x.subdirectory(), g.flatten().and_then(|x| x.1))
}

fn cache(cx: &Cx, x: &build::Cache, t: &str) -> Res {
    let kind = if t.starts_with("type=") { t["type=".len()..].split(',').next().unwrap_or_default() } else { "registry" };
    let c = &x.cache_type;
    fact(cx, "is_registry", x, c.is_registry(), kind == "registry")?;
    fact(cx, "is_other", x, c.is_other(), kind != "registry")?;
    fact(cx, "as_other", x, c.as_other().map(build::CacheOption::as_str), (kind != "registry").then_some(kind))?;
    let short = kind == "registry" && x.options.is_empty();
    let options: Vec<(String, String)> = x.clone().into_options().into_iter().map(|(k, v)| (k.into(), v.into())).collect();
    if let Some(i) = c.as_registry() {
        fact(cx, "into_options", x, options.get(1).map(|x| x.1.as_str()), Some(i.as_str()))?;
        if short {
            fact(cx, "from_image", x, build::Cache::from_image(i.clone()), x.clone())?;
        }
    }
    if t.starts_with("type=") {
        let mut want: Vec<(String, String)> = Vec::new();
        for o in t.split(',') {
            let (k, v) = o.split_once('=').unwrap_or((o, ""));
            if !want.iter().any(|w| w.0 == k) {
                want.push((k.to_owned(), v.to_owned()));
            }
        }
        if want.len() == t.split(',').count() {
            fact(cx, "into_options", x, options, want)?;
        }
    }
    Ok(())
}

struct Facts<'a> {
    cx: &'a Cx,
}

impl Facts<'_> {
    fn judge(&self, v: &dyn Any, y: &Y) -> Res {
        for t in TEXTS {
            if (t.part)(self.cx, v, y)? {
                break;
            }
        }
        known(self.cx, v, y)
    }
}

fn saved<T: Serialize>(name: &str, v: &T) -> Res<Y> {
    match guard(name, || serde_yaml::to_value(v).map_err(|e| e.to_string()))? {
        Ok(v) => Ok(v),
        Err(e) => viol("save", format!("{name} cannot be saved alone: {e}")),
    }
}

impl Sink for Facts<'_> {
    fn part<T: Serialize + DeserializeOwned + PartialEq + Debug + 'static>(&mut self, name: &str, v: &T, at: &At<'_>, _: How) -> Res {
        let cx = self.cx;
        cx.note(|| format!("part {name} at {}", at.text()));
        let y = saved(name, v)?;
        self.judge(v, &y)?;
        // with less in it
        if let Y::Mapping(m) = &y {
            let mut m = m.clone();
            let keep = cx.n(3);
            while m.len() > keep {
                let k = m.keys().nth(cx.n(m.len())).cloned();
                if let Some(k) = k {
                    m.shift_remove(&k);
                }
            }
            if let Ok(v) = guard(name, || T::deserialize(Y::Mapping(m)))? {
                cx.count("part thinned");
                let y = saved(name, &v)?;
                self.judge(&v, &y)?;
            }
        }
        Ok(())
    }
    fn saved_only<T: Serialize + 'static>(&mut self, name: &str, v: &T) -> Res {
        let y = saved(name, v)?;
        self.judge(v, &y)
    }
}

fn document(cx: &Cx) -> Res {
    let d = if cx.chance(1, 3) { small_doc(cx) } else { doc(cx) };
    let c = match guard("loading", || Compose::options().from_yaml_reader(SimReader::new(cx, d.text.clone(), End::Eof)).map_err(|e| e.to_string()))? {
        Ok(c) => c,
        Err(e) => return viol("rejected", format!("valid document rejected: {e}\n{}", clip(&d.text))),
    };
    let mut s = Session::new(c, d.p.c);
    let mut disk = Disk::default();
    for _ in 0..=cx.n(3) {
        comp::some(cx, &s.c, 24, &mut Facts { cx })?;
        match cx.draw(3) {
            0 => {
                let f = disk.create("compose.yaml");
                let mut w = SimWriter::new(cx, 0, Fault::None);
                let out = w.out.clone();
                if guard("saving", || serde_yaml::to_writer(&mut w, &s.c))?.is_err() {
                    continue;
                }
                disk.append(f, &out.as_ref().borrow());
                disk.fsync(f);
                disk.sync_dir();
                disk.crash(cx);
                let Some(b) = disk.read("compose.yaml") else { return viol("lost-file", "the acknowledged file is gone") };
                let text = String::from_utf8_lossy(&b).into_owned();
                s.c = match guard("loading", || Compose::options().from_yaml_reader(SimReader::new(cx, b, End::Eof)).map_err(|e| e.to_string()))? {
                    Ok(c) => c,
                    Err(e) => return viol("reload", format!("saved document rejected: {e}\n{}", clip(&text))),
                };
                cx.count("document reloaded");
            }
            _ => s.edit(cx)?,
        }
    }
    Ok(())
}

fn run(cx: &Cx) -> Res {
    match cx.draw(6) {
        0..=2 => document(cx),
        3 | 4 => {
            for _ in 0..8 {
                written(cx)?;
            }
            Ok(())
        }
        _ => {
            cx.nontrivial();
            for _ in 0..6 {
                guard("making a value", || made::some(cx, &|v, y| Facts { cx }.judge(v, y)))??;
            }
            Ok(())
        }
    }
}
