//! Values assembled from drawn parts through the constructors and conversions of the library, against
//! the way those parts are written in a document.

use crate::core::{guard, viol, Cx, Res};
use crate::ensure;
use crate::gen::{prim, svc};
use crate::y::{diff, int, s, Y};
use compose_spec::service::{
    blkio_config::Weight,
    build::{Cache, CacheOption, CacheType, Context, SshAuth, SshAuthId},
    deploy::{self, resources::Cpus},
    develop,
    device::{CgroupRule, Device, Kind, MajorMinorNumber, Permissions},
    env_file::{self, EnvFile},
    healthcheck::{self, Healthcheck, Test},
    image::{Digest, Image, Name as ImageName, Tag, TagOrDigest},
    network_config::{self, MacAddress, NetworkConfig, NetworkMode},
    ports::{self, Port, Protocol, Range, ShortPort, ShortRanges},
    user::{IdOrName, Name as UserName, User},
    volumes::{mount, AbsolutePath, HostPath, Mount, SELinux, ShortOptions, ShortVolume, Source},
    ByteValue, Cgroup, Command, Condition, ConfigOrSecret, CpuSet, Expose, Hostname, Limit, Link, OomScoreAdj, Percent, PullPolicy, Restart, Ulimit, Uts, VolumesFrom,
    VolumesFromSource,
};
use compose_spec::{
    config, secret, AsShort, AsShortIter, Config, Identifier, Include, ItemOrList, Network, Number, Resource, Secret, ShortOrLong,
    StringOrNumber, Value, Volume,
};
use indexmap::{IndexMap, IndexSet};
use serde::{de::DeserializeOwned, Serialize};
use std::any::Any;
use std::borrow::Cow;
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::num::NonZeroU16;
use std::path::{Path, PathBuf};

/// Told of every value which was made and how it is saved.
pub type Judge<'a> = &'a dyn Fn(&dyn Any, &serde_yaml::Value) -> Res;

struct M<'a> {
    cx: &'a Cx,
    judge: Judge<'a>,
}

fn ok<T, E: std::fmt::Display>(what: &str, r: Result<T, E>) -> Res<T> {
    match r {
        Ok(v) => Ok(v),
        Err(e) => viol("part-rejected", format!("{what} is valid but refused: {e}")),
    }
}

impl M<'_> {
    /// All of the ways give the same value, which is saved as `y` and loaded from it.
    fn is<T: Serialize + DeserializeOwned + PartialEq + Debug + 'static>(&self, what: &str, made: Vec<T>, y: &Y) -> Res {
        let Some(first) = made.first() else { return Ok(()) };
        for (i, v) in made.iter().enumerate() {
            ensure!(v == first, "made-differ", "{what}: {v:?} made in way {i}, {first:?} in the first");
        }
        self.cx.count("value made of parts");
        let mut h = std::hash::DefaultHasher::new();
        format!("{first:?}").hash(&mut h);
        self.cx.ev("made", h.finish(), made.len() as u64);
        let got = match guard(what, || serde_yaml::to_value(first).map_err(|e| e.to_string()))? {
            Ok(v) => v,
            Err(e) => return viol("save", format!("{what} {first:?} cannot be saved: {e}")),
        };
        if let Some(d) = diff(&got, y, "") {
            return viol("made-saved", format!("{what} {first:?} is not saved as its parts are: {d}"));
        }
        match guard(what, || T::deserialize(y.to_value()).map_err(|e| e.to_string()))? {
            Ok(v) => ensure!(v == *first, "made-loaded", "{what} {first:?} is loaded from the same parts as {v:?}"),
            Err(e) => return viol("made-loaded", format!("{what} {first:?}: the same parts are refused: {e}")),
        }
        (self.judge)(first, &got)
    }
    fn id(&self) -> Res<(String, Identifier)> {
        let x = prim::ident(self.cx);
        let i = ok(&x, Identifier::new(x.as_str()))?;
        Ok((x, i))
    }
    fn abs(&self) -> Res<(String, AbsolutePath)> {
        let x = prim::abs_path(self.cx);
        let i = ok(&x, AbsolutePath::new(x.as_str()))?;
        Ok((x, i))
    }
}

/// A few, or a crowd.
fn many(cx: &Cx, few: usize) -> usize {
    if cx.chance(1, 24) {
        few + cx.n(90)
    } else {
        cx.n(few)
    }
}

fn map(v: Vec<(&str, Y)>) -> Y {
    Y::Map(v.into_iter().map(|(k, v)| (s(k), v)).collect())
}

fn strings(m: &M) -> Res {
    let cx = m.cx;
    let t = prim::text(cx);
    let p = prim::path(cx);
    let y = s(&t);
    let boxed: Box<str> = t.as_str().into();
    match cx.draw(8) {
        0 => m.is(
            "Value of a string",
            vec![Value::from(t.clone()), t.as_str().into(), boxed.into(), Cow::Borrowed(t.as_str()).into(), Cow::<str>::Owned(t.clone()).into()],
            &y,
        ),
        1 => m.is(
            "StringOrNumber of a string",
            vec![StringOrNumber::from(t.clone()), t.as_str().into(), boxed.into(), Cow::Borrowed(t.as_str()).into(), Cow::<str>::Owned(t.clone()).into()],
            &y,
        ),
        2 => {
            let list: Vec<String> = (0..many(cx, 4)).map(|_| prim::text(cx)).collect();
            m.is("Command of a string", vec![Command::from(t.clone()), Command::String(t)], &y)?;
            m.is("Command of a list", vec![Command::from(list.clone()), Command::List(list.clone())], &Y::Seq(list.iter().map(s).collect()))
        }
        3 => {
            let list: Vec<String> = (0..many(cx, 4)).map(|_| prim::text(cx)).collect();
            if t != "NONE" {
                ensure!(Test::from(t.clone()) == Test::ShellCommand(t.clone()), "made-differ", "test of {t:?}");
                let c = healthcheck::Command { test: Some(Test::from(t)), ..Default::default() };
                m.is("Healthcheck of a command", vec![Healthcheck::from(c.clone()), Healthcheck::Command(c)], &map(vec![("test", y)]))?;
            }
            let want = Y::Seq(std::iter::once(s("CMD")).chain(list.iter().map(s)).collect());
            ensure!(Test::from(list.clone()) == Test::Command(list.clone()), "made-differ", "test of {list:?}");
            let c = healthcheck::Command { test: Some(list.into()), ..Default::default() };
            m.is("Healthcheck of a command", vec![Healthcheck::from(c.clone()), Healthcheck::Command(c)], &map(vec![("test", want)]))
        }
        4 => {
            let b = PathBuf::from(&p);
            m.is("EnvFile of a path", vec![EnvFile::from(b.clone()), p.clone().into(), EnvFile::Single(b.clone())], &s(&p))?;
            m.is("long env_file", vec![env_file::Config::from(b.clone()), p.clone().into()], &map(vec![("path", s(&p))]))?;
            m.is(
                "an env_file in a list",
                vec![ShortOrLong::<PathBuf, env_file::Config>::from(b.clone()), p.clone().into(), ShortOrLong::Short(b.clone())],
                &s(&p),
            )?;
            let l = env_file::Config { path: b.clone(), required: false };
            let long = map(vec![("path", s(&p)), ("required", Y::Bool(false))]);
            m.is("an env_file in a list", vec![ShortOrLong::<PathBuf, env_file::Config>::from(l.clone()), ShortOrLong::Long(l.clone())], &long)?;
            let list: Vec<ShortOrLong<PathBuf, env_file::Config>> = vec![b.clone().into(), l.into()];
            m.is("EnvFile of a list", vec![EnvFile::from(list.clone()), list.into_iter().collect()], &Y::Seq(vec![s(&p), long]))?;
            m.is("EnvFile of paths", vec![[p.clone()].into_iter().collect::<EnvFile>(), [b].into_iter().collect()], &Y::Seq(vec![s(&p)]))
        }
        5 => {
            let b = PathBuf::from(&p);
            // a path which looks like a URL is read as one
            if p.contains(':') {
                return Ok(());
            }
            let u = *cx.pick(&["https://example.com/a.git#main:sub", "git://e.com/r.git", "docker-image://a"]);
            m.is(
                "Context of a path",
                vec![
                    Context::from(b.clone()),
                    Path::new(&p).into(),
                    Cow::Borrowed(Path::new(&p)).into(),
                    Cow::<Path>::Owned(b).into(),
                    p.as_str().into(),
                    p.clone().into(),
                    Box::<str>::from(p.as_str()).into(),
                    Cow::Borrowed(p.as_str()).into(),
                    Cow::<str>::Owned(p.clone()).into(),
                ],
                &s(&p),
            )?;
            let Context::Url(url) = Context::from(u) else { return viol("made-differ", format!("{u} is no URL")) };
            m.is("Context of a URL", vec![Context::from(url.clone()), Context::Url(url), u.into(), u.to_owned().into()], &s(u))
        }
        6 => {
            let b = PathBuf::from(&p);
            m.is("Include of a path", vec![Include::from(b.clone())], &map(vec![("path", s(&p))]))?;
            m.is("short Include", vec![ShortOrLong::<PathBuf, Include>::from(b.clone()), p.clone().into()], &s(&p))?;
            m.is("config of a file", vec![Config::from(config::Source::from(b.clone())), config::Source::File(b.clone()).into()], &map(vec![("file", s(&p))]))?;
            m.is("secret of a file", vec![Secret::from(secret::Source::from(b.clone())), secret::Source::File(b).into()], &map(vec![("file", s(&p))]))?;
            m.is("config of its contents", vec![Config::from(config::Source::Content(t.clone()))], &map(vec![("content", y.clone())]))?;
            let c = Config::from(config::Source::Environment(t.clone()));
            m.is("resource of a config", vec![Resource::from(c.clone()), Resource::Compose(c)], &map(vec![("environment", y.clone())]))?;
            let c = Secret::from(secret::Source::Environment(t));
            m.is("resource of a secret", vec![Resource::from(c.clone()), Resource::Compose(c)], &map(vec![("environment", y)]))
        }
        _ => {
            let n = Network { name: Some(t.clone()), ..Network::default() };
            m.is("resource of a network", vec![Resource::from(n.clone()), Resource::Compose(n)], &map(vec![("name", y.clone())]))?;
            let n = Volume { name: Some(t.clone()), ..Volume::default() };
            m.is("resource of a volume", vec![Resource::from(n.clone()), Resource::Compose(n)], &map(vec![("name", y.clone())]))?;
            let ext = map(vec![("external", Y::Bool(true)), ("name", y)]);
            m.is("external network", vec![Resource::<Network>::external(Some(t.clone())), Resource::External { name: Some(t) }], &ext)?;
            m.is("external volume", vec![Resource::<Volume>::external(None), Resource::External { name: None }], &map(vec![("external", Y::Bool(true))]))
        }
    }
}

/// A number taken out as any type that holds it exactly, whatever it was wrapped in; refused by those
/// that cannot hold it.
fn taken(cx: &Cx) -> Res {
    let (n, int): (Number, Option<i128>) = match cx.draw(4) {
        0 => {
            let n = prim::edge_u64(cx);
            (n.into(), Some(n.into()))
        }
        1 => {
            let n = prim::edge_i64(cx);
            (n.into(), Some(n.into()))
        }
        2 => {
            let n = (*cx.pick(&[0u64, 1 << 16, 1 << 31, 1 << 32, 1 << 53, 1 << 63])).wrapping_add(cx.draw(3)).wrapping_sub(1);
            if cx.coin() {
                (n.into(), Some(n.into()))
            } else {
                let n = (n as i64).wrapping_neg();
                (n.into(), Some(n.into()))
            }
        }
        _ => (prim::float(cx).into(), None),
    };
    let text = n.to_string();
    let wrapped = Value::from(n);
    let other = StringOrNumber::from(n);
    let nan = matches!(n, Number::Float(f) if f.is_nan());
    let eq = |a: &Number| *a == n || nan;
    ensure!(Number::try_from(wrapped.clone()).is_ok_and(|a| eq(&a)), "number-taken", "Number of {wrapped:?}");
    ensure!(Number::try_from(other.clone()).is_ok_and(|a| eq(&a)), "number-taken", "Number of {other:?}");
    ensure!(String::from(wrapped.clone()) == text && String::from(other.clone()) == text, "number-taken", "text of {n:?} is {text}");
    let from_text = Number::try_from(Value::from(text.clone())).map_err(|e| e.to_string());
    ensure!(from_text == text.parse::<Number>().map_err(|e| e.to_string()) || nan, "number-taken", "{text:?} as a value is the number {from_text:?}");
    macro_rules! whole {
        ($T:ty) => {{
            let want = int.and_then(|i| <$T>::try_from(i).ok());
            let got = [<$T>::try_from(n).ok(), <$T>::try_from(wrapped.clone()).ok()];
            ensure!(got == [want; 2], "number-taken", "{n:?} as {} is {got:?}", stringify!($T));
        }};
    }
    whole!(u64);
    whole!(i64);
    for got in [f64::try_from(n).ok(), f64::try_from(wrapped.clone()).ok()] {
        match (n, int, got) {
            (Number::Float(f), _, Some(g)) => ensure!(f.to_bits() == g.to_bits(), "number-taken", "{n:?} as f64 is {g}"),
            (_, Some(i), Some(g)) => ensure!(g as i128 == i && i as f64 == g, "number-taken", "{n:?} as f64 is {g}"),
            (_, Some(i), None) if i > i128::from(u32::MAX) || i < i128::from(i32::MIN) => (),
            // kept as it was given, and as such within range for one of the two only
            (Number::SignedInt(i), _, None) if i > i64::from(i32::MAX) => (),
            _ => return viol("number-taken", format!("{n:?} as f64 is {got:?}")),
        }
    }
    ensure!(bool::try_from(wrapped.clone()).is_err(), "number-taken", "{wrapped:?} is a bool");
    let b = cx.coin();
    let v = Value::from(b);
    ensure!(bool::try_from(v.clone()) == Ok(b) && u64::try_from(v.clone()) == Ok(u64::from(b)) && i64::try_from(v.clone()) == Ok(i64::from(b)), "number-taken", "{v:?}");
    ensure!(f64::try_from(v.clone()) == Ok(f64::from(u8::from(b))) && String::from(v.clone()) == b.to_string(), "number-taken", "{v:?}");
    Ok(())
}

fn numbers(m: &M) -> Res {
    let cx = m.cx;
    if cx.chance(1, 4) {
        return guard("taking a number out", || taken(cx))?;
    }
    match cx.draw(9) {
        0 => {
            let n = prim::edge_u64(cx);
            let y = int(n);
            m.is("Number", vec![Number::from(n), Number::UnsignedInt(n)], &y)?;
            m.is("Value of a number", vec![Value::from(n), Number::from(n).into()], &y)?;
            m.is("StringOrNumber of a number", vec![StringOrNumber::from(n), Number::from(n).into()], &y)?;
            m.is("Limit", vec![Limit::from(n), Limit::Value(n)], &y)?;
            m.is("long Ulimit", vec![Ulimit::from(n), Limit::from(n).into()], &map(vec![("soft", y.clone()), ("hard", y.clone())]))?;
            m.is(
                "Ulimit",
                vec![ShortOrLong::<Limit<u64>, Ulimit>::from(n), Limit::Value(n).into(), ShortOrLong::Short(Limit::Value(n))],
                &y,
            )?;
            m.is("device count", vec![deploy::resources::Count::from(n), deploy::resources::Count::Integer(n)], &y)
        }
        1 => {
            let n = prim::edge_i64(cx);
            if n >= 0 {
                return Ok(());
            }
            let y = int(n);
            m.is("Number", vec![Number::from(n), Number::SignedInt(n)], &y)?;
            m.is("Value of a number", vec![Value::from(n), Number::from(n).into()], &y)?;
            m.is("StringOrNumber of a number", vec![StringOrNumber::from(n), Number::from(n).into()], &y)
        }
        2 => {
            let n = prim::float(cx);
            let y = Y::Float(n);
            m.is("Number", vec![Number::from(n), Number::Float(n)], &y)?;
            m.is("Value of a number", vec![Value::from(n), Number::from(n).into()], &y)?;
            m.is("StringOrNumber of a number", vec![StringOrNumber::from(n), Number::from(n).into()], &y)?;
            if n.is_sign_positive() && n.is_finite() {
                let c = ok("cpus", Cpus::new(n))?;
                m.is("Cpus", vec![c, ok("cpus", Cpus::try_from(n))?], &y)?;
                ensure!(f64::from(c).to_bits() == n.to_bits() && c == n, "made-differ", "cpus {c:?} of {n}");
            } else {
                ensure!(Cpus::try_from(n).is_err() && Cpus::new(n).is_err(), "made-differ", "cpus of {n} are accepted");
            }
            Ok(())
        }
        3 => {
            let b = cx.coin();
            m.is("Value of a flag", vec![Value::from(b), Value::Bool(b)], &Y::Bool(b))
        }
        4 => {
            let n = cx.draw(256) as u8;
            let y = Y::Float(f64::from(n));
            let (c16, c32) = (u16::from(n), u32::from(n));
            let mut v = vec![Cpus::from(n), c16.into(), c32.into(), ok("cpus", Cpus::new(f64::from(n)))?, ok("cpus", Cpus::try_from(f32::from(n)))?];
            v.push(ok("cpus", Cpus::try_from(i16::from(n)))?);
            v.push(ok("cpus", Cpus::try_from(i32::from(n)))?);
            m.is("Cpus", v, &y)?;
            let p = ok("percent", Percent::new(n.min(100)))?;
            m.is("Percent", vec![p, ok("percent", Percent::try_from(n.min(100)))?], &int(n.min(100)))?;
            ensure!(Percent::try_from(n).is_ok() == (n <= 100) && u8::from(p) == n.min(100) && p.into_inner() == n.min(100), "made-differ", "{p:?} of {n}");
            Ok(())
        }
        5 => {
            let big = cx.draw(1 << 32) as u32;
            m.is("Cpus", vec![Cpus::from(big)], &Y::Float(f64::from(big)))?;
            let mid = (big >> 16) as u16;
            m.is("Cpus", vec![Cpus::from(mid)], &Y::Float(f64::from(mid)))?;
            m.is("Limit", vec![Limit::from(big), Limit::Value(big)], &int(big))
        }
        6 => {
            let n = if cx.coin() { cx.draw(1 << 16) as u16 } else { *cx.pick(&[0, 9, 10, 11, 500, 999, 1000, 1001, 10_000]) };
            let valid = (10..=1000).contains(&n);
            let got = [Weight::new(n).ok(), Weight::try_from(n).ok(), NonZeroU16::new(n).and_then(|n| Weight::new(n).ok()), NonZeroU16::new(n).and_then(|n| n.try_into().ok())];
            ensure!(got.iter().all(|x| x.is_some() == valid), "made-differ", "weight of {n}: {got:?}");
            for w in got.into_iter().flatten() {
                ensure!(
                    u16::from(w) == n && NonZeroU16::from(w).get() == n && w.into_inner().get() == n && w == n && w.to_string() == n.to_string(),
                    "made-differ",
                    "weight {w:?} of {n}"
                );
                m.is("Weight", vec![w], &int(n))?;
            }
            m.is("Weight", vec![Weight::default(), Weight::DEFAULT], &int(500))
        }
        7 => {
            let n = if cx.coin() { cx.draw(1 << 16) as u16 as i16 } else { *cx.pick(&[-1001, -1000, -999, -1, 0, 999, 1000, 1001]) };
            let got = [OomScoreAdj::new(n).ok(), OomScoreAdj::try_from(n).ok()];
            ensure!(got.iter().all(|x| x.is_some() == (-1000..=1000).contains(&n)), "made-differ", "oom_score_adj of {n}: {got:?}");
            for w in got.into_iter().flatten() {
                ensure!(i16::from(w) == n && w == n, "made-differ", "oom_score_adj {w:?} of {n}");
                m.is("OomScoreAdj", vec![w], &int(n))?;
            }
            Ok(())
        }
        _ => {
            let set: BTreeSet<u64> = (0..many(cx, 6)).map(|_| prim::edge_u64(cx)).collect();
            let c = CpuSet::from(set.clone());
            ensure!(BTreeSet::from(c.clone()) == set && c.0 == set, "made-differ", "{c:?} of {set:?}");
            m.is("CpuSet", vec![c, CpuSet(set.clone())], &s(crate::scal::cpu_text(&set)))?;
            m.is("ByteValue", vec![Limit::from(ByteValue::default())], &s("0b"))
        }
    }
}

fn ports(m: &M) -> Res {
    let cx = m.cx;
    let a = svc::port_num(cx) as u16;
    let b = (u32::from(a) + cx.n(40) as u32).min(65_535) as u16;
    let one = int(a);
    let text = if a == b { a.to_string() } else { format!("{a}-{b}") };
    let two = if a == b { one.clone() } else { s(&text) };
    let r = ok(&text, Range::new(a, (a != b).then_some(b)))?;
    match cx.draw(5) {
        0 => {
            m.is("Range of a port", vec![Range::from(a), ok("range", Range::new(a, None))?], &one)?;
            let mut v = vec![r, ok(&text, Range::try_from((a, b)))?, ok(&text, Range::try_from(a..=b))?, ok(&text, text.parse())?];
            v.push(ok(&text, Range::try_from((a, (a != b).then_some(b))))?);
            m.is("Range", v, &two)?;
            if a != b {
                ensure!(
                    Range::new(b, Some(a)).is_err() && Range::try_from((b, a)).is_err() && Range::try_from(b..=a).is_err() && Range::try_from((b, Some(a))).is_err(),
                    "made-differ",
                    "the range {b}-{a} is accepted"
                );
            }
            Ok(())
        }
        1 => {
            let p = Port::from(a);
            m.is("long port", vec![p.clone(), Port::new(a)], &map(vec![("target", one.clone())]))?;
            m.is("ports", vec![ShortOrLong::<ShortPort, Port>::from(p.clone()), ShortOrLong::Long(p)], &map(vec![("target", one)]))
        }
        2 => {
            let mut v = vec![ShortPort::from(a), ShortRanges::from(a).into(), Range::from(a).into(), ShortPort::new(ShortRanges::from(Range::from(a)))];
            v.push(ShortPort { host_ip: None, ranges: ok("range", ShortRanges::new(None, a.into()))?, protocol: None });
            m.is("short port", v, &one)?;
            m.is("ports", vec![ShortOrLong::<ShortPort, Port>::from(ShortPort::from(r)), ShortOrLong::Short(r.into())], &two)?;
            m.is("short ranges", vec![ShortRanges::from(a), Range::from(a).into(), ok("range", ShortRanges::new(None, a.into()))?], &one)?;
            m.is("short ranges", vec![ShortRanges::from(r)], &two)
        }
        3 => {
            let shift = cx.draw(u64::from(65_535 - b) + 1) as u16;
            let host = ok("range", Range::new(a + shift, (a != b).then_some(b + shift)))?;
            let t = if a == b { format!("{}:{a}", a + shift) } else { format!("{}-{}:{text}", a + shift, b + shift) };
            let x = ok(&t, ShortRanges::new(Some(host), r))?;
            m.is("short ranges", vec![x, ok(&t, t.parse())?, ok(&t, ShortRanges::try_from(t.as_str()))?], &s(&t))?;
            m.is("short port", vec![ShortPort::new(x), x.into()], &s(&t))
        }
        _ => {
            m.is("exposed port", vec![Expose::from(a), Range::from(a).into()], &one)?;
            m.is("exposed ports", vec![Expose::from(r), Expose { range: r, protocol: None }], &two)?;
            let p = svc::proto(cx);
            let e = Expose { range: r, protocol: Some(Protocol::from(p.as_str())) };
            m.is("exposed ports", vec![e], &s(format!("{text}/{p}")))
        }
    }
}

fn mounts(m: &M) -> Res {
    let cx = m.cx;
    let (t, target) = m.abs()?;
    let common = mount::Common::new(target.clone());
    m.is("common mount options", vec![common.clone(), target.clone().into()], &map(vec![("target", s(&t))]))?;
    let h = svc::host_path(cx);
    let host = ok(&h, HostPath::new(h.as_str()))?;
    let long = |ty: &str, rest: Vec<(&str, Y)>| map(std::iter::once(("type", s(ty))).chain(rest).chain([("target", s(&t))]).collect());
    match cx.draw(8) {
        0 => {
            let v = mount::Volume::from(common.clone());
            m.is("volume mount", vec![Mount::from(v.clone()), Mount::Volume(mount::Volume::new(common)), Mount::Volume(v)], &long("volume", vec![]))
        }
        1 => {
            let b = mount::Bind::from((host.clone(), common.clone()));
            let y = long("bind", vec![("source", s(&h))]);
            m.is("bind mount", vec![Mount::from(b.clone()), mount::Bind::new(host, common).into(), Mount::Bind(b.clone())], &y)?;
            m.is("volumes", vec![ShortOrLong::<ShortVolume, Mount>::from(Mount::from(b.clone())), ShortOrLong::Long(Mount::Bind(b))], &y)
        }
        2 => {
            let v = vec![
                Mount::from(mount::Tmpfs::from(common.clone())),
                mount::Tmpfs::new(common.clone()).into(),
                mount::Tmpfs::from_target(target.clone()).into(),
                mount::Tmpfs::from(target).into(),
                Mount::Tmpfs(mount::Tmpfs { tmpfs: None, common }),
            ];
            m.is("tmpfs mount", v, &long("tmpfs", vec![]))
        }
        3 => {
            let v = mount::NamedPipe::from((host.clone(), common.clone()));
            m.is("named pipe mount", vec![Mount::from(v), Mount::NamedPipe(mount::NamedPipe { source: host, common })], &long("npipe", vec![("source", s(&h))]))
        }
        4 => {
            let x = prim::text(cx);
            let v = mount::Cluster::from((x.clone(), common.clone()));
            m.is("cluster mount", vec![Mount::from(v), Mount::Cluster(mount::Cluster { source: x.clone(), common })], &long("cluster", vec![("source", s(&x))]))
        }
        5 => {
            let z = if cx.coin() { SELinux::Shared } else { SELinux::Private };
            let c = if z == SELinux::Shared { "z" } else { "Z" };
            ensure!(
                z.as_str() == c && z.as_char().to_string() == c && char::from(z).to_string() == c && AsRef::<str>::as_ref(&z) == c && z.to_string() == c,
                "made-differ",
                "{z:?} is {c}"
            );
            let mut o = mount::BindOptions::default();
            o.selinux = Some(z);
            m.is("bind options", vec![mount::BindOptions::from(z), Some(z).into(), o.clone()], &map(vec![("selinux", s(c))]))?;
            o.selinux = None;
            m.is("bind options", vec![mount::BindOptions::from(None::<SELinux>), None::<mount::BindPropagation>.into(), o.clone()], &map(vec![]))?;
            use mount::BindPropagation::{Private, RPrivate, RShared, RSlave, RUnbindable, Shared, Slave, Unbindable};
            let (p, t) = *cx.pick(&[
                (Private, "private"),
                (RPrivate, "rprivate"),
                (Shared, "shared"),
                (RShared, "rshared"),
                (Unbindable, "unbindable"),
                (RUnbindable, "runbindable"),
                (Slave, "slave"),
                (RSlave, "rslave"),
            ]);
            o.propagation = Some(p);
            m.is("bind options", vec![mount::BindOptions::from(p), Some(p).into(), o], &map(vec![("propagation", s(t))]))?;
            ensure!(p.as_str() == t && AsRef::<str>::as_ref(&p) == t && p.to_string() == t, "made-differ", "{p:?} is {t}");
            Ok(())
        }
        6 => {
            if t.contains(':') {
                return Ok(());
            }
            let v = ShortVolume::from(target.clone());
            m.is("short volume", vec![v.clone(), ShortVolume::new(target.clone()), ShortVolume { container_path: target, options: None }], &s(&t))?;
            m.is("volumes", vec![ShortOrLong::<ShortVolume, Mount>::from(v.clone()), ShortOrLong::Short(v.clone())], &s(&t))?;
            let l = Mount::from(v.clone());
            m.is("long volume", vec![l.clone(), v.into_long(), Mount::from(ShortOrLong::<ShortVolume, Mount>::Long(l))], &long("volume", vec![]))
        }
        _ => {
            if t.contains(':') || h.contains(':') {
                return Ok(());
            }
            let (i, id) = m.id()?;
            let short = |x: Source| ShortVolume { container_path: target.clone(), options: Some(x.into()) };
            let new = |x: Source| ShortVolume { container_path: target.clone(), options: Some(ShortOptions::new(x)) };
            m.is("short volume of a name", vec![short(id.clone().into()), new(Source::Volume(id))], &s(format!("{i}:{t}")))?;
            let src = [
                Source::from(host.clone()),
                Source::HostPath(host),
                ok(&h, Source::try_from(PathBuf::from(&h)))?,
                ok(&h, Source::try_from(Path::new(&h)))?,
                ok(&h, Source::try_from(Box::<Path>::from(Path::new(&h))))?,
                ok(&h, Source::try_from(Cow::Borrowed(Path::new(&h))))?,
                ok(&h, Source::try_from(Cow::<Path>::Owned(PathBuf::from(&h))))?,
                ok(&h, Source::try_from(h.as_str()))?,
                ok(&h, Source::try_from(h.clone()))?,
            ];
            m.is("short volume of a path", src.into_iter().map(short).collect(), &s(format!("{h}:{t}")))?;
            let (a, abs) = m.abs()?;
            if a.contains(':') {
                return Ok(());
            }
            let src = [Source::from(abs.clone()), HostPath::from(abs.clone()).into(), Source::HostPath(ok(&a, HostPath::new(a.as_str()))?)];
            ensure!(HostPath::from(abs.clone()) == ok(&a, HostPath::new(a.as_str()))?, "made-differ", "host path of {a:?}");
            m.is("short volume of an absolute path", src.into_iter().map(new).collect(), &s(format!("{a}:{t}")))
        }
    }
}

fn users(m: &M) -> Res {
    let cx = m.cx;
    let part = || -> Res<(String, IdOrName, Option<u32>, Option<UserName>)> {
        let t = svc::user_part(cx);
        Ok(match t.parse::<u32>() {
            Ok(n) => (t, IdOrName::from(n), Some(n), None),
            Err(_) => {
                let n = ok(&t, UserName::new(t.as_str()))?;
                (t, IdOrName::from(n.clone()), None, Some(n))
            }
        })
    };
    let (a, x, xi, xn) = part()?;
    let (b, y, yi, yn) = part()?;
    // alone, a number is written as one
    let alone = xi.map_or_else(|| s(&a), |n| int(n));
    m.is("group", vec![x.clone(), xi.map_or_else(|| x.clone(), IdOrName::Id), xn.clone().map_or_else(|| x.clone(), IdOrName::Name)], &alone)?;
    let mut v = vec![User::from(x.clone()), User { user: x.clone(), group: None }, ok(&a, User::parse(a.as_str()))?];
    v.extend(xi.map(User::from));
    v.extend(xn.clone().map(User::from));
    m.is("user", v, &s(&a))?;
    let t = format!("{a}:{b}");
    let mut v = vec![User::from((x.clone(), y.clone())), User { user: x, group: Some(y) }, ok(&t, User::parse(t.as_str()))?];
    v.extend(xi.zip(yi).map(User::from));
    v.extend(xn.clone().zip(yn.clone()).map(User::from));
    v.extend(xi.zip(yn).map(User::from));
    v.extend(xn.zip(yi).map(User::from));
    m.is("user", v, &s(t))
}

fn images(m: &M) -> Res {
    let cx = m.cx;
    let mut n = svc::image_name(cx);
    if cx.coin() {
        n = format!("{}/{n}", svc::registry(cx));
    }
    let name = ok(&n, ImageName::new(&n))?;
    ensure!(ok(&n, ImageName::try_from(n.as_str()))? == name, "made-differ", "name {n:?}");
    let (tag, digest) = (svc::tag(cx), svc::digest(cx));
    let t = ok(&tag, Tag::new(&tag))?;
    let d = ok(&digest, Digest::new(&digest))?;
    ensure!(ok(&tag, Tag::try_from(tag.as_str()))? == t, "made-differ", "tag {tag:?}");
    ensure!(ok(&digest, Digest::try_from(digest.as_str()))? == d, "made-differ", "digest {digest:?}");
    let (text, td) = match cx.draw(3) {
        0 => (n.clone(), None),
        1 => (format!("{n}:{tag}"), Some(TagOrDigest::from(t))),
        _ => (format!("{n}@{digest}"), Some(TagOrDigest::from(d))),
    };
    let mut v = vec![Image::from_parts(name, td), Image::from((name, td)), ok(&text, Image::parse(text.as_str()))?];
    match td {
        Some(td) => v.push((name, td).into()),
        None => v.push(name.into()),
    }
    let image = v[0].clone();
    ensure!(<(ImageName, Option<TagOrDigest>)>::from(&image) == (name, td), "made-differ", "the parts of {image}");
    if let Some(td) = td {
        ensure!(
            td.into_tag() == td.into_digest().is_none().then_some(t) && td.into_digest() == td.into_tag().is_none().then_some(d) && td.as_ref() == &text[n.len() + 1..],
            "made-differ",
            "{td:?} of {text}"
        );
    }
    m.is("image", v, &s(&text))?;
    // as a cache
    let c = vec![Cache::from(image.clone()), Cache::from_image(image.clone()), CacheType::from(image.clone()).into(), CacheType::Registry(image.clone()).into()];
    m.is("cache of an image", c, &s(&text))?;
    let opt = || -> Res<(String, CacheOption)> {
        let x = prim::chars(cx, if cx.chance(1, 40) { b"ab,=" } else { b"abZ0._:/-" }, 1, 5);
        let o = ok(&x, CacheOption::new(x.as_str()))?;
        Ok((x, o))
    };
    let mut cache = Cache::from(image.clone());
    let mut want = format!("type=registry,ref={text}");
    let (kind, ck) = opt()?;
    let other = cx.coin() && kind != "registry";
    if other {
        cache = CacheType::Other(ck).into();
        want = format!("type={kind}");
    }
    let mut odd = other && kind.contains(',');
    for _ in 0..=many(cx, 3) {
        let ((k, ko), (v, vo)) = (opt()?, opt()?);
        if cache.options.contains_key(&ko) || (!other && k == "ref") {
            continue;
        }
        odd |= k.contains([',', '=']) || v.contains(',');
        want = format!("{want},{k}={v}");
        cache.options.insert(ko, vo);
    }
    if cache.options.is_empty() {
        return Ok(());
    }
    if odd {
        // the constructor lets the separators of the written form through
        let r = m.is("cache", vec![cache.clone()], &s(&want));
        return match r {
            Err(e) if e.class == "made-loaded" => viol("cache-option-separator", format!("{cache:?} is saved as {want:?}, which is something else")),
            r => r,
        };
    }
    m.is("cache", vec![cache.clone(), ok(&want, Cache::parse(want.as_str()))?], &s(&want))?;
    ensure!(CacheOption::from(image.clone()).as_str() == text, "made-differ", "cache option of {image}");
    Ok(())
}

fn devices(m: &M) -> Res {
    let cx = m.cx;
    let n = cx.draw(65_536) as u16;
    ensure!(MajorMinorNumber::from(n) == MajorMinorNumber::Integer(n) && MajorMinorNumber::from(n) == n, "made-differ", "device number {n}");
    let (k, kt) = *cx.pick(&[(Kind::All, 'a'), (Kind::Char, 'c'), (Kind::Block, 'b')]);
    ensure!(k.as_char() == kt && char::from(k) == kt && Kind::try_from(kt) == Ok(k) && kt.to_string().parse() == Ok(k), "made-differ", "{k:?} is {kt}");
    let odd = *cx.pick(&['A', 'B', 'C', 'd', '\0', 'é', ' ', 'p']);
    ensure!(Kind::try_from(odd).is_err() && Kind::try_from(odd.to_string().as_str()).is_err(), "made-differ", "device kind {odd:?}");
    ensure!(
        Kind::try_from(odd).map_err(|e| e.to_string()) == Kind::try_from(odd.to_string().as_str()).map_err(|e| e.to_string()),
        "made-differ",
        "the reason against device kind {odd:?}"
    );
    let mut perms = Permissions { read: true, write: cx.coin(), mknod: cx.coin() };
    let mut pt = String::from("r");
    pt.push_str(if perms.write { "w" } else { "" });
    pt.push_str(if perms.mknod { "m" } else { "" });
    if cx.chance(1, 4) {
        perms = Permissions { read: false, write: true, mknod: false };
        pt = "w".into();
    }
    let minor = cx.coin();
    let rule = CgroupRule { kind: k, major: n.into(), minor: if minor { n.into() } else { MajorMinorNumber::All }, permissions: perms };
    m.is("device cgroup rule", vec![rule], &s(format!("{kt} {n}:{} {pt}", if minor { n.to_string() } else { "*".into() })))?;
    let (t, target) = m.abs()?;
    let h = prim::path(cx);
    if t.contains(':') || h.contains(':') || h.is_empty() {
        return Ok(());
    }
    let d = Device { host_path: PathBuf::from(&h), container_path: target, permissions: perms };
    // all of the permissions are the default
    let all = perms.read && perms.write && perms.mknod;
    let long = s(format!("{h}:{t}:{pt}"));
    let got = guard("device", || serde_yaml::to_value(&d).ok())?;
    let short = s(format!("{h}:{t}"));
    let y = if all && got.as_ref().is_some_and(|g| diff(g, &short, "").is_none()) { short } else { long };
    m.is("device", vec![d], &y)?;
    let caps: Vec<String> = (0..cx.n(3)).map(|_| (*cx.pick(&["gpu", "tpu", "utility", "compute"])).to_owned()).collect();
    let mut uniq: Vec<String> = vec![];
    for c in &caps {
        if !uniq.contains(c) {
            uniq.push(c.clone());
        }
    }
    let mut d = deploy::resources::Device::new(caps.iter().map(String::as_str));
    let mut y = map(vec![("capabilities", Y::Seq(uniq.iter().map(s).collect()))]);
    m.is("deploy device", vec![d.clone(), deploy::resources::Device::new(caps)], &y)?;
    match cx.draw(5) {
        0 => {
            d.driver = Some("x".into());
            y.set("driver", s("x"));
        }
        1 => {
            d.count = Some(deploy::resources::Count::All);
            y.set("count", s("all"));
        }
        2 => {
            d.device_ids.insert("7".into());
            y.set("device_ids", Y::Seq(vec![s("7")]));
        }
        3 => {
            d.options = compose_spec::ListOrMap::List(IndexSet::from(["o".to_owned()]));
            y.set("options", Y::Seq(vec![s("o")]));
        }
        _ => {
            d.extensions.insert(ok("x-e", "x-e".parse())?, serde_yaml::Value::Null);
            y.set("x-e", Y::Null);
        }
    }
    m.is("deploy device", vec![d], &y)
}

fn names(m: &M) -> Res {
    let cx = m.cx;
    let (t, id) = m.id()?;
    match cx.draw(6) {
        0 => m.is("link", vec![Link::from(id.clone()), Link { service: id.clone(), alias: None }, ok(&t, Link::parse(t.as_str()))?], &s(&t)),
        1 => {
            let src = if cx.coin() { VolumesFromSource::Service(id.clone()) } else { VolumesFromSource::Container(id.clone()) };
            let pre = if matches!(src, VolumesFromSource::Service(_)) { "" } else { "container:" };
            m.is("volumes_from source", vec![src.clone(), ok(&t, VolumesFromSource::parse(format!("{pre}{t}")))?], &s(format!("{pre}{t}")))?;
            let v = VolumesFrom::from(src.clone());
            // the name of a container may not be taken for the suffix
            let w = if pre.is_empty() || (t != "ro" && t != "rw") { format!("{pre}{t}") } else { format!("{pre}{t}:rw") };
            m.is("volumes_from", vec![v, VolumesFrom { source: src, read_only: false }], &s(w))
        }
        2 => {
            let c = ConfigOrSecret::from(id.clone());
            m.is("long config", vec![c.clone()], &map(vec![("source", s(&t))]))?;
            m.is("config", vec![ShortOrLong::<Identifier, ConfigOrSecret>::from(id.clone()), ShortOrLong::Short(id.clone())], &s(&t))?;
            m.is("config", vec![ShortOrLong::<Identifier, ConfigOrSecret>::from(c.clone()), ShortOrLong::Long(c.clone())], &map(vec![("source", s(&t))]))?;
            let x = ShortOrLong::<Identifier, ConfigOrSecret>::Short(id.clone());
            ensure!(ConfigOrSecret::from(x.clone()) == c && x.clone().into_long() == c, "made-differ", "long form of {t}");
            ensure!(AsShort::as_short(&c) == Some(&id), "made-differ", "short form of {c:?}");
            let mut l = c;
            l.uid = Some(3);
            ensure!(AsShort::as_short(&l).is_none(), "made-differ", "short form of {l:?}");
            ensure!(ConfigOrSecret::from(ShortOrLong::<Identifier, ConfigOrSecret>::Long(l.clone())) == l, "made-differ", "long form of {l:?}");
            Ok(())
        }
        3 => {
            let mut ids: IndexSet<Identifier> = [id.clone(), m.id()?.1].into_iter().collect();
            for i in 0..many(cx, 2) {
                let t = format!("{}{i}", prim::ident(cx));
                ids.insert(ok(&t, Identifier::new(t.as_str()))?);
            }
            let long: IndexMap<Identifier, Option<network_config::Network>> = ids.iter().map(|i| (i.clone(), None)).collect();
            let short = ShortOrLong::from(ids.clone());
            let y = Y::Seq(ids.iter().map(|i| s(i.as_str())).collect());
            let ly = Y::Map(ids.iter().map(|i| (s(i.as_str()), Y::Null)).collect());
            m.is("short networks", vec![NetworkConfigAlone(short.clone()).0, ShortOrLong::Short(ids.clone())], &y)?;
            m.is("long networks", vec![network_config::Networks::from(long.clone()), ShortOrLong::Long(long.clone())], &ly)?;
            ensure!(IndexMap::from(short.clone()) == long && short.clone().into_long() == long, "made-differ", "long form of {ids:?}");
            let back: Option<Vec<&Identifier>> = AsShortIter::as_short_iter(&long).map(Iterator::collect);
            ensure!(back == Some(ids.iter().collect()), "made-differ", "short form of {long:?}");
            ensure!(NetworkConfig::from(short.clone()) == NetworkConfig::Networks(short), "made-differ", "network config of {ids:?}");
            let mode = NetworkMode::Service(id);
            ensure!(NetworkConfig::from(mode.clone()) == NetworkConfig::NetworkMode(mode), "made-differ", "network config of a mode");
            Ok(())
        }
        4 => {
            let bytes: [u8; 6] = std::array::from_fn(|_| cx.draw(256) as u8);
            let text = bytes.iter().map(|b| format!("{b:02x}")).collect::<Vec<_>>().join(":");
            let a = MacAddress::from(bytes);
            ensure!(<[u8; 6]>::from(a) == bytes && AsRef::<[u8]>::as_ref(&a) == bytes, "made-differ", "bytes of {a:?}");
            let got = guard("MAC address", || serde_yaml::to_value(a).ok())?;
            let got = got.as_ref().and_then(|v| v.as_str()).unwrap_or_default().to_lowercase().replace('-', ":");
            ensure!(got == text, "made-saved", "{a:?} is saved as {got}");
            ensure!(text.parse() == Ok(a), "made-loaded", "{text} is not {a:?}");
            Ok(())
        }
        _ => {
            let h = prim::hostname(cx);
            let host = ok(&h, Hostname::new(h.as_str()))?;
            let list: IndexSet<Hostname> = [host.clone()].into_iter().collect();
            m.is("an item", vec![ItemOrList::from(host.clone()), ItemOrList::Item(host)], &s(&h))?;
            let l = ItemOrList::from(list.clone());
            ensure!(IndexSet::from(l.clone()) == list, "made-differ", "list of {h}");
            m.is("a list", vec![l, ItemOrList::List(list)], &Y::Seq(vec![s(&h)]))?;
            let id = prim::chars(cx, if cx.chance(1, 40) { b"a=" } else { b"ab-0" }, 1, 4);
            let p = prim::path(cx);
            if p.is_empty() {
                return Ok(());
            }
            let v = SshAuth::Id(ok(&id, SshAuthId::new(&id, &p))?);
            let w = format!("{id}={p}");
            let r = m.is("ssh authentication", vec![v.clone()], &s(&w));
            match r {
                // the constructor lets the separator of the written form through
                Err(e) if e.class == "made-loaded" && id.contains('=') => viol("ssh-id-equals", format!("{v:?} is saved as {w:?}, which is something else")),
                r => r,
            }
        }
    }
}

/// Choices between words: every way a choice gives its word, and the word as it is saved.
fn words(m: &M) -> Res {
    macro_rules! words {
        ($($T:ty: $($V:ident $t:literal),*;)*) => {{
            let all: &[fn(&M) -> Res] = &[$($(|m| {
                let v = <$T>::$V;
                let what = stringify!($T);
                let got = guard(what, || [v.as_str().to_owned(), AsRef::<str>::as_ref(&v).to_owned(), v.to_string()])?;
                for g in got {
                    ensure!(g == $t, "made-differ", "{what} {v:?} says it is {g:?}, want {:?}", $t);
                }
                m.is(what, vec![v], &s($t))
            }),*),*];
            m.cx.pick(all)(m)
        }};
    }
    words! {
        Cgroup: Host "host", Private "private";
        Condition: ServiceStarted "service_started", ServiceHealthy "service_healthy", ServiceCompletedSuccessfully "service_completed_successfully";
        Uts: Host "host";
        PullPolicy: Always "always", Never "never", Missing "missing", Build "build";
        Restart: No "no", Always "always", OnFailure "on-failure", UnlessStopped "unless-stopped";
        develop::Action: Rebuild "rebuild", Sync "sync", SyncAndRestart "sync+restart";
        ports::Mode: Host "host", Ingress "ingress";
        deploy::Mode: Global "global", Replicated "replicated";
        deploy::RestartCondition: None "none", OnFailure "on-failure", Any "any";
        deploy::FailureAction: Continue "continue", Pause "pause";
        deploy::Order: StopFirst "stop-first", StartFirst "start-first";
        mount::BindPropagation: Private "private", Shared "shared", Slave "slave", Unbindable "unbindable", RPrivate "rprivate", RShared "rshared", RSlave "rslave", RUnbindable "runbindable";
    }
}

/// Gives the conversion its type.
struct NetworkConfigAlone(network_config::Networks);

pub fn some(cx: &Cx, judge: Judge<'_>) -> Res {
    let m = M { cx, judge };
    let f: fn(&M) -> Res = *cx.pick(&[strings as fn(&M) -> Res, numbers, ports, mounts, users, images, devices, names, words]);
    f(&m)
}
