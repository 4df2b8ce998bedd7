use super::Prop;
use crate::core::{guard, on_thread, viol, Cx, Res};
use crate::ensure;
use crate::util::*;
use crate::y::{emit, int, s, Style, Y};
use compose_spec::service::network_config::{Network as ServiceNetwork, NetworkConfig, NetworkMode};
use compose_spec::service::volumes::mount::{self, Mount};
use compose_spec::service::volumes::{AbsolutePath, ShortOptions, ShortVolume, Source};
use compose_spec::service::{ConfigOrSecret, Service};
use compose_spec::{Compose, Config, Identifier, Resource, Secret, ShortOrLong};
use std::path::PathBuf;

pub const PROP: Prop = Prop {
    id: "C08",
    run,
    quick_runs: 70000,
    apart: false,
    rule: "Each run loads a document whose services refer to networks, volumes, configs and secrets drawn from a small pool (all short and long forms, with decoys: host paths, bind/tmpfs/npipe/cluster mounts of the same names, network modes, null and external definitions), and drives it through a drawn history of edits through the public API (add, remove, rename, move, sort and duplicate services, references and definitions, form changes). After every edit all five validations run, repeatedly, in the editing process and in a new process with other hash seeds, and must give the verdict and message of a reference validator over the model; the document must not change. Non-trivial: at least one validation failed and one succeeded in the run.",
    real: "Compose::validate_*, the typed document model, loading, indexmap, std HashMap with seeded hashers",
    stub: "processes (fresh threads), the OS entropy source behind hash seeds",
    probes: &[
        "edit",
        "undefined network",
        "undefined volume",
        "undefined config",
        "undefined secret",
        "all valid",
        "volume used twice by one service only",
        "new process",
    ],
    assume: &["the reference validator follows the documentation of the validate_* functions"],
};

const POOL: &[&str] = &["data", "a", "b", "x.y", "Data", "null", "default", "a-b"];
const NAMES: &[&str] = &["web", "db", "a", "zeta", "Web", "data", "1"];

#[derive(Clone, Debug)]
struct Svc {
    name: String,
    /// None: no `networks`
    nets: Option<Vec<String>>,
    vols: Vec<String>,
    cfgs: Vec<String>,
    secs: Vec<String>,
}

#[derive(Clone, Debug, Default)]
struct Model {
    svcs: Vec<Svc>,
    top: [Vec<String>; 4],
}

const KINDS: [&str; 4] = ["network", "volume", "config", "secret"];

impl Model {
    fn check(&self, kind: usize) -> String {
        let def = |x: &String| self.top[kind].contains(x);
        let k = KINDS[kind];
        if kind == 1 {
            let mut uses: Vec<(&String, &String)> = Vec::new();
            for sv in &self.svcs {
                for v in &sv.vols {
                    if !def(v) && uses.iter().any(|(o, x)| *x == v && **o != sv.name) {
                        return format!("volume `{v}` is used across multiple services and is not defined in the top-level `volumes` field");
                    }
                    uses.push((&sv.name, v));
                }
            }
            return "ok".into();
        }
        for sv in &self.svcs {
            let refs: &[String] = match kind {
                0 => sv.nets.as_deref().unwrap_or(&[]),
                2 => &sv.cfgs,
                _ => &sv.secs,
            };
            if let Some(r) = refs.iter().find(|r| !def(r)) {
                return format!("{k} `{r}` (used in the `{}` service) is not defined in the top-level `{k}s` field", sv.name);
            }
        }
        "ok".into()
    }
    fn refs(&self, kind: usize) -> impl Iterator<Item = (usize, &String)> {
        self.svcs.iter().enumerate().flat_map(move |(i, sv)| {
            let refs: &[String] = match kind {
                0 => sv.nets.as_deref().unwrap_or(&[]),
                1 => &sv.vols,
                2 => &sv.cfgs,
                _ => &sv.secs,
            };
            refs.iter().map(move |x| (i, x))
        })
    }
    /// The resource of which the first use (for volumes: by another service) comes last.
    fn last(&self, kind: usize) -> Option<String> {
        let mut seen: Vec<(usize, &String)> = Vec::new();
        let mut last: Vec<&String> = Vec::new();
        for (i, x) in self.refs(kind) {
            let shared = kind != 1 || seen.iter().any(|(j, y)| *y == x && *j != i);
            if shared && !last.contains(&x) {
                last.push(x);
            }
            seen.push((i, x));
        }
        last.pop().cloned()
    }
    fn all(&self) -> Vec<String> {
        let mut v: Vec<String> = (0..4).map(|k| self.check(k)).collect();
        let first = v.iter().find(|x| *x != "ok").cloned().unwrap_or_else(|| "ok".into());
        v.push(first);
        v
    }
}

fn verdicts(c: &Compose, rev: bool) -> Vec<String> {
    let show = |r: Result<(), compose_spec::ValidationError>| r.map_or_else(|e| e.to_string(), |()| "ok".into());
    let mut fs: [(usize, fn(&Compose) -> Result<(), compose_spec::ValidationError>); 5] = [
        (0, Compose::validate_networks),
        (1, Compose::validate_volumes),
        (2, Compose::validate_configs),
        (3, Compose::validate_secrets),
        (4, Compose::validate_all),
    ];
    if rev {
        fs.reverse();
    }
    let mut out = vec![String::new(); 5];
    for (i, f) in fs {
        out[i] = show(f(c));
    }
    out
}

/// Many more names, in runs with a crowd.
#[rustfmt::skip]
const MANY: &[&str] = &["r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15", "r16", "r17", "r18", "r19", "r20", "r21", "r22", "r23", "r24", "r25", "r26", "r27", "r28", "r29", "r30", "r31", "r32", "r33", "r34", "r35", "r36", "r37", "r38", "r39", "r40", "r41", "r42", "r43", "r44", "r45", "r46", "r47"];
#[rustfmt::skip]
const MANY_NAMES: &[&str] = &["s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "s12", "s13", "s14", "s15", "s16", "s17", "s18", "s19", "s20", "s21", "s22", "s23", "s24", "s25", "s26", "s27", "s28", "s29", "s30", "s31", "s32", "s33", "s34", "s35", "s36", "s37", "s38", "s39"];

fn pool(cx: &Cx) -> &'static [&'static str] {
    if cx.big() {
        MANY
    } else {
        POOL
    }
}

fn svc_names(cx: &Cx) -> &'static [&'static str] {
    if cx.big() {
        MANY_NAMES
    } else {
        NAMES
    }
}

/// How many of something a service has.
fn some(cx: &Cx, n: usize) -> usize {
    if cx.big() && cx.chance(1, 8) {
        cx.n(40)
    } else {
        cx.n(n)
    }
}

fn check(cx: &Cx, c: &Compose, m: &Model) -> Res {
    let want = m.all();
    cx.note(|| format!("verdicts {want:?}"));
    let before = save(c)?;
    for i in 0..=cx.n(2) {
        let got = guard("validating", || verdicts(c, i % 2 == 1))?;
        ensure!(got == want, "verdict", "the document\n{}\nis judged\n{got:#?}\nexpected\n{want:#?}", clip(&before.clone().unwrap_or_default()));
    }
    if cx.chance(1, 3) {
        cx.count("new process");
        let (c2, e) = (c.clone(), cx.draw(1 << 30));
        let text = before.clone().ok();
        let (got, loaded) = on_thread(e, move || {
            let l = text.and_then(|t| serde_yaml::from_str::<Compose>(&t).ok());
            (verdicts(&c2, false), l.map(|c| verdicts(&c, true)))
        })?;
        ensure!(got == want, "verdict-process", "in another process: {got:#?}\nexpected {want:#?}");
        ensure!(loaded.as_ref() == Some(&want), "verdict-reloaded", "after a reload: {loaded:#?}\nexpected {want:#?}");
    }
    ensure!(save(c)? == before, "validation-changed", "validating changed the document");
    for (k, probe) in ["undefined network", "undefined volume", "undefined config", "undefined secret"].into_iter().enumerate() {
        if want[k] != "ok" {
            cx.count(probe);
            cx.nontrivial();
        }
    }
    if want[4] == "ok" {
        cx.count("all valid");
    }
    let twice = m.svcs.iter().any(|sv| {
        sv.vols.iter().enumerate().any(|(i, v)| sv.vols[..i].contains(v))
    });
    if twice && want[1] == "ok" {
        cx.count("volume used twice by one service only");
    }
    Ok(())
}

fn id(x: &str) -> Identifier {
    Identifier::new(x).unwrap_or_else(|e| panic!("valid identifier {x:?} rejected: {e}"))
}
fn abs(x: &str) -> AbsolutePath {
    AbsolutePath::new(x).unwrap_or_else(|e| panic!("valid path {x:?} rejected: {e}"))
}

/// A reference to a volume, or a decoy (which names none).
fn vol(cx: &Cx, n: &mut u32) -> (Y, ShortOrLong<ShortVolume, Mount>, Option<String>) {
    *n += 1;
    let x = *cx.pick(pool(cx));
    let target = format!("/t{n}");
    let m = |v: Vec<(&str, Y)>| {
        Y::Map(v.into_iter().map(|(k, v)| (s(k), v)).chain([(s("target"), s(&target))]).collect())
    };
    // settings which do not matter for validation
    let (ro, cons, ext) = (cx.chance(1, 4), cx.chance(1, 5), cx.chance(1, 6));
    let common = || {
        let mut c = mount::Common::new(abs(&target));
        c.read_only = ro;
        c.consistency = cons.then(|| "cached".to_owned());
        if ext {
            c.extensions.insert("x-e".parse().unwrap_or_else(|e| panic!("{e}")), serde_yaml::Value::Null);
        }
        c
    };
    let m = |v: Vec<(&str, Y)>| {
        let mut y = m(v);
        if ro {
            y.set("read_only", Y::Bool(true));
        }
        if cons {
            y.set("consistency", s("cached"));
        }
        if ext {
            y.set("x-e", Y::Null);
        }
        y
    };
    let (vo, nocopy, sub) = (cx.chance(1, 3), cx.coin(), cx.chance(1, 3));
    let vopts = || {
        vo.then(|| {
            let mut o = mount::VolumeOptions::default();
            o.nocopy = nocopy;
            o.subpath = sub.then(|| PathBuf::from("sub"));
            o
        })
    };
    let mv = |v: Vec<(&str, Y)>| {
        let mut y = m(v);
        if vo {
            let mut o = Y::Map(vec![]);
            if nocopy {
                o.set("nocopy", Y::Bool(true));
            }
            if sub {
                o.set("subpath", s("sub"));
            }
            y.set("volume", o);
        }
        y
    };
    let short = |src: Option<Source>| -> ShortOrLong<ShortVolume, Mount> {
        ShortOrLong::Short(ShortVolume {
            container_path: abs(&target),
            options: src.map(ShortOptions::new),
        })
    };
    match cx.draw(12) {
        0..=2 => (s(format!("{x}:{target}")), short(Some(Source::Volume(id(x)))), Some(x.into())),
        3 => {
            let mut o = ShortOptions::new(Source::Volume(id(x)));
            o.read_only = true;
            let z = cx.coin();
            o.selinux = z.then_some(compose_spec::service::volumes::SELinux::Shared);
            (
                s(format!("{x}:{target}:ro{}", if z { ",z" } else { "" })),
                ShortOrLong::Short(ShortVolume {
                    container_path: abs(&target),
                    options: Some(o),
                }),
                Some(x.into()),
            )
        }
        4..=6 => (
            mv(vec![("type", s("volume")), ("source", s(x))]),
            ShortOrLong::Long(Mount::Volume(mount::Volume {
                source: Some(id(x)),
                volume: vopts(),
                common: common(),
            })),
            Some(x.into()),
        ),
        7 => (s(format!("./{x}:{target}")), short(Some(Source::parse(format!("./{x}")).unwrap_or_else(|e| panic!("{e}")))), None),
        8 => (s(&target), short(None), None),
        9 => (
            mv(vec![("type", s("volume"))]),
            ShortOrLong::Long(Mount::Volume(mount::Volume {
                source: None,
                volume: vopts(),
                common: common(),
            })),
            None,
        ),
        10 => (
            m(vec![("type", s("cluster")), ("source", s(x))]),
            ShortOrLong::Long(Mount::Cluster((x.to_owned(), common()).into())),
            None,
        ),
        _ => (m(vec![("type", s("tmpfs"))]), ShortOrLong::Long(Mount::Tmpfs(mount::Tmpfs { tmpfs: None, common: common() })), None),
    }
}

fn cfg(cx: &Cx) -> (Y, ShortOrLong<Identifier, ConfigOrSecret>, String) {
    let x = *cx.pick(pool(cx));
    if cx.coin() {
        (s(x), ShortOrLong::Short(id(x)), x.into())
    } else {
        let mut l = ConfigOrSecret::from(id(x));
        let mut y = Y::Map(vec![(s("source"), s(x))]);
        if cx.coin() {
            l.target = Some(PathBuf::from("t"));
            y.set("target", s("t"));
        }
        if cx.chance(1, 3) {
            l.uid = Some(1);
            y.set("uid", s("1"));
        }
        if cx.chance(1, 3) {
            l.mode = Some(7);
            y.set("mode", int(7));
        }
        if cx.chance(1, 4) {
            l.extensions.insert("x-e".parse().unwrap_or_else(|e| panic!("{e}")), serde_yaml::Value::Null);
            y.set("x-e", Y::Null);
        }
        (y, ShortOrLong::Long(l), x.into())
    }
}

fn names(cx: &Cx) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    for _ in 0..=some(cx, 3) {
        let x = (*cx.pick(pool(cx))).to_owned();
        if !v.contains(&x) {
            v.push(x);
        }
    }
    v
}

fn service(cx: &Cx, name: &str, n: &mut u32) -> Res<(Y, Service, Svc)> {
    let mut y = Y::Map(vec![]);
    let mut t = Service::default();
    let mut m = Svc {
        name: name.to_owned(),
        nets: None,
        vols: vec![],
        cfgs: vec![],
        secs: vec![],
    };
    match cx.draw(6) {
        0 => {
            let x = *cx.pick(pool(cx));
            y.set("network_mode", s(format!("service:{x}")));
            t.network_config = Some(NetworkConfig::NetworkMode(NetworkMode::Service(id(x))));
        }
        1 => {}
        k => {
            let v = names(cx);
            if k % 2 == 0 {
                y.set("networks", Y::Seq(v.iter().map(s).collect()));
                t.network_config = Some(NetworkConfig::Networks(ShortOrLong::Short(v.iter().map(|x| id(x)).collect())));
            } else {
                let (mut ys, mut ts) = (vec![], indexmap::IndexMap::new());
                for x in &v {
                    let mut n = None;
                    let mut ny = Y::Null;
                    if cx.coin() {
                        let mut w = ServiceNetwork::default();
                        w.priority = Some(3);
                        n = Some(w);
                        ny = Y::Map(vec![(s("priority"), int(3))]);
                    }
                    ys.push((s(x), ny));
                    ts.insert(id(x), n);
                }
                y.set("networks", Y::Map(ys));
                t.network_config = Some(NetworkConfig::Networks(ShortOrLong::Long(ts)));
            }
            m.nets = Some(v);
        }
    }
    let (mut vs, mut cs, mut ss) = (vec![], vec![], vec![]);
    for _ in 0..some(cx, 4) {
        let (yv, tv, mv) = vol(cx, n);
        vs.push(yv);
        t.volumes.insert(tv);
        m.vols.extend(mv);
    }
    for _ in 0..some(cx, 3) {
        let (yv, tv, mv) = cfg(cx);
        cs.push(yv);
        t.configs.push(tv);
        m.cfgs.push(mv);
    }
    for _ in 0..some(cx, 3) {
        let (yv, tv, mv) = cfg(cx);
        ss.push(yv);
        t.secrets.push(tv);
        m.secs.push(mv);
    }
    for (k, v) in [("volumes", vs), ("configs", cs), ("secrets", ss)] {
        if !v.is_empty() {
            y.set(k, Y::Seq(v));
        }
    }
    Ok((y, t, m))
}

fn pos(v: &[String], x: &str) -> Option<usize> {
    v.iter().position(|y| y == x)
}

/// Define or undefine a resource.
fn define(cx: &Cx, c: &mut Compose, m: &mut Model) {
    let k = cx.n(4);
    let x = *cx.pick(pool(cx));
    let i = id(x);
    match pos(&m.top[k], x) {
        Some(at) if cx.chance(1, 3) => {
            m.top[k].remove(at);
            match k {
                0 => drop(c.networks.shift_remove(x)),
                1 => drop(c.volumes.shift_remove(x)),
                2 => drop(c.configs.shift_remove(x)),
                _ => drop(c.secrets.shift_remove(x)),
            }
        }
        old => {
            if old.is_none() {
                m.top[k].push(x.into());
            }
            let ext = cx.coin();
            match k {
                0 => drop(c.networks.insert(i, ext.then(|| Resource::external(None)))),
                1 => drop(c.volumes.insert(i, ext.then(|| Resource::external(None)))),
                2 => drop(c.configs.insert(i, if ext { Resource::external(None) } else { Config::from(compose_spec::config::Source::Content("c".into())).into() })),
                _ => drop(c.secrets.insert(i, if ext { Resource::external(None) } else { Secret::from(compose_spec::secret::Source::Environment("E".into())).into() })),
            }
        }
    }
}

fn edit(cx: &Cx, c: &mut Compose, m: &mut Model, n: &mut u32) -> Res {
    let op = cx.draw(14);
    cx.ev("edit", op, m.svcs.len() as u64);
    cx.count("edit");
    let some = if m.svcs.is_empty() { None } else { Some(cx.n(m.svcs.len())) };
    match (op, some) {
        (0..=3, _) => define(cx, c, m),
        (4, _) | (_, None) => {
            let name = *cx.pick(svc_names(cx));
            let (_, t, sv) = service(cx, name, n)?;
            c.services.insert(id(name), t);
            match m.svcs.iter().position(|x| x.name == name) {
                Some(i) => m.svcs[i] = sv,
                None => m.svcs.push(sv),
            }
        }
        (5, Some(i)) => {
            let name = m.svcs.remove(i).name;
            c.services.shift_remove(name.as_str());
        }
        (6, Some(i)) => {
            // rename: to the end, under another name
            let name = *cx.pick(svc_names(cx));
            if m.svcs.iter().all(|x| x.name != name) {
                let mut sv = m.svcs.remove(i);
                let Some(t) = c.services.shift_remove(sv.name.as_str()) else {
                    return viol("lost", "service is gone");
                };
                sv.name = name.into();
                c.services.insert(id(name), t);
                m.svcs.push(sv);
            }
        }
        (7, Some(i)) => {
            let j = cx.n(m.svcs.len());
            if cx.coin() {
                m.svcs.swap(i, j);
                c.services.swap_indices(i, j);
            } else {
                let x = m.svcs.remove(i);
                m.svcs.insert(j, x);
                c.services.move_index(i, j);
            }
        }
        (8, Some(_)) => {
            m.svcs.sort_by(|a, b| a.name.cmp(&b.name));
            c.services.sort_keys();
        }
        (9, Some(i)) => {
            // one more volume
            let (_, t, v) = vol(cx, n);
            c.services[i].volumes.insert(t);
            m.svcs[i].vols.extend(v);
        }
        (10, Some(i)) => {
            let (_, t, x) = cfg(cx);
            if cx.coin() {
                c.services[i].configs.push(t);
                m.svcs[i].cfgs.push(x);
            } else {
                c.services[i].secrets.push(t);
                m.svcs[i].secs.push(x);
            }
        }
        (11, Some(i)) => {
            // the same settings in the long form
            let t = &mut c.services[i];
            match cx.draw(3) {
                0 => {
                    t.volumes = std::mem::take(&mut t.volumes).into_iter().map(|v| ShortOrLong::Long(Mount::from(v))).collect();
                }
                1 => {
                    t.configs = std::mem::take(&mut t.configs).into_iter().map(|v| ShortOrLong::Long(v.into_long())).collect();
                }
                _ => {
                    if let Some(NetworkConfig::Networks(ShortOrLong::Short(x))) = &t.network_config {
                        let l = x.iter().map(|k| (k.clone(), cx.coin().then(ServiceNetwork::default))).collect();
                        t.network_config = Some(NetworkConfig::Networks(ShortOrLong::Long(l)));
                    }
                }
            }
        }
        (12, Some(i)) => {
            let j = cx.n(m.svcs.len());
            let mut a = c.services[i].clone();
            std::mem::swap(&mut a.volumes, &mut c.services[j].volumes);
            let v = if i == j { m.svcs[i].vols.clone() } else { std::mem::take(&mut m.svcs[j].vols) };
            let old = std::mem::replace(&mut m.svcs[i].vols, v);
            if i != j {
                m.svcs[j].vols = old;
            }
            c.services[i].volumes = a.volumes;
        }
        (_, Some(i)) => {
            // replace or drop the networks
            let (_, t, sv) = service(cx, "x", n)?;
            c.services[i].network_config = t.network_config;
            m.svcs[i].nets = sv.nets;
        }
    }
    Ok(())
}

fn all(cx: &Cx) -> Vec<String> {
    pool(cx).iter().map(|x| (*x).to_owned()).collect()
}

fn run(cx: &Cx) -> Res {
    let mut n = 0;
    let mut m = Model::default();
    let mut svcs = vec![];
    let (lo, hi) = if cx.huge(40) { (6, 40) } else { (0, 4) };
    for name in crate::gen::prim::distinct(cx, lo, hi, |cx| *cx.pick(svc_names(cx))) {
        let (y, _, sv) = service(cx, name, &mut n)?;
        svcs.push((s(name), y));
        m.svcs.push(sv);
    }
    let mut doc = Y::Map(vec![(s("services"), Y::Map(svcs))]);
    // often everything is defined, but for one kind
    let (most, gap) = (cx.chance(if cx.big() { 3 } else { 2 }, 4), cx.n(5));
    for k in 0..4 {
        let late = cx.chance(if cx.big() { 3 } else { 1 }, 4);
        let v = if most && k != gap {
            all(cx)
        } else if late {
            // all but the one which is met last
            let mut v = all(cx);
            let last = m.last(k);
            v.retain(|x| Some(x) != last.as_ref());
            v
        } else if cx.coin() {
            vec![]
        } else if cx.big() && cx.coin() {
            // all but one
            let mut v = all(cx);
            v.remove(cx.n(v.len()));
            v
        } else {
            crate::gen::prim::distinct(cx, 1, 6, |cx| (*cx.pick(pool(cx))).to_owned())
        };
        if v.is_empty() {
            continue;
        }
        let entries = v
            .iter()
            .map(|x| {
                let e = match (k, cx.draw(3)) {
                    (_, 0) => Y::Map(vec![(s("external"), Y::Bool(true))]),
                    (0 | 1, 1) => Y::Null,
                    (0, _) => Y::Map(vec![(s("driver"), s("d"))]),
                    (1, _) => Y::Map(vec![(s("labels"), Y::Map(vec![(s("k"), int(1))]))]),
                    _ => Y::Map(vec![(s("file"), s("./f"))]),
                };
                (s(x), e)
            })
            .collect();
        doc.set(&format!("{}s", KINDS[k]), Y::Map(entries));
        m.top[k] = v;
    }
    let st = Style::draw(cx);
    let text = emit(cx, &doc, &st);
    cx.note(|| format!("document:\n{text}"));
    let via = pick_via(cx);
    let mut c = match load(cx, &text, via)? {
        Ok(c) => c,
        Err(e) => return viol("rejected", format!("valid document rejected: {e}\n{}", clip(&text))),
    };
    check(cx, &c, &m)?;
    for _ in 0..cx.n(12) {
        let mut r = Ok(());
        guard("editing", || r = edit(cx, &mut c, &mut m, &mut n))?;
        r?;
        check(cx, &c, &m)?;
    }
    Ok(())
}
