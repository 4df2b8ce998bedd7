//! The parts of a loaded document that are values of the library in their own right, each with
//! its place in the document.

use crate::core::{Cx, Res};
use compose_spec::{service, Compose, Config, Network, Resource, Secret, Service, ShortOrLong, Volume};
use serde::{de::DeserializeOwned, Serialize};
use serde_yaml::Value;
use std::fmt::Debug;

#[derive(Clone, Copy)]
pub enum K<'a> {
    Root,
    Key(&'a str),
    At(usize),
}

/// A path into the document.
#[derive(Clone, Copy)]
pub struct At<'a> {
    up: Option<&'a At<'a>>,
    k: K<'a>,
}

impl<'a> At<'a> {
    fn key(&'a self, k: &'a str) -> At<'a> {
        At { up: Some(self), k: K::Key(k) }
    }
    fn i(&'a self, i: usize) -> At<'a> {
        At { up: Some(self), k: K::At(i) }
    }
    pub fn find<'v>(&self, v: &'v Value) -> Option<&'v Value> {
        let v = match self.up {
            Some(up) => up.find(v)?,
            None => v,
        };
        match self.k {
            K::Root => Some(v),
            K::Key(k) => v.as_mapping()?.get(k),
            K::At(i) => v.as_sequence()?.get(i),
        }
    }
    /// As `find`, but only where the lists on the way are as long in `a` as in `b`.
    pub fn find_like<'v>(&self, a: &'v Value, b: &Value) -> Option<&'v Value> {
        let (x, y) = match self.up {
            Some(up) => (up.find_like(a, b)?, up.find(b)?),
            None => (a, b),
        };
        match self.k {
            K::Root => Some(x),
            K::Key(k) => x.as_mapping()?.get(k),
            K::At(i) => (x.as_sequence()?.len() == y.as_sequence()?.len()).then(|| &x[i]),
        }
    }
    /// Put `x` there.
    pub fn put(&self, v: &mut Value, x: Value) {
        if let Some(p) = self.find_mut(v) {
            *p = x;
        }
    }
    fn find_mut<'v>(&self, v: &'v mut Value) -> Option<&'v mut Value> {
        let v = match self.up {
            Some(up) => up.find_mut(v)?,
            None => v,
        };
        match self.k {
            K::Root => Some(v),
            K::Key(k) => v.as_mapping_mut()?.get_mut(k),
            K::At(i) => v.as_sequence_mut()?.get_mut(i),
        }
    }
    pub fn text(&self) -> String {
        let up = self.up.map(At::text).unwrap_or_default();
        match self.k {
            K::Root => up,
            K::Key(k) => format!("{up}/{k}"),
            K::At(i) => format!("{up}/{i}"),
        }
    }
}

/// How a part stands at its place in the document.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum How {
    /// as it is
    Whole,
    /// saved as it is, but the document may say more there
    Inner,
    /// its entries lie among others
    Flat,
}

pub trait Sink {
    fn part<T: Serialize + DeserializeOwned + PartialEq + Debug + 'static>(&mut self, name: &str, v: &T, at: &At<'_>, how: How) -> Res;
    /// A part that can only be saved.
    fn saved_only<T: Serialize + 'static>(&mut self, _name: &str, _v: &T) -> Res {
        Ok(())
    }
}

struct Walk<'s, S> {
    want: Option<u64>,
    n: u64,
    sink: &'s mut S,
}

impl<S: Sink> Walk<'_, S> {
    fn here(&mut self) -> bool {
        self.n += 1;
        self.want == Some(self.n - 1)
    }
    fn p<T: Serialize + DeserializeOwned + PartialEq + Debug + 'static>(&mut self, v: &T, at: &At<'_>) -> Res {
        if self.here() {
            self.sink.part(std::any::type_name::<T>(), v, at, How::Whole)?;
        }
        Ok(())
    }
    fn i<T: Serialize + DeserializeOwned + PartialEq + Debug + 'static>(&mut self, v: &T, at: &At<'_>) -> Res {
        if self.here() {
            self.sink.part(std::any::type_name::<T>(), v, at, How::Inner)?;
        }
        Ok(())
    }
    fn f<T: Serialize + DeserializeOwned + PartialEq + Debug + 'static>(&mut self, v: &T, at: &At<'_>) -> Res {
        if self.here() {
            self.sink.part(std::any::type_name::<T>(), v, at, How::Flat)?;
        }
        Ok(())
    }
    fn w<T: Serialize + 'static>(&mut self, v: &T) -> Res {
        if self.here() {
            self.sink.saved_only(std::any::type_name::<T>(), v)?;
        }
        Ok(())
    }
}

macro_rules! key {
    ($f:ident $n:literal) => {
        $n
    };
    ($f:ident) => {
        stringify!($f)
    };
}
macro_rules! fields {
    ($w:expr, $v:expr, $at:expr; $($k:ident $($n:literal)? $f:ident),* $(,)?) => {
        $( fields!(@ $w, $v, $at, $k, key!($f $($n)?), $f); )*
    };
    // a setting that may be unset
    (@ $w:expr, $v:expr, $at:expr, o, $n:expr, $f:ident) => {
        if let Some(x) = &$v.$f { $w.p(x, &$at.key($n))?; }
    };
    // a setting
    (@ $w:expr, $v:expr, $at:expr, p, $n:expr, $f:ident) => {
        $w.p(&$v.$f, &$at.key($n))?;
    };
    // a list, whole and each item
    (@ $w:expr, $v:expr, $at:expr, l, $n:expr, $f:ident) => {
        $w.p(&$v.$f, &$at.key($n))?;
        for (i, x) in $v.$f.iter().enumerate() { $w.p(x, &$at.key($n).i(i))?; }
    };
}

fn walk<S: Sink>(w: &mut Walk<'_, S>, c: &Compose) -> Res {
    let root = At { up: None, k: K::Root };
    fields!(w, c, root; o name, l include, p services, p networks, p volumes, p configs, p secrets, p extensions);
    for (k, s) in &c.services {
        let at = root.key("services");
        svc(w, s, &at.key(k.as_str()))?;
    }
    let at = root.key("networks");
    for (k, r) in &c.networks {
        if let Some(r) = r {
            let at = at.key(k.as_str());
            w.p::<Resource<Network>>(r, &at)?;
            if let Resource::Compose(n) = r {
                w.i(n, &at)?;
                fields!(w, n, at; o driver, p driver_opts, o ipam, p labels, o name);
                if let Some(ipam) = &n.ipam {
                    let at = at.key("ipam");
                    fields!(w, ipam, at; l config, p options, p extensions);
                }
            }
        }
    }
    let at = root.key("volumes");
    for (k, r) in &c.volumes {
        if let Some(r) = r {
            let at = at.key(k.as_str());
            w.p::<Resource<Volume>>(r, &at)?;
            if let Resource::Compose(v) = r {
                w.i(v, &at)?;
                fields!(w, v, at; o driver, p driver_opts, p labels);
            }
        }
    }
    let at = root.key("configs");
    for (k, r) in &c.configs {
        let at = at.key(k.as_str());
        w.p::<Resource<Config>>(r, &at)?;
        if let Resource::Compose(v) = r {
            w.i(v, &at)?;
            w.f(&v.source, &at)?;
            fields!(w, v, at; p labels);
        }
    }
    let at = root.key("secrets");
    for (k, r) in &c.secrets {
        let at = at.key(k.as_str());
        w.p::<Resource<Secret>>(r, &at)?;
        if let Resource::Compose(v) = r {
            w.i(v, &at)?;
            w.f(&v.source, &at)?;
            fields!(w, v, at; p labels, p driver_opts);
        }
    }
    Ok(())
}

fn svc<S: Sink>(w: &mut Walk<'_, S>, s: &Service, at: &At<'_>) -> Res {
    w.p(s, at)?;
    fields!(w, s, at;
        o build, o blkio_config, o cpu_percent, o cpus, p cpuset, p cap_add, o cgroup, o command,
        l configs, o container_name, o credential_spec, p depends_on, o deploy, o develop,
        l device_cgroup_rules, l devices, o dns, p dns_opt, o dns_search, o "domainname" domain_name,
        o entrypoint, o env_file, p environment, l expose, o extends, p annotations,
        l external_links, l group_add, o healthcheck, o hostname, o image, o ipc, o uts,
        p labels, l links, o logging, o mac_address, o mem_limit, o mem_swappiness, o memswap_limit,
        o oom_score_adj, o pids_limit, o platform, l ports, p profiles, o pull_policy, o restart,
        l secrets, o shm_size, p storage_opt, p sysctls, o tmpfs, p ulimits, o user, l volumes,
        l volumes_from, o working_dir, p extensions);
    if let Some(ShortOrLong::Long(b)) = &s.build {
        let at = at.key("build");
        w.i(b, &at)?;
        fields!(w, b, at; o context, p args, l ssh, l cache_from, l cache_to, p labels, o network,
            o shm_size, l secrets, p ulimits, l platforms, l tags, p extensions);
        if let Some(d) = &b.dockerfile {
            w.f(d, &at)?;
        }
    }
    if let Some(b) = &s.blkio_config {
        let at = at.key("blkio_config");
        fields!(w, b, at; l device_read_bps, l device_read_iops, l device_write_bps, l device_write_iops,
            o weight, l weight_device);
    }
    if let ShortOrLong::Long(d) = &s.depends_on {
        let at = at.key("depends_on");
        for (k, d) in d {
            w.p(d, &at.key(k.as_str()))?;
        }
    }
    if let Some(c) = &s.credential_spec {
        w.w(&c.kind)?;
    }
    if let Some(d) = &s.deploy {
        deploy(w, d, &at.key("deploy"))?;
    }
    if let Some(d) = &s.develop {
        let at = at.key("develop");
        fields!(w, d, at; l watch);
    }
    if let Some(service::EnvFile::List(l)) = &s.env_file {
        let at = at.key("env_file");
        for (i, x) in l.iter().enumerate() {
            w.p(x, &at.i(i))?;
            if let ShortOrLong::Long(x) = x {
                w.i(x, &at.i(i))?;
            }
        }
    }
    if let Some(l) = &s.logging {
        let at = at.key("logging");
        fields!(w, l, at; p options, p extensions);
    }
    if let Some(service::Healthcheck::Command(c)) = &s.healthcheck {
        let at = at.key("healthcheck");
        w.w(c)?;
        fields!(w, c, at; p extensions);
        if let Some(t) = &c.test {
            w.w(t)?;
        }
    }
    if let Some(n) = &s.network_config {
        w.f(n, at)?;
        match n {
            service::NetworkConfig::NetworkMode(m) => w.p(m, &at.key("network_mode"))?,
            service::NetworkConfig::Networks(n) => {
                let at = at.key("networks");
                w.p(n, &at)?;
                if let ShortOrLong::Long(n) = n {
                    for (k, n) in n {
                        if let Some(n) = n {
                            let at = at.key(k.as_str());
                            w.p(n, &at)?;
                            fields!(w, n, at; p aliases, p link_local_ips, o mac_address, p driver_opts);
                        }
                    }
                }
            }
        }
    }
    for (i, p) in s.ports.iter().enumerate() {
        let at = at.key("ports");
        let at = at.i(i);
        match p {
            ShortOrLong::Short(p) => {
                w.i(p, &at)?;
                w.w(&p.ranges)?;
            }
            ShortOrLong::Long(p) => {
                w.i(p, &at)?;
                fields!(w, p, at; o published, o protocol, o mode);
            }
        }
    }
    for (k, u) in &s.ulimits {
        let at = at.key("ulimits");
        let at = at.key(k.as_str());
        w.p(u, &at)?;
        if let ShortOrLong::Long(u) = u {
            w.i(u, &at)?;
            fields!(w, u, at; p soft, p hard);
        }
    }
    for (i, v) in s.volumes.iter().enumerate() {
        let at = at.key("volumes");
        let at = at.i(i);
        match v {
            ShortOrLong::Short(v) => w.i(v, &at)?,
            ShortOrLong::Long(m) => mount(w, m, &at)?,
        }
    }
    for (i, x) in s.configs.iter().enumerate() {
        let at = at.key("configs");
        if let ShortOrLong::Long(x) = x {
            w.i(x, &at.i(i))?;
        }
    }
    for (i, x) in s.secrets.iter().enumerate() {
        let at = at.key("secrets");
        if let ShortOrLong::Long(x) = x {
            w.i(x, &at.i(i))?;
        }
    }
    Ok(())
}

fn mount<S: Sink>(w: &mut Walk<'_, S>, m: &service::volumes::Mount, at: &At<'_>) -> Res {
    use service::volumes::Mount;
    w.i(m, at)?;
    match m {
        Mount::Volume(v) => {
            w.f(v, at)?;
            w.f(&v.common, at)?;
            fields!(w, v, at; o volume);
        }
        Mount::Bind(v) => {
            w.f(v, at)?;
            w.f(&v.common, at)?;
            fields!(w, v, at; p source, o bind);
        }
        Mount::Tmpfs(v) => {
            w.f(v, at)?;
            w.f(&v.common, at)?;
            fields!(w, v, at; o tmpfs);
        }
        Mount::NamedPipe(v) => {
            w.f(v, at)?;
            w.f(&v.common, at)?;
        }
        Mount::Cluster(v) => {
            w.f(v, at)?;
            w.f(&v.common, at)?;
        }
    }
    Ok(())
}

fn deploy<S: Sink>(w: &mut Walk<'_, S>, d: &service::Deploy, at: &At<'_>) -> Res {
    fields!(w, d, at; o endpoint_mode, p labels, o mode, o placement, o resources, o restart_policy,
        o rollback_config, o update_config, p extensions);
    if let Some(p) = &d.placement {
        let at = at.key("placement");
        fields!(w, p, at; l preferences);
    }
    if let Some(p) = &d.restart_policy {
        let at = at.key("restart_policy");
        fields!(w, p, at; o condition);
    }
    for (k, c) in [("rollback_config", &d.rollback_config), ("update_config", &d.update_config)] {
        if let Some(c) = c {
            let at = at.key(k);
            fields!(w, c, at; o failure_action, o order);
        }
    }
    if let Some(r) = &d.resources {
        let at = at.key("resources");
        fields!(w, r, at; o limits, o reservations);
        if let Some(l) = &r.limits {
            let at = at.key("limits");
            fields!(w, l, at; o cpus, o memory, o pids);
        }
        if let Some(r) = &r.reservations {
            let at = at.key("reservations");
            fields!(w, r, at; o cpus, o memory, l devices, l generic_resources);
            for (i, d) in r.devices.iter().enumerate() {
                let at = at.key("devices");
                let at = at.i(i);
                fields!(w, d, at; l capabilities, o count, p options);
            }
            for (i, g) in r.generic_resources.iter().enumerate() {
                let at = at.key("generic_resources");
                let at = at.i(i);
                fields!(w, g, at; o discrete_resource_spec);
            }
        }
    }
    Ok(())
}

/// Hand `m` drawn parts of `c` to `sink`.
pub fn some<S: Sink>(cx: &Cx, c: &Compose, m: usize, sink: &mut S) -> Res {
    let mut w = Walk { want: None, n: 0, sink };
    walk(&mut w, c)?;
    let n = w.n;
    for _ in 0..m {
        w.want = Some(cx.draw(n));
        w.n = 0;
        walk(&mut w, c)?;
    }
    Ok(())
}
