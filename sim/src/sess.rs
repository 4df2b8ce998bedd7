//! An editing session: a typed document changed through the public API, side by side with
//! the model (the canonical tree it must be saved as).

use crate::core::{viol, Cx, Res};
use crate::gen::{self, svc, P};
use crate::util::{clip, small_doc};
use crate::y::{emit, s, Style, Y};
use compose_spec::service::Service;
use compose_spec::{Compose, ExtensionKey, Identifier, YamlValue};
use serde::de::DeserializeOwned;

macro_rules! fields {
    ($($f:ident $k:literal),* $(,)?) => {
        /// The sections of a service and how each is moved between services.
        const FIELDS: &[(&str, fn(&mut Service, &mut Service))] = &[
            $(($k, |a, b| std::mem::swap(&mut a.$f, &mut b.$f)),)*
        ];
    };
}
fields! {
    attach "attach",
    build "build",
    blkio_config "blkio_config",
    cpu_count "cpu_count",
    cpu_percent "cpu_percent",
    cpu_shares "cpu_shares",
    cpu_period "cpu_period",
    cpu_quota "cpu_quota",
    cpu_rt_runtime "cpu_rt_runtime",
    cpu_rt_period "cpu_rt_period",
    cpus "cpus",
    cpuset "cpuset",
    cap_add "cap_add",
    cap_drop "cap_drop",
    cgroup "cgroup",
    cgroup_parent "cgroup_parent",
    command "command",
    configs "configs",
    container_name "container_name",
    credential_spec "credential_spec",
    depends_on "depends_on",
    deploy "deploy",
    develop "develop",
    device_cgroup_rules "device_cgroup_rules",
    devices "devices",
    dns "dns",
    dns_opt "dns_opt",
    dns_search "dns_search",
    domain_name "domainname",
    entrypoint "entrypoint",
    env_file "env_file",
    environment "environment",
    expose "expose",
    extends "extends",
    annotations "annotations",
    external_links "external_links",
    extra_hosts "extra_hosts",
    group_add "group_add",
    healthcheck "healthcheck",
    hostname "hostname",
    image "image",
    init "init",
    ipc "ipc",
    uts "uts",
    isolation "isolation",
    labels "labels",
    links "links",
    logging "logging",
    mac_address "mac_address",
    mem_limit "mem_limit",
    mem_reservation "mem_reservation",
    mem_swappiness "mem_swappiness",
    memswap_limit "memswap_limit",
    oom_kill_disable "oom_kill_disable",
    oom_score_adj "oom_score_adj",
    pid "pid",
    pids_limit "pids_limit",
    platform "platform",
    ports "ports",
    privileged "privileged",
    profiles "profiles",
    pull_policy "pull_policy",
    read_only "read_only",
    restart "restart",
    runtime "runtime",
    scale "scale",
    secrets "secrets",
    security_opt "security_opt",
    shm_size "shm_size",
    stdin_open "stdin_open",
    stop_grace_period "stop_grace_period",
    stop_signal "stop_signal",
    storage_opt "storage_opt",
    sysctls "sysctls",
    tmpfs "tmpfs",
    tty "tty",
    ulimits "ulimits",
    user "user",
    userns_mode "userns_mode",
    volumes "volumes",
    volumes_from "volumes_from",
    working_dir "working_dir",
}

/// Load a fragment of a document by itself.
pub fn fragment<T: DeserializeOwned>(cx: &Cx, p: &P) -> Res<T> {
    let st = Style::draw(cx);
    let t = emit(cx, &p.w, &st);
    match serde_yaml::from_str(&t) {
        Ok(v) => Ok(v),
        Err(e) => viol("rejected", format!("valid fragment rejected: {e}\n{}", clip(&t))),
    }
}

pub struct Session {
    pub c: Compose,
    pub m: Y,
    pub edits: u32,
}

fn id(x: &str) -> Res<Identifier> {
    match Identifier::new(x) {
        Ok(i) => Ok(i),
        Err(e) => viol("rejected", format!("valid identifier {x:?} rejected: {e}")),
    }
}

/// Put `v` under `key` of section `sec` (created in place, or dropped when it ends up empty).
fn model_put(m: &mut Y, sec: &str, key: &str, v: Y) {
    if m.get(sec).is_none() {
        m.set(sec, Y::Map(vec![]));
    }
    if let Some(x) = m.get_mut(sec) {
        x.set(key, v);
    }
}
fn model_drop(m: &mut Y, sec: &str, key: &str) {
    if let Some(x) = m.get_mut(sec) {
        x.remove(key);
        if sec != "services" && x.entries().is_some_and(Vec::is_empty) {
            m.remove(sec);
        }
    }
}
fn keys(m: &Y, sec: &str) -> Vec<String> {
    m.get(sec)
        .and_then(Y::entries)
        .map(|e| {
            e.iter()
                .filter_map(|(k, _)| if let Y::Str(k) = k { Some(k.clone()) } else { None })
                .collect()
        })
        .unwrap_or_default()
}

impl Session {
    pub fn new(c: Compose, m: Y) -> Self {
        Session { c, m, edits: 0 }
    }

    fn some_key(&self, cx: &Cx, sec: &str) -> String {
        let k = keys(&self.m, sec);
        if k.is_empty() || cx.chance(1, 3) {
            gen::ident(cx)
        } else {
            cx.pick(&k).clone()
        }
    }

    /// One edit through the public API.
    pub fn edit(&mut self, cx: &Cx) -> Res {
        self.edits += 1;
        let den = *cx.pick(&[2, 1, 4, 8]);
        let op = cx.draw(10);
        cx.ev("edit", op, 0);
        match op {
            0 | 1 => {
                let k = self.some_key(cx, "services");
                let p = svc::service(cx, den);
                self.c.services.insert(id(&k)?, fragment(cx, &p)?);
                model_put(&mut self.m, "services", &k, p.c);
            }
            2 => {
                let k = self.some_key(cx, "services");
                self.c.services.shift_remove(k.as_str());
                model_drop(&mut self.m, "services", &k);
            }
            3 | 4 => {
                let sec = *cx.pick(&["networks", "volumes", "configs", "secrets"]);
                let k = self.some_key(cx, sec);
                let i = id(&k)?;
                cx.note(|| format!("  {sec} {k}"));
                let p = match sec {
                    "networks" => {
                        let p = gen::network(cx, den.max(6));
                        self.c.networks.insert(i, fragment(cx, &p)?);
                        p
                    }
                    "volumes" => {
                        let p = gen::volume(cx, den.max(6));
                        self.c.volumes.insert(i, fragment(cx, &p)?);
                        p
                    }
                    "configs" => {
                        let p = gen::config(cx, den.max(6));
                        self.c.configs.insert(i, fragment(cx, &p)?);
                        p
                    }
                    _ => {
                        let p = gen::secret(cx, den.max(6));
                        self.c.secrets.insert(i, fragment(cx, &p)?);
                        p
                    }
                };
                model_put(&mut self.m, sec, &k, p.c);
            }
            5 => {
                let sec = *cx.pick(&["networks", "volumes", "configs", "secrets"]);
                let k = self.some_key(cx, sec);
                match sec {
                    "networks" => drop(self.c.networks.shift_remove(k.as_str())),
                    "volumes" => drop(self.c.volumes.shift_remove(k.as_str())),
                    "configs" => drop(self.c.configs.shift_remove(k.as_str())),
                    _ => drop(self.c.secrets.shift_remove(k.as_str())),
                }
                model_drop(&mut self.m, sec, &k);
            }
            6 => {
                // top level scalars and extensions
                match cx.draw(3) {
                    0 => {
                        let n = gen::name(cx);
                        self.c.name = match n.parse() {
                            Ok(n) => Some(n),
                            Err(e) => return viol("rejected", format!("valid name {n:?} rejected: {e}")),
                        };
                        self.m.set("name", s(n));
                    }
                    1 => {
                        self.c.version = None;
                        self.m.remove("version");
                    }
                    _ => {
                        let k = format!("x-{}", gen::word(cx));
                        let v = gen::any_yaml(cx, 2);
                        let yv: YamlValue = v.to_value();
                        match ExtensionKey::new(k.as_str()) {
                            Ok(x) => self.c.extensions.insert(x, yv),
                            Err(e) => return viol("rejected", format!("valid key {k:?} rejected: {e}")),
                        };
                        self.m.set(&k, v);
                    }
                }
            }
            _ => {
                // move one section of another document's service into one of ours
                let own = keys(&self.m, "services");
                if own.is_empty() {
                    return Ok(());
                }
                let k = cx.pick(&own).clone();
                let mut p = svc::service(cx, den);
                let mut other: Service = fragment(cx, &p)?;
                let Some(mine) = self.c.services.get_mut(k.as_str()) else {
                    return viol("lost", format!("service {k:?} is gone"));
                };
                let Some(mm) = self.m.get_mut("services").and_then(|x| x.get_mut(&k)) else {
                    return Ok(());
                };
                for _ in 0..=cx.n(4) {
                    let (key, swap) = cx.pick(FIELDS);
                    swap(mine, &mut other);
                    let (a, b) = (mm.get(key).cloned(), p.c.get(key).cloned());
                    match b {
                        Some(b) => mm.set(key, b),
                        None => mm.remove(key),
                    }
                    match a {
                        Some(a) => p.c.set(key, a),
                        None => p.c.remove(key),
                    }
                    cx.note(|| format!("  {k}.{key}"));
                }
            }
        }
        Ok(())
    }

    /// Replace the whole document by another one.
    #[allow(dead_code)]
    pub fn fresh(cx: &Cx) -> Res<Self> {
        let d = small_doc(cx);
        match serde_yaml::from_str(&d.text) {
            Ok(c) => Ok(Session::new(c, d.p.c)),
            Err(e) => viol("rejected", format!("valid document rejected: {e}\n{}", clip(&d.text))),
        }
    }
}
