//! Sections with required fields and fields that exclude each other: a reference for which
//! combinations of fields are accepted, independent of the code.

use crate::core::Cx;
use crate::scal::{fld, lst, nest, rec, sv, top};
use crate::y::{int, s, Y};

pub struct Sec {
    pub name: &'static str,
    pub wrap: fn(Y) -> Y,
    /// space separated
    pub req: &'static str,
    /// exactly one of these
    pub one: &'static str,
    /// at most one of these
    pub most: &'static str,
    pub fields: fn() -> Vec<(&'static str, Y)>,
    /// whether extension keys are allowed
    pub ext: bool,
}

fn yes() -> Y {
    Y::Bool(true)
}
fn seq(v: &[&str]) -> Y {
    Y::Seq(v.iter().map(|x| s(*x)).collect())
}
fn t(k: &'static str) -> (&'static str, Y) {
    (k, s("t"))
}
fn dup(k: &'static str) -> (&'static str, Y) {
    (k, s("1s"))
}
fn n(k: &'static str) -> (&'static str, Y) {
    (k, int(7))
}
fn mount(y: Y) -> Y {
    lst("volumes", y)
}

pub const SECS: &[Sec] = &[
    Sec { name: "service", wrap: sv, req: "", one: "", most: "network_mode networks", ext: true, fields: || vec![
        ("network_mode", s("host")), ("networks", seq(&["n"])), ("image", s("i")), ("privileged", yes()), ("init", yes()), ("tty", yes()), t("runtime"),
        t("pid"), n("scale"), ("ports", Y::Seq(vec![int(80)])), ("hostname", s("h")), ("restart", s("no")), ("attach", Y::Bool(false)),
        ("read_only", yes()), ("stdin_open", yes()), ("oom_kill_disable", yes()), t("userns_mode"), t("cgroup_parent"), t("isolation"), t("stop_signal"),
    ] },
    Sec { name: "build", wrap: |y| fld("build", y), req: "", one: "", most: "dockerfile dockerfile_inline", ext: true, fields: || vec![
        t("dockerfile"), t("dockerfile_inline"), ("context", s("/c")), t("target"), t("isolation"), ("no_cache", yes()), ("pull", yes()), ("privileged", yes()),
        ("entitlements", seq(&["e"])), ("network", s("none")), ("shm_size", s("1kb")), ("tags", seq(&["i"])),
    ] },
    Sec { name: "config", wrap: |y| top("configs", rec("c", y)), req: "", one: "file environment content", most: "", ext: true, fields: || vec![t("file"), t("environment"), t("content"), ("labels", rec("l", int(1)))] },
    Sec { name: "secret", wrap: |y| top("secrets", rec("c", y)), req: "", one: "file environment", most: "", ext: true, fields: || vec![t("file"), t("environment"), ("labels", rec("l", int(1))), t("driver"), ("driver_opts", rec("l", s("v")))] },
    Sec { name: "credential_spec", wrap: |y| fld("credential_spec", y), req: "", one: "config file registry", most: "", ext: true, fields: || vec![t("config"), t("file"), t("registry")] },
    Sec { name: "service config", wrap: |y| lst("configs", y), req: "source", one: "", most: "", ext: true, fields: || vec![t("source"), t("target"), ("uid", s("1")), ("gid", s("2")), n("mode")] },
    Sec { name: "service secret", wrap: |y| lst("secrets", y), req: "source", one: "", most: "", ext: true, fields: || vec![t("source"), t("target"), ("uid", s("1")), ("gid", s("2")), n("mode")] },
    Sec { name: "port", wrap: |y| lst("ports", y), req: "target", one: "", most: "", ext: true, fields: || vec![n("target"), t("name"), n("published"), ("host_ip", s("::1")), ("protocol", s("tcp")), t("app_protocol"), ("mode", s("host"))] },
    Sec { name: "volume mount", wrap: |y| mount(with(y, "volume")), req: "target", one: "", most: "", ext: true, fields: || vec![("target", s("/t")), t("source"), ("read_only", yes()), t("consistency"), ("volume", Y::Rec(vec![(s("nocopy"), yes()), (s("subpath"), s("p"))]))] },
    Sec { name: "bind mount", wrap: |y| mount(with(y, "bind")), req: "target source", one: "", most: "", ext: true, fields: || vec![("target", s("/t")), ("source", s("/s")), ("read_only", yes()), t("consistency"), ("bind", Y::Rec(vec![(s("propagation"), s("shared")), (s("create_host_path"), yes()), (s("selinux"), s("Z"))]))] },
    Sec { name: "tmpfs mount", wrap: |y| mount(with(y, "tmpfs")), req: "target", one: "", most: "", ext: true, fields: || vec![("target", s("/t")), ("read_only", yes()), t("consistency"), ("tmpfs", Y::Rec(vec![(s("size"), s("1kb")), (s("mode"), int(7))]))] },
    Sec { name: "npipe mount", wrap: |y| mount(with(y, "npipe")), req: "target source", one: "", most: "", ext: true, fields: || vec![("target", s("/t")), ("source", s("/s")), ("read_only", yes()), t("consistency")] },
    Sec { name: "cluster mount", wrap: |y| mount(with(y, "cluster")), req: "target source", one: "", most: "", ext: true, fields: || vec![("target", s("/t")), ("source", s("s")), ("read_only", yes()), t("consistency")] },
    Sec { name: "depends_on", wrap: |y| fld("depends_on", rec("b", y)), req: "condition", one: "", most: "", ext: false, fields: || vec![("condition", s("service_healthy")), ("restart", yes()), ("required", Y::Bool(false))] },
    Sec { name: "env_file", wrap: |y| lst("env_file", y), req: "path", one: "", most: "", ext: false, fields: || vec![t("path"), ("required", Y::Bool(false))] },
    Sec { name: "extends", wrap: |y| fld("extends", y), req: "service", one: "", most: "", ext: false, fields: || vec![t("service"), t("file")] },
    Sec { name: "watch", wrap: |y| fld("develop", rec("watch", Y::Seq(vec![y]))), req: "action path", one: "", most: "", ext: true, fields: || vec![("action", s("sync")), t("path"), ("ignore", seq(&["i"])), ("target", s("/t"))] },
    Sec { name: "ulimit", wrap: |y| fld("ulimits", rec("a", y)), req: "soft hard", one: "", most: "", ext: true, fields: || vec![n("soft"), ("hard", int(8))] },
    Sec { name: "rate (bytes)", wrap: |y| fld("blkio_config", rec("device_read_bps", Y::Seq(vec![y]))), req: "path rate", one: "", most: "", ext: false, fields: || vec![("path", s("/p")), ("rate", s("1kb"))] },
    Sec { name: "rate", wrap: |y| fld("blkio_config", rec("device_write_iops", Y::Seq(vec![y]))), req: "path rate", one: "", most: "", ext: false, fields: || vec![("path", s("/p")), n("rate")] },
    Sec { name: "weight", wrap: |y| fld("blkio_config", rec("weight_device", Y::Seq(vec![y]))), req: "path weight", one: "", most: "", ext: false, fields: || vec![("path", s("/p")), ("weight", int(17))] },
    Sec { name: "device reservation", wrap: |y| fld("deploy", nest(&["resources", "reservations", "devices"], Y::Seq(vec![y]))), req: "capabilities", one: "", most: "", ext: true, fields: || vec![("capabilities", seq(&["gpu"])), t("driver"), n("count"), ("device_ids", seq(&["i"])), ("options", rec("a", s("b")))] },
    Sec { name: "include", wrap: |y| top("include", Y::Seq(vec![y])), req: "path", one: "", most: "", ext: false, fields: || vec![t("path"), t("project_directory"), t("env_file")] },
    Sec { name: "network", wrap: |y| top("networks", rec("n", y)), req: "", one: "", most: "", ext: true, fields: || vec![t("driver"), t("name"), ("internal", yes()), ("attachable", yes()), ("enable_ipv6", yes()), ("labels", rec("l", int(1))), ("ipam", rec("driver", s("d")))] },
    Sec { name: "volume", wrap: |y| top("volumes", rec("n", y)), req: "", one: "", most: "", ext: true, fields: || vec![t("driver"), t("name"), ("labels", rec("l", int(1)))] },
    Sec { name: "ipam pool", wrap: |y| top("networks", rec("n", rec("ipam", rec("config", Y::Seq(vec![y]))))), req: "", one: "", most: "", ext: true, fields: || vec![("subnet", s("10.0.0.0/8")), ("ip_range", s("10.1.0.0/16")), ("gateway", s("10.0.0.1")), ("aux_addresses", rec("h", s("10.0.0.2")))] },
    Sec { name: "logging", wrap: |y| fld("logging", y), req: "", one: "", most: "", ext: true, fields: || vec![t("driver"), ("options", rec("o", s("v")))] },
    Sec { name: "update", wrap: |y| fld("deploy", rec("update_config", y)), req: "", one: "", most: "", ext: true, fields: || vec![n("parallelism"), dup("delay"), ("failure_action", s("pause")), dup("monitor"), n("max_failure_ratio"), ("order", s("stop-first"))] },
    Sec { name: "restart policy", wrap: |y| fld("deploy", rec("restart_policy", y)), req: "", one: "", most: "", ext: true, fields: || vec![("condition", s("any")), dup("delay"), n("max_attempts"), dup("window")] },
    Sec { name: "service network", wrap: |y| fld("networks", rec("n", y)), req: "", one: "", most: "", ext: true, fields: || vec![("aliases", seq(&["a"])), ("ipv4_address", s("1.2.3.4")), ("ipv6_address", s("::2")), ("link_local_ips", seq(&["1.2.3.5"])), ("mac_address", s("02:00:00:00:00:01")), n("priority")] },
];

fn with(y: Y, ty: &str) -> Y {
    let mut y = y;
    if let Y::Rec(m) = &mut y {
        m.insert(0, (s("type"), s(ty)));
    }
    y
}

pub struct Case {
    pub name: String,
    /// as written
    pub w: Y,
    /// as saved, or a rejection
    pub c: Option<Y>,
    /// nothing is set, so the section may be left out when saved
    pub empty: bool,
}

fn shuffle(cx: &Cx, m: &mut [(Y, Y)]) {
    for i in (1..m.len()).rev() {
        m.swap(i, cx.n(i + 1));
    }
}

pub fn case(cx: &Cx) -> Case {
    match cx.draw(12) {
        0 | 1 => healthcheck(cx),
        2 | 3 => resource(cx),
        _ => section(cx),
    }
}

fn section(cx: &Cx) -> Case {
    let sec = cx.pick(SECS);
    let list = |x: &'static str| -> Vec<&'static str> { x.split(' ').filter(|x| !x.is_empty()).collect() };
    let (req, one, most) = (list(sec.req), list(sec.one), list(sec.most));
    let mut m: Vec<(Y, Y)> = Vec::new();
    let den = *cx.pick(&[2u64, 3, 6]);
    let lead = if one.is_empty() { None } else { Some(*cx.pick(&one)) };
    for (k, v) in (sec.fields)() {
        let want = if req.contains(&k) {
            !cx.chance(1, 8)
        } else if lead == Some(k) {
            !cx.chance(1, 8)
        } else if one.contains(&k) {
            cx.chance(1, 6)
        } else {
            cx.chance(1, den)
        };
        if want {
            m.push((s(k), v));
        }
    }
    let has = |m: &[(Y, Y)], k: &str| m.iter().any(|(x, _)| matches!(x, Y::Str(x) if x == k));
    let count = |ks: &[&str]| ks.iter().filter(|k| has(&m, k)).count();
    let mut good = count(&req) == req.len() && (one.is_empty() || count(&one) == 1) && count(&most) <= 1;
    let mut want = m.clone();
    let mut w = m;
    // something that is not part of the section
    match cx.draw(8) {
        // sections without extensions ignore what they do not know
        0 if sec.ext => {
            cx.count("unknown field");
            good = false;
            let keys = ["unknown", "Image", "x", "X-a", "x_a", "", "targets", "source ", "type_"];
            w.push((s(*cx.pick(&keys)), s("v")));
        }
        // resources are read through a map, which keeps the last of a repeated key
        1 if !w.is_empty() && !["network", "volume", "config", "secret"].contains(&sec.name) => {
            cx.count("repeated field");
            good = false;
            let e = w[cx.n(w.len())].clone();
            w.push(e);
        }
        2 | 3 if sec.ext => {
            let e = (s("x-e"), Y::Seq(vec![int(1), s("e")]));
            w.push(e.clone());
            want.push(e);
        }
        4 => {
            // an unset optional field; never one that excludes others or is required
            let unset: Vec<&str> = (sec.fields)()
                .iter()
                .filter(|(k, v)| !has(&w, k) && !req.contains(k) && !one.contains(k) && matches!(v, Y::Str(_) | Y::Int(_)))
                .map(|(k, _)| *k)
                .collect();
            if !unset.is_empty() {
                cx.count("null field");
                w.push((s(*cx.pick(&unset)), Y::Null));
            }
        }
        _ => {}
    }
    if cx.coin() {
        shuffle(cx, &mut w);
    }
    Case {
        name: sec.name.to_owned(),
        w: (sec.wrap)(Y::Rec(w)),
        empty: want.is_empty(),
        c: good.then(|| (sec.wrap)(Y::Rec(want))),
    }
}

fn healthcheck(cx: &Cx) -> Case {
    let mut w = Vec::new();
    let mut c = Vec::new();
    let mut off = false;
    let mut bad = false;
    if cx.coin() {
        off = !cx.chance(1, 3);
        w.push((s("disable"), Y::Bool(off)));
    }
    match cx.draw(9) {
        0 => {
            w.push((s("test"), s("t")));
            c.push((s("test"), s("t")));
        }
        1 => {
            let v = seq(&["CMD", "a", "b"]);
            w.push((s("test"), v.clone()));
            c.push((s("test"), v));
        }
        2 => {
            w.push((s("test"), seq(&["CMD-SHELL", "t"])));
            c.push((s("test"), s("t")));
        }
        3 => {
            bad |= off;
            off = true;
            w.push((s("test"), seq(&["NONE"])));
        }
        4 => {
            bad = true;
            w.push((s("test"), seq(cx.pick(&[&["NONE", "a"] as &[&str], &[], &["CMD-SHELL"], &["CMD-SHELL", "a", "b"], &["cmd"], &["a"], &["CMD_SHELL", "a"]]))));
        }
        _ => {}
    }
    let den = *cx.pick(&[6u64, 3, 20]);
    for (k, v) in [
        ("interval", s("1s")),
        ("timeout", s("2s")),
        ("retries", int(3)),
        ("start_period", s("4s")),
        ("start_interval", s("5s")),
        ("x-h", s("e")),
    ] {
        if cx.chance(1, den) {
            w.push((s(k), v.clone()));
            c.push((s(k), v));
        }
    }
    bad |= off && !c.is_empty();
    if cx.chance(1, 12) {
        bad = true;
        w.push((s("unknown"), s("v")));
    }
    if cx.coin() {
        shuffle(cx, &mut w);
    }
    if off {
        c = vec![(s("disable"), Y::Bool(true))];
    }
    let hc = |m| fld("healthcheck", Y::Rec(m));
    Case {
        name: "healthcheck".to_owned(),
        w: hc(w),
        empty: c.is_empty(),
        c: (!bad).then(|| hc(c)),
    }
}

/// networks, volumes, configs and secrets that may be external
fn resource(cx: &Cx) -> Case {
    let (kind, own) = *cx.pick(&[("networks", "driver"), ("volumes", "driver"), ("configs", "file"), ("secrets", "file")]);
    let ext = *cx.pick(&[None, Some(true), Some(true), Some(false)]);
    let name = cx.coin();
    let file = matches!(kind, "configs" | "secrets");
    let mut w = Vec::new();
    let mut c = Vec::new();
    let mut bad = false;
    if let Some(e) = ext {
        w.push((s("external"), Y::Bool(e)));
        if e {
            c.push((s("external"), Y::Bool(true)));
        }
    }
    let external = ext == Some(true);
    let want_own = if file && !external { !cx.chance(1, 8) } else { cx.chance(1, 4) };
    if want_own {
        w.push((s(own), s("o")));
        c.push((s(own), s("o")));
        bad |= external;
    } else {
        bad |= file && !external;
    }
    if name && (external || !file) {
        w.push((s("name"), s("nm")));
        c.push((s("name"), s("nm")));
    }
    if cx.chance(1, 6) {
        w.push((s("x-r"), int(1)));
        c.push((s("x-r"), int(1)));
        bad |= external;
    }
    if cx.chance(1, 8) {
        w.push((s("labels"), rec("a", int(1))));
        c.push((s("labels"), rec("a", int(1))));
        bad |= external;
    }
    if cx.chance(1, 12) {
        bad = true;
        w.push((s("unknown"), int(1)));
    }
    if cx.coin() {
        shuffle(cx, &mut w);
    }
    let wrap = |m| top(kind, rec("r", Y::Rec(m)));
    Case {
        name: format!("{kind} resource"),
        w: wrap(w),
        empty: c.is_empty(),
        c: (!bad).then(|| wrap(c)),
    }
}
