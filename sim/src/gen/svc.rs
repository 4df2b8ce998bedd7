//! The service section.

use super::prim::*;
use super::top::{driver_opts, R};
use crate::core::Cx;
use crate::y::{int, s, Y};

// ------------------------------------------------------------------ small pieces

pub fn perms(cx: &Cx) -> (String, String) {
    let w = *cx.pick(&["rwm", "r", "w", "m", "mr", "rw", "wm", "rr", "mwr"]);
    let mut c = String::new();
    for ch in ['r', 'w', 'm'] {
        if w.contains(ch) {
            c.push(ch);
        }
    }
    (w.to_owned(), c)
}

pub fn device(cx: &Cx) -> P {
    let host = match cx.draw(3) {
        0 => format!("/dev/{}", word(cx)),
        1 => word(cx),
        _ => "/dev/snd/".to_owned(),
    };
    let cont = abs_path(cx);
    match cx.draw(4) {
        0 => sstr(format!("{host}:{cont}")),
        1 => p(s(format!("{host}:{cont}:")), s(format!("{host}:{cont}"))),
        _ => {
            let (w, c) = perms(cx);
            p(s(format!("{host}:{cont}:{w}")), s(format!("{host}:{cont}:{c}")))
        }
    }
}

pub fn cgroup_rule(cx: &Cx) -> P {
    let mm = |cx: &Cx| -> (String, String) {
        match cx.draw(4) {
            0 => ("*".into(), "*".into()),
            1 => (String::new(), "*".into()),
            _ => {
                let n = *cx.pick(&[0u64, 1, 3, 10, 1900, 65_535]);
                (n.to_string(), n.to_string())
            }
        }
    };
    let k = *cx.pick(&["c", "a", "b"]);
    let (aw, ac) = mm(cx);
    let (bw, bc) = mm(cx);
    if cx.chance(1, 3) {
        p(s(format!("{k} {aw}:{bw}")), s(format!("{k} {ac}:{bc}")))
    } else {
        let (pw, pc) = perms(cx);
        p(s(format!("{k} {aw}:{bw} {pw}")), s(format!("{k} {ac}:{bc} {pc}")))
    }
}

pub fn cpuset(cx: &Cx) -> P {
    let mut set = std::collections::BTreeSet::new();
    let mut parts = Vec::new();
    for _ in 0..few(cx, 1, 4) {
        if cx.coin() {
            let a = *cx.pick(&[0u64, 1, 2, 3, 5, 8, 63, 64, 100]);
            let b = a + cx.draw(5);
            set.extend(a..=b);
            parts.push(format!("{a}-{b}"));
        } else {
            let a = match cx.draw(8) {
                7 => u64::MAX - cx.draw(3),
                _ => cx.draw(12),
            };
            set.insert(a);
            parts.push(a.to_string());
        }
    }
    let v: Vec<u64> = set.into_iter().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < v.len() {
        let mut j = i;
        while j + 1 < v.len() && v[j + 1] - v[j] == 1 {
            j += 1;
        }
        if !out.is_empty() {
            out.push(',');
        }
        if i == j {
            out.push_str(&v[i].to_string());
        } else {
            out.push_str(&format!("{}-{}", v[i], v[j]));
        }
        i = j + 1;
    }
    let mut w = parts.join(",");
    if cx.chance(1, 8) {
        w.push(',');
    }
    p(s(w), s(out))
}

pub fn weight(cx: &Cx) -> P {
    same(int(*cx.pick(&[500u64, 10, 11, 999, 1000])))
}

pub fn blkio(cx: &Cx, den: u64) -> P {
    let mut r = R::new(cx, den);
    for k in ["device_read_bps", "device_write_bps"] {
        r.coll(k, |cx| {
            list_of(cx, 0, 2, |cx| {
                let mut r = R::new(cx, den);
                r.put("path", sstr(abs_path(cx)));
                r.put("rate", bytes(cx));
                r.done()
            })
        });
    }
    for k in ["device_read_iops", "device_write_iops"] {
        r.coll(k, |cx| {
            list_of(cx, 0, 2, |cx| {
                let mut r = R::new(cx, den);
                r.put("path", sstr(abs_path(cx)));
                r.put("rate", same(int(edge_u64(cx))));
                r.done()
            })
        });
    }
    r.opt("weight", weight);
    r.coll("weight_device", |cx| {
        list_of(cx, 0, 2, |cx| {
            let mut r = R::new(cx, den);
            r.put("path", sstr(abs_path(cx)));
            r.put("weight", weight(cx));
            r.done()
        })
    });
    r.done()
}

pub fn credential_spec(cx: &Cx, den: u64) -> P {
    let mut r = R::new(cx, den);
    match cx.draw(3) {
        0 => r.put("config", sstr(ident(cx))),
        1 => r.put("file", sstr(path(cx))),
        _ => r.put("registry", sstr(text(cx))),
    }
    r.ext();
    r.done()
}

pub fn u32_edge(cx: &Cx) -> u64 {
    *cx.pick(&[1000u64, 0, 1, 10, 65_534, u64::from(u32::MAX), u64::from(u32::MAX) - 1])
}

pub fn config_or_secret(cx: &Cx, den: u64) -> P {
    if cx.coin() {
        return sstr(ident(cx));
    }
    let mut r = R::new(cx, den);
    r.put("source", sstr(ident(cx)));
    r.opt("target", |cx| sstr(path(cx)));
    r.opt("uid", |cx| sstr(u32_edge(cx).to_string()));
    r.opt("gid", |cx| sstr(u32_edge(cx).to_string()));
    r.opt("mode", |cx| same(int(*cx.pick(&[0o440u64, 0, 0o777, 1, u64::from(u32::MAX)]))));
    r.ext();
    r.done()
}

pub fn extra_hosts(cx: &Cx) -> P {
    let pairs: Vec<(String, String)> = distinct(cx, 0, 3, hostname)
        .into_iter()
        .map(|h| {
            let mut ip = ip(cx);
            // a bare number would not be an address string
            if ip.is_empty() {
                ip = "127.0.0.1".into();
            }
            (h, ip)
        })
        .collect();
    let c = Y::Map(pairs.iter().map(|(h, i)| (s(h), s(i))).collect());
    let br = |cx: &Cx, i: &str| {
        if cx.chance(1, 3) {
            format!("[{i}]")
        } else {
            i.to_owned()
        }
    };
    let w = if cx.coin() {
        Y::Seq(
            pairs
                .iter()
                .map(|(h, i)| s(format!("{h}{}{}", cx.pick(&["=", ":"]), br(cx, i))))
                .collect(),
        )
    } else {
        Y::Map(pairs.iter().map(|(h, i)| (s(h), s(br(cx, i)))).collect())
    };
    p(w, c)
}

// ------------------------------------------------------------------ images

/// A valid image reference (no normalization applies).
pub fn image(cx: &Cx) -> String {
    let mut out = String::new();
    if cx.chance(1, 2) {
        out.push_str(&registry(cx));
        out.push('/');
    }
    out.push_str(&image_name(cx));
    match cx.draw(4) {
        0 | 1 => {
            out.push(':');
            out.push_str(&tag(cx));
        }
        2 => {
            out.push('@');
            out.push_str(&digest(cx));
        }
        _ => {}
    }
    out
}
pub fn registry(cx: &Cx) -> String {
    (*cx.pick(&["quay.io", "docker.io", "registry.example.com", "my-reg.io:5000", "a.b", "10.0.0.1:80"])).to_owned()
}
pub fn image_name(cx: &Cx) -> String {
    let part = |cx: &Cx| {
        let mut x = chars(cx, b"ab09", 1, 3);
        if cx.chance(1, 3) {
            x.push_str(cx.pick(&["_", "__", "-", "---"]));
            x.push_str(&chars(cx, b"cd12", 1, 3));
        }
        x
    };
    let mut out = part(cx);
    for _ in 0..cx.n(3) {
        out.push('/');
        out.push_str(&part(cx));
    }
    out
}
pub fn tag(cx: &Cx) -> String {
    match cx.draw(4) {
        0 => "latest".into(),
        1 => chars(cx, b"abZ09_", 1, 1) + &chars(cx, b"aZ0._-", 0, 8),
        2 => "1.2.3-rc.1".into(),
        _ => "t".repeat(*cx.pick(&[1, 127, 128])),
    }
}
pub fn digest(cx: &Cx) -> String {
    match cx.draw(3) {
        0 => format!("sha256:{}", chars(cx, b"0123456789abcdef", 64, 64)),
        1 => format!("sha512:{}", chars(cx, b"0123456789abcdef", 128, 128)),
        _ => format!("sha256:{}", "a".repeat(64)),
    }
}

// ------------------------------------------------------------------ build

pub fn context(cx: &Cx) -> P {
    match cx.draw(3) {
        0 => sstr(*cx.pick(&["./dir", ".", "/abs/dir", "..", "a b", "dir/sub", "./é"])),
        1 => {
            let (w, c) = *cx.pick(&[
                ("https://github.com/mycompany/my_private_repo.git", ""),
                ("https://example.com/r.git#main:sub", ""),
                ("https://example.com", "https://example.com/"),
                ("git://github.com/o/r.git#v1", ""),
                ("docker-image://alpine:3.20", ""),
                ("service:base", ""),
                ("oci-layout://foo", ""),
                ("HTTPS://EXAMPLE.com/A", "https://example.com/A"),
                ("ssh://git@host/x", ""),
            ]);
            p(s(w), s(if c.is_empty() { w } else { c }))
        }
        _ => sstr(format!("./{}", word(cx))),
    }
}

pub fn cache(cx: &Cx) -> P {
    let opts = |cx: &Cx, lo: usize| -> String {
        distinct(cx, lo, 3, |cx| format!("k{}", cx.draw(9)))
            .into_iter()
            .map(|k| format!(",{k}={}", cx.pick(&["v", "a=b", "/p/q", "x:y", "é", "true"])))
            .collect()
    };
    match cx.draw(4) {
        0 => sstr(image(cx)),
        1 => sstr(format!("type={}{}", cx.pick(&["local", "gha", "s3", "inline"]), opts(cx, 1))),
        2 => {
            let i = image(cx);
            let o = opts(cx, 0);
            let w = format!("type=registry,ref={i}{o}");
            p(s(&w), if o.is_empty() { s(i) } else { s(w) })
        }
        _ => {
            // ref not first
            let i = image(cx);
            p(
                s(format!("type=registry,mode=max,ref={i}")),
                s(format!("type=registry,ref={i},mode=max")),
            )
        }
    }
}

pub fn ssh(cx: &Cx) -> P {
    match cx.draw(2) {
        0 => sstr("default"),
        _ => sstr(format!("{}={}", cx.pick(&["id", "my proj", "a.b", "default"]), abs_path(cx))),
    }
}

pub fn additional_contexts(cx: &Cx) -> P {
    let keys = distinct(cx, 0, 3, word);
    if cx.coin() {
        let mut w = Vec::new();
        let mut c = Vec::new();
        for k in keys {
            match cx.draw(6) {
                0 => {
                    w.push(s(&k));
                    c.push((s(k), s(".")));
                }
                1 => {
                    w.push(s(format!("{k}=")));
                    c.push((s(k), s(".")));
                }
                2 => {
                    let v = *cx.pick(&["1.50", "007", "1e3", "true", "12", "+5", "nan"]);
                    w.push(s(format!("{k}={v}")));
                    c.push((s(k), s(v)));
                }
                _ => {
                    let v = context(cx);
                    if let (Y::Str(vw), vc) = (v.w, v.c) {
                        w.push(s(format!("{k}={vw}")));
                        c.push((s(k), vc));
                    }
                }
            }
        }
        p(Y::Seq(w), Y::Map(c))
    } else {
        let mut w = Vec::new();
        let mut c = Vec::new();
        for k in keys {
            let v = if cx.chance(1, 6) { p(Y::Null, s(".")) } else { context(cx) };
            w.push((s(&k), v.w));
            c.push((s(k), v.c));
        }
        p(Y::Map(w), Y::Map(c))
    }
}

pub fn build(cx: &Cx, den: u64) -> P {
    if cx.chance(1, 3) {
        return context(cx);
    }
    let mut r = R::new(cx, den);
    r.opt("context", context);
    if r.on() {
        if cx.coin() {
            r.put("dockerfile", sstr(path(cx)));
        } else {
            r.put("dockerfile_inline", sstr(text(cx)));
        }
    }
    r.coll("args", list_or_map);
    r.coll("ssh", |cx| {
        set_by(cx, 0, 3, ssh, |y| match y {
            Y::Str(x) => match x.split_once('=') {
                Some((a, b)) => format!("{a}={}", path_key(b)),
                None => x.clone(),
            },
            y => ykey(y),
        })
    });
    r.coll("cache_from", |cx| list_of(cx, 0, 2, cache));
    r.coll("cache_to", |cx| list_of(cx, 0, 2, cache));
    r.coll("additional_contexts", additional_contexts);
    r.coll("entitlements", |cx| list_of(cx, 0, 2, |cx| sstr(text(cx))));
    r.coll("extra_hosts", extra_hosts);
    r.text("isolation");
    r.flag("privileged", false);
    r.coll("labels", list_or_map);
    r.flag("no_cache", false);
    r.flag("pull", false);
    r.opt("network", |cx| if cx.coin() { sstr("none") } else { sstr(ident(cx)) });
    r.opt("shm_size", bytes);
    r.text("target");
    r.coll("secrets", |cx| list_of(cx, 0, 2, |cx| config_or_secret(cx, den.max(8))));
    r.coll("tags", |cx| list_of(cx, 0, 2, |cx| sstr(image(cx))));
    r.coll("ulimits", |cx| ulimits(cx, den));
    r.coll("platforms", |cx| list_of(cx, 0, 2, |cx| sstr(platform(cx))));
    r.ext();
    r.done()
}

pub fn ulimits(cx: &Cx, den: u64) -> P {
    let lim = |cx: &Cx| limit(cx, |cx| same(int(edge_u64(cx))));
    map_of(cx, 0, 3, |cx| chars(cx, LOWER_AF, 1, 4), |cx, _| {
        if cx.coin() {
            lim(cx)
        } else {
            let mut r = R::new(cx, den);
            r.put("soft", lim(cx));
            r.put("hard", lim(cx));
            r.ext();
            r.done()
        }
    })
}
const LOWER_AF: &[u8] = b"nofilepcz";

/// os, arch and variant combinations the specification lists
pub fn platform(cx: &Cx) -> String {
    (*cx.pick(&[
        "linux/amd64",
        "linux",
        "darwin",
        "windows/amd64",
        "linux/arm64/v8",
        "linux/arm/v7",
        "linux/arm/v6",
        "linux/arm",
        "freebsd/386",
        "js/wasm",
        "wasip1/wasm",
        "aix/ppc64",
        "linux/s390x",
        "linux/mips64le",
        "plan9/arm/v7",
        "android/arm64",
        "linux/riscv64",
        "openbsd/arm64/v8",
        "solaris/amd64",
        "linux/arm/v8",
    ]))
    .to_owned()
}

// ------------------------------------------------------------------ deploy

pub fn cpus(cx: &Cx) -> P {
    let f = *cx.pick(&[0.5f64, 1.5, 0.25, 0.001, 12.75, 1e6, 0.1]);
    match cx.draw(3) {
        0 => same(Y::Float(f)),
        1 => p(s(format!("{f}")), Y::Float(f)),
        _ => {
            let n = *cx.pick(&[1u64, 0, 2, 4, 64, 1000]);
            p(int(n), Y::Float(n as f64))
        }
    }
}

pub fn deploy_device(cx: &Cx, den: u64) -> P {
    let mut r = R::new(cx, den);
    r.put(
        "capabilities",
        set_of(cx, 1, 3, |cx| sstr(*cx.pick(&["gpu", "tpu", "nvidia-compute", "1", "GPU"]))),
    );
    r.text("driver");
    r.opt("count", |cx| match cx.draw(3) {
        0 => sstr("all"),
        1 => same(int(edge_u64(cx))),
        _ => p(s("7"), int(7)),
    });
    r.coll("device_ids", |cx| set_of(cx, 0, 3, |cx| sstr(text(cx))));
    r.coll("options", list_or_map);
    r.ext();
    r.done()
}

pub fn pids(cx: &Cx) -> P {
    limit(cx, |cx| same(int(u32_edge(cx))))
}

pub fn deploy(cx: &Cx, den: u64) -> P {
    let update = |cx: &Cx| {
        let mut r = R::new(cx, den);
        r.opt("parallelism", |cx| same(int(edge_u64(cx))));
        r.opt("delay", dur);
        r.one_of("failure_action", &["continue", "pause"]);
        r.opt("monitor", dur);
        r.opt("max_failure_ratio", |cx| same(int(edge_u64(cx))));
        r.one_of("order", &["stop-first", "start-first"]);
        r.ext();
        r.done()
    };
    let mut r = R::new(cx, den);
    r.opt("endpoint_mode", |cx| sstr(match cx.draw(3) {
        0 => "vip".to_owned(),
        1 => "dnsrr".to_owned(),
        _ => text(cx),
    }));
    r.coll("labels", list_or_map);
    r.one_of("mode", &["global", "replicated"]);
    r.opt("placement", |cx| {
        let mut r = R::new(cx, den);
        r.coll("constraints", |cx| list_of(cx, 0, 3, |cx| sstr(text(cx))));
        r.coll("preferences", |cx| {
            list_of(cx, 0, 3, |cx| {
                let mut r = R::new(cx, den.max(8));
                r.text("spread");
                r.ext();
                r.done()
            })
        });
        r.opt("max_replicas_per_node", |cx| same(int(edge_u64(cx))));
        r.ext();
        r.done()
    });
    r.opt("replicas", |cx| same(int(edge_u64(cx))));
    r.opt("resources", |cx| {
        let mut r = R::new(cx, den.max(8));
        r.opt("limits", |cx| {
            let mut r = R::new(cx, den.max(8));
            r.opt("cpus", cpus);
            r.opt("memory", bytes);
            r.opt("pids", pids);
            r.ext();
            r.done()
        });
        r.opt("reservations", |cx| {
            let mut r = R::new(cx, den.max(8));
            r.opt("cpus", cpus);
            r.opt("memory", bytes);
            r.coll("devices", |cx| list_of(cx, 0, 2, |cx| deploy_device(cx, den)));
            r.coll("generic_resources", |cx| {
                list_of(cx, 0, 2, |cx| {
                    let mut r = R::new(cx, den.max(8));
                    r.opt("discrete_resource_spec", |cx| {
                        let mut r = R::new(cx, den.max(8));
                        r.text("kind");
                        r.opt("value", |cx| same(int(edge_u64(cx))));
                        r.ext();
                        r.done()
                    });
                    r.ext();
                    r.done()
                })
            });
            r.ext();
            r.done()
        });
        r.ext();
        r.done()
    });
    r.opt("restart_policy", |cx| {
        let mut r = R::new(cx, den);
        r.one_of("condition", &["none", "on-failure", "any"]);
        r.opt("delay", dur);
        r.opt("max_attempts", |cx| same(int(edge_u64(cx))));
        r.opt("window", dur);
        r.ext();
        r.done()
    });
    r.opt("rollback_config", update);
    r.opt("update_config", update);
    r.ext();
    r.done()
}

// ------------------------------------------------------------------ healthcheck, develop

pub fn healthcheck(cx: &Cx, den: u64) -> P {
    if cx.chance(1, 5) {
        let c = Y::Rec(vec![(s("disable"), Y::Bool(true))]);
        return if cx.coin() {
            same(c)
        } else {
            p(Y::Rec(vec![(s("test"), Y::Seq(vec![s("NONE")]))]), c)
        };
    }
    let mut r = R::new(cx, den);
    if cx.chance(1, 8) {
        r.written("disable", Y::Bool(false));
    }
    r.may("test", |cx| match cx.draw(3) {
        0 => sstr(text(cx)),
        1 => {
            let mut v = vec![s("CMD")];
            for _ in 0..few(cx, 0, 3) {
                v.push(s(text(cx)));
            }
            same(Y::Seq(v))
        }
        _ => {
            let t = text(cx);
            p(Y::Seq(vec![s("CMD-SHELL"), s(&t)]), s(t))
        }
    });
    r.opt("interval", dur);
    r.opt("timeout", dur);
    r.may("retries", |cx| same(int(edge_u64(cx))));
    r.opt("start_period", dur);
    r.opt("start_interval", dur);
    r.ext();
    r.done()
}

pub fn develop(cx: &Cx, den: u64) -> P {
    let mut r = R::new(cx, den);
    r.coll("watch", |cx| {
        list_of(cx, 0, 2, |cx| {
            let mut r = R::new(cx, den);
            r.put("action", sstr(*cx.pick(&["sync", "rebuild", "sync+restart"])));
            r.coll("ignore", |cx| list_of(cx, 0, 2, |cx| sstr(path(cx))));
            r.put("path", sstr(path(cx)));
            r.opt("target", |cx| sstr(abs_path(cx)));
            r.ext();
            r.done()
        })
    });
    r.done()
}

pub fn env_file(cx: &Cx, den: u64) -> P {
    if cx.coin() {
        return sstr(path(cx));
    }
    list_of(cx, 0, 3, |cx| {
        if cx.coin() {
            sstr(path(cx))
        } else {
            let mut r = R::new(cx, den.max(12));
            r.put("path", sstr(path(cx)));
            r.flag("required", true);
            r.done()
        }
    })
}

// ------------------------------------------------------------------ ports

pub fn port_num(cx: &Cx) -> u64 {
    match cx.draw(3) {
        0 => *cx.pick(&[80u64, 443, 3000, 8080]),
        1 => *cx.pick(&[0u64, 1, 65_534, 65_535, 1023, 1024]),
        _ => cx.draw(65_536),
    }
}
/// (text, is single, start, size)
pub fn port_range(cx: &Cx, size: u64) -> (String, u64) {
    let start = port_num(cx).min(65_536 - size);
    if size == 1 {
        (start.to_string(), start)
    } else {
        (format!("{start}-{}", start + size - 1), start)
    }
}
pub fn range_size(cx: &Cx) -> u64 {
    match cx.draw(16) {
        15 => 1 + cx.draw(65_536),
        14 => *cx.pick(&[8u64, 9, 16, 17, 64, 65, 255, 256, 257, 1000, 1024, 1025, 32_768]),
        _ => *cx.pick(&[1u64, 1, 1, 2, 3, 10, 100, 65_535, 65_536]),
    }
}
pub fn proto(cx: &Cx) -> String {
    (*cx.pick(&["tcp", "udp", "sctp", "TCP", "x/y"])).to_owned()
}

pub fn range(cx: &Cx) -> P {
    let size = range_size(cx);
    let (t, start) = port_range(cx, size);
    if size == 1 {
        let c = int(start);
        match cx.draw(3) {
            0 => same(c),
            1 => p(s(t), c),
            _ => p(s(format!("{start}-{start}")), c),
        }
    } else {
        sstr(t)
    }
}

pub fn expose(cx: &Cx) -> P {
    let r = range(cx);
    if cx.chance(1, 3) {
        let pr = proto(cx);
        let t = |y: &Y| match y {
            Y::Int(i) => i.to_string(),
            Y::Str(x) => x.clone(),
            _ => String::new(),
        };
        p(s(format!("{}/{pr}", t(&r.w))), s(format!("{}/{pr}", t(&r.c))))
    } else {
        r
    }
}

pub fn short_port(cx: &Cx) -> P {
    let size = range_size(cx);
    let (cont, cstart) = port_range(cx, size);
    let host = if cx.coin() { Some(port_range(cx, size).0) } else { None };
    let hip = if cx.chance(1, 3) { Some(ip(cx)) } else { None };
    let pr = if cx.chance(1, 3) { Some(proto(cx)) } else { None };
    let mut c = String::new();
    let mut w = String::new();
    if let Some(i) = &hip {
        c.push_str(i);
        c.push(':');
        if cx.chance(1, 3) {
            w.push_str(&format!("[{i}]:"));
        } else {
            w.push_str(&format!("{i}:"));
        }
    }
    match &host {
        Some(h) => {
            c.push_str(&format!("{h}:"));
            w.push_str(&format!("{h}:"));
        }
        None if hip.is_some() => {
            c.push(':');
            w.push(':');
        }
        None => {
            if cx.chance(1, 6) {
                w.push(':');
            }
        }
    }
    c.push_str(&cont);
    w.push_str(&cont);
    if let Some(x) = &pr {
        c.push_str(&format!("/{x}"));
        w.push_str(&format!("/{x}"));
    }
    if hip.is_none() && host.is_none() && pr.is_none() && size == 1 {
        let c = int(cstart);
        if cx.coin() {
            same(c)
        } else {
            p(s(w), c)
        }
    } else {
        p(s(w), s(c))
    }
}

pub fn port(cx: &Cx, den: u64) -> P {
    if cx.coin() {
        return short_port(cx);
    }
    let mut r = R::new(cx, den);
    r.text("name");
    r.put("target", same(int(port_num(cx))));
    r.opt("published", range);
    r.opt("host_ip", |cx| sstr(ip(cx)));
    r.opt("protocol", |cx| sstr(proto(cx)));
    r.text("app_protocol");
    r.one_of("mode", &["host", "ingress"]);
    r.ext();
    r.done()
}

// ------------------------------------------------------------------ volumes

pub fn host_path(cx: &Cx) -> String {
    (*cx.pick(&["./data", "/srv/x", "../up", ".", "..", "./a/../b", "/", "./é", "./a b", ".//x"])).to_owned()
}

pub fn short_volume(cx: &Cx) -> P {
    let target = loop_abs(cx);
    match cx.draw(4) {
        0 => sstr(target),
        k => {
            let src = if k == 1 { ident_vol(cx) } else { host_path(cx) };
            let (w, c) = *cx.pick(&[
                ("", ""),
                (":ro", ":ro"),
                (":rw", ""),
                (":z", ":z"),
                (":Z", ":Z"),
                (":ro,z", ":ro,z"),
                (":Z,ro", ":ro,Z"),
                (":rw,z", ":z"),
                (":z,rw", ":z"),
            ]);
            p(s(format!("{src}:{target}{w}")), s(format!("{src}:{target}{c}")))
        }
    }
}
pub fn ident_vol(cx: &Cx) -> String {
    // identifiers cannot start with a dot, so never look like a path
    ident(cx)
}
/// absolute path without a colon
pub fn loop_abs(cx: &Cx) -> String {
    abs_path(cx).replace(':', "")
}

pub fn mount(cx: &Cx, den: u64) -> P {
    let mut r = R::new(cx, den);
    let common = |r: &mut R| {
        r.put("target", sstr(abs_path(r.cx)));
        r.flag("read_only", false);
        r.text("consistency");
        r.ext();
    };
    match cx.draw(5) {
        0 => {
            r.put("type", sstr("volume"));
            r.opt("source", |cx| sstr(ident(cx)));
            r.opt("volume", |cx| {
                let mut r = R::new(cx, den.max(8));
                r.flag("nocopy", false);
                r.opt("subpath", |cx| sstr(path(cx)));
                r.ext();
                r.done()
            });
        }
        1 => {
            r.put("type", sstr("bind"));
            r.put("source", sstr(host_path(cx)));
            r.opt("bind", |cx| {
                let mut r = R::new(cx, den.max(8));
                r.one_of(
                    "propagation",
                    &["private", "shared", "slave", "unbindable", "rprivate", "rshared", "rslave", "runbindable"],
                );
                r.flag("create_host_path", false);
                r.one_of("selinux", &["z", "Z"]);
                r.ext();
                r.done()
            });
        }
        2 => {
            r.put("type", sstr("tmpfs"));
            r.opt("tmpfs", |cx| {
                let mut r = R::new(cx, den.max(8));
                r.opt("size", bytes);
                r.opt("mode", |cx| same(int(*cx.pick(&[0o1777u64, 0, 0o755, u64::from(u32::MAX)]))));
                r.ext();
                r.done()
            });
        }
        3 => {
            r.put("type", sstr("npipe"));
            r.put("source", sstr(host_path(cx)));
        }
        _ => {
            r.put("type", sstr("cluster"));
            r.put("source", sstr(text(cx)));
        }
    }
    common(&mut r);
    r.done()
}

pub fn volumes(cx: &Cx, den: u64) -> P {
    // distinct by construction up to path spelling; equal canonical forms collapse
    set_by(cx, 1, 4, |cx| if cx.coin() { short_volume(cx) } else { mount(cx, den) }, |y| match y {
        Y::Str(_) => ycolon_key(y),
        Y::Rec(m) => {
            let mut m: Vec<String> = m
                .iter()
                .map(|(k, v)| {
                    let pathy = matches!(k, Y::Str(k) if k == "target" || k == "source");
                    format!("{k:?}={}", if pathy { ypath_key(v) } else { norm_paths(v) })
                })
                .collect();
            m.sort();
            m.join(";")
        }
        y => ykey(y),
    })
}
pub fn norm_paths(y: &Y) -> String {
    match y {
        Y::Rec(m) => {
            let mut v: Vec<String> = m
                .iter()
                .map(|(k, v)| {
                    format!("{k:?}={}", if matches!(k, Y::Str(k) if k == "subpath") { ypath_key(v) } else { ykey(v) })
                })
                .collect();
            v.sort();
            v.join(";")
        }
        y => ykey(y),
    }
}

// ------------------------------------------------------------------ networks, misc

pub fn mac(cx: &Cx) -> P {
    let b: Vec<u64> = (0..6).map(|_| *cx.pick(&[0x92u64, 0, 1, 0x0a, 0xff, 0xd0, 0x10])).collect();
    let c: Vec<String> = b.iter().map(|x| format!("{x:02x}")).collect();
    let w: Vec<String> = b
        .iter()
        .map(|x| match cx.draw(3) {
            0 => format!("{x:02x}"),
            1 => format!("{x:02X}"),
            _ => format!("{x:x}"),
        })
        .collect();
    p(s(w.join(":")), s(c.join(":")))
}

pub fn service_networks(cx: &Cx, den: u64) -> P {
    if cx.coin() {
        set_of(cx, 0, 3, |cx| sstr(ident(cx)))
    } else {
        map_of(cx, 0, 3, ident, |cx, _| {
            if cx.chance(1, 3) {
                return same(Y::Null);
            }
            let mut r = R::new(cx, den.max(4));
            r.coll("aliases", |cx| set_of(cx, 0, 3, |cx| sstr(hostname(cx))));
            r.opt("ipv4_address", |cx| sstr(ip4(cx)));
            r.opt("ipv6_address", |cx| sstr(ip6(cx)));
            r.coll("link_local_ips", |cx| set_of(cx, 0, 2, |cx| sstr(ip(cx))));
            r.opt("mac_address", mac);
            r.coll("driver_opts", driver_opts);
            r.opt("priority", |cx| same(int(edge_u64(cx))));
            r.ext();
            r.done()
        })
    }
}

pub fn network_mode(cx: &Cx) -> P {
    sstr(match cx.draw(5) {
        0 => "none".to_owned(),
        1 => "host".to_owned(),
        2 => format!("service:{}", ident(cx)),
        3 => format!("container:{}", ident(cx)),
        _ => text(cx),
    })
}

pub fn depends_on(cx: &Cx, den: u64) -> P {
    if cx.coin() {
        set_of(cx, 0, 3, |cx| sstr(ident(cx)))
    } else {
        map_of(cx, 0, 3, ident, |cx, _| {
            let mut r = R::new(cx, den.max(8));
            r.put(
                "condition",
                sstr(*cx.pick(&["service_started", "service_healthy", "service_completed_successfully"])),
            );
            r.flag("restart", false);
            r.flag("required", true);
            r.done()
        })
    }
}

pub fn link(cx: &Cx) -> P {
    if cx.coin() {
        sstr(ident(cx))
    } else {
        sstr(format!("{}:{}", ident(cx), cx.pick(&["alias", "a:b", "db 1", ""])))
    }
}

pub fn user_part(cx: &Cx) -> String {
    match cx.draw(3) {
        0 => u32_edge(cx).to_string(),
        1 => word(cx),
        _ => format!("_{}-1", word(cx)),
    }
}
pub fn user(cx: &Cx) -> P {
    if cx.coin() {
        sstr(user_part(cx))
    } else {
        sstr(format!("{}:{}", user_part(cx), user_part(cx)))
    }
}
pub fn group(cx: &Cx) -> P {
    match cx.draw(3) {
        0 => same(int(u32_edge(cx))),
        1 => {
            let n = u32_edge(cx);
            p(s(n.to_string()), int(n))
        }
        _ => sstr(word(cx)),
    }
}

pub fn command(cx: &Cx) -> P {
    if cx.coin() {
        sstr(text(cx))
    } else {
        list_of(cx, 0, 4, |cx| sstr(text(cx)))
    }
}

pub fn us(cx: &Cx) -> P {
    same(int(edge_u64(cx)))
}
/// microseconds as an integer, or a duration string
pub fn us_or_dur(cx: &Cx) -> P {
    if cx.coin() {
        dur(cx)
    } else {
        let n = edge_u64(cx);
        p(int(n), s(duration_parts(u128::from(n))))
    }
}
pub fn percent(cx: &Cx) -> P {
    same(int(*cx.pick(&[50u64, 0, 1, 99, 100])))
}

pub fn texts(cx: &Cx) -> P {
    set_of(cx, 0, 3, |cx| sstr(text(cx)))
}

pub fn logging(cx: &Cx, den: u64) -> P {
    let mut r = R::new(cx, den.max(4));
    r.text("driver");
    r.coll("options", |cx| map_of(cx, 0, 3, mapkey, |cx, _| same(opt(cx, string_or_number))));
    r.ext();
    r.done()
}

pub fn service(cx: &Cx, den: u64) -> P {
    let mut r = R::new(cx, den);
    let d = den.max(6);
    r.flag("attach", true);
    r.opt("build", |cx| build(cx, d));
    r.opt("blkio_config", |cx| blkio(cx, d));
    r.opt("cpu_count", |cx| same(int(edge_u64(cx))));
    r.opt("cpu_percent", percent);
    r.opt("cpu_shares", |cx| same(int(edge_u64(cx))));
    r.opt("cpu_period", us);
    r.opt("cpu_quota", us);
    r.opt("cpu_rt_runtime", us_or_dur);
    r.opt("cpu_rt_period", us_or_dur);
    r.opt("cpus", cpus);
    r.may("cpuset", cpuset);
    r.coll("cap_add", texts);
    r.coll("cap_drop", texts);
    r.one_of("cgroup", &["host", "private"]);
    r.text("cgroup_parent");
    r.opt("command", command);
    r.coll("configs", |cx| list_of(cx, 0, 3, |cx| config_or_secret(cx, d)));
    r.opt("container_name", |cx| sstr(ident(cx)));
    r.opt("credential_spec", |cx| credential_spec(cx, d));
    r.coll("depends_on", |cx| depends_on(cx, d));
    r.opt("deploy", |cx| deploy(cx, d));
    r.opt("develop", |cx| develop(cx, d));
    r.coll("device_cgroup_rules", |cx| set_of(cx, 0, 3, cgroup_rule));
    r.coll("devices", |cx| set_by(cx, 0, 3, device, ycolon_key));
    r.opt("dns", |cx| item_or_list(cx, |cx| sstr(ip(cx))));
    r.coll("dns_opt", texts);
    r.opt("dns_search", |cx| item_or_list(cx, |cx| sstr(hostname(cx))));
    r.opt("domainname", |cx| sstr(hostname(cx)));
    r.opt("entrypoint", command);
    r.opt("env_file", |cx| env_file(cx, d));
    r.coll("environment", list_or_map);
    r.coll("expose", |cx| set_of(cx, 0, 3, expose));
    r.opt("extends", |cx| {
        let mut r = R::new(cx, 16);
        r.put("service", sstr(ident(cx)));
        r.opt("file", |cx| sstr(path(cx)));
        r.done()
    });
    r.coll("annotations", list_or_map);
    r.coll("external_links", |cx| set_of(cx, 0, 3, link));
    r.coll("extra_hosts", extra_hosts);
    r.coll("group_add", |cx| set_of(cx, 0, 3, group));
    r.opt("healthcheck", |cx| healthcheck(cx, d));
    r.opt("hostname", |cx| sstr(hostname(cx)));
    r.opt("image", |cx| sstr(image(cx)));
    r.flag("init", false);
    r.opt("ipc", |cx| {
        sstr(match cx.draw(3) {
            0 => "shareable".to_owned(),
            1 => format!("service:{}", ident(cx)),
            _ => text(cx),
        })
    });
    r.one_of("uts", &["host"]);
    r.text("isolation");
    r.coll("labels", list_or_map);
    r.coll("links", |cx| set_of(cx, 0, 3, link));
    r.opt("logging", |cx| logging(cx, d));
    if r.on() {
        match cx.draw(3) {
            0 => r.put("network_mode", network_mode(cx)),
            _ => r.put("networks", service_networks(cx, d)),
        }
    }
    r.opt("mac_address", mac);
    r.opt("mem_limit", bytes);
    r.opt("mem_reservation", bytes);
    r.opt("mem_swappiness", percent);
    r.opt("memswap_limit", |cx| limit(cx, bytes));
    r.flag("oom_kill_disable", false);
    r.opt("oom_score_adj", |cx| same(int(*cx.pick(&[0i64, 1, -1, 1000, -1000, 500]))));
    r.text("pid");
    r.opt("pids_limit", pids);
    r.opt("platform", |cx| sstr(platform(cx)));
    r.coll("ports", |cx| set_of(cx, 0, 4, |cx| port(cx, d)));
    r.flag("privileged", false);
    r.coll("profiles", |cx| set_of(cx, 0, 3, |cx| sstr(ident(cx))));
    if r.on() {
        let (w, c) = *cx.pick(&[
            ("always", "always"),
            ("never", "never"),
            ("missing", "missing"),
            ("if_not_present", "missing"),
            ("build", "build"),
        ]);
        r.put("pull_policy", p(s(w), s(c)));
    }
    r.flag("read_only", false);
    r.one_of("restart", &["always", "no", "on-failure", "unless-stopped"]);
    r.text("runtime");
    r.opt("scale", |cx| same(int(edge_u64(cx))));
    r.coll("secrets", |cx| list_of(cx, 0, 3, |cx| config_or_secret(cx, d)));
    r.coll("security_opt", texts);
    r.opt("shm_size", bytes);
    r.flag("stdin_open", false);
    r.opt("stop_grace_period", us_or_dur);
    r.text("stop_signal");
    r.coll("storage_opt", |cx| kv_map(cx, 0, 3));
    r.coll("sysctls", list_or_map);
    r.opt("tmpfs", |cx| item_or_paths(cx, |cx| sstr(abs_path(cx))));
    r.flag("tty", false);
    r.coll("ulimits", |cx| ulimits(cx, d));
    r.opt("user", user);
    r.text("userns_mode");
    r.coll("volumes", |cx| volumes(cx, d));
    r.coll("volumes_from", |cx| {
        set_of(cx, 0, 3, |cx| {
            let i = format!("{}{}", cx.pick(&["", "container:"]), ident(cx));
            let (w, c) = *cx.pick(&[("", ""), (":ro", ":ro"), (":rw", "")]);
            // A container called `ro` or `rw` needs its access mode spelled out.
            let odd = i == "container:ro" || i == "container:rw";
            let w = if odd && w.is_empty() { ":rw" } else { w };
            let c = if odd && c.is_empty() { ":rw" } else { c };
            p(s(format!("{i}{w}")), s(format!("{i}{c}")))
        })
    });
    r.opt("working_dir", |cx| sstr(abs_path(cx)));
    r.ext();
    r.done()
}
