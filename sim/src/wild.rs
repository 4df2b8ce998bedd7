//! Texts with the outline of a form, filled with parts that are on, near and beyond its borders:
//! repeated, missing, exchanged and empty ones. A reference has to say which of them are accepted.

use crate::core::Cx;

fn one<'a>(cx: &Cx, v: &[&'a str]) -> &'a str {
    cx.pick(v)
}

fn many(cx: &Cx, lo: usize, hi: usize, sep: &str, v: &[&str]) -> String {
    let v: Vec<&str> = (0..cx.range(lo, hi)).map(|_| one(cx, v)).collect();
    v.join(sep)
}

/// A part that is usually there.
fn maybe(cx: &Cx, head: &str, v: String) -> String {
    if cx.coin() {
        format!("{head}{v}")
    } else {
        String::new()
    }
}

const IDENTS: &[&str] = &["a", "0", "a.b", "a_b", "a-b", "A", "ro", "rw", "container", "service", "none", "host", "a-", "a."];
const ODD_IDENTS: &[&str] = &["a", "a", "0b", "", "-a", ".a", "_a", "a b", "é", "a:b", "a/b", "a\n", "A", "ro", "none", "x-", "x-a", "aé", "a,b", "a=b", "default"];
const PATHS: &[&str] = &["/", "/a", "/a/b", "/a/", "//", "/..", "./a", "../a", "~", "~/a", "~a", ".", "..", "a", "a/b", "", " /a", "/a b", "C:\\a", "\\\\a", ".a", "...", "/é"];
const PORTS: &[&str] = &["80", "0", "65535", "65536", "1", "080", "", " 80", "80 ", "a", "-1", "1e3", "00000080", "4294967376", "8_0"];
const NUMS: &[&str] = &["0", "1", "7", "01", "255", "256", "65535", "65536", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-1", "-0", "", "a", "1.0", " 1", "1 ", "0x1", "1_0"];
const HOSTS: &[&str] = &["127.0.0.1", "0.0.0.0", "[::1]", "::1", "[::]", "[127.0.0.1]", "256.0.0.1", "1.2.3", "localhost", "", "[::ffff:1.2.3.4]", "[fe80::1%eth0]", "1.2.3.4.5", "[]", "01.2.3.4", "[::1", "::1]"];

fn ports(cx: &Cx) -> String {
    match cx.draw(4) {
        0 => format!("{}-{}", one(cx, PORTS), one(cx, PORTS)),
        1 => (*cx.pick(&["80-82", "8080-8082", "80-80", "82-80", "80-", "-82", "80-81-82", "0-1", "65534-65535", "1-3"])).to_owned(),
        _ => one(cx, PORTS).to_owned(),
    }
}

fn labels(cx: &Cx) -> String {
    let l = |cx: &Cx| match cx.draw(8) {
        0 => "a".repeat(*cx.pick(&[62, 63, 64])),
        1 => one(cx, ODD_IDENTS).to_owned(),
        _ => one(cx, &["a", "0", "a-b", "A", "a--b", "com", "9"]).to_owned(),
    };
    let n = *cx.pick(&[1, 1, 2, 3, 5]);
    let v: Vec<String> = (0..n).map(|_| l(cx)).collect();
    let t = v.join(".");
    format!("{}{t}{}", one(cx, &["", "", "", "", ".", "-"]), one(cx, &["", "", "", "", ".", "-", ".."]))
}

fn image(cx: &Cx) -> String {
    let part = |cx: &Cx| one(cx, &["a", "ab", "a.b", "a_b", "a__b", "a-b", "a--b", "a---b", "0", "A", "", "a_", "_a", "a..b", "a._b", "a___b", "-a", "a-", ".a", "library", "localhost", "é", "a b"]).to_owned();
    let reg = maybe(
        cx,
        "",
        format!("{}{}/", one(cx, &["quay.io", "localhost", "a", "A.b", "a-b.c", "127.0.0.1", "[::1]", "a..b", "-a.b", "a.b-", "docker.io", "LOCALHOST", "a_b.c", ""]), maybe(cx, ":", one(cx, PORTS).to_owned())),
    );
    let n = cx.range(1, 3);
    let name: Vec<String> = (0..n).map(|_| part(cx)).collect();
    let tag = maybe(
        cx,
        ":",
        match cx.draw(5) {
            0 => "t".repeat(*cx.pick(&[127, 128, 129])),
            _ => one(cx, &["1", "latest", "v1.0", "a-b", "A", "_a", "a_b", ".a", "-a", "", "a:b", "a/b", "é", "a+b", "80", "65536"]).to_owned(),
        },
    );
    let digest = if cx.chance(1, 3) {
        let hex = |n: usize, c: &str| c.repeat(n);
        let e = match cx.draw(6) {
            0 => hex(63, "a"),
            1 => hex(64, "A"),
            2 => hex(65, "0"),
            3 => one(cx, &["", "0", "abc", "g", "a:b"]).to_owned(),
            _ => hex(64, one(cx, &["0", "a", "f", "9"])),
        };
        format!("@{}:{e}", one(cx, &["sha256", "sha512", "a", "a+b", "a.b_c-d", "SHA256", "", "+a", "a+", "a++b", "0a", "sha_256"]))
    } else {
        String::new()
    };
    match cx.draw(12) {
        0 => format!("{reg}{}{digest}{tag}", name.join("/")),
        1 => format!("{}{tag}{tag}{digest}", name.join("/")),
        2 => format!("{}{digest}{digest}", name.join("/")),
        _ => format!("{reg}{}{tag}{digest}", name.join("/")),
    }
}

/// A text of the given kind of value, or nothing if the kind has no outline.
pub fn text(cx: &Cx, kind: &str) -> Option<String> {
    let family = kind.split(" (").next().unwrap_or(kind);
    Some(match family {
        "identifier" | "build network" => one(cx, if cx.coin() { IDENTS } else { ODD_IDENTS }).to_owned(),
        "project name" => many(cx, 1, 3, "", &["a", "0", "-", "_", "A", ".", "é", " ", "z", "9", "\n", ""]),
        "map key" => many(cx, 1, 3, "", &["a", "A", " ", "\n", "\r", "=", ":", "é", "", "\t", "#", "x-"]),
        "extension key" => format!("{}{}", one(cx, &["x-", "x-", "x-", "X-", "x", "-", "x_", "x--", " x-"]), many(cx, 0, 3, "", &["a", "\n", " ", "x-", "é", "\r"])),
        "hostname" => labels(cx),
        "user" | "group" => {
            let name = |cx: &Cx| match cx.draw(5) {
                0 => one(cx, NUMS).to_owned(),
                1 => "a".repeat(*cx.pick(&[31, 32, 33])),
                2 => many(cx, 1, 4, "", &["a", "0", "-", "_", "$", "A", ".", "é", " ", "9"]),
                3 => format!("{}$", "a".repeat(*cx.pick(&[1, 31, 32]))),
                _ => one(cx, &["root", "_", "a$", "$", "a$b", "-a", "a-", "1a", "a1", "1-", "0"]).to_owned(),
            };
            let g = if family == "user" || cx.chance(1, 8) { maybe(cx, ":", name(cx)) } else { String::new() };
            format!("{}{g}", name(cx))
        }
        "uid" | "gid" | "mode" | "ulimit" | "port number" | "oom score" | "weight" | "percent" | "pids limit" | "device count" | "replicas" | "microseconds" => one(cx, NUMS).to_owned(),
        "duration" => {
            let unit = |cx: &Cx| one(cx, &["h", "m", "s", "ms", "us", "h", "m", "s", "ms", "us", "ns", "d", "", "H", "µs", "min", " s", "sec"]).to_owned();
            let n = cx.range(1, 5);
            let v: Vec<String> = (0..n).map(|_| format!("{}{}", one(cx, &["0", "1", "59", "60", "61", "999", "1000", "5124095576030431", "18446744073709551615", "18446744073709551616", "01", "", "1.5", "-1"]), unit(cx))).collect();
            v.concat()
        }
        "bytes" | "bytes or unlimited" => format!("{}{}", one(cx, NUMS), one(cx, &["b", "k", "kb", "m", "mb", "g", "gb", "K", "KB", "M", "MB", "G", "GB", "B", "kB", "", "t", "tb", "kib", " kb", "bb", "Gb", "b b"])),
        "ulimit resource" => many(cx, 0, 3, "", &["nofile", "a", "A", "-", "_", "0", " ", "é", "ñ"]),
        "port range" => ports(cx),
        "exposed port" => format!("{}{}", ports(cx), maybe(cx, "/", one(cx, &["tcp", "udp", "TCP", "sctp", "", "a/b", "Udp"]).to_owned())),
        "short port" => format!("{}{}{}{}", maybe(cx, "", format!("{}:", one(cx, HOSTS))), maybe(cx, "", format!("{}:", ports(cx))), ports(cx), maybe(cx, "/", one(cx, &["tcp", "udp", "TCP", "sctp", "", "a/b"]).to_owned())),
        "address" | "IPv4 address" | "IPv6 address" => one(cx, &["127.0.0.1", "0.0.0.0", "255.255.255.255", "256.0.0.1", "1.2.3", "1.2.3.4.5", "01.2.3.4", "::", "::1", "1::1::1", "::ffff:1.2.3.4", "fe80::1%a", "0:0:0:0:0:0:0:1", "g::", "[::1]", "", " ::1", "1:2:3:4:5:6:7:8:9", "1:2:3:4:5:6:1.2.3.4"]).to_owned(),
        "subnet" => format!("{}/{}", one(cx, &["10.0.0.0", "10.1.2.3", "0.0.0.0", "::", "fd00::", "fd00::1", "1.2.3", "", "a"]), one(cx, &["0", "8", "24", "32", "33", "64", "128", "129", "", "-1", "08", "a", "8/8"])),
        "short volume" => {
            let src = one(cx, if cx.coin() { PATHS } else { ODD_IDENTS });
            let dst = one(cx, if cx.chance(1, 4) { PATHS } else { &["/", "/a", "/a/b", "/.."] });
            match cx.draw(6) {
                0 => dst.to_owned(),
                1 => format!("{src}:{dst}"),
                2 => format!("{src}:{dst}:"),
                _ => format!("{src}:{dst}:{}", many(cx, 1, 4, one(cx, &[",", ",", ",", ",", ":", " ", ", "]), &["ro", "rw", "z", "Z", "ro", "rw", "z", "Z", "", "RO", "nocopy", "r"])),
            }
        }
        "absolute path" | "host path" => one(cx, PATHS).to_owned(),
        "device" => {
            let n = *cx.pick(&[1, 2, 2, 3, 3]);
            let v: Vec<&str> = (0..n).map(|_| one(cx, if cx.chance(1, 3) { PATHS } else { &["/", "/dev/a", "/dev/b"] })).collect();
            format!("{}{}", v.join(":"), maybe(cx, ":", many(cx, 0, 4, "", &["r", "w", "m", "r", "w", "m", "R", "x", " "])))
        }
        "cgroup rule" => {
            let n = |cx: &Cx| one(cx, if cx.coin() { &["*", "0", "7", "65535"] } else { NUMS }).to_owned();
            format!("{}{}{}{}{}{}{}", one(cx, &["a", "b", "c", "a", "b", "c", "", "d", "A", "ab"]), one(cx, &[" ", " ", " ", "  ", ":", ""]), n(cx), one(cx, &[":", ":", ":", " ", "::", ""]), n(cx), one(cx, &[" ", " ", " ", "", ":"]), many(cx, 0, 4, "", &["r", "w", "m", "r", "w", "m", "R", "x"]))
        }
        "cpu set" => {
            let n = cx.range(1, 5);
            let v: Vec<String> = (0..n)
                .map(|_| {
                    let a = one(cx, &["0", "1", "2", "3", "4", "5", "7", "", "-1", "01", " 1", "a"]);
                    if cx.coin() {
                        format!("{a}-{}", one(cx, &["0", "1", "2", "3", "4", "6", "9", "", "03", "a"]))
                    } else {
                        a.to_owned()
                    }
                })
                .collect();
            format!("{}{}{}", one(cx, &["", "", "", "", ","]), v.join(","), one(cx, &["", "", "", "", ",", ",,"]))
        }
        "mac address" => {
            let n = *cx.pick(&[6, 6, 6, 6, 5, 7, 1]);
            let v: Vec<&str> = (0..n).map(|_| one(cx, if cx.chance(1, 8) { &["", "100", "g", "-1", " 1", "1 ", "0f0", "0x1"] } else { &["00", "ff", "0", "F", "aB", "a", "001"] })).collect();
            format!("{}{}", v.join(one(cx, &[":", ":", ":", ":", "-", ""])), one(cx, &["", "", "", "", ":"]))
        }
        "image" => image(cx),
        "cache" => match cx.draw(4) {
            0 => image(cx),
            _ => {
                let n = cx.n(4);
                let mut v: Vec<String> = vec![format!("type={}", one(cx, &["registry", "registry", "local", "gha", "", "Registry", " local", "a=b", "type"]))];
                for _ in 0..n {
                    v.push(match cx.draw(4) {
                        0 => format!("ref={}", one(cx, &["a", "a:b", "quay.io/a", "A", "", "a b", "a=b"])),
                        _ => format!("{}{}{}", one(cx, &["mode", "dest", "src", "type", "", "a b", "a", "ref"]), one(cx, &["=", "=", "=", "=", "", "=="]), one(cx, &["max", "a=b", "/a", "", "a b", "1"])),
                    });
                }
                if cx.chance(1, 8) {
                    let i = cx.n(v.len());
                    v.swap(0, i);
                }
                v.join(",")
            }
        },
        "ssh" => format!("{}{}{}", one(cx, &["default", "a", "", "id", "A b", "Default"]), one(cx, &["", "=", "=", "=="]), one(cx, &["", "/a", "a=b", " ", "default"])),
        "platform" => {
            let os = one(cx, &["linux", "windows", "darwin", "android", "freebsd", "aix", "js", "wasip1", "ios", "plan9", "solaris", "netbsd", "openbsd", "illumos", "dragonfly", "Linux", "", "macos"]);
            let arch = one(cx, &["amd64", "386", "arm", "arm64", "ppc64", "ppc64le", "s390x", "riscv64", "mips", "mipsle", "mips64", "mips64le", "loong64", "wasm", "x86_64", "", "ARM"]);
            format!("{os}{}", maybe(cx, "/", format!("{arch}{}", maybe(cx, "/", one(cx, &["v6", "v7", "v8", "v9", "v5", "", "V7", "7", "v7/"]).to_owned()))))
        }
        "link" => format!("{}{}", one(cx, if cx.coin() { IDENTS } else { ODD_IDENTS }), maybe(cx, ":", one(cx, ODD_IDENTS).to_owned())),
        "ipc" | "network mode" => format!("{}{}", one(cx, &["service:", "container:", "", "Service:", "service", "service: ", "shareable", "host", "none", "container:service:", " host"]), one(cx, if cx.coin() { &[""] } else { ODD_IDENTS })),
        "volumes from" => format!("{}{}{}{}", one(cx, &["", "container:", "container:container:", "Container:", "service:"]), one(cx, if cx.chance(2, 3) { IDENTS } else { ODD_IDENTS }), one(cx, &["", ":ro", ":rw", ":RO", ":"]), one(cx, &["", "", "", ":ro", ":rw"])),
        "cpus" => one(cx, &["0", "1", "1.5", "-0", "-0.0", "-1", "inf", "-inf", "NaN", "1e3", "", "a", " 1", "4294967295", "4294967296", ".5", "5."]).to_owned(),
        "restart" | "pull policy" | "cgroup" | "condition" | "deploy mode" | "failure action" | "order" | "port mode" | "propagation" | "restart condition" | "selinux" | "uts" | "watch action" => format!(
            "{}{}",
            one(cx, &["no", "always", "on-failure", "unless-stopped", "missing", "if_not_present", "never", "build", "host", "private", "service_started", "service_healthy", "service_completed_successfully", "global", "replicated", "continue", "rollback", "pause", "start-first", "stop-first", "ingress", "rprivate", "shared", "rslave", "slave", "rshared", "none", "any", "z", "Z", "rebuild", "sync", "sync+restart", "if-not-present", "on_failure", "start_first", "", "Host", "true"]),
            one(cx, &["", "", "", "", "", "", " ", ":", ":0", ":3", "\n", ":-1", ":a"])
        ),
        _ => return None,
    })
}
