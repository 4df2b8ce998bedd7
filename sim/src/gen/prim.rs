//! Primitives shared by the whole grammar.

use crate::core::Cx;
use crate::y::{int, s, Y};

/// written form, canonical form
#[derive(Debug, Clone)]
pub struct P {
    pub w: Y,
    pub c: Y,
}

pub fn same(y: Y) -> P {
    P { w: y.clone(), c: y }
}
pub fn p(w: Y, c: Y) -> P {
    P { w, c }
}
pub fn sstr(x: impl Into<String>) -> P {
    same(s(x))
}

const LOWER: &[u8] = b"abcdefghijklmnopqrstuvwxyz";
const DIGIT: &[u8] = b"0123456789";

pub fn chars(cx: &Cx, set: &[u8], lo: usize, hi: usize) -> String {
    let n = cx.range(lo, hi);
    (0..n).map(|_| set[cx.n(set.len())] as char).collect()
}

/// How many there are: a few, rarely a crowd.
#[track_caller]
pub fn few(cx: &Cx, lo: usize, hi: usize) -> usize {
    if hi > 1 && hi > lo && cx.huge(1500) {
        return *cx.pick(&[9, 8, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 129]);
    }
    cx.range(lo, hi)
}

/// What YAML allows a key to have on one line, roughly.
const KEY: usize = 900;

/// A text longer than usual, rarely.
fn long(cx: &Cx, set: &[u8], most: usize) -> Option<String> {
    if cx.huge(3000) {
        let n = *cx.pick(&[33, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 500, 1000, 1024, 4096, 5000, 8192, 9000, 17000, 66000]);
        let n = n.min(most);
        // one letter after another, so that what is lost or doubled shows
        return Some((0..n).map(|i| set[(i + i / 7) % set.len()] as char).collect());
    }
    None
}

/// A short word, unique-ish.
pub fn word(cx: &Cx) -> String {
    let mut w = chars(cx, LOWER, 1, 4);
    if cx.chance(1, 4) {
        w.push(DIGIT[cx.n(10)] as char);
    }
    w
}

/// `[a-zA-Z0-9][a-zA-Z0-9._-]*`
pub fn ident(cx: &Cx) -> String {
    if let Some(t) = long(cx, b"ab.c-d_e0f1", KEY) {
        return t;
    }
    match cx.draw(8) {
        0..=4 => word(cx),
        5 => {
            let mut w = chars(cx, b"azAZ09", 1, 1);
            w.push_str(&chars(cx, b"az09._-AZ", 0, 6));
            w
        }
        6 => (*cx.pick(&["null", "true", "1", "0x1f", "1.5", "no", "1e3", "07", "default", "y", "rw", "ro", "host", "container"])).to_owned(),
        _ => format!("{}{}{}", word(cx), cx.pick(&["-", "_", "."]), word(cx)),
    }
}

/// Free text: any single or multi line string a user may write.
pub fn text(cx: &Cx) -> String {
    if let Some(t) = long(cx, if cx.coin() { LOWER } else { b"ab c,d: e#f'g\"h" }, 70000) {
        return t;
    }
    match cx.draw(8) {
        0..=2 => word(cx),
        3 => format!("{} {}", word(cx), word(cx)),
        4 => (*cx.pick(&[
            "true", "null", "~", "12", "-1", "1.5", "0o17", "1e3", ".inf", ".NaN", "yes", "0x10", "", " ", "- a", "a: b", "#c",
            "a #b", "'q'", "\"q\"", "&a", "*a", "!t", "%d", "@at", "`b`", "{a: b}", "[a]", "|", ">", "? k", ": v", "<<", "=",
            "2001-01-01", "1_000", "+1", "a\\b", "$VAR", "${A:-b}", "---", "...",
        ]))
        .to_owned(),
        5 => (*cx.pick(&[
            "é", "日本語", "emoji 😀", "a\tb", "line1\nline2", "trail \n", "\n", "a\n\nb\n", "nbsp\u{a0}x", "\u{7f}", "\u{1}",
            "tab\t", "cr\rx", "\u{feff}bom", "\u{2028}sep",
        ]))
        .to_owned(),
        6 => chars(cx, b"aZ0 :=,/\\'\"#-_.{}[]$%&*!|>?@~", 1, 10),
        _ => {
            let mut t = String::new();
            for _ in 0..cx.range(2, 30) {
                t.push_str(&word(cx));
                t.push(' ');
            }
            t.pop();
            t
        }
    }
}

/// A single-line, non-empty string usable as a free map key.
pub fn mapkey(cx: &Cx) -> String {
    if let Some(t) = long(cx, b"abc.d-e f", KEY) {
        return t.trim_end().to_owned();
    }
    match cx.draw(6) {
        0..=2 => word(cx),
        3 => word(cx).to_uppercase(),
        4 => format!("com.{}.{}", word(cx), word(cx)),
        _ => {
            let t: String = text(cx).chars().filter(|c| *c != '\n').take(60).collect();
            if t.is_empty() || t == "<<" {
                "k".into()
            } else {
                t
            }
        }
    }
}

pub fn name(cx: &Cx) -> String {
    if let Some(t) = long(cx, b"ab-c_d0", 70000) {
        return t;
    }
    let mut w = chars(cx, b"az09", 1, 1);
    w.push_str(&chars(cx, b"abz09_-", 0, 6));
    w
}

/// Hostname label-dotted.
pub fn hostname(cx: &Cx) -> String {
    let mut out = String::new();
    for i in 0..cx.range(1, 3) {
        if i > 0 {
            out.push('.');
        }
        match cx.draw(4) {
            0 | 1 => out.push_str(&word(cx)),
            2 => {
                out.push_str(&chars(cx, b"azAZ09", 1, 1));
                out.push_str(&chars(cx, b"az-09Z", 0, 5));
                out.push_str(&chars(cx, b"azAZ09", 1, 1));
            }
            _ => out.push_str(&chars(cx, b"azAZ09", 1, 1)),
        }
    }
    out
}

pub fn ip(cx: &Cx) -> String {
    let b = |cx: &Cx| *cx.pick(&[0u64, 1, 10, 127, 192, 255]);
    if cx.chance(1, 3) {
        (*cx.pick(&["::1", "::", "2001:db8::1", "fe80::1:2:3", "fc00::abcd:1", "2001:db8:1:2:3:4:5:6"])).to_owned()
    } else {
        format!("{}.{}.{}.{}", b(cx), b(cx), b(cx), b(cx))
    }
}
pub fn ip4(cx: &Cx) -> String {
    let b = |cx: &Cx| *cx.pick(&[0u64, 1, 10, 127, 192, 255]);
    format!("{}.{}.{}.{}", b(cx), b(cx), b(cx), b(cx))
}
pub fn ip6(cx: &Cx) -> String {
    (*cx.pick(&["::1", "::", "2001:db8::1", "fe80::1:2:3", "fc00::abcd:1"])).to_owned()
}

pub fn edge_u64(cx: &Cx) -> u64 {
    match cx.draw(4) {
        0 => cx.draw(10),
        1 => *cx.pick(&[0, 1, 9, 10, 99, 100, 255, 256, 1023, 1024, 65_535, 65_536]),
        2 => *cx.pick(&[
            u64::from(u32::MAX),
            u64::from(u32::MAX) + 1,
            i64::MAX as u64,
            i64::MAX as u64 + 1,
            u64::MAX,
            u64::MAX - 1,
        ]),
        _ => cx.u64() >> cx.draw(64),
    }
}

pub fn edge_i64(cx: &Cx) -> i64 {
    match cx.draw(3) {
        0 => -1 - (cx.draw(20) as i64),
        1 => *cx.pick(&[i64::MIN, i64::from(i32::MIN), -1000, -65_536]),
        _ => -((cx.u64() >> (1 + cx.draw(62))) as i64).max(1),
    }
}

pub fn float(cx: &Cx) -> f64 {
    *cx.pick(&[
        0.5, 1.5, 0.0, -0.25, 0.1, 1e10, 1e-7, 123_456.789, 1e300, 2.0, 100.0, -1.0, 1e21, 5e-324,
    ])
}

/// `Value`: string, number, or bool
pub fn value(cx: &Cx) -> Y {
    match cx.draw(8) {
        0..=2 => s(text(cx)),
        3 | 4 => int(edge_u64(cx)),
        5 => int(edge_i64(cx)),
        6 => Y::Bool(cx.coin()),
        _ => Y::Float(float(cx)),
    }
}
pub fn string_or_number(cx: &Cx) -> Y {
    match value(cx) {
        Y::Bool(_) => int(0),
        v => v,
    }
}
pub fn opt(cx: &Cx, f: impl Fn(&Cx) -> Y) -> Y {
    if cx.chance(1, 5) {
        Y::Null
    } else {
        f(cx)
    }
}

/// Any YAML value, for extension fields.
pub fn any_yaml(cx: &Cx, depth: usize) -> Y {
    if depth > 0 && cx.huge(3000) {
        // a tower
        let n = *cx.pick(&[8, 9, 16, 17, 32, 33, 50]);
        return (0..n).fold(any_yaml(cx, 0), |y, i| if i % 2 == 0 { Y::Seq(vec![y]) } else { Y::Map(vec![(s(word(cx)), y)]) });
    }
    match cx.draw(if depth == 0 { 6 } else { 10 }) {
        0 => s(text(cx)),
        1 => int(edge_u64(cx)),
        2 => Y::Bool(cx.coin()),
        3 => Y::Null,
        4 => Y::Float(float(cx)),
        5 => int(edge_i64(cx)),
        6 | 7 => Y::Seq((0..few(cx, 0, 3)).map(|_| any_yaml(cx, depth - 1)).collect()),
        _ => {
            let mut m: Vec<(Y, Y)> = Vec::new();
            for _ in 0..few(cx, 0, 3) {
                let k = match cx.draw(4) {
                    0..=2 => s(mapkey(cx)),
                    _ => int(cx.draw(100)),
                };
                if !m.iter().any(|(x, _)| *x == k) {
                    m.push((k, any_yaml(cx, depth - 1)));
                }
            }
            Y::Map(m)
        }
    }
}

pub fn distinct<T: PartialEq>(cx: &Cx, lo: usize, hi: usize, f: impl Fn(&Cx) -> T) -> Vec<T> {
    let mut out = Vec::new();
    for _ in 0..few(cx, lo, hi) {
        let v = f(cx);
        if !out.contains(&v) {
            out.push(v);
        }
    }
    out
}

/// A list written with possible repeats, canonical: first occurrences only.
pub fn set_of(cx: &Cx, lo: usize, hi: usize, f: impl Fn(&Cx) -> P) -> P {
    let mut w = Vec::new();
    let mut c: Vec<Y> = Vec::new();
    for _ in 0..few(cx, lo, hi) {
        let it = f(cx);
        let rep = cx.chance(1, 10);
        w.push(it.w.clone());
        if rep {
            w.push(it.w.clone());
        }
        if !c.contains(&it.c) {
            c.push(it.c);
        }
    }
    p(Y::Seq(w), Y::Seq(c))
}
pub fn list_of(cx: &Cx, lo: usize, hi: usize, f: impl Fn(&Cx) -> P) -> P {
    let mut w = Vec::new();
    let mut c = Vec::new();
    for _ in 0..few(cx, lo, hi) {
        let it = f(cx);
        w.push(it.w);
        c.push(it.c);
    }
    p(Y::Seq(w), Y::Seq(c))
}
pub fn item_or_list(cx: &Cx, f: impl Fn(&Cx) -> P) -> P {
    if cx.coin() {
        set_of(cx, 0, 3, f)
    } else {
        f(cx)
    }
}

/// User-keyed map with distinct keys.
pub fn map_of(cx: &Cx, lo: usize, hi: usize, k: impl Fn(&Cx) -> String, v: impl Fn(&Cx, &str) -> P) -> P {
    let mut w: Vec<(Y, Y)> = Vec::new();
    let mut c: Vec<(Y, Y)> = Vec::new();
    for key in distinct(cx, lo, hi, k) {
        let it = v(cx, &key);
        w.push((s(&key), it.w));
        c.push((s(&key), it.c));
    }
    p(Y::Map(w), Y::Map(c))
}

/// `Map`: keys to optional values
pub fn kv_map(cx: &Cx, lo: usize, hi: usize) -> P {
    map_of(cx, lo, hi, mapkey, |cx, _| same(opt(cx, value)))
}
/// `ListOrMap`
pub fn list_or_map(cx: &Cx) -> P {
    if cx.coin() {
        set_of(cx, 1, 4, |cx| {
            sstr(match cx.draw(4) {
                0 => word(cx),
                1 => format!("{}=", word(cx)),
                2 => format!("{}={}={}", word(cx), word(cx), word(cx)),
                _ => format!("{}={}", mapkey(cx), text(cx)),
            })
        })
    } else {
        kv_map(cx, 1, 4)
    }
}

pub fn path(cx: &Cx) -> String {
    match cx.draw(6) {
        0 => format!("./{}", word(cx)),
        1 => format!("/{}/{}", word(cx), word(cx)),
        2 => format!("../{}.{}", word(cx), word(cx)),
        3 => format!("~/{}", word(cx)),
        4 => (*cx.pick(&[".", "/", "..", "a b/c", "./é", "a//b", "./x/../y", "dir/", "C:\\x\\y"])).to_owned(),
        _ => format!("{}.yaml", word(cx)),
    }
}
pub fn abs_path(cx: &Cx) -> String {
    match cx.draw(4) {
        0 | 1 => format!("/{}", word(cx)),
        2 => format!("/{}/{}", word(cx), word(cx)),
        _ => (*cx.pick(&["/", "/a/", "/a b", "/é/x", "//x", "/a/../b", "/.hidden", "/a,b", "/a=b"])).to_owned(),
    }
}

// ------------------------------------------------------------------ durations

/// A duration in the written forms of the spec; canonical text.
pub fn duration_parts(micros: u128) -> String {
    // documented units: us, ms, s, m, h
    if micros == 0 {
        return "0s".into();
    }
    let mut rest = micros;
    let mut out = String::new();
    for (unit, size) in [
        ("h", 3_600_000_000u128),
        ("m", 60_000_000),
        ("s", 1_000_000),
        ("ms", 1_000),
        ("us", 1),
    ] {
        let n = rest / size;
        rest %= size;
        if n > 0 {
            out.push_str(&n.to_string());
            out.push_str(unit);
        }
    }
    out
}

/// (written text, microseconds)
pub fn duration(cx: &Cx) -> (String, u128) {
    const U: [(&str, u128); 5] = [
        ("h", 3_600_000_000),
        ("m", 60_000_000),
        ("s", 1_000_000),
        ("ms", 1_000),
        ("us", 1),
    ];
    let mut text = String::new();
    let mut total = 0u128;
    match cx.draw(5) {
        0 => {
            let n = cx.draw(100);
            return (format!("{n}s"), u128::from(n) * 1_000_000);
        }
        2 => {
            let n = edge_u64(cx);
            let (u, size) = *cx.pick(&U[2..]);
            return (format!("{n}{u}"), u128::from(n) * size);
        }
        1 => {
            // canonical-looking decomposition
            let us = u128::from(cx.u64() >> (20 + cx.draw(40)));
            return (duration_parts(us), us);
        }
        _ => {}
    }
    for (u, size) in U {
        if cx.chance(2, 5) {
            let n = *cx.pick(&[0u64, 1, 5, 59, 60, 90, 999, 1000, 1500, 100_000]);
            text.push_str(&n.to_string());
            text.push_str(u);
            total += u128::from(n) * size;
        }
    }
    if text.is_empty() {
        text = "1us".into();
        total = 1;
    }
    (text, total)
}
pub fn dur(cx: &Cx) -> P {
    let (t, us) = duration(cx);
    p(s(t), s(duration_parts(us)))
}

// ------------------------------------------------------------------ byte values

/// Written byte value and its canonical text.
pub fn bytes(cx: &Cx) -> P {
    if cx.chance(1, 4) {
        let n = edge_u64(cx);
        return p(int(n), s(format!("{n}b")));
    }
    let n = match cx.draw(4) {
        0 => cx.draw(20),
        1 => *cx.pick(&[0u64, 1, 512, 999, 1000, 1023, 1024, 1025, 2048, 1_048_576]),
        2 => edge_u64(cx),
        _ => cx.u64() >> (40 + cx.draw(20)),
    };
    let (w, c) = *cx.pick(&[
        ("b", "b"),
        ("k", "kb"),
        ("kb", "kb"),
        ("m", "mb"),
        ("mb", "mb"),
        ("g", "gb"),
        ("gb", "gb"),
        ("B", "b"),
        ("K", "kb"),
        ("M", "mb"),
        ("G", "gb"),
        ("", "b"),
    ]);
    p(s(format!("{n}{w}")), s(format!("{n}{c}")))
}

/// A limit: `-1` (number or text) for unlimited, or a value.
pub fn limit(cx: &Cx, f: impl Fn(&Cx) -> P) -> P {
    match cx.draw(4) {
        0 => p(int(-1), int(-1)),
        1 => p(s("-1"), int(-1)),
        _ => f(cx),
    }
}

/// How two written paths compare: std's component-wise path equality.
pub fn path_key(x: &str) -> String {
    let pb: std::path::PathBuf = std::path::Path::new(x).components().collect();
    format!("{}", pb.display())
}

/// A set of strings whose equality is given by `key`.
pub fn set_by(cx: &Cx, lo: usize, hi: usize, f: impl Fn(&Cx) -> P, key: impl Fn(&Y) -> String) -> P {
    let mut w = Vec::new();
    let mut c: Vec<Y> = Vec::new();
    let mut keys: Vec<String> = Vec::new();
    for _ in 0..few(cx, lo, hi) {
        let it = f(cx);
        if cx.chance(1, 10) {
            w.push(it.w.clone());
        }
        w.push(it.w);
        let k = key(&it.c);
        if !keys.contains(&k) {
            keys.push(k);
            c.push(it.c);
        }
    }
    p(Y::Seq(w), Y::Seq(c))
}
pub fn ykey(y: &Y) -> String {
    format!("{y:?}")
}
pub fn ypath_key(y: &Y) -> String {
    match y {
        Y::Str(x) => path_key(x),
        y => ykey(y),
    }
}
/// Key for `a:b:c` strings made of paths.
pub fn ycolon_key(y: &Y) -> String {
    match y {
        Y::Str(x) => x.split(':').map(path_key).collect::<Vec<_>>().join(":"),
        y => ykey(y),
    }
}
pub fn item_or_paths(cx: &Cx, f: impl Fn(&Cx) -> P) -> P {
    if cx.coin() {
        set_by(cx, 0, 3, f, ypath_key)
    } else {
        f(cx)
    }
}
