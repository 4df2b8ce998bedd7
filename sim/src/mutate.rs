//! Damage: what bad storage, bad transport and bad editors do to a document.

use crate::core::Cx;
use crate::y::{int, s, Y};

/// Words that mean something somewhere in a Compose file.
pub const TOKENS: &[&str] = &[
    "null", "~", "true", "false", "0", "-1", "1.5", "1e400", ".nan", ".inf", "''", "\"\"", "[]", "{}", "x-a", "<<", "18446744073709551616",
    "340282366920938463463374607431768211456", "-9223372036854775809", "4294967296", "65536", "65535", "256", "a:b", "a:b:c", "::", ":",
    "/", ".", "..", "C:\\a", "\\\\host\\share", "~/x", "/a:/b:ro", "80:80/udp", "127.0.0.1:80:80", "[::1]:80:80", "8080-8090:80", "80-70",
    "0-65535:0-65535", "1h1m1s1ms1us", "1.5h", "99999999999999999999h", "1kb", "1gib", "-5b", "host", "none", "service:a", "container:a",
    "unlimited", "-1", "no", "on-failure:3", "always", "sha256:00", "a@sha256:0", "a:tag@sha256:0", "a/b:c", "linux/amd64", "c 1:3 rwm",
    "a *:* rwm", "02:42:ac:11:00:02", "0-3,5", "3-0", "type=local,src=a", "user://x", "id=/a", "&a b", "*a", "!t x", "!!str 1", "|", ">-",
    "? a", "- ", "# c", "name:", "1000:1000", "0:0", "a b", "\u{fffd}", "\u{0}", "é", "1.2.3.4/33", "::1/129", "10.0.0.0/8",
];

fn splice(v: &mut Vec<u8>, at: usize, del: usize, ins: &[u8]) {
    let end = (at + del).min(v.len());
    v.splice(at.min(end)..end, ins.iter().copied());
}

/// Damage the bytes of a document with `n` drawn faults.
pub fn bytes(cx: &Cx, text: &[u8], n: usize) -> Vec<u8> {
    let mut v = text.to_vec();
    for _ in 0..n {
        if v.is_empty() {
            break;
        }
        let at = cx.n(v.len());
        match cx.draw(10) {
            0 => {
                cx.count("bit flip");
                v[at] ^= 1 << cx.n(8);
            }
            1 => {
                cx.count("truncated (torn write)");
                v.truncate(at);
            }
            2 => {
                cx.count("lost block");
                let n = 1 + cx.n(40);
                splice(&mut v, at, n, b"");
            }
            3 => {
                cx.count("zeroed block");
                let end = (at + 1 + cx.n(16)).min(v.len());
                v[at..end].fill(0);
            }
            4 => {
                cx.count("duplicated block");
                let end = (at + 1 + cx.n(60)).min(v.len());
                let b = v[at..end].to_vec();
                let to = cx.n(v.len() + 1);
                splice(&mut v, to, 0, &b);
            }
            5 | 6 => {
                // replace a scalar-looking run by a token
                cx.count("replaced token");
                let stop = |b: u8| b == b'\n' || b == b' ' || b == b',' || b == b'"' || b == b'\'';
                let a = (0..at).rev().find(|i| stop(v[*i])).map_or(0, |i| i + 1);
                let e = (at..v.len()).find(|i| stop(v[*i])).unwrap_or(v.len());
                let t = cx.pick(TOKENS).as_bytes();
                splice(&mut v, a, e.saturating_sub(a), t);
            }
            7 => {
                cx.count("inserted token");
                let t = cx.pick(TOKENS).as_bytes();
                splice(&mut v, at, 0, t);
            }
            8 => {
                // swap two lines
                cx.count("reordered blocks");
                let mut lines: Vec<Vec<u8>> = v.split(|b| *b == b'\n').map(<[u8]>::to_vec).collect();
                let n = lines.len();
                let (a, b) = (cx.n(n), cx.n(n));
                lines.swap(a, b);
                v = lines.join(&b'\n');
            }
            _ => {
                // change one character inside a scalar
                cx.count("replaced byte");
                v[at] = *cx.pick(b"0:/-.@,=#' \n9aAzZ_~*[{");
            }
        }
    }
    v
}

fn nodes(y: &Y) -> usize {
    1 + match y {
        Y::Seq(v) => v.iter().map(nodes).sum(),
        Y::Map(m) | Y::Rec(m) => m.iter().map(|(_, v)| nodes(v)).sum(),
        Y::Tagged(_, v) => nodes(v),
        _ => 0,
    }
}

fn nth<'a>(y: &'a mut Y, n: &mut usize) -> Option<&'a mut Y> {
    if *n == 0 {
        return Some(y);
    }
    *n -= 1;
    match y {
        Y::Seq(v) => v.iter_mut().find_map(|x| nth(x, n)),
        Y::Map(m) | Y::Rec(m) => m.iter_mut().find_map(|(_, v)| nth(v, n)),
        Y::Tagged(_, v) => nth(v, n),
        _ => None,
    }
}

/// Change the parts of a separated text: repeated, dropped, exchanged, moved, in another case, with
/// white space around them.
fn parts(cx: &Cx, t: &str) -> String {
    let seps: Vec<char> = [',', ':', '/', '.', '-', '=', ' ', '@'].into_iter().filter(|c| t.contains(*c)).collect();
    let sep = if seps.is_empty() { ',' } else { *cx.pick(&seps) };
    let mut v: Vec<String> = t.split(sep).map(str::to_owned).collect();
    let (i, j) = (cx.n(v.len()), cx.n(v.len()));
    match cx.draw(8) {
        0 | 1 => v.insert(j, v[i].clone()),
        2 => {
            v.remove(i);
        }
        3 => v.swap(i, j),
        4 => v[i] = if cx.coin() { v[i].to_uppercase() } else { v[i].to_lowercase() },
        5 => v[i] = format!("{}{}{}", cx.pick(&["", " ", "\t", "0", "+", "00"]), v[i], cx.pick(&["", " ", "\n", "\r", "0"])),
        6 => v[i] = String::new(),
        // another separator in one place
        _ => {
            let other = cx.pick(&[",", ":", "/", ".", "-", "=", " ", "@", "::", ""]);
            let at = cx.n(v.len());
            let (a, b) = (v[..at].join(&sep.to_string()), v[at..].join(&sep.to_string()));
            return format!("{a}{other}{b}");
        }
    }
    v.join(&sep.to_string())
}

pub fn twist(cx: &Cx, t: &str) -> String {
    if cx.chance(1, 4) {
        return parts(cx, t);
    }
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..=cx.n(2) {
        let at = cx.n(c.len() + 1);
        match cx.draw(6) {
            0 if at < c.len() => {
                c.remove(at);
            }
            1 if at < c.len() => c.insert(at, c[at]),
            2 if at < c.len() => c.truncate(at),
            3 => {
                let x: Vec<char> = cx.pick(TOKENS).chars().collect();
                c.splice(at..at, x);
            }
            4 if at < c.len() => c[at] = *cx.pick(&[':', '/', '@', '-', '.', '0', '9', 'A', '=', ' ', 'é', '_', '+', ',', '"', '\n', '[', ']']),
            _ => c.insert(at, *cx.pick(&[':', '/', '@', '-', '.', '0', '9', 'A', '=', ' ', 'é', '_', '+', ',', '"', '\n', '[', ']'])),
        }
    }
    c.into_iter().collect()
}

/// Replace one drawn node of the document by something near it, or something else.
pub fn tree(cx: &Cx, y: &mut Y) {
    cx.count("damaged value");
    let mut i = cx.n(nodes(y));
    let Some(x) = nth(y, &mut i) else { return };
    let new = match (cx.draw(10), &*x) {
        (0..=4, Y::Str(t)) => s(twist(cx, t)),
        (0..=4, Y::Int(n)) => match cx.draw(4) {
            0 => int(n + 1),
            1 => int(n.wrapping_mul(-1)),
            2 => int(n.wrapping_mul(1 << 33)),
            _ => s(n.to_string()),
        },
        (0..=4, Y::Seq(v)) => {
            let mut v = v.clone();
            match cx.draw(3) {
                0 if !v.is_empty() => {
                    let e = v[cx.n(v.len())].clone();
                    v.push(e);
                }
                1 if !v.is_empty() => {
                    let at = cx.n(v.len());
                    v.remove(at);
                }
                _ => v.push(Y::Null),
            }
            Y::Seq(v)
        }
        (0..=4, Y::Map(m) | Y::Rec(m)) => {
            let mut m = m.clone();
            match cx.draw(4) {
                0 | 1 if !m.is_empty() => {
                    let at = cx.n(m.len());
                    if let Y::Str(k) = &m[at].0 {
                        let k = s(twist(cx, k));
                        if m.iter().all(|(x, _)| *x != k) {
                            m[at].0 = k;
                        }
                    }
                }
                2 if !m.is_empty() => {
                    let at = cx.n(m.len());
                    m.remove(at);
                }
                _ => {
                    let k = s(*cx.pick(TOKENS));
                    if m.iter().all(|(x, _)| *x != k) {
                        m.push((k, s(*cx.pick(TOKENS))));
                    }
                }
            }
            Y::Map(m)
        }
        (5 | 6, _) => s(*cx.pick(TOKENS)),
        (7, _) => Y::Seq(vec![x.clone()]),
        (8, _) => Y::Map(vec![(s(*cx.pick(TOKENS)), x.clone())]),
        _ => (*cx.pick(&[
            Y::Null,
            Y::Bool(true),
            Y::Int(0),
            Y::Int(-1),
            Y::Int(i128::from(u64::MAX)),
            Y::Float(1.5),
            Y::Float(f64::NAN),
            Y::Seq(vec![]),
            Y::Map(vec![]),
        ]))
        .clone(),
    };
    *x = new;
}

/// Whether loading the text could legitimately ask for an unreasonable amount of memory (a
/// CPU set or port range over millions of entries).
pub fn huge(text: &[u8]) -> bool {
    let mut run = 0usize;
    let mut after_dash = false;
    for &b in text {
        if b.is_ascii_digit() {
            run += 1;
            if after_dash && run >= 7 {
                return true;
            }
        } else {
            after_dash = b == b'-' && run > 0;
            run = 0;
        }
    }
    false
}
