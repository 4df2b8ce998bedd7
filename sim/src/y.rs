//! `Y`: the harness's own YAML tree, used both for the written form of a document
//! and for the canonical (expected) form of what the library writes back.

use crate::core::Cx;
use serde_yaml::Value;
use std::fmt::Write as _;

#[derive(Debug, Clone, PartialEq)]
pub enum Y {
    Null,
    Bool(bool),
    Int(i128),
    Float(f64),
    Str(String),
    Seq(Vec<Y>),
    /// A user-keyed map: order is significant.
    Map(Vec<(Y, Y)>),
    /// A record: order of the fields is not significant, except among `x-` keys.
    Rec(Vec<(Y, Y)>),
    /// Emitted as a `<<` merge of inline maps (written form only).
    Tagged(String, Box<Y>),
}

pub fn s(x: impl Into<String>) -> Y {
    Y::Str(x.into())
}
pub fn int(x: impl Into<i128>) -> Y {
    Y::Int(x.into())
}

impl Y {
    pub fn entries(&self) -> Option<&Vec<(Y, Y)>> {
        match self {
            Y::Map(m) | Y::Rec(m) => Some(m),
            _ => None,
        }
    }
    pub fn entries_mut(&mut self) -> Option<&mut Vec<(Y, Y)>> {
        match self {
            Y::Map(m) | Y::Rec(m) => Some(m),
            _ => None,
        }
    }
    pub fn get(&self, key: &str) -> Option<&Y> {
        self.entries()?
            .iter()
            .find(|(k, _)| matches!(k, Y::Str(k) if k == key))
            .map(|(_, v)| v)
    }
    pub fn get_mut(&mut self, key: &str) -> Option<&mut Y> {
        self.entries_mut()?
            .iter_mut()
            .find(|(k, _)| matches!(k, Y::Str(k) if k == key))
            .map(|(_, v)| v)
    }
    pub fn set(&mut self, key: &str, v: Y) {
        if let Some(slot) = self.get_mut(key) {
            *slot = v;
        } else if let Some(m) = self.entries_mut() {
            m.push((s(key), v));
        }
    }
    pub fn remove(&mut self, key: &str) {
        if let Some(m) = self.entries_mut() {
            m.retain(|(k, _)| !matches!(k, Y::Str(k) if k == key));
        }
    }
    pub fn of(v: &Value) -> Y {
        match v {
            Value::Null => Y::Null,
            Value::Bool(b) => Y::Bool(*b),
            Value::Number(n) => match (n.as_u64(), n.as_i64(), n.as_f64()) {
                (Some(n), _, _) => int(n),
                (_, Some(n), _) => int(n),
                (_, _, f) => Y::Float(f.unwrap_or_default()),
            },
            Value::String(t) => s(t.clone()),
            Value::Sequence(v) => Y::Seq(v.iter().map(Y::of).collect()),
            Value::Mapping(m) => Y::Map(m.iter().map(|(k, v)| (Y::of(k), Y::of(v))).collect()),
            Value::Tagged(t) => Y::Tagged(t.tag.to_string().trim_start_matches('!').to_owned(), Box::new(Y::of(&t.value))),
        }
    }
    pub fn to_value(&self) -> Value {
        match self {
            Y::Null => Value::Null,
            Y::Bool(b) => Value::Bool(*b),
            Y::Int(i) => {
                if let Ok(u) = u64::try_from(*i) {
                    Value::Number(u.into())
                } else {
                    Value::Number(i64::try_from(*i).unwrap_or(i64::MIN).into())
                }
            }
            Y::Float(f) => Value::Number((*f).into()),
            Y::Str(x) => Value::String(x.clone()),
            Y::Seq(v) => Value::Sequence(v.iter().map(Y::to_value).collect()),
            Y::Map(m) | Y::Rec(m) => {
                let mut out = serde_yaml::Mapping::new();
                for (k, v) in m {
                    out.insert(k.to_value(), v.to_value());
                }
                Value::Mapping(out)
            }
            Y::Tagged(t, v) => Value::Tagged(Box::new(serde_yaml::value::TaggedValue {
                tag: serde_yaml::value::Tag::new(t.clone()),
                value: v.to_value(),
            })),
        }
    }
}

fn show(v: &Value) -> String {
    let mut t = serde_yaml::to_string(v).unwrap_or_default();
    if t.len() > 300 {
        let mut n = 300;
        while !t.is_char_boundary(n) {
            n -= 1;
        }
        t.truncate(n);
    }
    t.trim_end().replace('\n', " | ")
}

/// First difference between an actual value and the canonical tree.
pub fn diff(actual: &Value, want: &Y, path: &str) -> Option<String> {
    let bad = |why: &str| {
        Some(format!(
            "{path}: {why}: got `{}`, want `{}`",
            show(actual),
            show(&want.to_value())
        ))
    };
    match (actual, want) {
        (Value::Null, Y::Null) => None,
        (Value::Bool(a), Y::Bool(b)) if a == b => None,
        (Value::String(a), Y::Str(b)) if a == b => None,
        (Value::Number(n), Y::Int(i)) => {
            let a = n
                .as_u64()
                .map(i128::from)
                .or_else(|| n.as_i64().map(i128::from));
            if a == Some(*i) {
                None
            } else {
                bad("integer")
            }
        }
        (Value::Number(n), Y::Float(f)) => {
            if n.is_f64() {
                let a = n.as_f64().unwrap_or(0.0);
                if a.to_bits() == f.to_bits() || (a.is_nan() && f.is_nan()) {
                    return None;
                }
            }
            bad("float")
        }
        (Value::Sequence(a), Y::Seq(b)) => {
            if a.len() != b.len() {
                return bad("sequence length");
            }
            a.iter()
                .zip(b)
                .enumerate()
                .find_map(|(i, (a, b))| diff(a, b, &format!("{path}[{i}]")))
        }
        (Value::Mapping(a), Y::Map(b)) => {
            if a.len() != b.len() {
                return bad("map length");
            }
            a.iter().zip(b).find_map(|((ak, av), (bk, bv))| {
                diff(ak, bk, &format!("{path}.<key>"))
                    .or_else(|| diff(av, bv, &format!("{path}.{}", show(ak))))
            })
        }
        (Value::Mapping(a), Y::Rec(b)) => {
            for (k, v) in b {
                let Some(av) = a.get(k.to_value()) else {
                    return bad(&format!("field `{}` is missing", show(&k.to_value())));
                };
                if let Some(d) = diff(av, v, &format!("{path}.{}", show(&k.to_value()))) {
                    return Some(d);
                }
            }
            if a.len() != b.len() {
                return bad("unexpected extra field");
            }
            let is_x = |k: &str| k.starts_with("x-");
            let ax: Vec<&str> = a.keys().filter_map(Value::as_str).filter(|k| is_x(k)).collect();
            let bx: Vec<&str> = b
                .iter()
                .filter_map(|(k, _)| if let Y::Str(k) = k { Some(k.as_str()) } else { None })
                .filter(|k| is_x(k))
                .collect();
            if ax != bx {
                return bad("extension order");
            }
            None
        }
        _ => bad("kind or value"),
    }
}

// ---------------------------------------------------------------- writing YAML text

fn plain_ok(x: &str) -> bool {
    let mut c = x.chars();
    let Some(f) = c.next() else { return false };
    if !(f.is_ascii_alphabetic() || f == '/' || f == '_') {
        return false;
    }
    if !x
        .chars()
        .all(|c| c.is_ascii_alphanumeric() || "_./-".contains(c))
    {
        return false;
    }
    !matches!(
        x.to_ascii_lowercase().as_str(),
        "null" | "true" | "false" | "yes" | "no" | "on" | "off" | "y" | "n" | "nan" | "inf"
    )
}

fn dq(x: &str) -> String {
    let mut o = String::from("\"");
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\x{:02x}", c as u32);
            }
            c if ('\u{80}'..'\u{a0}').contains(&c) || c == '\u{feff}' || c == '\u{2028}' || c == '\u{2029}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Style {
    /// probability (of 8) of a flow collection
    pub flow: u64,
    /// probability (of 8) of quoting a plain-able string
    pub quote: u64,
    /// emit comments / document markers
    pub noise: bool,
    pub indent: usize,
}

impl Style {
    pub fn draw(cx: &Cx) -> Self {
        Style {
            flow: *cx.pick(&[0, 1, 4, 8]),
            quote: *cx.pick(&[0, 2, 6]),
            noise: cx.chance(1, 4),
            indent: *cx.pick(&[2, 1, 4, 3]),
        }
    }
    pub fn simple() -> Self {
        Style {
            flow: 0,
            quote: 0,
            noise: false,
            indent: 2,
        }
    }
}

struct Em<'a> {
    cx: &'a Cx,
    st: &'a Style,
    out: String,
}

pub fn float_text(f: f64) -> String {
    if f.is_nan() {
        ".nan".into()
    } else if f.is_infinite() {
        if f > 0.0 { ".inf".into() } else { "-.inf".into() }
    } else {
        let t = format!("{f:?}");
        t
    }
}

impl Em<'_> {
    fn str(&self, x: &str) -> String {
        let printable_single = !x.is_empty()
            && x.chars().all(|c| (' '..='~').contains(&c));
        if plain_ok(x) && !(self.st.quote > 0 && self.cx.chance(self.st.quote, 8)) {
            x.to_owned()
        } else if printable_single && self.cx.coin() {
            format!("'{}'", x.replace('\'', "''"))
        } else {
            dq(x)
        }
    }
    fn scalar(&self, y: &Y) -> Option<String> {
        Some(match y {
            Y::Null => (*self.cx.pick(&["null", "~"])).into(),
            Y::Bool(b) => b.to_string(),
            Y::Int(i) => i.to_string(),
            Y::Float(f) => float_text(*f),
            Y::Str(x) => self.str(x),
            Y::Seq(v) if v.is_empty() => "[]".into(),
            Y::Map(v) | Y::Rec(v) if v.is_empty() => "{}".into(),
            _ => return None,
        })
    }
    fn flow(&self, y: &Y) -> String {
        if let Some(x) = self.scalar(y) {
            return x;
        }
        match y {
            Y::Seq(v) => {
                let items: Vec<_> = v.iter().map(|x| self.flow(x)).collect();
                format!("[{}]", items.join(", "))
            }
            Y::Map(m) | Y::Rec(m) => {
                let items: Vec<_> = m
                    .iter()
                    .map(|(k, v)| format!("{}: {}", self.flow(k), self.flow(v)))
                    .collect();
                format!("{{{}}}", items.join(", "))
            }
            // anchors and aliases
            Y::Tagged(t, _) if t.starts_with('*') => format!("{t} "),
            Y::Tagged(t, v) if t.starts_with('&') => format!("{t} {}", self.flow(v)),
            Y::Tagged(t, v) => format!("!{t} {}", self.flow(v)),
            _ => String::new(),
        }
    }
    fn noise(&mut self, ind: usize) {
        if self.st.noise && self.cx.chance(1, 8) {
            let t = if self.cx.coin() { "# note: {not, yaml" } else { "" };
            let _ = writeln!(self.out, "{:ind$}{t}", "");
        }
    }
    /// Emit the value after `key:` or `-`.
    fn value(&mut self, y: &Y, ind: usize) {
        if let Some(x) = self.scalar(y) {
            let _ = writeln!(self.out, " {x}");
            return;
        }
        if let Y::Tagged(t, v) = y {
            if t.starts_with('&') && self.scalar(v).is_none() && self.cx.coin() && !matches!(**v, Y::Tagged(..)) {
                let _ = writeln!(self.out, " {t}");
                self.block(v, ind);
                return;
            }
        }
        if matches!(y, Y::Tagged(..)) || (self.st.flow > 0 && self.cx.chance(self.st.flow, 8)) {
            let x = self.flow(y);
            let _ = writeln!(self.out, " {x}");
            return;
        }
        self.out.push('\n');
        self.block(y, ind);
    }
    fn block(&mut self, y: &Y, ind: usize) {
        let next = ind + self.st.indent;
        match y {
            Y::Seq(v) => {
                for x in v {
                    self.noise(ind);
                    let _ = write!(self.out, "{:ind$}-", "");
                    self.value(x, next);
                }
            }
            Y::Map(m) | Y::Rec(m) => {
                for (k, v) in m {
                    self.noise(ind);
                    let k = self.flow(k);
                    let _ = write!(self.out, "{:ind$}{k}:", "");
                    self.value(v, next);
                }
            }
            _ => {}
        }
    }
}

/// Render a tree as YAML text, in a style drawn from the tape.
pub fn emit(cx: &Cx, y: &Y, st: &Style) -> String {
    let mut e = Em {
        cx,
        st,
        out: String::new(),
    };
    if st.noise && cx.chance(1, 4) {
        e.out.push_str("%YAML 1.2\n---\n");
    } else if st.noise && cx.chance(1, 4) {
        e.out.push_str("---\n");
    }
    if let Some(x) = e.scalar(y) {
        let _ = writeln!(e.out, "{x}");
    } else if st.flow == 8 && !matches!(y, Y::Tagged(..)) {
        let x = e.flow(y);
        let _ = writeln!(e.out, "{x}");
    } else {
        e.block(y, 0);
    }
    let mut out = e.out;
    if st.noise {
        if cx.chance(1, 6) {
            out = out.replace('\n', "\r\n");
        }
        if cx.chance(1, 6) {
            out.push_str("...\n");
        } else if cx.chance(1, 4) && out.ends_with('\n') {
            out.pop();
        }
    }
    out
}
