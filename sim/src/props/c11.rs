use super::Prop;
use crate::core::{guard, viol, Cx, Res};
use crate::ensure;
use crate::gen::{self, any_yaml, Shape};
use crate::io::{End, SimReader, KINDS};
use crate::util::{clip, save};
use crate::y::{emit, int, s, Style, Y};
use compose_spec::{Compose, Options};
use serde_yaml::Value;

pub const PROP: Prop = Prop {
    id: "C11",
    run,
    quick_runs: 140000,
    apart: false,
    rule: "Each run takes a generated document and folds drawn parts of its mappings, at any depth, into merge keys: one or several sources, inline or anchored elsewhere and aliased, sources that merge others in turn, keys shadowed by own keys and by earlier sources, other values aliased. A drawn history of settings and loads (all entry points, drawn reads, failing reads, malformed merges, other documents) is then made on builders and their clones. Every load with merging on must equal the load of the unfolded document; with merging off, that of the plain parser; malformed merges must be rejected. Non-trivial: the document had a merge key and was loaded with merging on.",
    real: "compose_spec (Options, loading), serde_yaml",
    stub: "reader (splits, interruptions, errors)",
    probes: &[
        "merge key",
        "several sources",
        "chained merge",
        "aliased source",
        "source used again",
        "shadowed key",
        "aliased value",
        "merging off",
        "failed read",
        "malformed merge",
        "merge under a tag",
        "builder cloned",
    ],
    assume: &["the order of the keys of a merged mapping is not significant"],
};

struct Folder {
    /// name, unfolded and folded content of the anchored nodes
    anchors: Vec<(String, Y, Y)>,
    den: u64,
    merges: u32,
}

impl Folder {
    fn anchor(&mut self, cx: &Cx, plain: &Y, written: Y) -> Y {
        if let Some((n, ..)) = self.anchors.iter().find(|(_, p, _)| p == plain) {
            cx.count("source used again");
            return Y::Tagged(format!("*{n}"), Box::new(Y::Null));
        }
        let n = format!("f{}", self.anchors.len());
        self.anchors.push((n.clone(), plain.clone(), written));
        Y::Tagged(format!("*{n}"), Box::new(Y::Null))
    }

    fn fold(&mut self, cx: &Cx, y: &Y, depth: usize) -> Y {
        match y {
            Y::Seq(v) => {
                let w = Y::Seq(v.iter().map(|x| self.fold(cx, x, depth)).collect());
                self.maybe_alias(cx, y, w)
            }
            Y::Map(m) | Y::Rec(m) => {
                if self.merges < 12 && depth < 4 && cx.chance(self.den, 16) {
                    return self.merge(cx, m, depth);
                }
                let w = Y::Map(m.iter().map(|(k, v)| (k.clone(), self.fold(cx, v, depth))).collect());
                self.maybe_alias(cx, y, w)
            }
            Y::Tagged(t, v) => {
                let v = match &**v {
                    Y::Map(m) | Y::Rec(m) if self.merges < 12 && cx.coin() => {
                        cx.count("merge under a tag");
                        self.merge(cx, m, depth)
                    }
                    Y::Map(m) | Y::Rec(m) => Y::Map(m.iter().map(|(k, v)| (k.clone(), self.fold(cx, v, depth))).collect()),
                    v => v.clone(),
                };
                Y::Tagged(t.clone(), Box::new(v))
            }
            y => self.maybe_alias(cx, y, y.clone()),
        }
    }

    fn maybe_alias(&mut self, cx: &Cx, plain: &Y, w: Y) -> Y {
        if self.anchors.len() < 12 && cx.chance(1, 60) && !tagged(plain) {
            cx.count("aliased value");
            return self.anchor(cx, plain, w);
        }
        w
    }

    /// Split the entries of a mapping over the mapping itself and the sources it merges.
    fn merge(&mut self, cx: &Cx, m: &[(Y, Y)], depth: usize) -> Y {
        self.merges += 1;
        cx.count("merge key");
        let n = if cx.huge(300) { *cx.pick(&[4, 8, 9, 16, 17, 33]) } else { cx.range(1, 3) };
        if n > 1 {
            cx.count("several sources");
        }
        let mut own: Vec<(Y, Y)> = Vec::new();
        let mut src: Vec<Vec<(Y, Y)>> = vec![Vec::new(); n];
        for (k, v) in m {
            let d = cx.n(n + 1);
            if d == 0 {
                own.push((k.clone(), self.fold(cx, v, depth + 1)));
            } else {
                src[d - 1].push((k.clone(), v.clone()));
            }
            // other values, which lose to this one
            for later in src.iter_mut().skip(d) {
                if cx.chance(1, 4) {
                    cx.count("shadowed key");
                    let v = match cx.draw(4) {
                        0 => Y::Null,
                        1 => int(7),
                        2 => v.clone(),
                        _ => any_yaml(cx, 2),
                    };
                    later.push((k.clone(), v));
                }
            }
        }
        let mut list: Vec<Y> = Vec::new();
        for x in src {
            let before = self.merges;
            let plain = Y::Map(x);
            let w = self.fold(cx, &plain, depth + 1);
            if self.merges > before {
                cx.count("chained merge");
            }
            if cx.coin() && !matches!(w, Y::Tagged(..)) && !tagged(&plain) {
                cx.count("aliased source");
                list.push(self.anchor(cx, &plain, w));
            } else {
                list.push(w);
            }
        }
        let v = if list.len() == 1 && cx.coin() { list.remove(0) } else { Y::Seq(list) };
        let at = cx.n(own.len() + 1);
        own.insert(at, (s("<<"), v));
        Y::Map(own)
    }
}

/// Anchored nodes are placed where tags are not taken.
fn tagged(y: &Y) -> bool {
    match y {
        Y::Tagged(..) => true,
        Y::Seq(v) => v.iter().any(tagged),
        Y::Map(m) | Y::Rec(m) => m.iter().any(|(_, v)| tagged(v)),
        _ => false,
    }
}

/// Put tags, which mean nothing to the specification, on some of the mappings.
fn tags(cx: &Cx, y: &Y, depth: usize) -> Y {
    match y {
        Y::Map(m) | Y::Rec(m) => {
            let w = Y::Map(m.iter().map(|(k, v)| (k.clone(), tags(cx, v, depth + 1))).collect());
            if depth > 0 && cx.chance(1, 6) {
                return Y::Tagged((*cx.pick(&["t", "merge", "a-b"])).to_owned(), Box::new(w));
            }
            w
        }
        Y::Seq(v) => Y::Seq(v.iter().map(|v| tags(cx, v, depth + 1)).collect()),
        y => y.clone(),
    }
}

/// The text of a document with parts of its mappings folded into merge keys.
pub fn folded_text(cx: &Cx, y: &Y) -> String {
    let mut f = Folder {
        anchors: Vec::new(),
        den: *cx.pick(&[2, 4, 8]),
        merges: 0,
    };
    let body: Vec<(Y, Y)> = y.entries().into_iter().flatten().map(|(k, v)| (k.clone(), f.fold(cx, v, 0))).collect();
    let mut all: Vec<(Y, Y)> = f.anchors.into_iter().map(|(n, _, w)| (s(format!("x-anchor-{n}")), Y::Tagged(format!("&{n}"), Box::new(w)))).collect();
    all.extend(body);
    emit(cx, &Y::Map(all), &Style::draw(cx))
}

/// Put a malformed merge somewhere that is not itself merged away.
fn malform(cx: &Cx, y: &mut Y, depth: usize) -> bool {
    let mut here: Vec<usize> = Vec::new();
    match y {
        Y::Map(m) | Y::Rec(m) => {
            let has = m.iter().position(|(k, _)| *k == s("<<"));
            if depth == 0 || cx.chance(1, 4) {
                let bad = match cx.draw(8) {
                    0 => Y::Null,
                    1 => int(1),
                    2 => s("a"),
                    3 => Y::Bool(true),
                    4 => Y::Seq(vec![s("a")]),
                    5 => Y::Tagged("t".into(), Box::new(Y::Map(vec![]))),
                    6 => Y::Seq(vec![Y::Map(vec![]), Y::Seq(vec![Y::Map(vec![])])]),
                    _ => Y::Seq(vec![Y::Map(vec![]), Y::Null]),
                };
                match has {
                    Some(i) => m[i].1 = bad,
                    None => {
                        let at = cx.n(m.len() + 1);
                        m.insert(at, (s("<<"), bad));
                    }
                }
                return true;
            }
            for (i, (k, v)) in m.iter().enumerate() {
                if *k != s("<<") && v.entries().is_some() {
                    here.push(i);
                }
            }
            if here.is_empty() {
                return malform(cx, y, 0);
            }
            let i = here[cx.n(here.len())];
            malform(cx, &mut m[i].1, depth - 1)
        }
        _ => false,
    }
}

/// Mounts and ports which differ in the order of their extensions are distinct in a set, and that
/// order is not kept by a merge: leave one of them.
fn once(v: &mut Value) {
    match v {
        Value::Mapping(m) => m.values_mut().for_each(once),
        Value::Sequence(q) => {
            q.iter_mut().for_each(once);
            let mut keep: Vec<Value> = Vec::new();
            for x in q.drain(..) {
                if !x.is_mapping() || !keep.contains(&x) {
                    keep.push(x);
                }
            }
            *q = keep;
        }
        Value::Tagged(t) => once(&mut t.value),
        _ => {}
    }
}

type Got = Result<Value, String>;

fn finish(r: serde_yaml::Result<Compose>) -> Res<Got> {
    Ok(match r {
        Ok(c) => match save(&c)? {
            Ok(t) => match serde_yaml::from_str(&t) {
                Ok(mut v) => {
                    once(&mut v);
                    Ok(v)
                }
                Err(e) => return viol("saved-not-yaml", format!("{e}\n{}", clip(&t))),
            },
            Err(e) => return viol("save", e),
        },
        Err(e) => Err(e.to_string()),
    })
}

fn load(cx: &Cx, o: &Options, text: &str) -> Res<Got> {
    let k = cx.draw(5);
    cx.ev("load", k, text.len() as u64);
    let r = guard("load", || match k {
        0 => o.from_yaml_str(text),
        1 => o.from_yaml_slice(text.as_bytes()),
        2 => o.from_yaml_reader(SimReader::new(cx, text.as_bytes(), End::Eof)),
        3 => serde_yaml::from_str::<Value>(text).and_then(|v| o.from_yaml_value(v)),
        _ => o.from_yaml_reader(text.as_bytes()),
    })?;
    finish(r)
}

fn run(cx: &Cx) -> Res {
    let mut p = gen::compose(cx, Shape::small(cx));
    // services that have much in common
    if cx.coin() {
        if let Some(Y::Map(m)) = p.w.get_mut("services") {
            let twin = m[0].1.clone();
            if !m.iter().any(|(k, _)| *k == s("twin")) {
                m.push((s("twin"), twin));
            }
        }
    }
    // tags, where the parser takes them
    if cx.chance(1, 6) {
        for _ in 0..4 {
            let w = tags(cx, &p.w, 0);
            if serde_yaml::from_str::<Compose>(&emit(cx, &w, &Style::simple())).is_ok() && serde_yaml::from_value::<Compose>(w.to_value()).is_ok() {
                p.w = w;
                break;
            }
        }
    }
    let mut f = Folder {
        anchors: Vec::new(),
        den: *cx.pick(&[2, 1, 4, 8]),
        merges: 0,
    };
    let top: Vec<(Y, Y)> = p.w.entries().cloned().unwrap_or_default();
    let folded = if cx.chance(1, 6) {
        f.merge(cx, &top, 1)
    } else {
        Y::Map(top.iter().map(|(k, v)| (k.clone(), f.fold(cx, v, 0))).collect())
    };
    let mut plain = top;
    let mut merged: Vec<(Y, Y)> = Vec::new();
    for (n, a, w) in &f.anchors {
        let k = format!("x-anchor-{n}");
        plain.push((s(&k), a.clone()));
        merged.push((s(k), Y::Tagged(format!("&{n}"), Box::new(w.clone()))));
    }
    merged.extend(folded.entries().cloned().unwrap_or_default());
    let mut merged = Y::Map(merged);
    let st = Style::draw(cx);
    let text = emit(cx, &merged, &st);
    let flat = emit(cx, &Y::Map(plain), &Style::simple());
    cx.note(|| format!("folded:\n{text}\nunfolded:\n{flat}"));
    if f.merges > 0 {
        cx.nontrivial();
    }

    let want = match finish(guard("load", || serde_yaml::from_str::<Compose>(&flat))?)? {
        Ok(v) => v,
        Err(e) => return viol("rejected", format!("valid document rejected: {e}\n{}", clip(&flat))),
    };
    // what the plain parser makes of the merge keys
    let raw = finish(guard("load", || serde_yaml::from_str::<Compose>(&text))?)?;
    let raw_value = finish(guard("load", || serde_yaml::from_str::<Value>(&text).and_then(serde_yaml::from_value::<Compose>))?)?;
    let bad = {
        let depth = cx.n(4);
        malform(cx, &mut merged, depth).then(|| emit(cx, &merged, &st))
    };

    // builders with the setting each must have
    let mut o: Vec<(Options, bool)> = vec![(Compose::options(), false)];
    let first_on = cx.coin();
    if first_on {
        o[0].0.apply_merge(true);
        o[0].1 = true;
    }
    for _ in 0..cx.range(2, 8) {
        let i = cx.n(o.len());
        let op = cx.draw(8);
        cx.ev("op", op, i as u64);
        match op {
            0 => {
                let b = cx.coin();
                o[i].0.apply_merge(b);
                o[i].1 = b;
            }
            1 => {
                let b = cx.coin();
                // the last of several settings counts
                o[i].0.apply_merge(!b).apply_merge(b);
                o[i].1 = b;
            }
            2 if o.len() < 4 => {
                let mut c = o[i].clone();
                cx.count("builder cloned");
                ensure!(c.0 == o[i].0, "builder", "a clone differs: {:?} {:?}", c.0, o[i].0);
                if cx.coin() {
                    c.1 = !c.1;
                    c.0.apply_merge(c.1);
                    ensure!(c.0 != o[i].0, "builder", "settings differ: {:?} {:?}", c.0, o[i].0);
                }
                o.push(c);
            }
            3 => {
                // a read that fails part way must fail the load, and leave the builder as it was
                let n = cx.n(text.len());
                let r = guard("load", || o[i].0.from_yaml_reader(SimReader::new(cx, &text.as_bytes()[..n], End::Error(*cx.pick(KINDS)))))?;
                cx.count("failed read");
                ensure!(r.is_err(), "failed-read", "a read that failed after {n} of {} bytes gives a document", text.len());
            }
            4 => {
                let Some(bad) = &bad else { continue };
                if o[i].1 {
                    let r = load(cx, &o[i].0, bad)?;
                    cx.count("malformed merge");
                    ensure!(r.is_err(), "malformed", "a malformed merge is accepted:\n{}", clip(bad));
                }
            }
            _ => {
                let r = load(cx, &o[i].0, &text)?;
                if o[i].1 {
                    match r {
                        Ok(v) => ensure!(v == want, "merged-differs", "{}\n--- folded:\n{}", differ(&want, &v, ""), clip(&text)),
                        Err(e) => return viol("merge-rejected", format!("{e}\n{}", clip(&text))),
                    }
                } else {
                    cx.count("merging off");
                    let same = |x: &Got| match (x, &r) {
                        (Ok(x), Ok(y)) => x == y,
                        (Err(_), Err(_)) => true,
                        _ => false,
                    };
                    ensure!(same(&raw) || same(&raw_value), "merged-without", "without merging the document gives {r:?}, and {raw:?} from the plain parser\n{}", clip(&text));
                }
            }
        }
    }
    Ok(())
}

fn differ(a: &Value, b: &Value, at: &str) -> String {
    if let (Value::Mapping(x), Value::Mapping(y)) = (a, b) {
        for (k, v) in x {
            let key = format!("{at}/{}", k.as_str().unwrap_or("?"));
            match y.get(k) {
                None => return format!("{key} is lost"),
                Some(w) if v != w => return differ(v, w, &key),
                _ => {}
            }
        }
        for k in y.keys() {
            if !x.contains_key(k) {
                return format!("{at}/{} is new", k.as_str().unwrap_or("?"));
            }
        }
    }
    clip(&format!("{at} was {a:?} and is {b:?}"))
}
