//! Loading and saving through the public entry points.

use crate::core::{guard, viol, Cx, Res};
use crate::ensure;
use crate::gen::{self, P};
use crate::io::{End, SimReader};
use crate::y::{emit, Style, Y};
use compose_spec::Compose;
use serde_yaml::Value;

pub type Load = Result<Compose, String>;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Via {
    Str,
    Slice,
    Reader,
    SerdeStr,
    SerdeReader,
    Value,
    OptStrMerge,
    OptReaderMerge,
    OptSliceMerge,
    OptValueMerge,
    OptValue,
}
pub const VIAS: &[Via] = &[
    Via::Str,
    Via::Slice,
    Via::Reader,
    Via::SerdeStr,
    Via::SerdeReader,
    Via::Value,
    Via::OptStrMerge,
    Via::OptReaderMerge,
    Via::OptSliceMerge,
    Via::OptValueMerge,
    Via::OptValue,
];

pub fn reader<'a>(cx: &'a Cx, text: &str) -> SimReader<'a> {
    SimReader::new(cx, text.as_bytes(), End::Eof)
}

/// Load `text` the given way; only benign delivery effects.
pub fn load(cx: &Cx, text: &str, via: Via) -> Res<Load> {
    let mut merge = Compose::options();
    merge.apply_merge(true);
    let plain = Compose::options();
    cx.ev("load", via as u64, text.len() as u64);
    let r = guard(&format!("load via {via:?}"), || match via {
        Via::Str => plain.from_yaml_str(text),
        Via::Slice => plain.from_yaml_slice(text.as_bytes()),
        Via::Reader => plain.from_yaml_reader(reader(cx, text)),
        Via::SerdeStr => serde_yaml::from_str(text),
        Via::SerdeReader => serde_yaml::from_reader(reader(cx, text)),
        Via::Value => serde_yaml::from_str::<Value>(text).and_then(serde_yaml::from_value),
        Via::OptValue => serde_yaml::from_str::<Value>(text).and_then(|v| plain.from_yaml_value(v)),
        Via::OptStrMerge => merge.from_yaml_str(text),
        Via::OptReaderMerge => merge.from_yaml_reader(reader(cx, text)),
        Via::OptSliceMerge => merge.from_yaml_slice(text.as_bytes()),
        Via::OptValueMerge => serde_yaml::from_str::<Value>(text).and_then(|v| merge.from_yaml_value(v)),
    })?;
    Ok(r.map_err(|e| e.to_string()))
}

pub fn pick_via(cx: &Cx) -> Via {
    *cx.pick(VIAS)
}

pub fn save(c: &Compose) -> Res<Result<String, String>> {
    guard("serializing", || serde_yaml::to_string(c).map_err(|e| e.to_string()))
}

/// A generated document, written in a drawn style.
pub struct Doc {
    pub p: P,
    pub text: String,
}

pub fn doc_of(cx: &Cx, p: P) -> Doc {
    let st = Style::draw(cx);
    let text = emit(cx, &p.w, &st);
    cx.note(|| format!("document:\n{text}"));
    Doc { p, text }
}

pub fn doc(cx: &Cx) -> Doc {
    let p = gen::whole(cx);
    doc_of(cx, p)
}
pub fn small_doc(cx: &Cx) -> Doc {
    let sh = gen::Shape::small(cx);
    let p = gen::compose(cx, sh);
    doc_of(cx, p)
}

#[allow(dead_code)]
pub fn size(y: &Y) -> usize {
    match y {
        Y::Seq(v) => 1 + v.iter().map(size).sum::<usize>(),
        Y::Map(m) | Y::Rec(m) => 1 + m.iter().map(|(k, v)| size(k) + size(v)).sum::<usize>(),
        Y::Tagged(_, v) => size(v),
        _ => 1,
    }
}

/// Whether an empty list or mapping is written anywhere.
///
/// An empty section is saved by leaving it out, so the reloaded value may hold the (equivalent)
/// default form of the section instead.
pub fn has_empty(y: &Y) -> bool {
    match y {
        Y::Seq(v) => v.is_empty() || v.iter().any(has_empty),
        Y::Map(m) | Y::Rec(m) => m.is_empty() || m.iter().any(|(_, v)| has_empty(v)),
        Y::Tagged(_, v) => has_empty(v),
        _ => false,
    }
}

pub fn clip(x: &str) -> String {
    let mut n = x.len().min(1200);
    while !x.is_char_boundary(n) {
        n -= 1;
    }
    x[..n].to_owned()
}

/// What one way of loading gave.
pub struct Out {
    pub what: String,
    pub r: Result<(Compose, String), String>,
}

pub fn finish(what: &str, r: Result<Compose, serde_yaml::Error>) -> Res<Out> {
    let r = match r {
        Ok(c) => match save(&c)? {
            Ok(t) => Ok((c, t)),
            Err(e) => return viol("save", format!("{what}: cannot save what was loaded: {e}")),
        },
        Err(e) => Err(e.to_string()),
    };
    Ok(Out {
        what: what.to_owned(),
        r,
    })
}

pub fn agree(a: &Out, b: &Out, messages: bool, text: &[u8]) -> Res {
    let doc = || clip(&String::from_utf8_lossy(text));
    match (&a.r, &b.r) {
        (Ok((ca, ta)), Ok((cb, tb))) => {
            ensure!(ta == tb, "load-differs", "{} and {} load different values:\n{}\n---\n{}", a.what, b.what, clip(ta), clip(tb));
            let nan = ta.contains(".nan");
            ensure!(nan || ca == cb, "load-differs", "{} and {} load different values (saved alike) for:\n{}", a.what, b.what, doc());
        }
        (Err(ea), Err(eb)) => {
            ensure!(!messages || ea == eb, "error-differs", "{}: {ea}\n{}: {eb}\n{}", a.what, b.what, doc());
        }
        (Ok(_), Err(e)) => return viol("accept-differs", format!("{} accepts, {} rejects ({e}):\n{}", a.what, b.what, doc())),
        (Err(e), Ok(_)) => return viol("accept-differs", format!("{} rejects ({e}), {} accepts:\n{}", a.what, b.what, doc())),
    }
    Ok(())
}

