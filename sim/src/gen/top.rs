//! Top level of the document: project, include, networks, volumes, configs, secrets.

use super::prim::*;
use super::svc;
use crate::core::Cx;
use crate::y::{int, s, Y};

/// Record builder collecting written and canonical fields.
pub struct R<'a> {
    pub cx: &'a Cx,
    pub den: u64,
    w: Vec<(Y, Y)>,
    c: Vec<(Y, Y)>,
}

impl<'a> R<'a> {
    pub fn new(cx: &'a Cx, den: u64) -> Self {
        Self {
            cx,
            den,
            w: Vec::new(),
            c: Vec::new(),
        }
    }
    /// Always present.
    pub fn put(&mut self, k: &str, v: P) {
        self.w.push((s(k), v.w));
        self.c.push((s(k), v.c));
    }
    /// Present only in the written form.
    pub fn written(&mut self, k: &str, v: Y) {
        self.w.push((s(k), v));
    }
    pub fn has(&self, k: &str) -> bool {
        self.w.iter().any(|(x, _)| matches!(x, Y::Str(x) if x == k))
    }
    pub fn on(&self) -> bool {
        self.cx.chance(self.den, 32)
    }
    /// Maybe present.
    pub fn may(&mut self, k: &str, f: impl FnOnce(&Cx) -> P) {
        if self.on() {
            let v = f(self.cx);
            self.put(k, v);
        }
    }
    /// Maybe present; sometimes written as null, which means absent.
    pub fn opt(&mut self, k: &str, f: impl FnOnce(&Cx) -> P) {
        if self.on() {
            if self.cx.chance(1, 24) {
                self.written(k, Y::Null);
            } else {
                let v = f(self.cx);
                self.put(k, v);
            }
        }
    }
    /// Maybe present collection; an empty one means absent.
    pub fn coll(&mut self, k: &str, f: impl FnOnce(&Cx) -> P) {
        if self.on() {
            let v = f(self.cx);
            let empty = match &v.c {
                Y::Seq(x) => x.is_empty(),
                Y::Map(m) | Y::Rec(m) => m.is_empty(),
                _ => false,
            };
            if empty {
                self.written(k, v.w);
            } else {
                self.put(k, v);
            }
        }
    }
    /// A flag: the default value is not written back.
    pub fn flag(&mut self, k: &str, default: bool) {
        if self.on() {
            let b = if self.cx.chance(1, 4) { default } else { !default };
            if b == default {
                self.written(k, Y::Bool(b));
            } else {
                self.put(k, same(Y::Bool(b)));
            }
        }
    }
    pub fn one_of(&mut self, k: &str, xs: &[&str]) {
        if self.on() {
            let v = *self.cx.pick(xs);
            self.put(k, sstr(v));
        }
    }
    pub fn text(&mut self, k: &str) {
        self.opt(k, |cx| sstr(text(cx)));
    }
    pub fn ext(&mut self) {
        if self.on() {
            let keys = distinct(self.cx, 1, 3, |cx| {
                format!(
                    "x-{}",
                    match cx.draw(3) {
                        0 => word(cx),
                        1 => String::new(),
                        _ => mapkey(cx),
                    }
                )
            });
            for k in keys {
                let v = any_yaml(self.cx, 2);
                self.put(&k, same(v));
            }
        }
    }
    /// Finish: the written field order is shuffled (except extensions stay in order
    /// relative to each other, as their order is preserved).
    pub fn done(self) -> P {
        let mut w = self.w;
        let is_x = |k: &Y| matches!(k, Y::Str(k) if k.starts_with("x-"));
        if w.len() > 1 && self.cx.coin() {
            let xs: Vec<(Y, Y)> = w.iter().filter(|(k, _)| is_x(k)).cloned().collect();
            for i in (1..w.len()).rev() {
                let j = self.cx.n(i + 1);
                w.swap(i, j);
            }
            let mut it = xs.into_iter();
            for e in &mut w {
                if is_x(&e.0) {
                    if let Some(x) = it.next() {
                        *e = x;
                    }
                }
            }
        }
        p(Y::Rec(w), Y::Rec(self.c))
    }
}

pub fn driver_opts(cx: &Cx) -> P {
    map_of(cx, 0, 3, mapkey, |cx, _| same(string_or_number(cx)))
}

pub fn include(cx: &Cx, den: u64) -> P {
    if cx.coin() {
        return sstr(path(cx));
    }
    let mut r = R::new(cx, den);
    let v = item_or_paths(cx, |cx| sstr(path(cx)));
    r.put("path", v);
    r.text("project_directory");
    r.opt("env_file", |cx| item_or_paths(cx, |cx| sstr(path(cx))));
    r.done()
}

fn ipnet(cx: &Cx) -> P {
    // host bits are kept as written
    if cx.chance(1, 3) {
        sstr(format!("{}/{}", ip6(cx), cx.pick(&[64u64, 0, 128, 48])))
    } else {
        sstr(format!("{}/{}", ip4(cx), cx.pick(&[24u64, 0, 32, 16, 8])))
    }
}

fn ipam(cx: &Cx, den: u64) -> P {
    let mut r = R::new(cx, den);
    r.text("driver");
    r.coll("config", |cx| {
        list_of(cx, 0, 3, |cx| {
            let mut r = R::new(cx, den.max(8));
            r.opt("subnet", ipnet);
            r.opt("ip_range", ipnet);
            r.opt("gateway", |cx| sstr(ip(cx)));
            r.coll("aux_addresses", |cx| map_of(cx, 0, 3, hostname, |cx, _| sstr(ip(cx))));
            r.ext();
            r.done()
        })
    });
    r.coll("options", |cx| map_of(cx, 0, 3, mapkey, |cx, _| sstr(text(cx))));
    r.ext();
    r.done()
}

fn external(cx: &Cx) -> P {
    let mut w = vec![(s("external"), Y::Bool(true))];
    let mut c = vec![(s("external"), Y::Bool(true))];
    if cx.coin() {
        let n = s(text(cx));
        w.push((s("name"), n.clone()));
        c.push((s("name"), n));
        if cx.coin() {
            w.reverse();
        }
    }
    p(Y::Rec(w), Y::Rec(c))
}

fn maybe_external(cx: &Cx, f: impl FnOnce(&Cx) -> P) -> P {
    match cx.draw(6) {
        5 => external(cx),
        4 => {
            let mut v = f(cx);
            if let Y::Rec(m) = &mut v.w {
                let at = cx.n(m.len() + 1);
                m.insert(at, (s("external"), Y::Bool(false)));
            }
            v
        }
        _ => f(cx),
    }
}

pub fn network(cx: &Cx, den: u64) -> P {
    if cx.chance(1, 6) {
        return same(Y::Null);
    }
    maybe_external(cx, |cx| {
        let mut r = R::new(cx, den);
        r.opt("driver", |cx| {
            sstr(match cx.draw(4) {
                0 => "host".into(),
                1 => "none".into(),
                _ => text(cx),
            })
        });
        r.coll("driver_opts", driver_opts);
        r.flag("attachable", false);
        r.flag("enable_ipv6", false);
        r.opt("ipam", |cx| ipam(cx, den));
        r.flag("internal", false);
        r.coll("labels", list_or_map);
        r.text("name");
        r.ext();
        r.done()
    })
}

pub fn volume(cx: &Cx, den: u64) -> P {
    if cx.chance(1, 6) {
        return same(Y::Null);
    }
    maybe_external(cx, |cx| {
        let mut r = R::new(cx, den);
        r.text("driver");
        r.coll("driver_opts", driver_opts);
        r.coll("labels", list_or_map);
        r.text("name");
        r.ext();
        r.done()
    })
}

pub fn config(cx: &Cx, den: u64) -> P {
    maybe_external(cx, |cx| {
        let mut r = R::new(cx, den);
        match cx.draw(3) {
            0 => r.put("file", sstr(path(cx))),
            1 => r.put("environment", sstr(text(cx))),
            _ => r.put("content", sstr(text(cx))),
        }
        r.coll("labels", list_or_map);
        r.ext();
        r.done()
    })
}

pub fn secret(cx: &Cx, den: u64) -> P {
    maybe_external(cx, |cx| {
        let mut r = R::new(cx, den);
        match cx.draw(2) {
            0 => r.put("file", sstr(path(cx))),
            _ => r.put("environment", sstr(text(cx))),
        }
        r.coll("labels", list_or_map);
        r.text("driver");
        r.coll("driver_opts", driver_opts);
        r.ext();
        r.done()
    })
}

pub fn resources(cx: &Cx, den: u64, f: fn(&Cx, u64) -> P) -> P {
    map_of(cx, 0, 4, ident, |cx, _| f(cx, den))
}

/// Swarm parameters of one generated document.
#[derive(Debug, Clone, Copy)]
pub struct Shape {
    pub services: usize,
    pub den: u64,
    pub top: u64,
}

impl Shape {
    pub fn draw(cx: &Cx) -> Self {
        if cx.huge(400) {
            return Shape { services: *cx.pick(&[9, 8, 16, 17, 33, 65]), den: *cx.pick(&[1, 2, 0]), top: *cx.pick(&[4, 28]) };
        }
        Shape {
            services: *cx.pick(&[1, 1, 2, 0, 3]),
            den: *cx.pick(&[2, 1, 4, 8, 3, 24]),
            top: *cx.pick(&[4, 0, 16, 28]),
        }
    }
    pub fn small(cx: &Cx) -> Self {
        Shape {
            services: *cx.pick(&[1, 2]),
            den: *cx.pick(&[1, 2, 3]),
            top: *cx.pick(&[4, 8]),
        }
    }
}

/// A whole Compose document.
pub fn compose(cx: &Cx, sh: Shape) -> P {
    let mut r = R::new(cx, sh.top);
    let den = sh.den;
    r.opt("version", |cx| sstr(*cx.pick(&["3.9", "2", "", "1e3"])));
    r.opt("name", |cx| sstr(name(cx)));
    r.coll("include", |cx| list_of(cx, 0, 3, |cx| include(cx, den.max(8))));
    let svcs = map_of(cx, sh.services, sh.services, ident, |cx, _| svc::service(cx, den));
    r.put("services", svcs);
    let d = den.max(6);
    r.coll("networks", |cx| resources(cx, d, network));
    r.coll("volumes", |cx| resources(cx, d, volume));
    r.coll("configs", |cx| resources(cx, d, config));
    r.coll("secrets", |cx| resources(cx, d, secret));
    r.ext();
    r.done()
}

pub fn whole(cx: &Cx) -> P {
    let sh = Shape::draw(cx);
    compose(cx, sh)
}

#[allow(dead_code)]
pub fn u(n: u64) -> P {
    same(int(n))
}
