use super::Prop;
use crate::core::{guard, viol, Cx, Res};
use crate::ensure;
use crate::gen::svc;
use crate::mutate;
use crate::refp::{self, Img};
use compose_spec::service::image::{Digest, Image, Name, Tag, TagOrDigest};
use compose_spec::Compose;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub const PROP: Prop = Prop {
    id: "C07",
    run,
    quick_runs: 900000,
    apart: false,
    rule: "Each run holds a few image references and drives them through a drawn history of edits (set or clear registry, name, tag, digest, both; rebuild from the parts of another; move through a saved document; parse valid and damaged text; edits whose new part is damaged and may be rejected), next to a model made of a name and an optional suffix. After every step every accessor, the string form, a fresh parse, equality, hash, order and the saved form must be what the model says. Non-trivial: at least three edits took effect.",
    real: "service::image (Image, Name, Tag, Digest, TagOrDigest), loading and saving of a service",
    stub: "none (the history of calls is the simulated input)",
    probes: &[
        "registry replaced",
        "registry added",
        "registry removed",
        "registry kept (nothing else in the name)",
        "tag replaced by digest",
        "digest replaced by tag",
        "suffix removed",
        "part rejected",
        "text rejected",
        "rebuilt from parts",
        "saved and reloaded",
    ],
    assume: &["the reference parser follows the documented formats of Name, Tag and Digest"],
};

fn hash(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn check(i: &Image, m: &Img) -> Res {
    let class = if m.port_only() { "port-only-name" } else { "image" };
    let text = m.text();
    let sub = |c| m.suffix.as_ref().filter(|x| x.0 == c).map(|x| x.1.as_str());
    let (tag, digest) = (sub(':'), sub('@'));
    let one = |what: &str, i: &Image| -> Res {
        ensure!(i.as_str() == text, class, "{what}: as_str {:?}, expected {text:?}", i.as_str());
        ensure!(i.name() == m.name, class, "{what}: name {:?} of {text:?}, expected {:?}", i.name(), m.name);
        ensure!(i.registry() == m.registry(), class, "{what}: registry {:?} of {text:?}, expected {:?}", i.registry(), m.registry());
        ensure!(i.tag() == tag, class, "{what}: tag {:?} of {text:?}, expected {tag:?}", i.tag());
        ensure!(i.digest() == digest, class, "{what}: digest {:?} of {text:?}, expected {digest:?}", i.digest());
        Ok(())
    };
    guard("reading the parts", || one("edited", i))??;
    guard("reading the parts", || -> Res {
        let n = i.as_name();
        ensure!(n.as_ref() == m.name && n.registry() == m.registry() && n.to_string() == m.name, class, "as_name {n:?} of {text:?}");
        ensure!(i.as_tag().map(Tag::into_inner) == tag, class, "as_tag of {text:?}");
        ensure!(i.as_digest().map(Digest::into_inner) == digest, class, "as_digest of {text:?}");
        let td = i.as_tag_or_digest();
        ensure!(td.as_ref().map(AsRef::as_ref) == tag.or(digest), class, "as_tag_or_digest of {text:?}");
        ensure!(td.map(|t| t.separator()) == m.suffix.as_ref().map(|x| x.0), class, "separator of {text:?}");
        ensure!(td.and_then(TagOrDigest::into_tag).map(Tag::into_inner) == tag, class, "into_tag of {text:?}");
        ensure!(td.and_then(TagOrDigest::into_digest).map(Digest::into_inner) == digest, class, "into_digest of {text:?}");
        let (pn, pt) = i.as_parts();
        ensure!(pn == i.as_name() && pt == td, class, "as_parts of {text:?}");
        ensure!(i.to_string() == text && format!("{i:>3}").contains(&text), class, "Display of {text:?}");
        ensure!(*i == *text.as_str() && <Image as AsRef<str>>::as_ref(i) == text && String::from(i.clone()) == text, class, "string form of {text:?}");
        ensure!(hash(i) == hash(&text), class, "hash of {text:?}");
        Ok(())
    })??;
    let fresh = guard("parsing", || Image::parse(text.as_str()))?;
    match fresh {
        Ok(f) => {
            guard("reading the parts", || one("parsed again", &f))??;
            ensure!(f == *i && f.cmp(i) == std::cmp::Ordering::Equal && hash(&f) == hash(i), class, "a fresh parse of {text:?} differs");
        }
        Err(e) => return viol(class, format!("a fresh parse of {text:?} is rejected: {e}")),
    }
    Ok(())
}

fn damaged(cx: &Cx, x: String) -> String {
    if cx.chance(1, 4) {
        mutate::twist(cx, &x)
    } else {
        x
    }
}
fn a_name(cx: &Cx) -> String {
    let n = match cx.draw(8) {
        0 => svc::registry(cx),
        1 => (*cx.pick(&["a.b/c.d", "a/b.c", "x.y/a.b/c", "a", "a.b", "0/1/2/3"])).to_owned(),
        2 | 3 => svc::image_name(cx),
        _ => format!("{}/{}", svc::registry(cx), svc::image_name(cx)),
    };
    damaged(cx, n)
}
/// Whether the text is outside what is decided here (Rust's integers take a leading plus).
fn skip(x: &str) -> bool {
    x.contains(":+")
}

fn run(cx: &Cx) -> Res {
    let start = |cx: &Cx| {
        let t = svc::image(cx);
        let m = refp::image(&t);
        (t, m)
    };
    let mut is: Vec<Image> = Vec::new();
    let mut ms: Vec<Img> = Vec::new();
    for _ in 0..=cx.n(2) {
        let (t, m) = start(cx);
        let Some(m) = m else { return viol("harness", format!("{t:?}")) };
        match guard("parsing", || Image::parse(t.as_str()))? {
            Ok(i) => is.push(i),
            Err(e) => return viol("rejected", format!("valid image {t:?} rejected: {e}")),
        }
        ms.push(m);
    }
    let mut took = 0;
    // a registry with a port and nothing else is not a whole name: rarely let one in
    let wild = cx.chance(1, 100);
    let steps = if cx.huge(200) { *cx.pick(&[40, 80, 120]) } else { cx.range(1, 16) };
    for _ in 0..steps {
        let k = cx.n(is.len());
        let op = cx.draw(10);
        cx.ev("edit", op, k as u64);
        let old = ms[k].clone();
        let (i, m) = (&mut is[k], &mut ms[k]);
        match op {
            0..=2 => {
                // registry
                if cx.chance(1, 3) {
                    guard("set_registry(None)", || i.set_registry(None))?;
                    if let Some(r) = old.registry() {
                        match old.name.strip_prefix(r).and_then(|x| x.strip_prefix('/')) {
                            Some(rest) => {
                                m.name = rest.to_owned();
                                cx.count("registry removed");
                            }
                            None => cx.count("registry kept (nothing else in the name)"),
                        }
                    }
                } else {
                    let r = damaged(cx, if cx.chance(1, 6) { a_name(cx) } else { svc::registry(cx) });
                    cx.note(|| format!("  registry {r:?}"));
                    if skip(&r) {
                        continue;
                    }
                    let n = guard("Name::new", || Name::new(&r))?;
                    ensure!(n.is_ok() == refp::image_name(&r), "part", "image name {r:?} is {}", if n.is_ok() { "accepted" } else { "rejected" });
                    let Ok(n) = n else {
                        cx.count("part rejected");
                        continue;
                    };
                    let name = match old.registry() {
                        Some(o) => {
                            cx.count("registry replaced");
                            format!("{r}{}", &old.name[o.len()..])
                        }
                        None => {
                            cx.count("registry added");
                            format!("{r}/{}", old.name)
                        }
                    };
                    if name.contains(':') && !name.contains('/') && !wild {
                        continue;
                    }
                    m.name = name;
                    guard("set_registry", || i.set_registry(Some(n)))?;
                }
            }
            3 => {
                let r = a_name(cx);
                cx.note(|| format!("  name {r:?}"));
                if skip(&r) {
                    continue;
                }
                let n = guard("Name::new", || Name::new(&r))?;
                ensure!(n.is_ok() == refp::image_name(&r), "part", "image name {r:?} is {}", if n.is_ok() { "accepted" } else { "rejected" });
                let Ok(n) = n else {
                    cx.count("part rejected");
                    continue;
                };
                if r.contains(':') && !r.contains('/') && !wild {
                    continue;
                }
                m.name = r.clone();
                guard("set_name", || i.set_name(n))?;
            }
            4..=6 => {
                // suffix
                let what = cx.draw(6);
                let t = match what {
                    0 => None,
                    1 | 2 => Some((':', damaged(cx, svc::tag(cx)))),
                    3 => Some(('@', damaged(cx, (*cx.pick(&["a:b", "a+b.c:Z=", "sha256:_-"])).to_owned()))),
                    _ => Some(('@', damaged(cx, svc::digest(cx)))),
                };
                cx.note(|| format!("  suffix {t:?}"));
                let both = cx.coin();
                let parsed = match &t {
                    None => None,
                    Some((':', x)) => {
                        let p = guard("Tag::new", || Tag::new(x))?;
                        ensure!(p.is_ok() == refp::image_tag(x), "part", "image tag {x:?} is {}", if p.is_ok() { "accepted" } else { "rejected" });
                        let Ok(p) = p else {
                            cx.count("part rejected");
                            continue;
                        };
                        Some(TagOrDigest::Tag(p))
                    }
                    Some((_, x)) => {
                        let p = guard("Digest::new", || Digest::new(x))?;
                        ensure!(p.is_ok() == refp::image_digest(x), "part", "image digest {x:?} is {}", if p.is_ok() { "accepted" } else { "rejected" });
                        let Ok(p) = p else {
                            cx.count("part rejected");
                            continue;
                        };
                        Some(TagOrDigest::Digest(p))
                    }
                };
                guard("setting the tag or digest", || match (both, parsed) {
                    (true, p) => i.set_tag_or_digest(p),
                    (_, Some(TagOrDigest::Tag(t))) => i.set_tag(Some(t)),
                    (_, Some(TagOrDigest::Digest(t))) => i.set_digest(Some(t)),
                    (_, None) => {
                        if what == 0 {
                            i.set_tag(None);
                        } else {
                            i.set_digest(None);
                        }
                    }
                })?;
                match (&old.suffix, &t) {
                    (Some((':', _)), Some(('@', _))) => cx.count("tag replaced by digest"),
                    (Some(('@', _)), Some((':', _))) => cx.count("digest replaced by tag"),
                    (Some(_), None) => cx.count("suffix removed"),
                    _ => {}
                }
                m.suffix = t;
            }
            7 => {
                // rebuild from the parts of two images
                let j = cx.n(is.len());
                cx.count("rebuilt from parts");
                let (a, b) = (is[k].clone(), is[j].clone());
                let mode = cx.draw(4);
                let new = guard("rebuilding", || match (mode, b.as_tag_or_digest()) {
                    (0, t) => Image::from_parts(a.as_name(), t),
                    (1, Some(t)) => Image::from((a.as_name(), t)),
                    (1, None) => Image::from((a.as_name(), None)),
                    (2, _) => Image::from(a.as_name()),
                    _ => Image::from(b.as_parts()),
                })?;
                is[k] = new;
                let b = ms[j].clone();
                match mode {
                    0 | 1 => ms[k].suffix = b.suffix,
                    2 => ms[k].suffix = None,
                    _ => ms[k] = b,
                }
            }
            8 => {
                // through a document
                cx.count("saved and reloaded");
                let mut c = Compose::default();
                let id = compose_spec::Identifier::new("s").unwrap_or_else(|e| panic!("{e}"));
                let sv = compose_spec::Service {
                    image: Some(is[k].clone()),
                    ..compose_spec::Service::default()
                };
                c.services.insert(id, sv);
                let t = crate::util::save(&c)?;
                let back = t.clone().and_then(|t| serde_yaml::from_str::<Compose>(&t).map_err(|e| e.to_string()));
                match back {
                    Ok(mut c2) => {
                        let Some(b) = c2.services[0].image.take() else {
                            return viol("lost", format!("image {:?} lost in a save", ms[k].text()));
                        };
                        is[k] = b;
                    }
                    Err(e) => {
                        let class = if ms[k].port_only() { "port-only-name" } else { "reload" };
                        return viol(class, format!("saved image {:?} rejected: {e}", ms[k].text()));
                    }
                }
            }
            _ => {
                // parse other text
                let t = damaged(cx, if cx.coin() { svc::image(cx) } else { format!("{}:{}", a_name(cx), svc::tag(cx)) });
                cx.note(|| format!("  text {t:?}"));
                if skip(&t) {
                    continue;
                }
                let p = guard("parsing", || Image::parse(t.as_str()))?;
                let r = refp::image(&t);
                ensure!(p.is_ok() == r.is_some(), "text", "image {t:?} is {}", if p.is_ok() { "accepted" } else { "rejected" });
                match (p, r) {
                    (Ok(_), Some(r)) if r.port_only() && !wild => continue,
                    (Ok(p), Some(r)) => {
                        is[k] = p;
                        ms[k] = r;
                    }
                    _ => {
                        cx.count("text rejected");
                        continue;
                    }
                }
            }
        }
        took += 1;
        cx.note(|| format!("  = {}", ms[k].text()));
        check(&is[k], &ms[k])?;
    }
    for (i, m) in is.iter().zip(&ms) {
        check(i, m)?;
    }
    // order and equality are those of the text
    for (i, m) in is.iter().zip(&ms) {
        for (j, n) in is.iter().zip(&ms) {
            ensure!(i.cmp(j) == m.text().cmp(&n.text()) && (i == j) == (m == n), "order", "{:?} and {:?}", m.text(), n.text());
        }
    }
    if took >= 3 {
        cx.nontrivial();
    }
    Ok(())
}
