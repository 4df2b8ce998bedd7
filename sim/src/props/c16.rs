use super::Prop;
use crate::core::{fnv, guard, mix, Cx, Res};
use crate::ensure;
use crate::gen::{self, svc, P};
use crate::mutate;
use crate::scal::KINDS;
use crate::y::{emit, Style, Y};
use compose_spec::service::{build, device, image, ports, user, volumes, *};
use compose_spec::{ExtensionKey, Identifier, MapKey, ShortOrLong};
use indexmap::{IndexMap, IndexSet};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_yaml::Value;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::fmt::{Debug, Display};
use std::hash::{BuildHasher, Hash, Hasher};
use std::path::Path;
use std::str::FromStr;

pub const PROP: Prop = Prop {
    id: "C16",
    run,
    quick_runs: 700000,
    apart: false,
    rule: "Each run makes a pool of values of one type that are equal or nearly so (parsed again, loaded again, cloned, changed and changed back, twisted by a character or a field) and plays a drawn history of insertions, replacements, look-ups by value, by borrowed string or path and by absent strings, removals and restarts (the same content in a process with another hash seed) over a hash map with the process's seed, one whose hasher makes most keys collide, an index map and, for ordered types, a B-tree, all against a list searched with ==. Equality itself must be an equivalence that agrees with the value's full contents one way and its meaning the other, and with hashing, ordering and comparison with strings. Non-trivial: a look-up was compared.",
    real: "Eq, Ord, Hash and Borrow implementations of compose_spec's types; std's and indexmap's collections",
    stub: "hash seeds (interposed entropy source), colliding hasher",
    probes: &["found by value", "not found", "found by borrowed form", "removed", "replaced", "restart with another hash seed", "equal values in different words", "ordered map", "colliding hasher", "structured values"],
    assume: &["values from the harness's documents and texts; whether two values that differ only in how a path is spelled or in the order of their extensions are equal is left to the library"],
};

// ------------------------------------------------------------------ hashers

/// A hasher with a drawn seed that keeps only some of the bits.
#[derive(Clone)]
struct Weak {
    seed: u64,
    mask: u64,
}
struct WeakHasher(u64, u64);
impl Hasher for WeakHasher {
    fn finish(&self) -> u64 {
        mix(self.0) & self.1
    }
    fn write(&mut self, b: &[u8]) {
        self.0 = mix(self.0 ^ fnv(b));
    }
}
impl BuildHasher for Weak {
    type Hasher = WeakHasher;
    fn build_hasher(&self) -> WeakHasher {
        WeakHasher(self.seed, self.mask)
    }
}

// ------------------------------------------------------------------ the history

/// Over values of one type: everything that only needs `Eq + Hash`.
struct Hashed<T> {
    pool: Vec<T>,
    /// key and what it maps to
    model: Vec<(T, u64)>,
    std: HashMap<T, u64>,
    weak: HashMap<T, u64, Weak>,
    index: IndexMap<T, u64>,
}

fn steps(cx: &Cx, most: usize) -> u64 {
    if cx.huge(200) {
        return *cx.pick(&[60, 100, 200]);
    }
    cx.range(2, most) as u64
}

impl<T: Eq + Hash + Clone + Debug> Hashed<T> {
    fn new(cx: &Cx, pool: Vec<T>) -> Self {
        let w = Weak { seed: cx.u64(), mask: *cx.pick(&[u64::MAX, 0, 3, 0x7f << 57]) };
        if w.mask == 0 {
            cx.count("colliding hasher");
        }
        Hashed { pool, model: Vec::new(), std: HashMap::new(), weak: HashMap::with_hasher(w), index: IndexMap::new() }
    }
    fn at(&self, k: &T) -> Option<usize> {
        self.model.iter().position(|(x, _)| x == k)
    }
    fn step(&mut self, cx: &Cx, what: &str, n: u64) -> Res<(usize, u64)> {
        let i = cx.n(self.pool.len());
        let k = self.pool[i].clone();
        let at = self.at(&k);
        let want = at.map(|i| self.model[i].1);
        let op = cx.draw(6);
        cx.ev("collection", op, i as u64);
        match op {
            0..=2 => {
                let got = [self.std.insert(k.clone(), n), self.weak.insert(k.clone(), n), self.index.insert(k.clone(), n)];
                for (g, m) in got.iter().zip(["hash map", "hash map with few hashes", "index map"]) {
                    ensure!(*g == want, "lookup", "{what}: inserting {k:?} into a {m} replaced {g:?}, the model {want:?}; keys: {:?}", self.model);
                }
                match at {
                    Some(i) => {
                        cx.count("replaced");
                        self.model[i].1 = n;
                    }
                    None => self.model.push((k, n)),
                }
            }
            3 => {
                let got = [self.std.remove(&k), self.weak.remove(&k), self.index.shift_remove(&k)];
                for (g, m) in got.iter().zip(["hash map", "hash map with few hashes", "index map"]) {
                    ensure!(*g == want, "lookup", "{what}: removing {k:?} from a {m} gave {g:?}, the model {want:?}; keys: {:?}", self.model);
                }
                if let Some(i) = at {
                    cx.count("removed");
                    self.model.remove(i);
                }
            }
            4 => {
                let got = [self.std.get(&k), self.weak.get(&k), self.index.get(&k)].map(Option::<&u64>::copied);
                for (g, m) in got.iter().zip(["hash map", "hash map with few hashes", "index map"]) {
                    ensure!(*g == want, "lookup", "{what}: looking up {k:?} in a {m} gave {g:?}, the model {want:?}; keys: {:?}", self.model);
                }
                cx.count(if want.is_some() { "found by value" } else { "not found" });
                cx.nontrivial();
            }
            _ => {
                cx.count("restart with another hash seed");
                self.std = self.index.iter().map(|(k, v)| (k.clone(), *v)).collect();
                let w = Weak { seed: cx.u64(), mask: self.weak.hasher().mask };
                let mut weak = HashMap::with_hasher(w);
                weak.extend(self.std.iter().map(|(k, v)| (k.clone(), *v)));
                self.weak = weak;
                self.index = self.model.iter().cloned().collect();
            }
        }
        let n = self.model.len();
        ensure!(
            self.std.len() == n && self.weak.len() == n && self.index.len() == n,
            "lookup",
            "{what}: {n} distinct keys, but the maps hold {}, {} and {}: {:?}",
            self.std.len(),
            self.weak.len(),
            self.index.len(),
            self.model
        );
        ensure!(
            self.index.iter().zip(&self.model).all(|((k, v), (mk, mv))| k == mk && v == mv),
            "lookup",
            "{what}: the index map's order is {:?}, not {:?}",
            self.index,
            self.model
        );
        Ok((i, op))
    }
    /// `==` is an equivalence and agrees with hashing and with contents and meaning.
    fn laws(&self, cx: &Cx, what: &str, meaning: &dyn Fn(&T) -> String) -> Res {
        let w = Weak { seed: cx.u64(), mask: u64::MAX };
        let r = std::collections::hash_map::RandomState::new();
        for a in &self.pool {
            #[allow(clippy::eq_op)]
            let me = a == a;
            ensure!(me, "not-reflexive", "{what}: {a:?} is not equal to itself");
            for b in &self.pool {
                let eq = a == b;
                ensure!(eq == (b == a) && eq != (a != b), "not-symmetric", "{what}: {a:?} and {b:?} are equal one way only");
                if eq {
                    ensure!(w.hash_one(a) == w.hash_one(b) && r.hash_one(a) == r.hash_one(b), "hash-differs", "{what}: {a:?} and {b:?} are equal and hash differently");
                    let (x, y) = (meaning(a), meaning(b));
                    ensure!(x == y, "equal-but-different", "{what}: {a:?} and {b:?} are equal, but mean {x} and {y}");
                    for c in &self.pool {
                        ensure!((a == c) == (b == c), "not-transitive", "{what}: {a:?} equals {b:?}, but only one of them equals {c:?}");
                    }
                    if format!("{a:?}") != format!("{b:?}") {
                        cx.count("equal values in different words");
                    }
                } else {
                    ensure!(format!("{a:?}") != format!("{b:?}"), "same-but-unequal", "{what}: two values {a:?} are not equal");
                }
            }
        }
        Ok(())
    }
}

fn hashed<T: Eq + Hash + Clone + Debug>(cx: &Cx, what: &str, pool: Vec<T>, meaning: &dyn Fn(&T) -> String) -> Res {
    if pool.is_empty() {
        return Ok(());
    }
    let mut h = Hashed::new(cx, pool);
    guard(what, || h.laws(cx, what, meaning))??;
    for n in 0..steps(cx, 24) {
        guard(what, || h.step(cx, what, n))??;
    }
    Ok(())
}

/// Ordered, and perhaps borrowing as something ordered alike.
fn ordered<T: Ord + Clone + Debug, B: ?Sized + Ord + Debug>(cx: &Cx, what: &str, pool: &[T], borrow: &dyn Fn(&T) -> Option<&B>, find: &dyn Fn(&BTreeMap<T, u64>, &B) -> Option<Option<u64>>) -> Res {
    cx.count("ordered map");
    for a in pool {
        for b in pool {
            let o = a.cmp(b);
            ensure!(o == b.cmp(a).reverse(), "order-asymmetric", "{what}: {a:?} and {b:?} compare as {o:?} and {:?}", b.cmp(a));
            ensure!(a.partial_cmp(b) == Some(o), "orders-differ", "{what}: {a:?} and {b:?} compare as {o:?} and {:?}", a.partial_cmp(b));
            ensure!((o == Ordering::Equal) == (a == b), "order-or-equality", "{what}: {a:?} and {b:?} compare as {o:?}, but == says {}", a == b);
            if let (Some(x), Some(y)) = (borrow(a), borrow(b)) {
                ensure!(o == x.cmp(y), "borrowed-order", "{what}: {a:?} and {b:?} compare as {o:?}, what they borrow as {:?}", x.cmp(y));
            }
            for c in pool {
                ensure!(!(a <= b && b <= c) || a <= c, "order-not-transitive", "{what}: {a:?} <= {b:?} <= {c:?}");
            }
        }
    }
    if pool.is_empty() {
        return Ok(());
    }
    let mut model: Vec<(T, u64)> = Vec::new();
    let mut map: BTreeMap<T, u64> = BTreeMap::new();
    for n in 0..steps(cx, 16) {
        let k = cx.pick(pool).clone();
        let at = model.iter().position(|(x, _)| *x == k);
        let want = at.map(|i| model[i].1);
        let got = match cx.draw(4) {
            0 | 1 => {
                match at {
                    Some(i) => model[i].1 = n,
                    None => model.push((k.clone(), n)),
                }
                map.insert(k.clone(), n)
            }
            2 => {
                if let Some(i) = at {
                    model.remove(i);
                }
                map.remove(&k)
            }
            _ => {
                if let Some(g) = borrow(&k).and_then(|b| find(&map, b)) {
                    ensure!(g == want, "lookup", "{what}: looking up what {k:?} borrows as in a B-tree gave {g:?}, the model {want:?}; keys: {model:?}");
                }
                map.get(&k).copied()
            }
        };
        ensure!(got == want, "lookup", "{what}: a B-tree gave {got:?} for {k:?}, the model {want:?}; keys: {model:?}");
        ensure!(map.len() == model.len(), "lookup", "{what}: a B-tree holds {} of {} keys", map.len(), model.len());
    }
    Ok(())
}

/// Look-ups by the borrowed form.
fn borrowed<T, B>(cx: &Cx, what: &str, pool: &[T], others: &[Box<B>]) -> Res
where
    T: Eq + Hash + Clone + Debug + Borrow<B>,
    B: ?Sized + Eq + Hash + Debug,
{
    let w = Weak { seed: cx.u64(), mask: u64::MAX };
    let set: Vec<&T> = pool.iter().filter(|_| cx.chance(2, 3)).collect();
    let std: HashMap<T, u64> = set.iter().map(|k| ((*k).clone(), 1)).collect();
    let index: IndexSet<T> = set.iter().map(|k| (*k).clone()).collect();
    let own = pool.iter().map(Borrow::borrow).chain(others.iter().map(|b| &**b));
    for b in own {
        let want = set.iter().any(|k| (*k).borrow() == b);
        let (a, i) = (std.contains_key(b), index.contains(b));
        ensure!(a == want && i == want, "borrowed-lookup", "{what}: looking up {b:?} gives {a} and {i}, expected {want}; keys: {set:?}");
        if want {
            cx.count("found by borrowed form");
        }
        cx.nontrivial();
    }
    for a in pool {
        ensure!(w.hash_one(a) == w.hash_one::<&B>(a.borrow()), "borrowed-hash", "{what}: {a:?} and what it borrows as hash differently");
        for b in pool {
            let (x, y): (&B, &B) = (a.borrow(), b.borrow());
            ensure!((a == b) == (x == y), "borrowed-equality", "{what}: == of {a:?} and {b:?} is {}, of what they borrow as {}", a == b, x == y);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ pools

fn text(y: &Y) -> Option<String> {
    match y {
        Y::Str(x) => Some(x.clone()),
        Y::Int(i) => Some(i.to_string()),
        _ => None,
    }
}

pub fn pick_text(cx: &Cx, kind: &str) -> String {
    let own: Vec<_> = KINDS.iter().filter(|k| k.name == kind).collect();
    let k = if own.is_empty() { &KINDS[cx.n(KINDS.len())] } else { own[0] };
    if cx.chance(1, 3) {
        if let Some(t) = crate::wild::text(cx, k.name) {
            return t;
        }
    }
    text(&(k.gen)(cx).w).unwrap_or_default()
}

/// Texts near each other.
pub fn texts(cx: &Cx, gen: &dyn Fn(&Cx) -> String) -> Vec<String> {
    let mut v = vec![gen(cx)];
    let more = if cx.huge(300) { 20 } else { cx.range(1, 6) };
    for _ in 0..more {
        let t = cx.pick(&v).clone();
        v.push(match cx.draw(6) {
            0 => t,
            1 => gen(cx),
            2 => t.replacen('/', *cx.pick(&["//", "/./", "/"]), 1),
            3 => t.to_uppercase(),
            4 => format!("{t}{}", cx.pick(&["/", "0", "a", ":ro", ".", "-"])),
            _ => mutate::twist(cx, &t),
        });
    }
    v
}

/// The text, with different spellings of the same path made one.
fn spelled(t: &str) -> String {
    let mut out = String::new();
    for part in t.split(':') {
        let names: Vec<_> = part.split('/').filter(|x| !x.is_empty() && *x != ".").collect();
        if part.starts_with('/') && !names.is_empty() {
            out.push('/');
        }
        out.push_str(&names.join("/"));
        out.push(':');
    }
    out
}

/// What a value means: its text, or what it is saved as whatever the order of its keys.
fn saved<T: Serialize>(v: &T) -> String {
    fn norm(v: &Value) -> String {
        match v {
            Value::Mapping(m) => {
                let mut x: Vec<_> = m.iter().map(|(k, v)| format!("{}={}", norm(k), norm(v))).collect();
                x.sort();
                format!("{{{}}}", x.join(","))
            }
            Value::Sequence(s) => format!("[{}]", s.iter().map(norm).collect::<Vec<_>>().join(",")),
            Value::String(s) => format!("{:?}", spelled(s)),
            Value::Tagged(t) => format!("{}{}", t.tag, norm(&t.value)),
            v => format!("{v:?}"),
        }
    }
    match serde_yaml::to_value(v) {
        Ok(v) => norm(&v),
        Err(e) => e.to_string(),
    }
}

fn parse_pool<T: FromStr + Clone + Display>(cx: &Cx, what: &str, kind: &str, mut again: impl FnMut(&Cx, &T) -> T) -> Res<Vec<T>> {
    let mut pool: Vec<T> = Vec::new();
    for t in texts(cx, &|cx| pick_text(cx, kind)) {
        if mutate::huge(t.as_bytes()) {
            continue;
        }
        if let Ok(v) = guard(what, || t.parse::<T>())? {
            pool.push(v);
        }
    }
    for _ in 0..2 {
        if pool.is_empty() {
            break;
        }
        let v = cx.pick(&pool).clone();
        let v = match cx.draw(3) {
            0 => v,
            1 => v.to_string().parse().unwrap_or(v),
            _ => guard(what, || again(cx, &v))?,
        };
        pool.push(v);
    }
    Ok(pool)
}

fn loaded_pool<T: DeserializeOwned + Serialize + Clone>(cx: &Cx, what: &str, gen: &dyn Fn(&Cx) -> P) -> Res<Vec<T>> {
    cx.count("structured values");
    let mut ys = vec![gen(cx).w];
    for _ in 0..cx.range(1, 5) {
        let mut y = cx.pick(&ys).clone();
        match cx.draw(6) {
            0 => {}
            1 => y = gen(cx).w,
            2 => {
                if let Y::Rec(m) | Y::Map(m) = &mut y {
                    if m.len() > 1 {
                        let (i, j) = (cx.n(m.len()), cx.n(m.len()));
                        m.swap(i, j);
                    }
                }
            }
            3 => {
                if let Y::Rec(m) | Y::Map(m) = &mut y {
                    let k = crate::y::s(*cx.pick(&["x-a", "x-b"]));
                    if m.iter().all(|(x, _)| *x != k) {
                        m.push((k, gen::prim::any_yaml(cx, 2)));
                    }
                }
            }
            _ => mutate::tree(cx, &mut y),
        }
        ys.push(y);
    }
    let mut pool: Vec<T> = Vec::new();
    for y in ys {
        let st = Style::draw(cx);
        let t = emit(cx, &y, &st);
        if mutate::huge(t.as_bytes()) {
            continue;
        }
        if let Ok(v) = guard(what, || serde_yaml::from_str::<T>(&t))? {
            pool.push(v);
        }
    }
    if !pool.is_empty() && cx.coin() {
        let v = cx.pick(&pool).clone();
        let t = guard(what, || serde_yaml::to_string(&v))?;
        if let Ok(w) = t.and_then(|t| serde_yaml::from_str(&t)) {
            pool.push(w);
        }
    }
    Ok(pool)
}

// ------------------------------------------------------------------ types

fn absent(cx: &Cx) -> Vec<Box<str>> {
    ["a", "", "x-a"].into_iter().map(Into::into).chain([gen::prim::text(cx).into()]).collect()
}

/// A string key: ordered, borrows as a string, compares with strings.
fn string_key<T>(cx: &Cx, what: &str, kind: &str) -> Res
where
    T: FromStr + Display + Ord + Hash + Clone + Debug + Borrow<str> + AsRef<str> + PartialEq<str> + for<'a> PartialEq<&'a str>,
{
    let pool: Vec<T> = parse_pool(cx, what, kind, |_, v: &T| v.clone())?;
    strings(cx, what, &pool)?;
    ordered(cx, what, &pool, &|k| Some(k.borrow()), &|m, b: &str| Some(m.get(b).copied()))?;
    borrowed::<T, str>(cx, what, &pool, &absent(cx))?;
    hashed(cx, what, pool, &T::to_string)
}

fn strings<T: Display + Debug + AsRef<str> + PartialEq<str> + for<'a> PartialEq<&'a str>>(_: &Cx, what: &str, pool: &[T]) -> Res {
    for a in pool {
        for b in pool {
            let t = b.to_string();
            let want = a.to_string() == t;
            ensure!((*a == *t.as_str()) == want && (*a == t.as_str()) == want, "string-equality", "{what}: comparing {a:?} with the string {t:?} does not give {want}");
        }
        ensure!(a.as_ref() == a.to_string(), "string-equality", "{what}: {a:?} is the string {:?} but formats as {a}", a.as_ref());
    }
    Ok(())
}

fn plain<T: FromStr + Display + Eq + Hash + Clone + Debug>(cx: &Cx, what: &str, kind: &str) -> Res {
    let pool: Vec<T> = parse_pool(cx, what, kind, |_, v: &T| v.clone())?;
    hashed(cx, what, pool, &|v| spelled(&v.to_string()))
}

fn plain_ord<T: FromStr + Display + Ord + Hash + Clone + Debug>(cx: &Cx, what: &str, kind: &str) -> Res {
    let pool: Vec<T> = parse_pool(cx, what, kind, |_, v: &T| v.clone())?;
    ordered::<T, str>(cx, what, &pool, &|_| None, &|_, _| None)?;
    hashed(cx, what, pool, &|v| spelled(&v.to_string()))
}

fn images(cx: &Cx) -> Res {
    let what = "Image";
    let pool: Vec<Image> = parse_pool(cx, what, "image", |cx, v: &Image| {
        let mut w = v.clone();
        let tag = v.as_tag().map(|t| t.to_string());
        w.set_tag(image::Tag::new("other").ok());
        w.set_tag(tag.as_deref().and_then(|t| image::Tag::new(t).ok()));
        if cx.coin() {
            w.set_registry(v.registry().map(|_| "quay.io").filter(|r| image::Name::new(r).is_ok()).and_then(|r| image::Name::new(r).ok()));
        }
        w
    })?;
    strings(cx, what, &pool)?;
    ordered(cx, what, &pool, &|k| Some(k.borrow()), &|m, b: &str| Some(m.get(b).copied()))?;
    borrowed::<Image, str>(cx, what, &pool, &absent(cx))?;
    let names: Vec<_> = pool.iter().map(Image::as_name).collect();
    strings(cx, "image::Name", &names)?;
    ordered(cx, "image::Name", &names, &|k| Some(k.borrow()), &|m, b: &str| Some(m.get(b).copied()))?;
    borrowed::<image::Name<'_>, str>(cx, "image::Name", &names, &absent(cx))?;
    hashed(cx, "image::Name", names, &|v| v.to_string())?;
    let tags: Vec<_> = pool.iter().filter_map(Image::as_tag).collect();
    strings(cx, "image::Tag", &tags)?;
    ordered(cx, "image::Tag", &tags, &|k| Some(k.borrow()), &|m, b: &str| Some(m.get(b).copied()))?;
    borrowed::<image::Tag<'_>, str>(cx, "image::Tag", &tags, &absent(cx))?;
    hashed(cx, "image::Tag", tags, &|v| v.to_string())?;
    let digests: Vec<_> = pool.iter().filter_map(Image::as_digest).collect();
    strings(cx, "image::Digest", &digests)?;
    ordered(cx, "image::Digest", &digests, &|k| Some(k.borrow()), &|m, b: &str| Some(m.get(b).copied()))?;
    borrowed::<image::Digest<'_>, str>(cx, "image::Digest", &digests, &absent(cx))?;
    hashed(cx, "image::Digest", digests, &|v| v.to_string())?;
    hashed(cx, what, pool, &|v| v.to_string())
}

macro_rules! path_key {
    ($cx:ident, $t:ty, $gen:expr) => {{
        let (cx, what) = ($cx, stringify!($t));
        let mut pool: Vec<$t> = Vec::new();
        for t in texts(cx, &$gen) {
            if let Ok(v) = guard(what, || <$t>::new(t))? {
                pool.push(v);
            }
        }
        let others: Vec<Box<Path>> = texts(cx, &$gen).iter().map(|t| Path::new(t).into()).collect();
        for a in &pool {
            for b in &others {
                ensure!((*a == **b) == (a.as_path() == &**b), "path-equality", "{what}: {a:?} == {b:?} is {}", *a == **b);
            }
        }
        ordered(cx, what, &pool, &|k| Some(k.borrow()), &|m, b: &Path| Some(m.get(b).copied()))?;
        borrowed::<$t, Path>(cx, what, &pool, &others)?;
        hashed(cx, what, pool, &|v| spelled(&v.as_path().to_string_lossy()))
    }};
}

fn structured<T: DeserializeOwned + Serialize + Eq + Hash + Clone + Debug>(cx: &Cx, what: &str, gen: &dyn Fn(&Cx) -> P) -> Res {
    let pool: Vec<T> = loaded_pool(cx, what, gen)?;
    hashed(cx, what, pool, &saved::<T>)
}

fn run(cx: &Cx) -> Res {
    let den = 3;
    match cx.draw(40) {
        0..=2 => images(cx),
        3 => string_key::<Identifier>(cx, "Identifier", "identifier (profile)"),
        4 => string_key::<MapKey>(cx, "MapKey", "map key"),
        5 => string_key::<ExtensionKey>(cx, "ExtensionKey", "extension key"),
        6 => string_key::<Hostname>(cx, "Hostname", "hostname"),
        7 => string_key::<Resource>(cx, "Resource", "ulimit resource"),
        8 => string_key::<user::Name>(cx, "user::Name", "group"),
        9 => string_key::<build::CacheOption>(cx, "CacheOption", "map key"),
        10 => plain::<device::Permissions>(cx, "Permissions", ["device", "cgroup rule"][cx.n(2)]),
        11 | 12 => path_key!(cx, volumes::AbsolutePath, gen::prim::abs_path),
        13 | 14 => path_key!(cx, volumes::HostPath, svc::host_path),
        15 => plain_ord::<MacAddress>(cx, "MacAddress", "mac address"),
        16 => plain::<volumes::Source>(cx, "Source", "host path"),
        17 => plain::<volumes::ShortVolume>(cx, "ShortVolume", "short volume"),
        18 => plain::<ports::ShortPort>(cx, "ShortPort", "short port"),
        19 => plain::<ports::Range>(cx, "Range", "port range"),
        20 => plain::<Expose>(cx, "Expose", "exposed port"),
        21 => plain::<Device>(cx, "Device", "device"),
        22 => plain::<device::CgroupRule>(cx, "CgroupRule", "cgroup rule"),
        23 => plain::<User>(cx, "User", "user"),
        24 => plain::<IdOrName>(cx, "IdOrName", "group"),
        25 => plain::<Platform>(cx, "Platform", "platform"),
        26 => plain::<Link>(cx, "Link", "link"),
        27 => plain::<VolumesFrom>(cx, "VolumesFrom", "volumes from"),
        28 => plain::<build::SshAuth>(cx, "SshAuth", "ssh"),
        29 => plain::<build::CacheOption>(cx, "CacheOption", "cache"),
        30..=32 => structured::<ports::Port>(cx, "Port", &|cx| svc::port(cx, den)),
        33..=36 => structured::<volumes::Mount>(cx, "Mount", &|cx| svc::mount(cx, den)),
        37 => structured::<ShortOrLong<ports::ShortPort, ports::Port>>(cx, "short or long port", &|cx| if cx.coin() { svc::short_port(cx) } else { svc::port(cx, den) }),
        38 => structured::<ShortOrLong<volumes::ShortVolume, volumes::Mount>>(cx, "short or long volume", &|cx| if cx.coin() { svc::short_volume(cx) } else { svc::mount(cx, den) }),
        _ => {
            plain::<ports::ShortRanges>(cx, "ShortRanges", "port range")
        }
    }
}
