//! Reference parsers: what the documentation says each scalar may look like, written without
//! the library.

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Img {
    pub name: String,
    /// separator and text
    pub suffix: Option<(char, String)>,
}

impl Img {
    pub fn text(&self) -> String {
        match &self.suffix {
            Some((c, t)) => format!("{}{c}{t}", self.name),
            None => self.name.clone(),
        }
    }
    pub fn registry(&self) -> Option<&str> {
        let first = self.name.split('/').next()?;
        first.contains('.').then_some(first)
    }
    /// A name that is nothing but a registry with a port does not stand by itself.
    pub fn port_only(&self) -> bool {
        self.name.contains(':') && !self.name.contains('/')
    }
}

fn low(c: char) -> bool {
    c.is_ascii_lowercase() || c.is_ascii_digit()
}

pub fn name_part(p: &str) -> bool {
    // alnum+ ((. | _ | __ | -+) alnum+)*
    let b: Vec<char> = p.chars().collect();
    let mut i = 0;
    let word = |i: &mut usize| {
        let at = *i;
        while *i < b.len() && low(b[*i]) {
            *i += 1;
        }
        *i > at
    };
    if !word(&mut i) {
        return false;
    }
    while i < b.len() {
        let at = i;
        let c = b[i];
        while i < b.len() && b[i] == c {
            i += 1;
        }
        let n = i - at;
        let ok = match c {
            '.' => n == 1,
            '_' => n <= 2,
            '-' => true,
            _ => false,
        };
        if !ok || !word(&mut i) {
            return false;
        }
    }
    true
}

pub fn port16(p: &str) -> bool {
    !p.is_empty() && p.bytes().all(|b| b.is_ascii_digit()) && p.parse::<u64>().is_ok_and(|n| n <= 65_535)
}

pub fn image_name(n: &str) -> bool {
    n.split('/').enumerate().all(|(i, p)| {
        if i == 0 && p.contains('.') {
            match p.split_once(':') {
                Some((h, port)) => port16(port) && name_part(h),
                None => name_part(p),
            }
        } else {
            name_part(p)
        }
    })
}
pub fn image_tag(t: &str) -> bool {
    (1..=128).contains(&t.len()) && t.chars().all(|c| c.is_ascii_alphanumeric() || "._-".contains(c))
}
pub fn image_digest(d: &str) -> bool {
    let Some((a, e)) = d.split_once(':') else { return false };
    !e.is_empty()
        && e.chars().all(|c| c.is_ascii_alphanumeric() || "=_-".contains(c))
        && a.split(['+', '.', '_', '-']).all(|w| !w.is_empty() && w.chars().all(low))
}

pub fn image(x: &str) -> Option<Img> {
    let (rest, digest) = match x.split_once('@') {
        Some((r, d)) => (r, Some(d)),
        None => (x, None),
    };
    let (name, tag) = match rest.rsplit_once(':') {
        Some((n, t)) if !t.contains('/') => (n, Some(t)),
        _ => (rest, None),
    };
    if !image_name(name) || !tag.is_none_or(image_tag) || !digest.is_none_or(image_digest) {
        return None;
    }
    let suffix = match (tag, digest) {
        (Some(_), Some(_)) => return None,
        (Some(t), None) => Some((':', t.to_owned())),
        (None, Some(d)) => Some(('@', d.to_owned())),
        (None, None) => None,
    };
    Some(Img {
        name: name.to_owned(),
        suffix,
    })
}
