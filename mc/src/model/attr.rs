//! Reference grammar for attribute sets, written as a recursive-descent parser over bytes.
//!
//! set      := '{' item* '}'
//! item     := ws+ | '.' name sep | '#' name sep | name '=' name sep | name '=' '"' quoted '"'
//!           | '%' comment ('%' | before '}')
//! sep      := at least one white space, or directly before '}'

use jotdown::{AttributeKind, AttributeValue};

pub type Elem = (Kind, String);

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Class,
    Id,
    Pair(String),
    Comment,
}

pub fn is_name(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b':' || c == b'_' || c == b'-'
}

#[derive(Debug, PartialEq, Eq, Clone)]
pub enum Set {
    /// A complete set, ending before the given position.
    Done(usize, Vec<Elem>),
    /// Byte at position can not continue any valid set.
    Bad(usize),
    /// Input ended inside of the set.
    More,
}

fn name(b: &[u8], mut i: usize) -> usize {
    while i < b.len() && is_name(b[i]) {
        i += 1;
    }
    i
}

fn s(b: &[u8]) -> String {
    String::from_utf8(b.to_vec()).expect("cuts at ascii")
}

/// Append a piece of a quoted value, pieces are separated by single spaces.
fn piece(val: &mut String, p: &[u8]) {
    if !p.is_empty() {
        if !val.is_empty() {
            val.push(' ');
        }
        val.push_str(&s(p));
    }
}

/// Parse a single set that starts at `b[i]`.
pub fn set(b: &[u8], start: usize) -> Set {
    let mut out = Vec::new();
    let mut i = start;
    if i >= b.len() {
        return Set::More;
    }
    if b[i] != b'{' {
        return Set::Bad(i);
    }
    i += 1;
    loop {
        if i >= b.len() {
            return Set::More;
        }
        match b[i] {
            b'}' => return Set::Done(i + 1, out),
            c if c.is_ascii_whitespace() => i += 1,
            b'%' => {
                let mut text = String::new();
                let mut j = i + 1;
                let mut begin = j;
                loop {
                    if j >= b.len() {
                        return Set::More;
                    }
                    match b[j] {
                        b'%' | b'}' => break,
                        b'\n' => {
                            text.push_str(&s(&b[begin..j]));
                            while j < b.len() && b[j] == b'\n' {
                                j += 1;
                            }
                            text.push('\n');
                            begin = j;
                        }
                        _ => j += 1,
                    }
                }
                text.push_str(&s(&b[begin..j]));
                out.push((Kind::Comment, text));
                i = if b[j] == b'%' { j + 1 } else { j };
            }
            c @ (b'.' | b'#') => {
                let e = name(b, i + 1);
                if e == i + 1 {
                    return if e >= b.len() { Set::More } else { Set::Bad(e) };
                }
                let kind = if c == b'.' { Kind::Class } else { Kind::Id };
                out.push((kind, s(&b[i + 1..e])));
                if let Err(r) = sep(b, e) {
                    return r;
                }
                i = e;
            }
            c if is_name(c) => {
                let e = name(b, i);
                if e >= b.len() {
                    return Set::More;
                }
                if b[e] != b'=' {
                    return Set::Bad(e);
                }
                let key = s(&b[i..e]);
                let v = e + 1;
                if v >= b.len() {
                    return Set::More;
                }
                if b[v] == b'"' {
                    let mut val = String::new();
                    let mut j = v + 1;
                    let mut begin = j;
                    loop {
                        if j >= b.len() {
                            return Set::More;
                        }
                        match b[j] {
                            b'"' => break,
                            b'\\' => {
                                // a line break can not be escaped
                                if j + 1 < b.len() && b[j + 1] == b'\n' {
                                    j += 1;
                                } else {
                                    j += 2;
                                }
                            }
                            b'\n' => {
                                piece(&mut val, &b[begin..j]);
                                j += 1;
                                begin = j;
                            }
                            _ => j += 1,
                        }
                    }
                    piece(&mut val, &b[begin..j]);
                    out.push((Kind::Pair(key), val));
                    i = j + 1;
                } else {
                    let ve = name(b, v);
                    if ve == v {
                        return Set::Bad(v);
                    }
                    out.push((Kind::Pair(key), s(&b[v..ve])));
                    if let Err(r) = sep(b, ve) {
                        return r;
                    }
                    i = ve;
                }
            }
            _ => return Set::Bad(i),
        }
    }
}

fn sep(b: &[u8], i: usize) -> Result<(), Set> {
    if i >= b.len() {
        Err(Set::More)
    } else if b[i] == b'}' || b[i].is_ascii_whitespace() {
        Ok(())
    } else {
        Err(Set::Bad(i))
    }
}

/// One or more directly consecutive sets, as many as are complete.
pub fn sets(b: &[u8], start: usize) -> Option<(usize, Vec<Elem>)> {
    let mut res: Option<(usize, Vec<Elem>)> = None;
    let mut i = start;
    while i < b.len() && b[i] == b'{' {
        match set(b, i) {
            Set::Done(e, elems) => {
                let r = res.get_or_insert((0, Vec::new()));
                r.0 = e;
                r.1.extend(elems);
                i = e;
            }
            _ => break,
        }
    }
    res
}

/// Reference for `Attributes::try_from`.
pub fn whole(src: &str) -> Result<Vec<Elem>, usize> {
    let t = src.trim_end_matches(|c: char| c.is_ascii_whitespace());
    let b = t.as_bytes();
    let mut all = Vec::new();
    let mut i = 0;
    loop {
        match set(b, i) {
            Set::Bad(p) => return Err(p),
            Set::More => return Err(b.len()),
            Set::Done(e, elems) => {
                all.extend(elems);
                if e == b.len() {
                    return Ok(all);
                }
                if b[e] != b'{' {
                    return Err(e);
                }
                i = e;
            }
        }
    }
}

pub fn to_jot<'s>(elems: &[Elem]) -> jotdown::Attributes<'s> {
    elems
        .iter()
        .map(|(k, v)| {
            let k = match k {
                Kind::Class => AttributeKind::Class,
                Kind::Id => AttributeKind::Id,
                Kind::Pair(k) => AttributeKind::Pair {
                    key: k.clone().into(),
                },
                Kind::Comment => AttributeKind::Comment,
            };
            (k, AttributeValue::from(v.clone()))
        })
        .collect()
}

/// Value as displayed: backslashes that escape ASCII punctuation are removed.
pub fn display(raw: &str) -> String {
    let mut out = String::new();
    let mut it = raw.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\\' && it.peek().is_some_and(char::is_ascii_punctuation) {
            out.push(it.next().unwrap());
        } else {
            out.push(c);
        }
    }
    out
}

/// Last id, if any, as displayed.
pub fn id_of(elems: &[Elem]) -> Option<String> {
    lookup(elems, "id").map(|v| display(&v))
}

pub fn key(k: &Kind) -> Option<&str> {
    match k {
        Kind::Class => Some("class"),
        Kind::Id => Some("id"),
        Kind::Pair(k) => Some(k),
        Kind::Comment => None,
    }
}

/// Raw value for a key.
pub fn lookup(elems: &[Elem], want: &str) -> Option<String> {
    let vals: Vec<&String> = elems
        .iter()
        .filter(|(k, _)| key(k) == Some(want))
        .map(|(_, v)| v)
        .collect();
    if want == "class" {
        let v: Vec<&str> = vals
            .iter()
            .map(|v| v.as_str())
            .filter(|v| !v.is_empty())
            .collect();
        (!vals.is_empty()).then(|| v.join(" "))
    } else {
        vals.last().map(|v| v.to_string())
    }
}

/// Unique pairs in order of first occurrence of each key.
pub fn unique(elems: &[Elem]) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = Vec::new();
    for (k, _) in elems {
        if let Some(k) = key(k) {
            if !out.iter().any(|(o, _)| o == k) {
                out.push((k.to_string(), lookup(elems, k).unwrap_or_default()));
            }
        }
    }
    out
}
