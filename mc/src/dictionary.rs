//! Literals of the source code under test, as parts of inputs: anything that the code compares its
//! input with is reached, even if it is not part of the syntax.

use std::collections::BTreeSet;

fn sources() -> Vec<String> {
    let root = std::env::var("MC_REPO").unwrap_or_else(|_| "/repo".into());
    let mut paths: Vec<_> = std::fs::read_dir(format!("{root}/src"))
        .into_iter()
        .flatten()
        .flatten()
        .map(|e| e.path())
        .filter(|p| p.extension().is_some_and(|e| e == "rs"))
        .filter(|p| {
            !p.file_stem()
                .is_some_and(|s| s.to_string_lossy().contains("test"))
        })
        .collect();
    paths.sort();
    paths
        .iter()
        .filter_map(|p| std::fs::read_to_string(p).ok())
        .map(|s| {
            // without unit tests
            let end = s.find("\n#[cfg(test)]\nmod ").unwrap_or(s.len());
            s[..end].to_string()
        })
        .collect()
}

fn unescaped(s: &str) -> String {
    let mut out = String::new();
    let mut cs = s.chars().peekable();
    while let Some(c) = cs.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match cs.next() {
            Some('n') => out.push('\n'),
            Some('t') => out.push('\t'),
            Some('r') => out.push('\r'),
            Some('0') => out.push('\0'),
            Some('x') => {
                let h: String = cs.by_ref().take(2).collect();
                out.extend(u8::from_str_radix(&h, 16).ok().map(char::from));
            }
            Some('u') => {
                let h: String = cs.by_ref().skip(1).take_while(|c| *c != '}').collect();
                out.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            }
            Some('\n') => while cs.next_if(|c| c.is_whitespace()).is_some() {},
            Some(c) => out.push(c),
            None => {}
        }
    }
    out
}

/// Strings, characters and numbers.
pub fn literals() -> (Vec<String>, Vec<usize>) {
    let mut texts = BTreeSet::new();
    let mut numbers = BTreeSet::new();
    for src in sources() {
        let c: Vec<char> = src.chars().collect();
        let at = |i: usize| c.get(i).copied().unwrap_or('\0');
        let word = |c: char| c.is_alphanumeric() || c == '_';
        let mut i = 0;
        while i < c.len() {
            if at(i) == '/' && at(i + 1) == '/' {
                while i < c.len() && at(i) != '\n' {
                    i += 1;
                }
            } else if at(i) == '/' && at(i + 1) == '*' {
                while i < c.len() && !(at(i) == '*' && at(i + 1) == '/') {
                    i += 1;
                }
                i += 2;
            } else if at(i) == 'r'
                && matches!(at(i + 1), '"' | '#')
                && (i == 0 || !word(at(i - 1)) || at(i - 1) == 'b')
            {
                let hashes = c[i + 1..].iter().take_while(|c| **c == '#').count();
                i += 1 + hashes;
                if at(i) == '"' {
                    let start = i + 1;
                    i = start;
                    while i < c.len() && !(at(i) == '"' && (1..=hashes).all(|k| at(i + k) == '#')) {
                        i += 1;
                    }
                    texts.insert(c[start..i.min(c.len())].iter().collect());
                    i += 1 + hashes;
                }
            } else if at(i) == '"' {
                let start = i + 1;
                i = start;
                while i < c.len() && at(i) != '"' {
                    i += if at(i) == '\\' { 2 } else { 1 };
                }
                let s: String = c[start..i.min(c.len())].iter().collect();
                texts.insert(unescaped(&s));
                i += 1;
            } else if at(i) == '\'' {
                if at(i + 1) == '\\' {
                    let start = i + 1;
                    i = start + 2;
                    while i < c.len() && at(i) != '\'' {
                        i += 1;
                    }
                    let s: String = c[start..i.min(c.len())].iter().collect();
                    texts.insert(unescaped(&s));
                    i += 1;
                } else if at(i + 2) == '\'' {
                    texts.insert(at(i + 1).to_string());
                    i += 3;
                } else {
                    i += 1;
                }
            } else if at(i).is_ascii_digit() && (i == 0 || !word(at(i - 1))) {
                let start = i;
                while word(at(i)) {
                    i += 1;
                }
                let s: String = c[start..i].iter().filter(|c| **c != '_').collect();
                let digits = |s: &str, radix| {
                    let d: String = s.chars().take_while(|c| c.is_digit(radix)).collect();
                    usize::from_str_radix(&d, radix).ok()
                };
                numbers.extend(match s.strip_prefix("0x") {
                    Some(h) => digits(h, 16),
                    None => digits(&s, 10),
                });
            } else {
                i += 1;
            }
        }
    }
    texts.retain(|t: &String| !t.is_empty() && t.len() <= 24);
    (texts.into_iter().collect(), numbers.into_iter().collect())
}
