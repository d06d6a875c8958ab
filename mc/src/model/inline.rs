//! Reference inline parser. Works on the complete text of a leaf block at once, one byte at a
//! time, and keeps for every byte the position in the source it came from.

use super::attr;
use super::attr::Elem;

pub type R = (usize, usize);

/// Text of a leaf block, white space around it and container prefixes removed.
pub struct Text {
    pub b: Vec<u8>,
    pub p: Vec<usize>,
}

impl Text {
    pub fn new(src: &str, lines: &[R]) -> Self {
        let mut b = Vec::new();
        let mut p = Vec::new();
        for &(s, e) in lines {
            b.extend_from_slice(&src.as_bytes()[s..e]);
            p.extend(s..e);
        }
        Self { b, p }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum CK {
    Span,
    Sub,
    Sup,
    Ins,
    Del,
    Emph,
    Strong,
    Mark,
    Verbatim,
    Math(bool),
    Raw,
    Link,
    Image,
    RefLink,
    RefImage,
    Auto,
}

#[derive(Clone, Debug)]
pub struct Cont {
    pub kind: CK,
    /// Raw format, destination or label.
    pub arg: String,
    pub attrs: Vec<Elem>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum K {
    Text,
    Esc,
    Nbsp,
    Soft,
    Hard,
    Ellipsis,
    En,
    Em,
    Quote {
        double: bool,
        left: bool,
    },
    Symbol,
    Footnote,
    Open(usize),
    Close(usize),
    /// Attributes not attached to a container.
    Attrs(Vec<Elem>),
}

#[derive(Clone, Debug)]
struct It {
    k: K,
    /// Range in text.
    s: usize,
    e: usize,
}

/// Resulting event, with its range in the source.
#[derive(Clone, Debug)]
pub enum Out {
    Start(Cont),
    End(Cont),
    Str(String),
    Atom(K, String),
    Attrs(Vec<Elem>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    /// Delimiter without braces.
    Bare(u8),
    /// Delimiter with braces.
    Brace(u8),
    Quote(u8),
    Bracket {
        image: bool,
    },
    Dest {
        span: usize,
        image: bool,
        paren: bool,
    },
}

/// Token that may open or close something.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Tok {
    Bare(u8),
    BraceOpen(u8),
    BraceClose(u8),
    Bracket { image: bool },
    CloseBracket,
    CloseParen,
}

fn ws(c: u8) -> bool {
    c.is_ascii_whitespace()
}

struct P<'t> {
    t: &'t Text,
    items: Vec<It>,
    conts: Vec<Cont>,
    /// Potential openers: kind, index of item.
    ops: Vec<(Op, usize)>,
    /// Text items whose first byte is escaped.
    escaped_at: Option<usize>,
    i: usize,
}

pub fn parse(t: &Text) -> Vec<(Out, R)> {
    let mut p = P {
        t,
        items: Vec::new(),
        conts: Vec::new(),
        ops: Vec::new(),
        escaped_at: None,
        i: 0,
    };
    while p.i < t.b.len() {
        p.step();
    }
    p.finish()
}

impl P<'_> {
    fn at(&self, i: usize) -> Option<u8> {
        self.t.b.get(i).copied()
    }

    fn run(&self, i: usize, c: u8) -> usize {
        self.t.b[i..].iter().take_while(|x| **x == c).count()
    }

    fn push(&mut self, k: K, len: usize) {
        self.items.push(It {
            k,
            s: self.i,
            e: self.i + len,
        });
        self.i += len;
    }

    fn cont(&mut self, kind: CK, arg: String) -> usize {
        self.conts.push(Cont {
            kind,
            arg,
            attrs: Vec::new(),
        });
        self.conts.len() - 1
    }

    fn s(&self, a: usize, b: usize) -> String {
        String::from_utf8(self.t.b[a..b].to_vec()).unwrap()
    }

    /// Is the byte at `i` an opening brace that may start attributes.
    fn attr_brace(&self, i: usize) -> bool {
        self.at(i) == Some(b'{') && !self.at(i + 1).is_some_and(|c| b"*^=-+~_'\"".contains(&c))
    }

    fn step(&mut self) {
        let c = self.t.b[self.i];
        match c {
            b'\\' => return self.escape(),
            b'\n' => return self.push(K::Soft, 1),
            b'`' => return self.verbatim(),
            b'{' if self.attr_brace(self.i) => {
                if let Some((e, elems)) = attr::sets(&self.t.b, self.i) {
                    if elems.is_empty() {
                        self.i = e; // an empty set disappears
                    } else {
                        self.push(K::Attrs(elems), e - self.i);
                    }
                } else {
                    self.push(K::Text, 1);
                }
                return;
            }
            b'<' => {
                let rest = &self.t.b[self.i + 1..];
                if let Some(n) = rest.iter().position(|c| ws(*c) || *c == b'<' || *c == b'>') {
                    if rest[n] == b'>' && rest[..n].iter().any(|c| matches!(c, b':' | b'@')) {
                        let url = self.s(self.i + 1, self.i + 1 + n);
                        let c = self.cont(CK::Auto, url);
                        self.push(K::Open(c), 1);
                        self.push(K::Text, n);
                        self.push(K::Close(c), 1);
                        return;
                    }
                }
                return self.push(K::Text, 1);
            }
            b':' => {
                let rest = &self.t.b[self.i + 1..];
                let n = rest
                    .iter()
                    .take_while(|c| c.is_ascii_alphanumeric() || b"-+_".contains(c))
                    .count();
                if n > 0 && rest.get(n) == Some(&b':') {
                    return self.push(K::Symbol, n + 2);
                }
                return self.push(K::Text, 1);
            }
            b'[' if self.at(self.i + 1) == Some(b'^') && self.at(self.i + 2) != Some(b'}') => {
                let rest = &self.t.b[self.i + 2..];
                if let Some(n) = rest.iter().position(|c| b"[]\n".contains(c)) {
                    if rest[n] == b']' {
                        return self.push(K::Footnote, n + 3);
                    }
                }
            }
            _ => {}
        }

        let next = self.at(self.i + 1);
        let tok = match c {
            b'[' => Some((Tok::Bracket { image: false }, 1)),
            b'!' if next == Some(b'[') => Some((Tok::Bracket { image: true }, 2)),
            b']' => Some((Tok::CloseBracket, 1)),
            b')' => Some((Tok::CloseParen, 1)),
            b'{' => Some((Tok::BraceOpen(next.unwrap()), 2)),
            b'*' | b'^' | b'=' | b'+' | b'~' | b'_' | b'\'' | b'"' | b'-' if next == Some(b'}') => {
                Some((Tok::BraceClose(c), 2))
            }
            b'*' | b'^' | b'~' | b'_' | b'\'' | b'"' => Some((Tok::Bare(c), 1)),
            _ => None,
        };
        if let Some((tok, len)) = tok {
            if self.close(tok, len) || self.open(tok, len) {
                return;
            }
            match tok {
                Tok::Bare(q @ (b'\'' | b'"')) | Tok::BraceClose(q @ (b'\'' | b'"')) => {
                    let double = q == b'"';
                    return self.push(
                        K::Quote {
                            double,
                            left: false,
                        },
                        len,
                    );
                }
                Tok::BraceOpen(q @ (b'\'' | b'"')) => {
                    let double = q == b'"';
                    return self.push(K::Quote { double, left: true }, len);
                }
                _ => return self.push(K::Text, len),
            }
        }

        match c {
            b'.' => {
                let n = self.run(self.i, b'.');
                for _ in 0..n / 3 {
                    self.push(K::Ellipsis, 3);
                }
                self.push(K::Text, n % 3);
            }
            b'-' => {
                let mut n = self.run(self.i, b'-');
                if n > 1 && self.at(self.i + n) == Some(b'}') {
                    n -= 1; // last one belongs to the brace
                }
                if n == 1 {
                    return self.push(K::Text, 1);
                }
                let (em, en) = match (n % 3, n % 2) {
                    (0, _) => (n / 3, 0),
                    (_, 0) => (0, n / 2),
                    (1, _) => ((n - 4) / 3, 2),
                    (_, _) => ((n - 2) / 3, 1),
                };
                for _ in 0..em {
                    self.push(K::Em, 3);
                }
                for _ in 0..en {
                    self.push(K::En, 2);
                }
            }
            _ => self.push(K::Text, 1),
        }
    }

    fn escape(&mut self) {
        let Some(n) = self
            .at(self.i + 1)
            .filter(|c| matches!(c, b' ' | b'\t' | b'\n') || c.is_ascii_punctuation())
        else {
            return self.push(K::Text, 1);
        };
        let blank = self.t.b[self.i + 1..]
            .iter()
            .take_while(|c| matches!(c, b' ' | b'\t'))
            .count();
        let ends_line = self.at(self.i + 1 + blank) == Some(b'\n');
        if n == b'\t' && !ends_line {
            return self.push(K::Text, 1);
        }
        self.push(K::Esc, 1);
        if ends_line {
            return self.push(K::Hard, blank + 1);
        }
        if n == b' ' {
            return self.push(K::Nbsp, 1);
        }
        self.escaped_at = Some(self.i);
        self.push(K::Text, 1);
    }

    fn is_unescaped_dollar(&self, end: usize) -> bool {
        end > 0
            && self.t.b[end - 1] == b'$'
            && self
                .items
                .iter()
                .rev()
                .take(2)
                .any(|it| it.k == K::Text && it.e == end && it.s == end - 1)
            && !(self
                .items
                .iter()
                .any(|it| it.k == K::Esc && it.e == end - 1))
    }

    fn verbatim(&mut self) {
        let n = self.run(self.i, b'`');
        let mut start = self.i;
        let mut kind = CK::Verbatim;
        if self.is_unescaped_dollar(start) {
            self.items.pop();
            start -= 1;
            kind = CK::Math(false);
            if self.is_unescaped_dollar(start) {
                self.items.pop();
                start -= 1;
                kind = CK::Math(true);
            }
            // what remains before the dollar is text, even if nothing
            self.items.push(It {
                k: K::Text,
                s: start,
                e: start,
            });
        }

        let c = self.cont(kind, String::new());
        let body = self.i + n;
        let mut j = body;
        let mut closed = None;
        while j < self.t.b.len() {
            let r = self.run(j, b'`');
            if r == n {
                closed = Some(j);
                break;
            }
            j += r.max(1);
        }
        let end = closed.unwrap_or(self.t.b.len());
        self.items.push(It {
            k: K::Open(c),
            s: start,
            e: body,
        });

        // white space next to delimiter that only separates from a backtick
        let content = &self.t.b[body..end];
        let lead = content.iter().take_while(|c| ws(**c)).count();
        let mut tail = content.len();
        let mut cut = (0, 0);
        if lead < content.len() {
            if content[lead] == b'`' {
                let line = content[..lead]
                    .iter()
                    .rposition(|c| *c == b'\n')
                    .map_or(0, |i| i + 1);
                cut = (line, lead);
            }
            let trimmed = content.len() - content.iter().rev().take_while(|c| ws(**c)).count();
            if closed.is_some() && content[trimmed - 1] == b'`' {
                tail = trimmed;
            }
        }
        for (a, b) in [(0, cut.0), (cut.1, tail)] {
            self.i = body + a;
            if a < b {
                self.push(K::Text, b - a);
            }
        }

        self.i = end;
        if closed.is_none() {
            self.push(K::Close(c), 0);
            return;
        }
        self.push(K::Close(c), n);
        if self.at(self.i) == Some(b'{') && self.at(self.i + 1) == Some(b'=') {
            let rest = &self.t.b[self.i + 2..];
            if let Some(l) = rest.iter().position(|c| ws(*c) || b"{}".contains(c)) {
                if l > 0 && rest[l] == b'}' {
                    self.conts[c].kind = CK::Raw;
                    self.conts[c].arg = self.s(self.i + 2, self.i + 2 + l);
                    self.i += l + 3;
                    self.items.last_mut().unwrap().e = self.i;
                }
            }
            return;
        }
        if let Some(elems) = self.attach() {
            self.conts[c].attrs = elems;
        }
    }

    /// Parse attributes attached to the item that was just pushed, if any.
    fn attach(&mut self) -> Option<Vec<Elem>> {
        if self.attr_brace(self.i) {
            if let Some((e, elems)) = attr::sets(&self.t.b, self.i) {
                self.i = e;
                self.items.last_mut().unwrap().e = e;
                return Some(elems);
            }
        }
        None
    }

    fn close(&mut self, tok: Tok, len: usize) -> bool {
        let Some(o) = self.ops.iter().rposition(|(op, _)| match (op, tok) {
            (Op::Bare(a), Tok::Bare(b)) => *a == b,
            (Op::Brace(a), Tok::BraceClose(b)) => *a == b,
            (Op::Quote(a), Tok::Bare(b) | Tok::BraceClose(b)) => *a == b,
            (Op::Bracket { .. }, Tok::CloseBracket) => true,
            (Op::Dest { paren, .. }, Tok::CloseBracket) => !paren,
            (Op::Dest { paren, .. }, Tok::CloseParen) => *paren,
            _ => false,
        }) else {
            return false;
        };
        let (op, it) = self.ops[o];
        if matches!(op, Op::Bare(_) | Op::Brace(_) | Op::Quote(_)) && it + 1 == self.items.len() {
            return false; // nothing inside
        }
        if matches!(op, Op::Bare(_) | Op::Quote(_)) && self.i > 0 && ws(self.t.b[self.i - 1]) {
            return false;
        }
        self.ops.truncate(o);
        match op {
            Op::Bare(c) | Op::Brace(c) => {
                let kind = match c {
                    b'*' => CK::Strong,
                    b'_' => CK::Emph,
                    b'^' => CK::Sup,
                    b'~' => CK::Sub,
                    b'=' => CK::Mark,
                    b'+' => CK::Ins,
                    b'-' => CK::Del,
                    _ => unreachable!(),
                };
                let c = self.cont(kind, String::new());
                self.items[it].k = K::Open(c);
                self.push(K::Close(c), len);
                if let Some(elems) = self.attach() {
                    self.conts[c].attrs = elems;
                }
            }
            Op::Quote(q) => {
                let double = q == b'"';
                self.items[it].k = K::Quote { double, left: true };
                self.push(
                    K::Quote {
                        double,
                        left: false,
                    },
                    len,
                );
            }
            Op::Bracket { image } => {
                self.push(K::Text, len);
                match self.at(self.i) {
                    Some(c @ (b'(' | b'[')) => {
                        self.ops.push((
                            Op::Dest {
                                span: it,
                                image,
                                paren: c == b'(',
                            },
                            self.items.len(),
                        ));
                        self.push(K::Text, 1);
                    }
                    _ => {
                        if let Some(elems) = self.attach() {
                            let c = self.cont(CK::Span, String::new());
                            self.conts[c].attrs = elems;
                            let close = self.items.len() - 1;
                            self.items[close].k = K::Close(c);
                            if image {
                                let s = self.items[it].s;
                                self.items[it].s += 1;
                                self.items.insert(
                                    it,
                                    It {
                                        k: K::Text,
                                        s,
                                        e: s + 1,
                                    },
                                );
                                self.items[it + 1].k = K::Open(c);
                            } else {
                                self.items[it].k = K::Open(c);
                            }
                        }
                    }
                }
            }
            Op::Dest { span, image, paren } => {
                let dest = self.s(self.items[it].e, self.i);
                let arg = if paren {
                    dest.replace('\n', "")
                } else if dest.is_empty() {
                    let mut label = Vec::new();
                    for x in &self.items[span + 1..it - 1] {
                        match x.k {
                            K::Soft | K::Hard => label.push(b' '),
                            K::Open(_) | K::Close(_) | K::Attrs(_) | K::Esc => {}
                            _ => label.extend(&self.t.b[x.s..x.e]),
                        }
                    }
                    String::from_utf8(label).unwrap()
                } else {
                    let l: Vec<&str> = dest.split('\n').filter(|l| !l.is_empty()).collect();
                    l.join(" ")
                };
                let c = self.cont(
                    match (paren, image) {
                        (true, false) => CK::Link,
                        (true, true) => CK::Image,
                        (false, false) => CK::RefLink,
                        (false, true) => CK::RefImage,
                    },
                    arg,
                );
                self.items.truncate(it);
                self.items[span].k = K::Open(c);
                self.items[it - 1].k = K::Close(c);
                self.i += len;
                self.items[it - 1].e = self.i;
                if let Some(elems) = self.attach() {
                    self.conts[c].attrs = elems;
                }
            }
        }
        true
    }

    fn open(&mut self, tok: Tok, len: usize) -> bool {
        let op = match tok {
            Tok::Bare(c @ (b'\'' | b'"')) | Tok::BraceOpen(c @ (b'\'' | b'"')) => Op::Quote(c),
            Tok::Bare(c) => Op::Bare(c),
            Tok::BraceOpen(c) => Op::Brace(c),
            Tok::Bracket { image } => Op::Bracket { image },
            _ => return false,
        };
        if matches!(op, Op::Bare(_) | Op::Quote(_)) && self.at(self.i + len).is_none_or(ws) {
            return false;
        }
        if op == Op::Quote(b'\'')
            && self.items.last().is_some_and(|it| it.k == K::Text)
            && !ws(self.t.b[self.i - 1])
        {
            return false; // apostrophe
        }
        self.ops.push((op, self.items.len()));
        self.push(
            match op {
                Op::Quote(b'\'') => K::Quote {
                    double: false,
                    left: matches!(tok, Tok::BraceOpen(_)),
                },
                Op::Quote(_) => K::Quote {
                    double: true,
                    left: true,
                },
                _ => K::Text,
            },
            len,
        );
        true
    }

    fn src(&self, s: usize, e: usize) -> R {
        if s < e {
            (self.t.p[s], self.t.p[e - 1] + 1)
        } else if s < self.t.p.len() && s > 0 && s == self.t.b.len() {
            (self.t.p[s], self.t.p[s])
        } else if s > 0 {
            (self.t.p[s - 1] + 1, self.t.p[s - 1] + 1)
        } else {
            (self.t.p[s], self.t.p[s])
        }
    }

    fn finish(self) -> Vec<(Out, R)> {
        let mut out: Vec<(Out, R)> = Vec::new();
        let items = &self.items;
        let mut i = 0;
        while i < items.len() {
            let it = &items[i];
            match &it.k {
                K::Text => {
                    // merge what is contiguous in the source
                    let mut pieces: Vec<R> = Vec::new(); // ranges of text
                    while i < items.len() && items[i].k == K::Text {
                        for j in items[i].s..items[i].e {
                            match pieces.last_mut() {
                                Some(l) if l.1 == j && self.t.p[j - 1] + 1 == self.t.p[j] => {
                                    l.1 = j + 1;
                                }
                                _ => pieces.push((j, j + 1)),
                            }
                        }
                        i += 1;
                    }
                    let word_attrs = match items.get(i).map(|it| &it.k) {
                        Some(K::Attrs(a)) => Some(a.clone()),
                        _ => None,
                    };
                    let last = pieces.len();
                    for (n, &(s, e)) in pieces.iter().enumerate() {
                        if n + 1 < last || word_attrs.is_none() {
                            out.push((Out::Str(self.s(s, e)), self.src(s, e)));
                            continue;
                        }
                        let w = self.t.b[s..e]
                            .iter()
                            .rposition(|c| ws(*c))
                            .map_or(s, |x| s + x + 1);
                        if s < w {
                            out.push((Out::Str(self.s(s, w)), self.src(s, w)));
                        }
                        if w < e {
                            let c = Cont {
                                kind: CK::Span,
                                arg: String::new(),
                                attrs: word_attrs.clone().unwrap(),
                            };
                            let p = self.t.p[w];
                            out.push((Out::Start(c.clone()), (p, p)));
                            out.push((Out::Str(self.s(w, e)), self.src(w, e)));
                            out.push((Out::End(c), self.src(items[i].s, items[i].e)));
                            i += 1;
                        }
                    }
                    continue;
                }
                K::Open(c) => out.push((Out::Start(self.conts[*c].clone()), self.src(it.s, it.e))),
                K::Close(c) => {
                    out.push((Out::End(self.conts[*c].clone()), self.src(it.s, it.e)));
                }
                K::Attrs(a) => out.push((Out::Attrs(a.clone()), self.src(it.s, it.e))),
                K::Symbol => out.push((
                    Out::Atom(K::Symbol, self.s(it.s + 1, it.e - 1)),
                    self.src(it.s, it.e),
                )),
                K::Footnote => out.push((
                    Out::Atom(K::Footnote, self.s(it.s + 2, it.e - 1)),
                    self.src(it.s, it.e),
                )),
                k => out.push((Out::Atom(k.clone(), String::new()), self.src(it.s, it.e))),
            }
            i += 1;
        }
        out
    }
}
