//! Reference renderer, works on a tree of the events, and a strict reader of the HTML it emits.

use crate::model::attr;
use jotdown::html::{Indentation, Renderer};
use jotdown::{
    Alignment, AttributeKind, Attributes, Container as C, Event as E, LinkType, ListKind,
    OrderedListNumbering as Num, Render, SpanLinkType,
};
use std::collections::HashMap;

pub enum Node<'a, 's> {
    El(&'a C<'s>, &'a Attributes<'s>, Vec<Node<'a, 's>>),
    Leaf(&'a E<'s>),
}

/// Tree of a balanced sequence of events.
pub fn tree<'a, 's>(evs: &'a [E<'s>]) -> Vec<Node<'a, 's>> {
    let mut stack: Vec<(&C, &Attributes, Vec<Node>)> = Vec::new();
    let mut top = Vec::new();
    for e in evs {
        let n = match e {
            E::Start(c, a) => {
                stack.push((c, a, Vec::new()));
                continue;
            }
            E::End(_) => {
                let (c, a, k) = stack.pop().expect("balanced");
                Node::El(c, a, k)
            }
            e => Node::Leaf(e),
        };
        match stack.last_mut() {
            Some(s) => s.2.push(n),
            None => top.push(n),
        }
    }
    top
}

/// Piece of output.
#[derive(Debug, PartialEq)]
pub enum T {
    /// Start of a line at a depth, unless minified.
    Line(usize),
    /// Line break of the source.
    Soft(usize),
    S(String),
    /// End of the last line.
    End,
    /// Something was seen, so that the next line has to be a new one.
    Seen,
}

struct R<'a, 's> {
    out: Vec<T>,
    depth: usize,
    refs: Vec<String>,
    notes: HashMap<String, Vec<&'a Node<'a, 's>>>,
    tight: Vec<bool>,
}

pub fn esc(s: &str, attr: bool) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '&' => o.push_str("&amp;"),
            '"' if attr => o.push_str("&quot;"),
            c => o.push(c),
        }
    }
    o
}

/// Elements of attributes, with values as displayed.
pub fn elems(a: &Attributes) -> Vec<attr::Elem> {
    a.iter()
        .map(|(k, v)| {
            let k = match k {
                AttributeKind::Class => attr::Kind::Class,
                AttributeKind::Id => attr::Kind::Id,
                AttributeKind::Pair { key } => attr::Kind::Pair(key.to_string()),
                AttributeKind::Comment => attr::Kind::Comment,
            };
            (k, v.to_string())
        })
        .collect()
}

fn collect_notes<'a, 's>(
    nodes: &'a [Node<'a, 's>],
    into: &mut HashMap<String, Vec<&'a Node<'a, 's>>>,
) {
    for n in nodes {
        if let Node::El(c, _, kids) = n {
            collect_notes(kids, into);
            if let C::Footnote { label } = c {
                into.insert(label.to_string(), kids.iter().collect());
            }
        }
    }
}

pub fn render(evs: &[E]) -> Vec<T> {
    let t = tree(evs);
    let mut notes = HashMap::new();
    collect_notes(&t, &mut notes);
    let mut r = R {
        out: Vec::new(),
        depth: 0,
        refs: Vec::new(),
        notes,
        tight: Vec::new(),
    };
    for n in &t {
        r.node(n);
    }
    r.out
}

/// Text of the pieces in a format, `None` is minified.
pub fn layout(ts: &[T], indent: Option<(&str, usize)>) -> String {
    let mut s = String::new();
    let mut seen = false;
    for t in ts {
        match (t, indent) {
            (T::Line(d), Some((i, level))) => {
                if seen {
                    s.push('\n');
                }
                s.push_str(&i.repeat(d + level));
            }
            (T::End, Some(_)) => s.push('\n'),
            (T::Line(_) | T::End, None) => {}
            (T::Soft(d), i) => {
                s.push('\n');
                if let Some((i, level)) = i {
                    s.push_str(&i.repeat(d + level));
                }
                seen = true;
            }
            (T::S(x), _) => s.push_str(x),
            (T::Seen, _) => seen = true,
        }
    }
    s
}

impl<'a, 's> R<'a, 's> {
    fn s(&mut self, s: impl Into<String>) {
        self.out.push(T::S(s.into()));
    }

    fn line(&mut self) {
        self.out.push(T::Line(self.depth));
    }

    fn refer(&mut self, label: &str) -> usize {
        match self.refs.iter().position(|r| r == label) {
            Some(i) => i + 1,
            None => {
                self.refs.push(label.to_string());
                self.refs.len()
            }
        }
    }

    /// Attributes, merged with intrinsic class and id.
    fn attrs(&mut self, a: &Attributes, class: &str, id: Option<&str>) {
        let el = elems(a);
        let mut seen = Vec::new();
        for (k, mut v) in attr::unique(&el) {
            if k == "class" && !class.is_empty() {
                v = format!("{v} {class}");
                let q = esc(&v, true);
                self.s(format!(" class=\"{q}\""));
            } else {
                let q = esc(&v, true);
                self.s(format!(" {k}=\"{q}\""));
            }
            seen.push(k);
        }
        let has = |k: &str| seen.iter().any(|s| s == k);
        if let (Some(id), false) = (id, has("id")) {
            self.s(format!(" id=\"{}\"", esc(id, true)));
        }
        if !class.is_empty() && !has("class") {
            let q = esc(class, true);
            self.s(format!(" class=\"{q}\""));
        }
    }

    fn kids(&mut self, kids: &'a [Node<'a, 's>]) {
        for k in kids {
            self.node(k);
        }
    }

    fn node(&mut self, n: &'a Node<'a, 's>) {
        let (c, a, kids) = match n {
            Node::Leaf(e) => return self.leaf(e),
            Node::El(c, a, kids) => (*c, *a, kids),
        };
        let simple = |name: &str| Some(name.to_string());
        let block_container = match c {
            C::Blockquote => simple("blockquote"),
            C::List { kind, .. } => simple(match kind {
                ListKind::Ordered { .. } => "ol",
                _ => "ul",
            }),
            C::ListItem | C::TaskListItem { .. } => simple("li"),
            C::DescriptionList => simple("dl"),
            C::DescriptionDetails => simple("dd"),
            C::Table => simple("table"),
            C::TableRow { .. } => simple("tr"),
            C::Section { .. } => simple("section"),
            C::Div { .. } => simple("div"),
            _ => None,
        };
        if let Some(name) = block_container {
            self.line();
            self.depth += 1;
            self.s(format!("<{name}"));
            let mut class = "";
            let mut id = None;
            match c {
                C::List {
                    kind:
                        ListKind::Ordered {
                            numbering, start, ..
                        },
                    ..
                } => {
                    if *start > 1 {
                        self.s(format!(" start=\"{start}\""));
                    }
                    match numbering {
                        Num::Decimal => {}
                        Num::AlphaLower => self.s(" type=\"a\""),
                        Num::AlphaUpper => self.s(" type=\"A\""),
                        Num::RomanLower => self.s(" type=\"i\""),
                        Num::RomanUpper => self.s(" type=\"I\""),
                    }
                }
                C::List {
                    kind: ListKind::Task(_),
                    ..
                } => class = "task-list",
                C::Div { class: c } => class = c,
                C::Section { id: i } => id = Some(&**i),
                _ => {}
            }
            self.attrs(a, class, id);
            self.s(">");
            if let C::TaskListItem { checked } = c {
                self.line();
                self.s(if *checked {
                    r#"<input disabled="" type="checkbox" checked=""/>"#
                } else {
                    r#"<input disabled="" type="checkbox"/>"#
                });
            }
            self.out.push(T::Seen);
            if let C::List { tight, .. } = c {
                self.tight.push(*tight);
            }
            self.kids(kids);
            if let C::List { .. } = c {
                self.tight.pop();
            }
            self.depth -= 1;
            self.line();
            self.s(format!("</{name}>"));
            self.out.push(T::Seen);
            return;
        }

        match c {
            C::Document => {
                self.kids(kids);
                self.epilogue();
            }
            C::Footnote { .. } | C::LinkDefinition { .. } => {}
            C::Paragraph => {
                self.line();
                let tight = self.tight.last() == Some(&true);
                if !tight {
                    self.element("p", a, "", None, ">");
                }
                self.kids(kids);
                if !tight {
                    self.s("</p>");
                    self.out.push(T::Seen);
                }
            }
            C::Heading {
                level,
                has_section,
                id,
            } => {
                self.line();
                let name = format!("h{level}");
                self.element(&name, a, "", (!has_section).then_some(&**id), ">");
                self.kids(kids);
                self.s(format!("</{name}>"));
                self.out.push(T::Seen);
            }
            C::TableCell { alignment, head } => {
                self.line();
                let name = if *head { "th" } else { "td" };
                let style = match alignment {
                    Alignment::Unspecified => ">",
                    Alignment::Left => " style=\"text-align: left;\">",
                    Alignment::Center => " style=\"text-align: center;\">",
                    Alignment::Right => " style=\"text-align: right;\">",
                };
                self.element(name, a, "", None, style);
                self.kids(kids);
                self.s(format!("</{name}>"));
                self.out.push(T::Seen);
            }
            C::Caption | C::DescriptionTerm => {
                self.line();
                let name = if *c == C::Caption { "caption" } else { "dt" };
                self.wrap(name, a, kids);
            }
            C::CodeBlock { language } => {
                self.line();
                let open = if language.is_empty() {
                    "><code>".to_string()
                } else {
                    format!("><code class=\"language-{}\">", esc(language, true))
                };
                self.element("pre", a, "", None, &open);
                self.kids(kids);
                self.s("</code></pre>");
                self.out.push(T::Seen);
            }
            C::RawBlock { format } => {
                self.line();
                self.raw(format, kids);
            }
            C::RawInline { format } => self.raw(format, kids),
            C::Span => self.wrap("span", a, kids),
            C::Verbatim => self.wrap("code", a, kids),
            C::Subscript => self.wrap("sub", a, kids),
            C::Superscript => self.wrap("sup", a, kids),
            C::Insert => self.wrap("ins", a, kids),
            C::Delete => self.wrap("del", a, kids),
            C::Strong => self.wrap("strong", a, kids),
            C::Emphasis => self.wrap("em", a, kids),
            C::Mark => self.wrap("mark", a, kids),
            C::Math { display } => {
                let (class, o, c) = if *display {
                    ("math display", ">\\[", "\\]</span>")
                } else {
                    ("math inline", ">\\(", "\\)</span>")
                };
                self.element("span", a, class, None, o);
                self.kids(kids);
                self.s(c);
                self.out.push(T::Seen);
            }
            C::Link(dst, ty) => {
                let href = match ty {
                    LinkType::Span(SpanLinkType::Unresolved) => String::new(),
                    LinkType::Email => format!(" href=\"mailto:{}\"", esc(dst, true)),
                    _ => format!(" href=\"{}\"", esc(dst, true)),
                };
                self.s(format!("<a{href}"));
                self.attrs(a, "", None);
                self.s(">");
                self.out.push(T::Seen);
                self.kids(kids);
                self.s("</a>");
                self.out.push(T::Seen);
            }
            C::Image(dst, _) => {
                self.s("<img");
                self.attrs(a, "", None);
                self.s(" alt=\"");
                self.alt(kids);
                if !dst.is_empty() {
                    self.s(format!("\" src=\"{}", esc(dst, true)));
                }
                self.s("\">");
                self.out.push(T::Seen);
            }
            c => unreachable!("{c:?}"),
        }
    }

    fn element(&mut self, name: &str, a: &Attributes, class: &str, id: Option<&str>, end: &str) {
        self.s(format!("<{name}"));
        self.attrs(a, class, id);
        self.s(end);
        self.out.push(T::Seen);
    }

    fn wrap(&mut self, name: &str, a: &Attributes, kids: &'a [Node<'a, 's>]) {
        self.element(name, a, "", None, ">");
        self.kids(kids);
        self.s(format!("</{name}>"));
        self.out.push(T::Seen);
    }

    fn raw(&mut self, format: &str, kids: &'a [Node<'a, 's>]) {
        for k in kids {
            if let Node::Leaf(E::Str(s)) = k {
                if format == "html" {
                    self.s(s.to_string());
                }
                self.out.push(T::Seen);
            }
        }
        self.out.push(T::Seen);
    }

    /// Alternative text of an image.
    fn alt(&mut self, kids: &'a [Node<'a, 's>]) {
        for k in kids {
            match k {
                Node::El(_, _, kids) => self.alt(kids),
                Node::Leaf(E::Str(s)) => self.s(esc(s, true)),
                Node::Leaf(E::Softbreak | E::Hardbreak) => self.s("\n"),
                Node::Leaf(E::FootnoteReference(l)) => {
                    self.refer(l);
                }
                Node::Leaf(e) => self.leaf(e),
            }
        }
    }

    fn leaf(&mut self, e: &E) {
        match e {
            E::Str(s) => self.s(esc(s, false)),
            E::FootnoteReference(l) => {
                let n = self.refer(l);
                self.s(format!(
                    "<a id=\"fnref{n}\" href=\"#fn{n}\" role=\"doc-noteref\"><sup>{n}</sup></a>"
                ));
            }
            E::Symbol(s) => self.s(format!(":{s}:")),
            E::LeftSingleQuote => self.s("\u{2018}"),
            E::RightSingleQuote => self.s("\u{2019}"),
            E::LeftDoubleQuote => self.s("\u{201c}"),
            E::RightDoubleQuote => self.s("\u{201d}"),
            E::Ellipsis => self.s("\u{2026}"),
            E::EnDash => self.s("\u{2013}"),
            E::EmDash => self.s("\u{2014}"),
            E::NonBreakingSpace => self.s("&nbsp;"),
            E::Hardbreak => {
                self.s("<br>");
                // always on a new line
                self.out.push(T::Seen);
                self.line();
            }
            E::Softbreak => self.out.push(T::Soft(self.depth)),
            E::Escape | E::Blankline | E::Attributes(_) => {}
            E::ThematicBreak(a) => {
                self.line();
                self.s("<hr");
                self.attrs(a, "", None);
                self.s(">");
            }
            E::Start(..) | E::End(_) => unreachable!(),
        }
        self.out.push(T::Seen);
    }

    fn epilogue(&mut self) {
        if !self.refs.is_empty() {
            let lines = |s: &mut Self, t: &str| {
                s.line();
                s.s(t);
                s.out.push(T::Seen);
            };
            lines(self, "<section role=\"doc-endnotes\">");
            lines(self, "<hr>");
            lines(self, "<ol>");
            let mut n = 0;
            while n < self.refs.len() {
                let label = self.refs[n].clone();
                n += 1;
                lines(self, &format!("<li id=\"fn{n}\">"));
                let kids = self.notes.get(&label).cloned().unwrap_or_default();
                let kids: Vec<_> = kids
                    .into_iter()
                    .filter(|k| {
                        // other footnotes are not part of this one
                        !matches!(
                            k,
                            Node::Leaf(E::Blankline) | Node::El(C::Footnote { .. }, ..)
                        )
                    })
                    .collect();
                let back =
                    format!("<a href=\"#fnref{n}\" role=\"doc-backlink\">\u{21A9}\u{FE0E}</a></p>");
                for k in &kids {
                    self.node(k);
                }
                if matches!(kids.last(), Some(Node::El(C::Paragraph, ..))) {
                    // inside of the last paragraph
                    let Some(T::Seen) = self.out.pop() else {
                        unreachable!()
                    };
                    let Some(T::S(p)) = self.out.pop() else {
                        unreachable!()
                    };
                    assert_eq!(p, "</p>");
                    self.s(back);
                } else {
                    self.line();
                    self.s(format!("<p>{back}"));
                }
                lines(self, "</li>");
            }
            lines(self, "</ol>");
            lines(self, "</section>");
        }
        self.out.push(T::End);
    }
}

/// Render with the implementation.
pub fn imp_render<'s>(evs: &[E<'s>], mut r: Renderer<'s>) -> Result<String, String> {
    let mut s = String::new();
    crate::engine::guard(|| r.push_events(evs.iter().cloned(), &mut s))?
        .map_err(|e| format!("rendering failed: {e}"))?;
    Ok(s)
}

pub fn default<'s>() -> Renderer<'s> {
    Renderer::default()
}

pub fn indented<'s>(s: &str, level: usize) -> Renderer<'s> {
    Renderer::indented(Indentation {
        string: s.into(),
        initial_level: level,
    })
}

// ---- reading of output ----

#[derive(Debug, Clone, PartialEq)]
pub enum Tok {
    Open(String, Vec<(String, String)>),
    Close(String),
    Text(String),
}

const VOID: [&str; 4] = ["br", "hr", "img", "input"];
const NAMES: &[&str] = &[
    "blockquote",
    "ul",
    "ol",
    "li",
    "dl",
    "dd",
    "dt",
    "table",
    "tr",
    "td",
    "th",
    "caption",
    "section",
    "div",
    "p",
    "pre",
    "code",
    "span",
    "a",
    "img",
    "sub",
    "sup",
    "ins",
    "del",
    "strong",
    "em",
    "mark",
    "br",
    "hr",
    "input",
];
/// Start or end of these is on a line of its own.
pub const CONTAINERS: &[&str] = &[
    "blockquote",
    "ul",
    "ol",
    "li",
    "dl",
    "dd",
    "table",
    "tr",
    "section",
    "div",
];

fn is_heading(n: &str) -> bool {
    n.strip_prefix('h')
        .is_some_and(|n| !n.is_empty() && n.bytes().all(|c| c.is_ascii_digit()))
}

fn decode(s: &str, attr: bool) -> Result<String, String> {
    let mut o = String::new();
    let mut s = s;
    while let Some(i) = s.find(['&', '<', '>', '"']) {
        o.push_str(&s[..i]);
        let r = &s[i..];
        if r.starts_with('"') && !attr {
            o.push('"');
            s = &r[1..];
            continue;
        }
        let Some((e, c)) = [
            ("&lt;", '<'),
            ("&gt;", '>'),
            ("&amp;", '&'),
            ("&quot;", '"'),
            ("&nbsp;", '\u{a0}'),
        ]
        .into_iter()
        .find(|(e, _)| r.starts_with(e)) else {
            return Err(format!("unescaped {:?} in {s:?}", &r[..1]));
        };
        o.push(c);
        s = &r[e.len()..];
    }
    o.push_str(s);
    Ok(o)
}

/// Read output, which has to be well-formed and with only elements of the renderer.
pub fn read(out: &str) -> Result<Vec<Tok>, String> {
    let mut toks = Vec::new();
    let mut open: Vec<&str> = Vec::new();
    let mut s = out;
    while !s.is_empty() {
        let Some(t) = s.strip_prefix('<') else {
            let n = s.find('<').unwrap_or(s.len());
            toks.push(Tok::Text(decode(&s[..n], false)?));
            s = &s[n..];
            continue;
        };
        if let Some(t) = t.strip_prefix('/') {
            let n = t.find('>').ok_or("unclosed tag")?;
            if open.pop() != Some(&t[..n]) {
                return Err(format!("</{}> does not match what is open", &t[..n]));
            }
            toks.push(Tok::Close(t[..n].to_string()));
            s = &t[n + 1..];
            continue;
        }
        let n = t
            .find(|c: char| !c.is_ascii_alphanumeric())
            .ok_or("unclosed tag")?;
        let name = &t[..n];
        if !NAMES.contains(&name) && !is_heading(name) {
            return Err(format!("unexpected element {name:?}"));
        }
        let mut t = &t[n..];
        let mut attrs = Vec::new();
        loop {
            if let Some(r) = t.strip_prefix('>') {
                t = r;
                break;
            }
            if let (Some(r), "input") = (t.strip_prefix("/>"), name) {
                t = r;
                break;
            }
            let r = t
                .strip_prefix(' ')
                .ok_or_else(|| format!("malformed tag {name:?} at {:.20?}", t))?;
            let k = r.find("=\"").ok_or("attribute without value")?;
            let key = &r[..k];
            if key.is_empty()
                || !key
                    .bytes()
                    .all(|c| c.is_ascii_alphanumeric() || b":_-".contains(&c))
            {
                return Err(format!("invalid attribute name {key:?}"));
            }
            let r = &r[k + 2..];
            let v = r.find('"').ok_or("unclosed attribute value")?;
            attrs.push((key.to_string(), decode(&r[..v], true)?));
            t = &r[v + 1..];
        }
        toks.push(Tok::Open(name.to_string(), attrs));
        if !VOID.contains(&name) {
            open.push(name);
        }
        s = t;
    }
    if !open.is_empty() {
        return Err(format!("not closed: {open:?}"));
    }
    Ok(toks)
}

/// Text of output.
pub fn text_of(toks: &[Tok]) -> String {
    toks.iter()
        .filter_map(|t| match t {
            Tok::Text(s) => Some(s.as_str()),
            _ => None,
        })
        .collect()
}

struct TextOf {
    refs: Vec<String>,
    out: String,
    dsts: Vec<String>,
}

impl TextOf {
    fn walk(&mut self, n: &Node, alt: bool) {
        match n {
            Node::El(c, _, kids) => {
                let mut alt = alt;
                let (o, e) = match c {
                    C::Footnote { .. } | C::LinkDefinition { .. } => return,
                    C::RawBlock { .. } | C::RawInline { .. } if !alt => return,
                    C::Math { display: false } => ("\\(", "\\)"),
                    C::Math { display: true } => ("\\[", "\\]"),
                    C::Link(d, t) => {
                        if !alt && !matches!(t, LinkType::Span(SpanLinkType::Unresolved)) {
                            let m = if *t == LinkType::Email { "mailto:" } else { "" };
                            self.dsts.push(format!("{m}{d}"));
                        }
                        ("", "")
                    }
                    C::Image(d, _) => {
                        if !alt && !d.is_empty() {
                            self.dsts.push(d.to_string());
                        }
                        alt = true;
                        ("", "")
                    }
                    _ => ("", ""),
                };
                if !alt {
                    self.out.push_str(o);
                }
                for k in kids {
                    self.walk(k, alt);
                }
                if !alt {
                    self.out.push_str(e);
                }
            }
            Node::Leaf(E::FootnoteReference(l)) => {
                let i = match self.refs.iter().position(|r| **r == **l) {
                    Some(i) => i,
                    None => {
                        self.refs.push(l.to_string());
                        self.refs.len() - 1
                    }
                };
                if !alt {
                    self.dsts.push(format!("#fn{}", i + 1));
                    self.out.push_str(&(i + 1).to_string());
                }
            }
            Node::Leaf(_) if alt => {}
            Node::Leaf(e) => match e {
                E::Str(s) => self.out.push_str(s),
                E::Symbol(s) => {
                    self.out.push(':');
                    self.out.push_str(s);
                    self.out.push(':');
                }
                E::LeftSingleQuote => self.out.push('\u{2018}'),
                E::RightSingleQuote => self.out.push('\u{2019}'),
                E::LeftDoubleQuote => self.out.push('\u{201c}'),
                E::RightDoubleQuote => self.out.push('\u{201d}'),
                E::Ellipsis => self.out.push('\u{2026}'),
                E::EnDash => self.out.push('\u{2013}'),
                E::EmDash => self.out.push('\u{2014}'),
                E::NonBreakingSpace => self.out.push('\u{a0}'),
                E::Softbreak => self.out.push('\n'),
                _ => {}
            },
        }
    }
}

/// Text that a document has, and where its links lead to, in order.
pub fn expected_text(evs: &[E]) -> (String, Vec<String>) {
    let t = tree(evs);
    let mut notes = HashMap::new();
    collect_notes(&t, &mut notes);
    let mut w = TextOf {
        refs: Vec::new(),
        out: String::new(),
        dsts: Vec::new(),
    };
    for n in &t {
        w.walk(n, false);
    }
    let mut i = 0;
    while i < w.refs.len() {
        let l = w.refs[i].clone();
        for k in notes.get(&l).cloned().unwrap_or_default() {
            w.walk(k, false);
        }
        i += 1;
        w.out.push_str("\u{21A9}\u{FE0E}");
        w.dsts.push(format!("#fnref{i}"));
    }
    (w.out, w.dsts)
}
