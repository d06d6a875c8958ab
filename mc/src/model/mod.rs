//! Reference model of the parser: block tree + inline parser, flattened to events with ranges.

pub mod attr;
pub mod block;
pub mod inline;

use block::{Class, ItemTy, Node};
use inline::{Cont, Out, Text, CK, K, R};
use std::collections::{HashMap, HashSet};

use attr::Elem;
use jotdown::{Attributes, Container, Event, LinkType, ListBulletType, ListKind, SpanLinkType};

pub type Ev = (Event<'static>, std::ops::Range<usize>);

pub struct Heading {
    pub pos: usize,
    pub text: String,
    pub auto: String,
    pub over: Option<String>,
}

impl Heading {
    pub fn id(&self) -> &str {
        self.over.as_ref().unwrap_or(&self.auto)
    }
}

pub struct Doc<'s> {
    pub src: &'s str,
    pub tree: Vec<Node>,
    pub headings: Vec<Heading>,
    pub defs: HashMap<String, (String, Vec<Elem>)>,
    /// Emit tightness with the known deviation.
    pub quirk: bool,
    /// The deviation makes a difference somewhere.
    pub quirk_applies: bool,
    out: Vec<Ev>,
    /// Attribute lines that wait for a block.
    pending: Option<(Vec<Elem>, R)>,
}

fn heading_auto(evs: &[(Out, R)]) -> (String, String) {
    let mut text = String::new();
    let mut id = String::new();
    let mut sep = true; // no hyphen at start or after another
    for (o, _) in evs {
        match o {
            Out::Str(s) => {
                text.push_str(s);
                let mut in_ws = false;
                for c in s.chars() {
                    if c.is_ascii_whitespace() {
                        if !in_ws && !sep {
                            id.push('-');
                            sep = true;
                        }
                        in_ws = true;
                    } else {
                        in_ws = false;
                        if !c.is_ascii_punctuation() || c == '-' || c == '_' {
                            id.push(c);
                            sep = false;
                        }
                    }
                }
            }
            Out::Atom(K::Soft, _) => {
                text.push(' ');
                if !sep {
                    id.push('-');
                    sep = true;
                }
            }
            _ => {}
        }
    }
    (text, id.trim_end_matches('-').to_string())
}

fn list_kind(ty: ItemTy) -> ListKind {
    let bullet = |c| match c {
        b'-' => ListBulletType::Dash,
        b'*' => ListBulletType::Star,
        _ => ListBulletType::Plus,
    };
    match ty {
        ItemTy::Bullet(c) => ListKind::Unordered(bullet(c)),
        ItemTy::Task(c) => ListKind::Task(bullet(c)),
        ItemTy::Ordered(numbering, style, start) => ListKind::Ordered {
            numbering,
            style,
            start,
        },
        ItemTy::Description => unreachable!(),
    }
}

impl<'s> Doc<'s> {
    pub fn new(src: &'s str) -> Self {
        let mut d = Doc {
            src,
            tree: block::tree(src),
            headings: Vec::new(),
            defs: HashMap::new(),
            quirk: false,
            quirk_applies: false,
            out: Vec::new(),
            pending: None,
        };
        let tree = std::mem::take(&mut d.tree);
        d.scan(&tree, &mut HashSet::new());
        d.quirk_applies = quirk_applies(&tree);
        d.tree = tree;
        d
    }

    /// Collect headings and link definitions of the document.
    fn scan(&mut self, nodes: &[Node], used: &mut HashSet<String>) {
        let mut attrs: Vec<Elem> = Vec::new();
        for n in nodes {
            let own = std::mem::take(&mut attrs);
            match n {
                Node::Block(b, kids) => match &b.class {
                    Class::Attrs => {
                        attrs = own;
                        attrs.extend(self.attr_elems(b.open));
                    }
                    Class::Heading(_) => {
                        let evs = inline::parse(&Text::new(self.src, &b.lines));
                        let (text, mut auto) = heading_auto(&evs);
                        if auto.is_empty() || used.contains(&auto) {
                            let base = if auto.is_empty() { "s" } else { &auto };
                            auto = (1..)
                                .map(|i| format!("{base}-{i}"))
                                .find(|s| !used.contains(s))
                                .unwrap();
                        }
                        used.insert(auto.clone());
                        self.headings.push(Heading {
                            pos: b.open.0,
                            text,
                            auto,
                            over: attr::id_of(&own),
                        });
                    }
                    Class::LinkDef(label) => {
                        let url: String = b.lines.iter().map(|r| &self.src[r.0..r.1]).collect();
                        self.defs.insert(label.clone(), (url, own));
                    }
                    _ => self.scan(kids, used),
                },
                Node::List { items, .. } => {
                    for (_, kids) in items {
                        self.scan(kids, used);
                    }
                }
            }
        }
    }

    fn attr_elems(&self, r: R) -> Vec<Elem> {
        match attr::set(self.src.as_bytes(), r.0) {
            attr::Set::Done(_, e) => e,
            _ => panic!("attribute line"),
        }
    }

    fn push(&mut self, e: Event<'static>, r: R) {
        self.out.push((e, r.0..r.1));
    }

    /// Start a block, with attributes if any are waiting.
    fn attrs_for(&mut self, r: R) -> (Attributes<'static>, R) {
        match self.pending.take() {
            Some((elems, ar)) => (attr::to_jot(&elems), (ar.0, r.1)),
            None => (Attributes::new(), r),
        }
    }

    fn start(&mut self, c: Container<'static>, r: R) {
        let (a, r) = self.attrs_for(r);
        self.push(Event::Start(c, a), r);
    }

    /// Attributes without a block to attach to.
    fn dangling(&mut self) {
        if let Some((elems, r)) = self.pending.take() {
            self.push(Event::Attributes(attr::to_jot(&elems)), r);
        }
    }

    fn end(&mut self, c: Container<'static>, r: R) {
        self.dangling();
        self.push(Event::End(c), r);
    }

    fn heading_id(&self, pos: usize) -> String {
        self.headings
            .iter()
            .find(|h| h.pos == pos)
            .expect("heading")
            .id()
            .to_string()
    }

    pub fn events(mut self, quirk: bool) -> Vec<Ev> {
        self.quirk = quirk;
        let tree = std::mem::take(&mut self.tree);
        self.start(Container::Document, (0, 0));
        // sections
        let mut open: Vec<(usize, String)> = Vec::new();
        let mut i = 0;
        while i < tree.len() {
            // attribute lines together with what follows
            let mut j = i;
            while matches!(tree.get(j), Some(Node::Block(b, _)) if b.class == Class::Attrs) {
                j += 1;
            }
            if let Some(Node::Block(b, _)) = tree.get(j) {
                if let Class::Heading(level) = b.class {
                    let pos = match &tree[i] {
                        Node::Block(b, _) => b.open.0,
                        Node::List { .. } => unreachable!(),
                    };
                    while open.last().is_some_and(|o| o.0 >= level) {
                        let id = open.pop().unwrap().1.into();
                        self.end(Container::Section { id }, (pos, pos));
                    }
                    self.emit(&tree[i..j], pos, true);
                    let id = self.heading_id(b.open.0);
                    open.push((level, id.clone()));
                    self.start(Container::Section { id: id.into() }, (b.open.0, b.open.0));
                    self.emit(&tree[j..=j], 0, true);
                    i = j + 1;
                    continue;
                }
            }
            let end = (j + 1).min(tree.len());
            let next = match tree.get(end) {
                Some(n) => node_start(n),
                None => self.src.len(),
            };
            self.emit(&tree[i..end], next, true);
            i = end;
        }
        let n = self.src.len();
        while let Some((_, id)) = open.pop() {
            self.end(Container::Section { id: id.into() }, (n, n));
        }
        self.end(Container::Document, (n, n));
        self.out
    }

    /// `end` is where an open list at the end of the nodes ends.
    fn emit(&mut self, nodes: &[Node], end: usize, top: bool) {
        for (i, n) in nodes.iter().enumerate() {
            match n {
                Node::Block(b, kids) => self.block(b, kids, top),
                Node::List {
                    ty,
                    start,
                    items,
                    tight,
                    tight_quirk,
                } => {
                    let e = nodes.get(i + 1).map_or(end, node_start);
                    if *ty == ItemTy::Description {
                        self.start(Container::DescriptionList, (*start, *start));
                        for (b, kids) in items {
                            self.description(b, kids);
                        }
                        self.end(Container::DescriptionList, (e, e));
                        continue;
                    }
                    let c = Container::List {
                        kind: list_kind(*ty),
                        tight: if self.quirk { *tight_quirk } else { *tight },
                    };
                    self.start(c.clone(), (*start, *start));
                    for (b, kids) in items {
                        let c = match b.class {
                            Class::Item {
                                ty: ItemTy::Task(_),
                                checked,
                            } => Container::TaskListItem { checked },
                            _ => Container::ListItem,
                        };
                        self.start(c.clone(), b.open);
                        self.emit(kids, b.close.0, false);
                        self.end(c, b.close);
                    }
                    self.end(c, (e, e));
                }
            }
        }
    }

    fn description(&mut self, b: &block::Block, mut kids: &[Node]) {
        let dt = Container::DescriptionTerm;
        let dd = Container::DescriptionDetails;
        let is_para = |n: &Node| matches!(n, Node::Block(b, _) if b.class == Class::Para);
        if kids.first().is_some_and(is_para) {
            let Node::Block(term, _) = &kids[0] else {
                unreachable!()
            };
            self.start(dt.clone(), b.open);
            self.text(&term.lines);
            self.end(dt, term.close);
            let mut pos = term.close.1;
            kids = &kids[1..];
            let blanks = kids
                .iter()
                .take_while(|n| matches!(n, Node::Block(b, _) if b.class == Class::Blank))
                .count();
            for k in &kids[..blanks] {
                if let Node::Block(b, _) = k {
                    pos = b.open.1;
                }
            }
            self.emit(&kids[..blanks], 0, false);
            kids = &kids[blanks..];
            if let Some(k) = kids.first() {
                pos = node_start(k);
            }
            self.start(dd.clone(), (pos, pos));
        } else {
            self.start(dt.clone(), b.open);
            self.end(dt, (b.open.1, b.open.1));
            self.start(dd.clone(), (b.inner, b.inner));
        }
        self.emit(kids, b.close.0, false);
        self.end(dd, b.close);
    }

    fn block(&mut self, b: &block::Block, kids: &[Node], top: bool) {
        match &b.class {
            Class::Blank => {
                self.dangling();
                self.push(Event::Blankline, b.open);
            }
            Class::Attrs => {
                let elems = self.attr_elems(b.open);
                let p = self.pending.get_or_insert((Vec::new(), b.open));
                p.0.extend(elems);
                p.1 .1 = b.open.1;
            }
            Class::Thematic => {
                let (a, r) = self.attrs_for(b.open);
                self.push(Event::ThematicBreak(a), r);
            }
            Class::Para => self.leaf(Container::Paragraph, b),
            Class::Heading(l) => {
                let c = Container::Heading {
                    level: u16::try_from(*l).unwrap_or(u16::MAX),
                    has_section: top,
                    id: self.heading_id(b.open.0).into(),
                };
                self.leaf(c, b);
            }
            Class::Code { spec, .. } => {
                let c = match spec.strip_prefix('=') {
                    Some(f) => Container::RawBlock {
                        format: f.to_string().into(),
                    },
                    None => Container::CodeBlock {
                        language: spec.clone().into(),
                    },
                };
                self.literal(c, b);
            }
            Class::LinkDef(l) => {
                let label = l.clone().into();
                self.literal(Container::LinkDefinition { label }, b);
            }
            Class::Foot(l) => {
                let label = l.clone().into();
                self.container(Container::Footnote { label }, b, kids);
            }
            Class::Quote => self.container(Container::Blockquote, b, kids),
            Class::Div { spec, .. } => {
                let class = spec.clone().into();
                self.container(Container::Div { class }, b, kids);
            }
            Class::Item { .. } => unreachable!(),
            Class::Table => self.table(b),
        }
    }

    fn container(&mut self, c: Container<'static>, b: &block::Block, kids: &[Node]) {
        self.start(c.clone(), b.open);
        self.emit(kids, b.close.0, false);
        self.end(c, b.close);
    }

    fn leaf(&mut self, c: Container<'static>, b: &block::Block) {
        self.start(c.clone(), b.open);
        self.text(&b.lines);
        self.end(c, b.close);
    }

    fn literal(&mut self, c: Container<'static>, b: &block::Block) {
        self.start(c.clone(), b.open);
        for l in &b.lines {
            self.push(Event::Str(self.src[l.0..l.1].to_string().into()), *l);
        }
        self.end(c, b.close);
    }

    fn table(&mut self, b: &block::Block) {
        self.start(Container::Table, b.open);
        if let Some(lines) = &b.caption {
            self.start(Container::Caption, b.open);
            self.text(lines);
            self.end(Container::Caption, b.close);
        }
        for row in &b.rows {
            let c = Container::TableRow { head: row.head };
            self.start(c.clone(), row.open);
            for (s, content, pipe, alignment) in &row.cells {
                let c = Container::TableCell {
                    alignment: *alignment,
                    head: row.head,
                };
                self.start(c.clone(), (*s, *s));
                if content.0 < content.1 {
                    self.text(&[*content]);
                }
                self.end(c, *pipe);
            }
            self.end(c, (row.end, row.end));
        }
        self.end(Container::Table, b.close);
    }

    fn text(&mut self, lines: &[R]) {
        for (o, r) in inline::parse(&Text::new(self.src, lines)) {
            let e = match o {
                Out::Start(c) => {
                    let (k, def) = self.inline_container(&c);
                    let mut a = def;
                    a.extend(c.attrs);
                    Event::Start(k, attr::to_jot(&a))
                }
                Out::End(c) => Event::End(self.inline_container(&c).0),
                Out::Str(s) => Event::Str(s.into()),
                Out::Attrs(a) => Event::Attributes(attr::to_jot(&a)),
                Out::Atom(k, s) => match k {
                    K::Esc => Event::Escape,
                    K::Nbsp => Event::NonBreakingSpace,
                    K::Soft => Event::Softbreak,
                    K::Hard => Event::Hardbreak,
                    K::Ellipsis => Event::Ellipsis,
                    K::En => Event::EnDash,
                    K::Em => Event::EmDash,
                    K::Quote { double, left } => match (double, left) {
                        (false, true) => Event::LeftSingleQuote,
                        (false, false) => Event::RightSingleQuote,
                        (true, true) => Event::LeftDoubleQuote,
                        (true, false) => Event::RightDoubleQuote,
                    },
                    K::Symbol => Event::Symbol(s.into()),
                    K::Footnote => Event::FootnoteReference(s.into()),
                    _ => unreachable!(),
                },
            };
            self.push(e, r);
        }
    }

    fn inline_container(&self, c: &Cont) -> (Container<'static>, Vec<Elem>) {
        let arg = c.arg.clone();
        let k = match c.kind {
            CK::Span => Container::Span,
            CK::Sub => Container::Subscript,
            CK::Sup => Container::Superscript,
            CK::Ins => Container::Insert,
            CK::Del => Container::Delete,
            CK::Emph => Container::Emphasis,
            CK::Strong => Container::Strong,
            CK::Mark => Container::Mark,
            CK::Verbatim => Container::Verbatim,
            CK::Math(display) => Container::Math { display },
            CK::Raw => Container::RawInline { format: arg.into() },
            CK::Auto => {
                let ty = if arg
                    .find(['@', ':'])
                    .is_some_and(|i| arg[i..].starts_with('@'))
                {
                    LinkType::Email
                } else {
                    LinkType::AutoLink
                };
                Container::Link(arg.into(), ty)
            }
            CK::Link => Container::Link(arg.into(), LinkType::Span(SpanLinkType::Inline)),
            CK::Image => Container::Image(arg.into(), SpanLinkType::Inline),
            CK::RefLink | CK::RefImage => {
                let (dst, ty, attrs) = self.resolve(&arg);
                let c = if c.kind == CK::RefLink {
                    Container::Link(dst.into(), LinkType::Span(ty))
                } else {
                    Container::Image(dst.into(), ty)
                };
                return (c, attrs);
            }
        };
        (k, Vec::new())
    }

    fn resolve(&self, label: &str) -> (String, SpanLinkType, Vec<Elem>) {
        if let Some((url, attrs)) = self.defs.get(label) {
            return (url.clone(), SpanLinkType::Reference, attrs.clone());
        }
        // any of several headings with the same text
        if let Some(h) = self.headings.iter().find(|h| h.text == label) {
            return (format!("#{}", h.id()), SpanLinkType::Reference, Vec::new());
        }
        (label.to_string(), SpanLinkType::Unresolved, Vec::new())
    }
}

fn node_start(n: &Node) -> usize {
    match n {
        Node::Block(b, _) => b.open.0,
        Node::List { start, .. } => *start,
    }
}

fn quirk_applies(nodes: &[Node]) -> bool {
    nodes.iter().any(|n| match n {
        Node::Block(_, kids) => quirk_applies(kids),
        Node::List {
            items,
            tight,
            tight_quirk,
            ..
        } => tight != tight_quirk || items.iter().any(|(_, k)| quirk_applies(k)),
    })
}

/// Labels that more than one heading has, where resolution is not specified.
impl Doc<'_> {
    pub fn ambiguous(&self) -> HashMap<String, Vec<String>> {
        let mut m: HashMap<String, Vec<String>> = HashMap::new();
        for h in &self.headings {
            if !self.defs.contains_key(&h.text) {
                m.entry(h.text.clone())
                    .or_default()
                    .push(h.id().to_string());
            }
        }
        m.retain(|_, v| v.iter().any(|i| *i != v[0]));
        m
    }
}

/// Events according to the model.
pub fn events(src: &str) -> Vec<Ev> {
    Doc::new(src).events(false)
}
