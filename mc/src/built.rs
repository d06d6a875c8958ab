//! Event sequences that are built, rather than parsed, as by a filter.

use crate::engine::{Choices, V};
use crate::render::{check_all, check_html};
use jotdown::{
    Alignment, AttributeKind as K, Attributes, Container as C, Event as E, LinkType,
    ListBulletType, ListKind, OrderedListNumbering as Num, OrderedListStyle as Style, SpanLinkType,
};

type Ev = E<'static>;

fn attrs(c: &mut Choices) -> Attributes<'static> {
    let pair = |k: &'static str, v: &'static str| (K::Pair { key: k.into() }, v.into());
    let v: Vec<(K<'static>, jotdown::AttributeValue<'static>)> = match c.choose(14) {
        0 => vec![],
        1 => vec![(K::Class, "a".into())],
        2 => vec![(K::Id, "i".into())],
        3 => vec![pair("k", "v")],
        4 => vec![
            (K::Class, "a".into()),
            (K::Id, "i".into()),
            (K::Class, "b".into()),
        ],
        5 => vec![(K::Id, "i".into()), (K::Id, "j".into())],
        6 => vec![(K::Comment, "c".into())],
        7 => vec![pair("k", "<&>\"'"), (K::Class, "a".into())],
        8 => vec![pair("k", "\\\"\\<\\\\ \\a")],
        9 => vec![pair("class", "x y"), (K::Class, "z".into())],
        10 => vec![pair("id", "x"), (K::Comment, "c".into()), pair("k", "")],
        11 => vec![pair("k", "1"), pair("l", "2"), pair("k", "3")],
        12 => vec![(K::Class, "a\\&b".into()), (K::Id, "\u{e9}\u{20ac}".into())],
        _ => vec![(K::Class, "".into()), (K::Id, "".into())],
    };
    v.into_iter().collect()
}

const TEXTS: [&str; 6] = [
    "x",
    "",
    "<a href=\"b\">&amp;'",
    "\u{e9}\u{20ac}\u{1f600}",
    "a\nb",
    ">&",
];

fn all_containers(c: &mut Choices, t: &'static str) -> C<'static> {
    let lists = [
        ListKind::Unordered(ListBulletType::Dash),
        ListKind::Unordered(ListBulletType::Star),
        ListKind::Unordered(ListBulletType::Plus),
        ListKind::Task(ListBulletType::Dash),
    ];
    match c.choose(31) {
        0 => C::Blockquote,
        1 => C::List {
            kind: *c.of(&lists),
            tight: c.flag(),
        },
        2 => C::List {
            kind: ListKind::Ordered {
                numbering: *c.of(&[
                    Num::Decimal,
                    Num::AlphaLower,
                    Num::AlphaUpper,
                    Num::RomanLower,
                    Num::RomanUpper,
                ]),
                style: *c.of(&[Style::Period, Style::Paren, Style::ParenParen]),
                start: *c.of(&[0, 1, 2, 10, u64::MAX]),
            },
            tight: c.flag(),
        },
        3 => C::ListItem,
        4 => C::TaskListItem { checked: c.flag() },
        5 => C::DescriptionList,
        6 => C::DescriptionDetails,
        7 => C::Table,
        8 => C::TableRow { head: c.flag() },
        9 => C::Section { id: t.into() },
        10 => C::Div { class: t.into() },
        11 => C::Paragraph,
        12 => C::Heading {
            level: *c.of(&[1, 2, 6, 7, 100]),
            has_section: c.flag(),
            id: t.into(),
        },
        13 => C::TableCell {
            alignment: *c.of(&[
                Alignment::Unspecified,
                Alignment::Left,
                Alignment::Center,
                Alignment::Right,
            ]),
            head: c.flag(),
        },
        14 => C::Caption,
        15 => C::DescriptionTerm,
        16 => C::LinkDefinition { label: t.into() },
        17 => C::CodeBlock { language: t.into() },
        18 => C::Span,
        19 => C::Link(
            t.into(),
            *c.of(&[
                LinkType::Span(SpanLinkType::Inline),
                LinkType::Span(SpanLinkType::Reference),
                LinkType::Span(SpanLinkType::Unresolved),
                LinkType::AutoLink,
                LinkType::Email,
            ]),
        ),
        20 => C::Image(
            t.into(),
            *c.of(&[
                SpanLinkType::Inline,
                SpanLinkType::Reference,
                SpanLinkType::Unresolved,
            ]),
        ),
        21 => C::Verbatim,
        22 => C::Math { display: c.flag() },
        23 => C::Subscript,
        24 => C::Superscript,
        25 => C::Insert,
        26 => C::Delete,
        27 => C::Strong,
        28 => C::Emphasis,
        29 => C::Mark,
        _ => C::Footnote { label: t.into() },
    }
}

fn wrap(c: C<'static>, a: Attributes<'static>, inner: Vec<Ev>) -> Vec<Ev> {
    let mut v = vec![E::Start(c.clone(), a)];
    v.extend(inner);
    v.push(E::End(c));
    v
}

fn document(inner: Vec<Ev>) -> Vec<Ev> {
    wrap(C::Document, Attributes::new(), inner)
}

/// Each container with each of its parameters, attributes and texts.
pub fn containers(c: &mut Choices, _: bool) -> V {
    let t = *c.of(&TEXTS);
    let k = all_containers(c, t);
    let a = attrs(c);
    let mut inner = vec![E::Str((*c.of(&TEXTS)).into())];
    if let C::LinkDefinition { .. } = k {
        inner = vec![E::Str("x".into())];
    }
    check_html(&document(wrap(k, a, inner)))
}

fn block_container(c: &mut Choices) -> C<'static> {
    match c.choose(13) {
        0 => C::Blockquote,
        1 => C::List {
            kind: ListKind::Unordered(ListBulletType::Dash),
            tight: true,
        },
        2 => C::List {
            kind: ListKind::Task(ListBulletType::Star),
            tight: false,
        },
        3 => C::ListItem,
        4 => C::TaskListItem { checked: false },
        5 => C::DescriptionList,
        6 => C::DescriptionDetails,
        7 => C::Table,
        8 => C::TableRow { head: true },
        9 => C::Section { id: "s".into() },
        10 => C::Div { class: "".into() },
        11 => C::Footnote { label: "f".into() },
        _ => C::Section { id: "".into() },
    }
}

fn leaf(c: &mut Choices) -> Vec<Ev> {
    let a = Attributes::new;
    let s = |t: &'static str| vec![E::Str(t.into())];
    match c.choose(11) {
        0 => wrap(C::Paragraph, a(), s("x")),
        1 => vec![E::Blankline],
        2 => vec![E::ThematicBreak(a())],
        3 => wrap(
            C::CodeBlock {
                language: "".into(),
            },
            a(),
            s("x\ny\n"),
        ),
        4 => wrap(
            C::RawBlock {
                format: "html".into(),
            },
            a(),
            s("<r>"),
        ),
        5 => wrap(
            C::RawBlock {
                format: "tex".into(),
            },
            a(),
            s("<r>"),
        ),
        6 => wrap(C::LinkDefinition { label: "l".into() }, a(), s("x")),
        7 => wrap(
            C::Paragraph,
            a(),
            vec![
                E::FootnoteReference("f".into()),
                E::Softbreak,
                E::Str("x".into()),
                E::Hardbreak,
                E::FootnoteReference("g".into()),
            ],
        ),
        8 => wrap(
            C::Heading {
                level: 2,
                has_section: false,
                id: "h".into(),
            },
            a(),
            s("x"),
        ),
        9 => vec![E::Attributes(
            vec![(K::Class, "a".into())].into_iter().collect(),
        )],
        _ => vec![],
    }
}

/// Nesting of block containers with blocks before, inside and after each other, in all formats.
pub fn nesting(c: &mut Choices, thorough: bool) -> V {
    let depth = if thorough { 3 } else { 2 };
    let mut evs = leaf(c);
    for i in 0..depth {
        let k = block_container(c);
        evs = wrap(k, Attributes::new(), evs);
        if i + 1 == depth || thorough || i == 0 {
            let after = leaf(c);
            evs.extend(after);
        }
        if i == 0 && c.flag() {
            let mut b = leaf(c);
            b.extend(evs);
            evs = b;
        }
    }
    check_all(&document(evs))
}

/// Sequences of inline events, possibly in the alternative text of an image.
pub fn inlines(c: &mut Choices, thorough: bool) -> V {
    let n = c.choose(if thorough { 5 } else { 4 });
    let mut evs = Vec::new();
    let mut open: Vec<C<'static>> = Vec::new();
    if c.flag() {
        open.push(C::Image("<&\">".into(), SpanLinkType::Inline));
        evs.push(E::Start(open[0].clone(), Attributes::new()));
    }
    for _ in 0..n {
        let e = match c.choose(27) {
            0 => E::Str("a".into()),
            1 => E::Str("<&>\"'".into()),
            2 => E::FootnoteReference("f".into()),
            3 => E::FootnoteReference("g".into()),
            4 => E::Symbol("s".into()),
            5 => E::LeftSingleQuote,
            6 => E::RightSingleQuote,
            7 => E::LeftDoubleQuote,
            8 => E::RightDoubleQuote,
            9 => E::Ellipsis,
            10 => E::EnDash,
            11 => E::EmDash,
            12 => E::NonBreakingSpace,
            13 => E::Softbreak,
            14 => E::Hardbreak,
            15 => E::Escape,
            16 => E::Attributes(vec![(K::Class, "a".into())].into_iter().collect()),
            k @ 17..=25 => {
                let t = LinkType::Span(SpanLinkType::Inline);
                let k = match k {
                    17 => C::Span,
                    18 => C::Link("u".into(), t),
                    19 => C::Image("v".into(), SpanLinkType::Inline),
                    20 => C::Verbatim,
                    21 => C::Math { display: false },
                    22 => C::Emphasis,
                    23 => C::Link("m@x".into(), LinkType::Email),
                    24 => C::Image("".into(), SpanLinkType::Unresolved),
                    _ => C::Delete,
                };
                open.push(k.clone());
                E::Start(k, vec![(K::Class, "a".into())].into_iter().collect())
            }
            _ => match open.pop() {
                Some(k) => E::End(k),
                None => E::Escape,
            },
        };
        evs.push(e);
    }
    while let Some(k) = open.pop() {
        evs.push(E::End(k));
    }
    let evs = wrap(C::Paragraph, Attributes::new(), evs);
    check_all(&document(evs))
}

/// Nested lists of different tightness, with paragraphs at all places.
pub fn lists(c: &mut Choices, _: bool) -> V {
    fn list(c: &mut Choices, depth: usize) -> Vec<Ev> {
        let kind = *c.of(&[
            ListKind::Unordered(ListBulletType::Dash),
            ListKind::Task(ListBulletType::Dash),
            ListKind::Ordered {
                numbering: Num::Decimal,
                style: Style::Period,
                start: 2,
            },
        ]);
        let item = match kind {
            ListKind::Task(_) => C::TaskListItem { checked: true },
            _ => C::ListItem,
        };
        let tight = c.flag();
        let para = |t: &'static str| wrap(C::Paragraph, Attributes::new(), vec![E::Str(t.into())]);
        let mut inner = Vec::new();
        if c.flag() {
            inner.extend(para("a"));
        }
        if depth > 0 {
            match c.choose(4) {
                0 => {}
                1 => inner.extend(list(c, depth - 1)),
                2 => inner.extend(wrap(C::Blockquote, Attributes::new(), list(c, depth - 1))),
                _ => inner.extend(wrap(
                    C::DescriptionList,
                    Attributes::new(),
                    wrap(C::DescriptionDetails, Attributes::new(), para("d")),
                )),
            }
            if c.flag() {
                inner.extend(para("b"));
            }
        }
        let v = wrap(item.clone(), Attributes::new(), inner);
        wrap(C::List { kind, tight }, Attributes::new(), v)
    }
    let mut evs = list(c, 2);
    evs.extend(wrap(
        C::Paragraph,
        Attributes::new(),
        vec![E::Str("z".into())],
    ));
    if c.flag() {
        let p = wrap(
            C::Paragraph,
            Attributes::new(),
            vec![E::FootnoteReference("f".into())],
        );
        evs = wrap(C::Footnote { label: "f".into() }, Attributes::new(), evs);
        evs.extend(p);
    }
    check_all(&document(evs))
}
