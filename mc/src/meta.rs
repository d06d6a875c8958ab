//! Relations between the events of different inputs (C07, C08, C31), no model needed.

use crate::conform::*;
use crate::engine::{Stop, V};
use crate::model::{block, Doc};
use jotdown::{Attributes, Container as C, Event as E};
use std::mem::discriminant;

/// Events inside of the nth container of a kind.
fn inside<'a, 's>(evs: &'a [E<'s>], like: &C, nth: usize) -> Option<&'a [E<'s>]> {
    let is = |c: &C| discriminant(c) == discriminant(like);
    let at = evs
        .iter()
        .enumerate()
        .filter(|(_, e)| matches!(e, E::Start(c, _) if is(c)))
        .nth(nth)?
        .0;
    let mut depth = 0;
    for (i, e) in evs.iter().enumerate().skip(at) {
        match e {
            E::Start(..) => depth += 1,
            E::End(_) => {
                depth -= 1;
                if depth == 0 {
                    return Some(&evs[at + 1..i]);
                }
            }
            _ => {}
        }
    }
    None
}

/// Text is divided where prefixes of blocks come in between.
fn merged<'s>(evs: &[E<'s>]) -> Vec<E<'s>> {
    let mut out: Vec<E> = Vec::new();
    for e in evs {
        match (out.last_mut(), e) {
            (Some(E::Str(a)), E::Str(b)) => *a = format!("{a}{b}").into(),
            _ => out.push(e.clone()),
        }
    }
    out
}

fn indent(d: &str, n: usize) -> String {
    d.split_inclusive('\n')
        .map(|l| {
            if l == "\n" {
                l.to_string()
            } else {
                format!("{}{l}", " ".repeat(n))
            }
        })
        .collect()
}

fn quote(d: &str) -> String {
    d.split_inclusive('\n')
        .map(|l| {
            if l == "\n" {
                ">\n".into()
            } else {
                format!("> {l}")
            }
        })
        .collect()
}

// ---- C07 ----

/// Paragraphs that leave something open.
pub const UNCLOSED: [&str; 22] = [
    "q *a",
    "q _a",
    "q {*a",
    "q {_ a",
    "q `a",
    "q ``a `",
    "q $`a",
    "q [a",
    "q ![a",
    "q [a](b",
    "q [a][b",
    "q {.a",
    "q {.a b=\"",
    "q {% a",
    "q \"a",
    "q 'a",
    "q <a:b",
    "q [^a",
    "q a :b",
    "q a\\",
    "q [*a](",
    "q a{.b",
];

/// The text has the same inline events in each kind of block.
pub fn block_independent(t: &str) -> V {
    let text = format!("x{t}");
    let multi = text.contains('\n');
    let blank = text
        .split('\n')
        .skip(1)
        .any(|l| l.trim_matches(|c: char| c.is_ascii_whitespace()).is_empty());
    if multi && blank {
        return Err(Stop::Skip);
    }
    if block::classify(&text).class != block::Class::Para {
        return Err(Stop::Skip);
    }
    let base = merged(&imp_plain(&text)?);
    let want = inside(&base, &C::Paragraph, 0)
        .ok_or_else(|| Stop::Bad("text is not a paragraph".into()))?;
    let mut docs: Vec<(String, C)> = vec![
        (quote(&text), C::Paragraph),
        (format!("- {}", indent(&text, 2).trim_start()), C::Paragraph),
        (
            format!("1. {}", indent(&text, 3).trim_start()),
            C::Paragraph,
        ),
        (
            format!("- - {}", indent(&text, 4).trim_start()),
            C::Paragraph,
        ),
        (
            format!(": {}", indent(&text, 2).trim_start()),
            C::DescriptionTerm,
        ),
        (
            format!("[^n]: {}", indent(&text, 2).trim_start()),
            C::Paragraph,
        ),
        (format!("| a |\n^ {text}"), C::Caption),
        (format!("| `a` |\n\n^ {text}\n\nb"), C::Caption),
        (format!("{{.z}}\n{text}"), C::Paragraph),
        (format!("{text}\n\n{text}"), C::Paragraph),
    ];
    // lines that start with a fence, if in a paragraph, hide or close the div
    if !["```", "~~~", ":::"].iter().any(|f| text.contains(f)) {
        docs.push((format!(":::\n{text}\n:::\n"), C::Paragraph));
    }
    let paras = text
        .split('\n')
        .all(|l| block::classify(l).class == block::Class::Para);
    // labels may refer to the heading itself
    if paras && !text.contains("][") {
        docs.push((
            format!("# {text}"),
            C::Heading {
                level: 1,
                has_section: false,
                id: "".into(),
            },
        ));
        docs.push((
            format!("> ### {}", quote(&text).trim_start_matches("> ")),
            C::Heading {
                level: 1,
                has_section: false,
                id: "".into(),
            },
        ));
    }
    let cell = C::TableCell {
        alignment: jotdown::Alignment::Unspecified,
        head: false,
    };
    if !multi {
        let row = format!("| {text} |");
        if block::row_pipes(&row).is_some_and(|p| p.len() == 1) {
            docs.push((row.clone(), cell.clone()));
            docs.push((format!("{row}\n|---|\n"), cell.clone()));
            docs.push((format!("|b{row}c|"), cell.clone()));
        }
    }
    for (doc, c) in &docs {
        let evs = merged(&imp_plain(doc)?);
        let nth = usize::from(doc.starts_with("|b"));
        let got = inside(&evs, c, nth).unwrap_or_default();
        if got != want {
            return Err(differ(doc, &text, got, want));
        }
    }
    // repeated
    let repeated = format!("{text}\n\n{text}");
    let twice = merged(&imp_plain(&repeated)?);
    let second = inside(&twice, &C::Paragraph, 1).unwrap_or_default();
    if second != want {
        return Err(differ(&repeated, &text, second, want));
    }
    Ok(obs(want.iter()))
}

/// What comes before and after a paragraph does not matter.
pub fn neighbour_independent(t: &str) -> V {
    let text = format!("x{t}");
    if text
        .split('\n')
        .skip(1)
        .any(|l| l.trim_matches(|c: char| c.is_ascii_whitespace()).is_empty())
        || block::classify(&text).class != block::Class::Para
    {
        return Err(Stop::Skip);
    }
    let base = merged(&imp_plain(&text)?);
    let want = inside(&base, &C::Paragraph, 0)
        .ok_or_else(|| Stop::Bad("text is not a paragraph".into()))?;
    for n in UNCLOSED {
        for doc in [
            format!("{n}\n\n{text}\n\n{n}"),
            format!("| {n} |\n\n{text}\n\n| `{n} |"),
            format!("- {n}\n\n{text}\n\n# {n}"),
            format!("> {n}\n\n{text}\n\n: {n}"),
        ] {
            let evs = merged(&imp_plain(&doc)?);
            let found = (0..4)
                .filter_map(|i| inside(&evs, &C::Paragraph, i))
                .any(|g| g == want);
            if !found {
                let got = inside(&evs, &C::Paragraph, 1).unwrap_or_default();
                return Err(differ(&doc, &text, got, want));
            }
        }
    }
    Ok(obs(want.iter()))
}

fn differ(doc: &str, alone: &str, got: &[E], want: &[E]) -> Stop {
    Stop::Bad(format!(
        "in {doc:?}, compared to {alone:?}: {}",
        diff(["inside", "alone"], &strings(got), &strings(want))
    ))
}

// ---- C08 ----

/// Events of a document without what is specific to the top level.
fn flat<'s>(evs: &[E<'s>]) -> Vec<E<'s>> {
    let mut out = Vec::new();
    let mut attrs: Option<Attributes> = None;
    for e in &merged(evs) {
        match e {
            E::Start(C::Section { .. }, a) => attrs = Some(a.clone()),
            E::End(C::Section { .. }) => {}
            E::Start(C::Heading { level, id, .. }, a) => {
                let mut all = attrs.take().unwrap_or_default();
                all.extend(a.clone());
                out.push(E::Start(heading(*level, id), all));
            }
            E::End(C::Heading { level, id, .. }) => out.push(E::End(heading(*level, id))),
            e => out.push(e.clone()),
        }
    }
    out
}

fn heading<'s>(level: u16, id: &std::borrow::Cow<'s, str>) -> C<'s> {
    C::Heading {
        level,
        has_section: false,
        id: id.clone(),
    }
}

fn no_tight(v: &mut [E]) {
    for e in v {
        if let E::Start(C::List { tight, .. }, _) | E::End(C::List { tight, .. }) = e {
            *tight = true;
        }
    }
}

struct Wrap {
    name: &'static str,
    doc: fn(&str) -> String,
    /// What the contents are equivalent to.
    alone: fn(&str) -> String,
    like: C<'static>,
    fits: fn(&str) -> bool,
}

fn item(marker: &str, d: &str) -> String {
    let w = marker.len();
    let i = indent(d, w);
    let first = i.split('\n').next().unwrap_or("");
    if first.trim().is_empty() {
        format!("{marker}{i}")
    } else {
        format!("{marker} {}", &i[w..])
    }
}

fn shifted(d: &str) -> String {
    let first = d.split('\n').next().unwrap_or("");
    if first.trim().is_empty() {
        d.to_string()
    } else {
        format!(" {d}")
    }
}

fn any(_: &str) -> bool {
    true
}

/// No fence of the document is left open, and none would close a div around it.
fn closed_fences(d: &str) -> bool {
    let mut code: Option<(u8, usize)> = None;
    for l in d.lines() {
        match (block::classify(l).class, code) {
            (block::Class::Code { ch, len, spec }, Some((c, n))) => {
                if c == ch && len >= n && spec.is_empty() {
                    code = None;
                }
            }
            (block::Class::Code { ch, len, .. }, None) => code = Some((ch, len)),
            (block::Class::Div { len, .. }, None) if len >= 7 => return false,
            _ => {}
        }
    }
    code.is_none() && !d.contains("```") && !d.contains("~~~")
}

fn not_blank_first(d: &str) -> bool {
    !d.split('\n').next().unwrap_or("").trim().is_empty()
}

fn wraps() -> [Wrap; 9] {
    [
        Wrap {
            name: "block quote",
            doc: quote,
            alone: str::to_string,
            like: C::Blockquote,
            fits: |d| !d.is_empty(),
        },
        Wrap {
            name: "list item",
            doc: |d| item("-", d),
            alone: shifted,
            like: C::ListItem,
            fits: |d| {
                let first = d.split('\n').next().unwrap_or("");
                let task = ["[ ]", "[x]", "[X]"]
                    .iter()
                    .find_map(|b| first.strip_prefix(b))
                    .is_some_and(|r| r.is_empty() || r.starts_with([' ', '\t', '\r', '\x0c']));
                not_blank_first(d) && !first.bytes().all(|c| b"-* \t\r\x0c".contains(&c)) && !task
            },
        },
        Wrap {
            name: "ordered item",
            doc: |d| item("12.", d),
            alone: shifted,
            like: C::ListItem,
            fits: any,
        },
        Wrap {
            name: "parenthesised item",
            doc: |d| item("(a)", d),
            alone: shifted,
            like: C::ListItem,
            fits: any,
        },
        Wrap {
            name: "task item",
            doc: |d| item("- [x]", d),
            alone: shifted,
            like: C::TaskListItem { checked: true },
            fits: any,
        },
        Wrap {
            name: "footnote",
            doc: |d| item("[^fn]:", d),
            alone: shifted,
            like: C::Footnote { label: "".into() },
            fits: any,
        },
        Wrap {
            name: "description details",
            doc: |d| format!(": t\n\n{}", indent(d, 1)),
            alone: str::to_string,
            like: C::DescriptionDetails,
            fits: |d| not_blank_first(d),
        },
        Wrap {
            name: "div",
            doc: |d| {
                format!(
                    ":::::::\n{d}{}:::::::\n",
                    if d.ends_with('\n') || d.is_empty() {
                        ""
                    } else {
                        "\n"
                    }
                )
            },
            alone: |d| {
                if d.ends_with('\n') || d.is_empty() {
                    d.to_string()
                } else {
                    format!("{d}\n")
                }
            },
            like: C::Div { class: "".into() },
            fits: closed_fences,
        },
        Wrap {
            name: "unclosed div",
            doc: |d| format!("::::::: c\n{d}"),
            alone: str::to_string,
            like: C::Div { class: "".into() },
            fits: |d| !d.contains(":::::::"),
        },
    ]
}

fn quirk(s: &str) -> bool {
    Doc::new(s).quirk_applies
}

pub fn transparent(d: &str) -> V {
    if d.trim().is_empty() {
        return Err(Stop::Skip);
    }
    let mut last = None;
    for w in wraps() {
        if !(w.fits)(d) {
            continue;
        }
        let doc = (w.doc)(d);
        let alone = (w.alone)(d);
        let evs = imp_plain(&doc)?;
        let base = imp_plain(&alone)?;
        let mut want = flat(&base[1..base.len() - 1]);
        let got = inside(&evs, &w.like, 0).unwrap_or_default();
        let mut got = flat(got);
        if got != want && (quirk(&doc) || quirk(&alone)) {
            no_tight(&mut got);
            no_tight(&mut want);
        }
        if got != want {
            let Stop::Bad(m) = differ(&doc, &alone, &got, &want) else {
                unreachable!()
            };
            return Err(Stop::Bad(format!("{}: {m}", w.name)));
        }
        // nothing else
        let total = evs.len() - inside(&evs, &w.like, 0).map_or(0, <[_]>::len);
        let around = match w.name {
            "block quote" | "div" | "unclosed div" | "footnote" => 4,
            "description details" => 10,
            _ => 6,
        };
        if total != around {
            return Err(Stop::Bad(format!(
                "{}: {doc:?} has {} more events outside",
                w.name,
                total as i64 - around as i64
            )));
        }
        last = Some(obs(want.iter()));
    }
    last.ok_or(Stop::Skip)
}

fn nested(d: &str, inner: usize) -> V {
    let w = &wraps()[inner];
    if d.trim().is_empty() || !(w.fits)(d) {
        return Err(Stop::Skip);
    }
    transparent(&(w.doc)(d))
}

pub fn transparent_in_quote(d: &str) -> V {
    nested(d, 0)
}

pub fn transparent_in_item(d: &str) -> V {
    nested(d, 1)
}

pub fn transparent_in_div(d: &str) -> V {
    nested(d, 8)
}

pub fn transparent_in_note(d: &str) -> V {
    nested(d, 5)
}

// ---- C31 ----

/// Text without white space that ends lines, and without the line break that ends the code.
fn normal(evs: &[E]) -> Vec<String> {
    let mut out = Vec::new();
    let mut code = false;
    let mut text = String::new();
    for (i, e) in evs.iter().enumerate() {
        match e {
            E::Start(C::CodeBlock { .. }, _) => code = true,
            E::End(C::CodeBlock { .. }) => code = false,
            _ => {}
        }
        if let E::Str(s) = e {
            text.push_str(s);
            if matches!(evs.get(i + 1), Some(E::Str(_))) {
                continue;
            }
            let lines: Vec<&str> = text
                .split('\n')
                .map(|l| l.trim_end_matches([' ', '\t']))
                .collect();
            let mut t = lines.join("\n");
            if !matches!(
                evs.get(i + 1),
                Some(E::Softbreak | E::End(C::CodeBlock { .. } | C::Verbatim | C::Paragraph))
            ) && !code
            {
                // white space before what follows on the line is kept
                let kept = &text[text.trim_end_matches([' ', '\t']).len()..];
                t.push_str(kept);
            }
            if code {
                t = t.trim_end_matches('\n').to_string();
            }
            if !t.is_empty() {
                out.push(format!("Str({t:?})"));
            }
            text.clear();
            continue;
        }
        // white space before a line break stays part of labels, destinations and attributes
        let mut t = format!("{e:?}");
        for w in [
            " ", "\n", "\\n", "\\t", "\\r", "\\u{c}", "\t", "\r", "\u{c}",
        ] {
            t = t.replace(w, "");
        }
        out.push(t);
    }
    out
}

/// Only a bullet on the last line.
fn lone_bullet(line: &str) -> bool {
    let mut l = line.trim_matches(|c: char| c.is_ascii_whitespace());
    loop {
        if matches!(l, "-" | "*" | "+") {
            return true;
        }
        // contents of a container
        let m = block::classify(l);
        match m.class {
            block::Class::Quote | block::Class::Item { .. } | block::Class::Foot(_) => {
                l = l[m.mark.1..].trim_start();
            }
            _ => return false,
        }
    }
}

/// Line end with or without white space, at each line, and a missing final line break.
pub fn line_ends(s: &str) -> V {
    let base = imp_plain(s)?;
    let want = normal(&base);
    let loose = quirk(s);
    let mut heading = false;
    let mut broken = false;
    for e in &base {
        match e {
            E::Start(C::Heading { .. }, _) => heading = true,
            E::End(C::Heading { .. }) => heading = false,
            E::Softbreak | E::Hardbreak => broken |= heading,
            _ => {}
        }
    }
    let unresolved = |v: &[String]| {
        v.iter()
            .map(|s| match s.split_once('(') {
                Some((side, "")) => side.to_string(),
                Some((side @ ("Start" | "End"), c))
                    if c.contains("Span(Reference)")
                        || c.contains("Span(Unresolved)")
                        || c.starts_with("Image(") && !c.contains("Inline") =>
                {
                    format!("{side} of reference")
                }
                _ => s.clone(),
            })
            .collect::<Vec<_>>()
    };
    let tightless = |v: &[String]| {
        v.iter()
            .map(|s| s.replace("tight: true", "tight: false"))
            .collect::<Vec<_>>()
    };
    let mut known = None;
    let mut check = |doc: &str, line: &str| -> Result<(), Stop> {
        let evs = imp_plain(doc)?;
        let got = normal(&evs);
        if got == want || loose && tightless(&got) == tightless(&want) {
            return Ok(());
        }
        // a heading's text includes the white space before its line breaks, so that labels that
        // equal it may become others
        if broken && unresolved(&got) == unresolved(&want) {
            return Ok(());
        }
        let msg = format!(
            "{s:?} and {doc:?}: {}",
            diff(["second", "first"], &got, &want)
        );
        if lone_bullet(line) {
            known = Some(msg);
            return Ok(());
        }
        Err(Stop::Bad(msg))
    };
    let last = s.rsplit('\n').next().unwrap_or("");
    if !last.is_empty() {
        check(&format!("{s}\n"), last)?;
    }
    let mut ends: Vec<usize> = s.match_indices('\n').map(|m| m.0).collect();
    if !last.is_empty() {
        ends.push(s.len());
    }
    for e in ends {
        let line = s[..e].rsplit('\n').next().unwrap_or("");
        for w in [" ", "\t", "  "] {
            check(&format!("{}{w}{}", &s[..e], &s[e..]), line)?;
        }
    }
    match known {
        Some(m) => Err(Stop::Known("lone-bullet", m)),
        None => Ok(obs(base.iter())),
    }
}

/// Indentation of a continuation line.
pub fn continuation(t: &str) -> V {
    let first = t.split('\n').next().unwrap_or("");
    if first.trim().is_empty() || t.starts_with([' ', '\t', '\r', '\x0c']) {
        return Err(Stop::Skip);
    }
    let mut out = None;
    for (pre, ind) in [
        ("a\n", ""),
        ("> a\n> ", ""),
        ("> a\n", ""),
        ("- a\n  ", ""),
        ("- a\n", ""),
        ("1. a *b\n   ", ""),
        ("[^n]: a\n  ", ""),
        (": a\n  ", ""),
        ("# a\n", "h"),
        ("| a |\n^ b\n", ""),
        ("a `b\n", "v"),
    ] {
        if ind == "h" && block::classify(first).class != block::Class::Para
            || ind == "v" && (t.contains('`') || t.contains('\n'))
        {
            continue;
        }
        // lazy lines have to be paragraphs
        let lazy = !pre.starts_with('a') && !pre.starts_with('|') && pre.ends_with('\n');
        if lazy && ind.is_empty() && block::classify(first).class != block::Class::Para {
            continue;
        }
        let base = format!("{pre}{t}");
        let b = imp_plain(&base)?;
        for w in [" ", "  ", "    ", "\t", " \t "] {
            if lazy && pre.starts_with('-') && w != " " {
                // still the same paragraph, also if it is not lazy any more
            }
            let doc = format!("{pre}{w}{t}");
            let d = imp_plain(&doc)?;
            let eq = if ind == "v" {
                merged(&d) == merged(&b)
            } else {
                d == b
            };
            if !eq {
                return Err(differ(&doc, &base, &d, &b));
            }
        }
        out = Some(obs(b.iter()));
    }
    out.ok_or(Stop::Skip)
}

/// Number of spaces that follow a marker.
pub fn marker_spaces(t: &str) -> V {
    let first = t.split('\n').next().unwrap_or("");
    if first.trim().is_empty()
        || t.starts_with([' ', '\t', '\r', '\x0c'])
        || t.contains("```")
        || t.contains("~~~")
        || t.contains(":::")
        // the box of a task has to be right after the bullet
        || ["[ ]", "[x]", "[X]"].iter().any(|b| t.starts_with(b))
        // spaces also move nested markers, relative to the lines below
        || t.contains('\n') && block::classify(first).class != block::Class::Para
    {
        return Err(Stop::Skip);
    }
    let mut out = None;
    for m in [
        "#", "##", ">", "-", "*", "+", "1.", "a)", "(iv)", ":", "- [ ]", "* [X]", "[^f]:", "[a]:",
        "> -", "- >", "| a |\n^",
    ] {
        let base = format!("{m} {t}");
        let b = imp_plain(&base)?;
        for w in ["  ", "   ", "     "] {
            let doc = format!("{m}{w}{t}");
            let d = imp_plain(&doc)?;
            if d != b {
                return Err(differ(&doc, &base, &d, &b));
            }
        }
        out = Some(obs(b.iter()));
    }
    let row = format!("|{first}|");
    if block::row_pipes(&row).is_some() && !first.ends_with('\\') {
        let b = imp_plain(&row)?;
        let doc = format!("|  {first}   |");
        let d = imp_plain(&doc)?;
        if d != b {
            return Err(differ(&doc, &row, &d, &b));
        }
    }
    out.ok_or(Stop::Skip)
}

/// Characters that are not ASCII are ordinary, whatever they are.
pub const OTHER: [char; 14] = [
    '\u{a0}',
    '\u{85}',
    '\u{2003}',
    '\u{3000}',
    '\u{2028}',
    '\u{feff}',
    '\u{200b}',
    '\u{7ff}',
    '\u{fffd}',
    '\u{1f600}',
    '\u{301}',
    '\u{2014}',
    '\u{ff0a}',
    '\u{10ffff}',
];

pub fn unicode(s: &str) -> V {
    if !s.contains('\u{e9}') {
        return Err(Stop::Skip);
    }
    let base = imp_plain(s)?;
    let key = |evs: &[E], c: char| -> Vec<String> {
        let quoted: String = format!("{:?}", c.to_string()).trim_matches('"').to_string();
        evs.iter()
            .map(|e| {
                format!("{e:?}")
                    .replace(&quoted, "\u{e9}")
                    .replace(c, "\u{e9}")
            })
            .collect()
    };
    for c in OTHER {
        // the text may have this character already
        let want = key(&base, c);
        let doc = s.replace('\u{e9}', &c.to_string());
        let evs = imp_plain(&doc)?;
        let got = key(&evs, c);
        if got != want {
            return Err(Stop::Bad(format!(
                "{doc:?} compared to {s:?}: {}",
                diff(["with other character", "with letter"], &got, &want)
            )));
        }
    }
    Ok(obs(base.iter()))
}

// ---- C33 ----

const SEPARATOR: &str = "***";

/// What may leave something behind.
const BEFORE: [&str; 20] = [
    "- a\n\n  b",
    "1. a\n2. b",
    "|:-:|\n| a |",
    "| a |\n|--:|\n| b |\n",
    "{.a}",
    "a\n{.b}\n",
    "[^a]: b",
    "[a]: b",
    ": a\n\n  b",
    "*a _b {=c",
    "`a",
    "\"a 'b",
    "# a\n\n## b",
    "a{.b",
    "> - a",
    "``` a\nb\n```",
    "::: a\n- b\n:::",
    "a. b\nv. c",
    "- [x] a\n\n",
    "[a](b\\",
];

/// What may be affected by what was left.
const AFTER: [&str; 16] = [
    "a* b_ =}",
    "- b",
    "| a | b |",
    "1. b",
    "a\" b'",
    "# b\n\n## a",
    "2) b\n\n3) c",
    ": a",
    "  c",
    "^ d",
    "`b``",
    "- [ ] c",
    "b}",
    "{.c}\nd",
    "a](b)",
    "[a][] [^a]\n\n[a]: c",
];

/// Events without what comes from definitions and headings of the rest of the document.
fn local(evs: &[Ev], shift: usize) -> Vec<String> {
    evs.iter()
        .filter(|(e, _)| !matches!(e, E::End(C::Section { .. })))
        .map(|(e, r)| {
            let none = || "".into();
            let reference = |c: &C| {
                use jotdown::{LinkType::Span, SpanLinkType::*};
                matches!(
                    c,
                    C::Link(_, Span(Reference | Unresolved)) | C::Image(_, Reference | Unresolved)
                )
            };
            let neutral = |c: &C| match c {
                C::Heading { level, .. } => format!("heading {level}"),
                C::Section { .. } => "section".into(),
                C::Link(..) if reference(c) => "reference link".into(),
                C::Image(..) if reference(c) => "reference image".into(),
                c => format!("{c:?}"),
            };
            let text = match e {
                E::Start(c, a) => {
                    let a = if reference(c) {
                        none()
                    } else {
                        format!("{a:?}")
                    };
                    format!("start {} {a}", neutral(c))
                }
                E::End(c) => format!("end {}", neutral(c)),
                e => format!("{e:?}"),
            };
            format!(
                "{text} {}..{}",
                r.start.wrapping_sub(shift) as isize,
                r.end.wrapping_sub(shift) as isize
            )
        })
        .collect()
}

/// `local` is the same for both.
fn same(a: &[Ev], a_shift: usize, b: &[Ev], b_shift: usize) -> bool {
    let counts = |e: &&Ev| !matches!(e.0, E::End(C::Section { .. }));
    let mut a = a.iter().filter(counts);
    let mut b = b.iter().filter(counts);
    loop {
        match (a.next(), b.next()) {
            (None, None) => return true,
            (Some(x), Some(y)) => {
                let equal = x.0 == y.0
                    && x.1.start.wrapping_sub(a_shift) == y.1.start.wrapping_sub(b_shift)
                    && x.1.end.wrapping_sub(a_shift) == y.1.end.wrapping_sub(b_shift);
                if !equal
                    && local(std::slice::from_ref(x), a_shift)
                        != local(std::slice::from_ref(y), b_shift)
                {
                    return false;
                }
            }
            _ => return false,
        }
    }
}

/// Position of the separator, if it is not inside of anything that was left open.
fn separator(evs: &[Ev], at: usize) -> Option<usize> {
    let mut depth = 0;
    for (i, (e, r)) in evs.iter().enumerate() {
        match e {
            E::Start(C::Document | C::Section { .. }, _)
            | E::End(C::Document | C::Section { .. }) => {}
            E::Start(..) => depth += 1,
            E::End(_) => depth -= 1,
            E::ThematicBreak(_) if r.start == at => return (depth == 0).then_some(i),
            _ => {}
        }
    }
    None
}

/// Blocks separated by a thematic break do not affect each other.
pub fn separated(s: &str) -> V {
    let lone = |d: &str| format!("{SEPARATOR}\n\n{d}");
    let first = |d: &str| format!("{d}\n\n{SEPARATOR}\n\n");
    let check = |a: &str, b: &str, before: &[Ev], after: &[Ev]| -> Result<(), Stop> {
        let doc = format!("{a}\n\n{SEPARATOR}\n\n{b}");
        let at = a.len() + 2;
        let evs = imp(&doc)?;
        let Some(i) = separator(&evs, at) else {
            return Err(format!("in {doc:?}: the separator is lost").into());
        };
        if !same(&evs[..i], 0, before, 0) {
            let d = diff(
                ["followed by more", "alone"],
                &local(&evs[..i], 0),
                &local(before, 0),
            );
            return Err(format!("in {doc:?}, before the separator: {d}").into());
        }
        if !same(&evs[i..], at, after, 0) {
            let d = diff(
                ["preceded by more", "alone"],
                &local(&evs[i..], at),
                &local(after, 0),
            );
            return Err(format!("in {doc:?}, after the separator: {d}").into());
        }
        Ok(())
    };
    let doc = first(s);
    let evs = imp(&doc)?;
    let mut decided = false;
    if let Some(i) = separator(&evs, s.len() + 2) {
        decided = true;
        for b in AFTER {
            let doc = lone(b);
            check(s, b, &evs[..i], &imp(&doc)?[1..])?;
        }
    }
    let doc = lone(s);
    let after = imp(&doc)?;
    for a in BEFORE {
        let doc = first(a);
        let evs = imp(&doc)?;
        if let Some(i) = separator(&evs, a.len() + 2) {
            check(a, s, &evs[..i], &after[1..])?;
        }
    }
    let seen = imp(s)?;
    let mut o = obs(seen.iter().map(|e| &e.0));
    o.trivial |= !decided;
    Ok(o)
}
