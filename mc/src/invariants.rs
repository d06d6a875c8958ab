//! Invariants of the event stream that need no reference model (C02 to C06).

use crate::conform::*;
use crate::engine::{guard, Stop, V};
use crate::model::Doc;
use jotdown::{Container as C, Event as E, LinkType, ListKind, Parser};

/// C02
pub fn balanced(src: &str) -> V {
    let evs = imp_plain(src)?;
    check_balanced(&evs)?;
    let off = imp(src)?;
    let off: Vec<_> = off.into_iter().map(|e| e.0).collect();
    check_balanced(&off)?;
    Ok(obs(evs.iter()))
}

pub fn check_balanced(evs: &[E]) -> Result<(), String> {
    let mut open: Vec<&C> = Vec::new();
    for (i, e) in evs.iter().enumerate() {
        match e {
            E::Start(c, _) => {
                if (*c == C::Document) != (i == 0) {
                    return Err(format!("{e:?} at {i}"));
                }
                open.push(c);
            }
            E::End(c) => {
                if open.pop() != Some(c) {
                    return Err(format!("{e:?} at {i} does not close what was opened last"));
                }
                if (*c == C::Document) != (i + 1 == evs.len()) {
                    return Err(format!("{e:?} at {i}"));
                }
            }
            _ if open.is_empty() => return Err(format!("{e:?} outside of document")),
            _ => {}
        }
    }
    if evs.is_empty() || !open.is_empty() {
        return Err(format!("not closed: {open:?}"));
    }
    Ok(())
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum Kind {
    Blocks,
    Inline,
    Text,
    Items,
    Tasks,
    Desc,
    Table,
    Row(bool),
}

fn kind(c: &C) -> Kind {
    match c {
        C::Document
        | C::Section { .. }
        | C::Blockquote
        | C::Div { .. }
        | C::ListItem
        | C::TaskListItem { .. }
        | C::DescriptionDetails
        | C::Footnote { .. } => Kind::Blocks,
        C::List {
            kind: ListKind::Task(_),
            ..
        } => Kind::Tasks,
        C::List { .. } => Kind::Items,
        C::DescriptionList => Kind::Desc,
        C::Table => Kind::Table,
        C::TableRow { head } => Kind::Row(*head),
        C::CodeBlock { .. }
        | C::RawBlock { .. }
        | C::LinkDefinition { .. }
        | C::Verbatim
        | C::Math { .. }
        | C::RawInline { .. }
        | C::Link(_, LinkType::AutoLink | LinkType::Email) => Kind::Text,
        _ => Kind::Inline,
    }
}

fn is_inline_container(c: &C) -> bool {
    matches!(
        c,
        C::Span
            | C::Link(..)
            | C::Image(..)
            | C::Verbatim
            | C::Math { .. }
            | C::RawInline { .. }
            | C::Subscript
            | C::Superscript
            | C::Insert
            | C::Delete
            | C::Strong
            | C::Emphasis
            | C::Mark
    )
}

/// C03
pub fn content(src: &str) -> V {
    let evs = imp_plain(src)?;
    // parent, number of children so far
    let mut open: Vec<(&C, usize)> = Vec::new();
    for (i, e) in evs.iter().enumerate() {
        if let E::End(c) = e {
            let Some((_, n)) = open.pop() else {
                return Err(Stop::Skip);
            };
            let must = matches!(
                c,
                C::List { .. } | C::DescriptionList | C::TableRow { .. } | C::Section { .. }
            );
            if must && n == 0 {
                return Err(format!("{c:?} is empty, ends at {i}").into());
            }
            continue;
        }
        if let E::Str(s) = e {
            if s.is_empty() {
                return Err(format!("empty text at {i}").into());
            }
        }
        let n_before = open.last().map_or(0, |p| p.1);
        if let Some((p, _)) = open.last() {
            let ok = match (kind(p), e) {
                (Kind::Text, E::Str(_)) => true,
                (Kind::Text, _) => false,
                (Kind::Inline, E::Start(c, _)) => is_inline_container(c),
                (Kind::Inline, E::ThematicBreak(_) | E::Blankline) => false,
                (Kind::Inline, _) => true,
                (Kind::Blocks, E::Start(c, _)) => match c {
                    C::ListItem
                    | C::TaskListItem { .. }
                    | C::DescriptionTerm
                    | C::DescriptionDetails
                    | C::TableRow { .. }
                    | C::TableCell { .. }
                    | C::Caption
                    | C::Document => false,
                    C::Section { .. } => matches!(p, C::Document | C::Section { .. }),
                    C::Heading { has_section, .. } => {
                        *has_section == (matches!(p, C::Section { .. }) && n_before == 0)
                    }
                    c => !is_inline_container(c),
                },
                (Kind::Blocks, E::ThematicBreak(_) | E::Blankline | E::Attributes(_)) => true,
                (Kind::Items, E::Start(c, _)) => matches!(c, C::ListItem),
                (Kind::Tasks, E::Start(c, _)) => matches!(c, C::TaskListItem { .. }),
                (Kind::Desc, E::Start(c, _)) => {
                    let want_term = n_before % 2 == 0;
                    match c {
                        C::DescriptionTerm => want_term,
                        C::DescriptionDetails => !want_term,
                        _ => false,
                    }
                }
                (Kind::Desc, E::Blankline) => true,
                (Kind::Table, E::Start(c, _)) => match c {
                    C::Caption => n_before == 0,
                    C::TableRow { .. } => true,
                    _ => false,
                },
                (Kind::Row(h), E::Start(c, _)) => {
                    matches!(c, C::TableCell { head, .. } if *head == h)
                }
                (Kind::Blocks | Kind::Items | Kind::Tasks | Kind::Desc | Kind::Table, _) => false,
                (Kind::Row(_), _) => false,
            };
            if !ok {
                return Err(format!("{e:?} at {i} inside of {p:?} (child {n_before})").into());
            }
        }
        if let Some(p) = open.last_mut() {
            // blank lines between term and details are not part of the list
            if !(kind(p.0) == Kind::Desc && *e == E::Blankline) {
                p.1 += 1;
            }
        }
        if let E::Start(c, _) = e {
            open.push((c, 0));
        }
    }
    Ok(obs(evs.iter()))
}

/// C04
pub fn ranges(src: &str) -> V {
    let evs = imp(src)?;
    let plain = imp_plain(src)?;
    if evs.len() != plain.len() || evs.iter().zip(&plain).any(|(a, b)| a.0 != *b) {
        let a = strings(&evs.iter().map(|e| &e.0).collect::<Vec<_>>());
        return Err(diff(["with offsets", "plain"], &a, &strings(&plain)).into());
    }
    for (e, r) in &evs {
        if r.start > r.end
            || r.end > src.len()
            || !src.is_char_boundary(r.start)
            || !src.is_char_boundary(r.end)
        {
            return Err(format!("invalid range {r:?} of {e:?}").into());
        }
    }
    // captions come after the rows in the source
    let mut order: Vec<&Ev> = Vec::new();
    let mut caption: Vec<Vec<&Ev>> = Vec::new();
    let mut in_caption = false;
    for e in &evs {
        match &e.0 {
            E::Start(C::Table, _) => caption.push(Vec::new()),
            E::Start(C::Caption, _) => in_caption = true,
            E::End(C::Table) => order.extend(caption.pop().unwrap_or_default()),
            _ => {}
        }
        if in_caption && !matches!(e.0, E::Start(C::Caption, _)) {
            if let Some(c) = caption.last_mut() {
                c.push(e);
            }
        } else {
            order.push(e);
        }
        if e.0 == E::End(C::Caption) {
            in_caption = false;
        }
    }
    for w in order.windows(2) {
        if w[0].1.end > w[1].1.start {
            return Err(format!("ranges not in order: {:?}, {:?}", w[0], w[1]).into());
        }
    }
    Ok(obs(plain.iter()))
}

fn is_ws(s: &str) -> bool {
    s.bytes().all(|c| c.is_ascii_whitespace())
}

fn syntax(src: &str, e: &E, t: &str, at: usize) -> bool {
    let brace = |o: &str| t == o || t == format!("{{{o}") || t == format!("{o}}}");
    match e {
        E::Str(s) => **s == *t && s.as_ptr() as usize == src.as_ptr() as usize + at,
        E::Escape => t == "\\",
        E::NonBreakingSpace => t == " ",
        E::Softbreak => t == "\n",
        E::Hardbreak => t.ends_with('\n') && is_ws(t),
        E::Blankline => is_ws(t),
        E::Ellipsis => t == "...",
        E::EnDash => t == "--",
        E::EmDash => t == "---",
        E::LeftSingleQuote => t == "'" || t == "{'",
        E::RightSingleQuote => t == "'" || t == "'}",
        E::LeftDoubleQuote => t == "\"" || t == "{\"",
        E::RightDoubleQuote => t == "\"" || t == "\"}",
        E::Symbol(s) => t.strip_prefix(':').and_then(|t| t.strip_suffix(':')) == Some(&**s),
        E::FootnoteReference(s) => {
            t.strip_prefix("[^").and_then(|t| t.strip_suffix(']')) == Some(&**s)
        }
        E::Attributes(_) => t.starts_with('{') && t.trim_end().ends_with('}'),
        E::ThematicBreak(a) => {
            let l = t.trim_end();
            (a.is_empty() || t.starts_with('{'))
                && l.ends_with(['-', '*'])
                && (t.starts_with('{') || l.bytes().all(|c| b"-* \t\r\x0c".contains(&c)))
        }
        E::Start(c, a) => {
            let block = !is_inline_container(c);
            if block && !a.is_empty() && !t.starts_with('{') {
                return false;
            }
            let attr_only = block && t.starts_with('{');
            let end = |m: &str| t.ends_with(m) && (attr_only || t == m);
            match c {
                C::Document | C::TableCell { .. } | C::DescriptionDetails => t.is_empty(),
                C::Paragraph
                | C::Section { .. }
                | C::List { .. }
                | C::DescriptionList
                | C::Caption
                | C::Table => {
                    t.is_empty()
                        || attr_only
                            && t.trim_end_matches(['>', ' ', '\t', '\n', '\r', '\x0c'])
                                .ends_with('}')
                }
                C::Blockquote => end(">"),
                C::Heading { level, .. } => {
                    t.is_empty() || end(&"#".repeat(usize::from(*level))) || *level == u16::MAX
                }
                C::TableRow { .. } => t == "|",
                C::DescriptionTerm => t == ":",
                C::Footnote { label } => end(&format!("[^{label}]:")),
                C::LinkDefinition { label } => end(&format!("[{label}]:")),
                C::Span => t.is_empty() || t == "[",
                C::Emphasis => brace("_"),
                C::Strong => brace("*"),
                C::Superscript => brace("^"),
                C::Subscript => brace("~"),
                C::Mark => t == "{=",
                C::Insert => t == "{+",
                C::Delete => t == "{-",
                C::Image(..) => t == "![",
                C::Link(_, LinkType::AutoLink | LinkType::Email) => t == "<",
                C::Link(..) => t == "[",
                C::Verbatim => !t.is_empty() && t.bytes().all(|c| c == b'`'),
                // math with a raw format is raw as well
                C::RawInline { .. } => {
                    let t = t.trim_start_matches('$');
                    !t.is_empty() && t.bytes().all(|c| c == b'`')
                }
                C::Math { display } => {
                    let d = if *display { "$$" } else { "$" };
                    t.strip_prefix(d)
                        .is_some_and(|t| !t.is_empty() && t.bytes().all(|c| c == b'`'))
                }
                C::CodeBlock { .. } => t.contains("```") || t.contains("~~~"),
                C::RawBlock { .. } => t.contains("```") || t.contains("~~~"),
                C::Div { .. } => t.contains(":::"),
                C::ListItem => t.ends_with(['-', '*', '+', '.', ')']),
                C::TaskListItem { checked } => {
                    t.ends_with("[ ]") && !checked || *checked && t.to_lowercase().ends_with("[x]")
                }
            }
        }
        E::End(c) => match c {
            C::CodeBlock { .. } | C::RawBlock { .. } => {
                t.is_empty() || t.contains("```") || t.contains("~~~")
            }
            C::Div { .. } => t.is_empty() || t.contains(":::"),
            C::TableCell { .. } => t == "|",
            C::Verbatim | C::Math { .. } | C::RawInline { .. } => {
                t.is_empty() || t.starts_with('`')
            }
            C::Span => t.starts_with([']', '{']),
            C::Link(_, LinkType::AutoLink | LinkType::Email) => t == ">",
            C::Link(..) | C::Image(..) => t.starts_with("](") || t.starts_with("]["),
            C::Emphasis => t.starts_with('_'),
            C::Strong => t.starts_with('*'),
            C::Superscript => t.starts_with('^'),
            C::Subscript => t.starts_with('~'),
            C::Mark => t.starts_with("=}"),
            C::Insert => t.starts_with("+}"),
            C::Delete => t.starts_with("-}"),
            _ => t.is_empty(),
        },
    }
}

/// C05
pub fn syntax_of_ranges(src: &str) -> V {
    let evs = imp(src)?;
    for (e, r) in &evs {
        let Some(t) = src.get(r.clone()) else {
            return Err(format!("invalid range {r:?} of {e:?}").into());
        };
        if !syntax(src, e, t, r.start) {
            return Err(format!("range {r:?} of {e:?} is {t:?}").into());
        }
    }
    // exact ranges, as long as the events are what they should be
    let doc = Doc::new(src);
    let quirk = doc.quirk_applies;
    let cmp = |exp: Vec<Ev>| -> Option<String> {
        let agree = exp.len() == evs.len() && exp.iter().zip(&evs).all(|(a, b)| a.0 == b.0);
        if !agree {
            return None;
        }
        exp.iter()
            .zip(&evs)
            .find(|(a, b)| a.1 != b.1)
            .map(|(a, b)| format!("range of {:?} is {:?}, should be {:?}", b.0, b.1, a.1))
    };
    if let Some(m) = cmp(doc.events(quirk)) {
        return Err(m.into());
    }
    Ok(obs(evs.iter().map(|e| &e.0)))
}

/// C06
pub fn coverage(src: &str) -> V {
    let evs = imp(src)?;
    let count = |evs: &[Ev]| {
        let mut n = vec![0u32; src.len()];
        for (_, r) in evs {
            if r.end <= src.len() && r.start <= r.end {
                n[r.clone()].iter_mut().for_each(|x| *x += 1);
            }
        }
        n
    };
    let got = count(&evs);
    let want = guard_model(src);
    let want = count(&want);
    for (i, c) in src.bytes().enumerate() {
        if got[i] > 1 {
            return Err(format!("{:?} at {i} belongs to {} events", c as char, got[i]).into());
        }
        if got[i] == 0 && !c.is_ascii_whitespace() {
            if c.is_ascii_alphanumeric() || c >= 128 {
                return Err(format!("byte {:?} at {i} belongs to no event", c as char).into());
            }
            if want[i] > 0 {
                return Err(format!("{:?} at {i} belongs to no event", c as char).into());
            }
        }
    }
    Ok(obs(evs.iter().map(|e| &e.0)))
}

fn guard_model(src: &str) -> Vec<Ev<'static>> {
    crate::model::events(src)
}

/// C01
pub fn total(src: &str) -> V {
    use jotdown::html::{Indentation, Renderer};
    use jotdown::Render;
    let evs = imp_plain(src)?;
    imp(src)?;
    for r in [
        Renderer::default as fn() -> Renderer<'static>,
        Renderer::minified,
        || {
            Renderer::indented(Indentation {
                string: "\t".into(),
                initial_level: 3,
            })
        },
    ] {
        let mut s = String::new();
        let v = evs.clone();
        guard(|| r().push_events(v.into_iter(), &mut s))?
            .map_err(|e| format!("rendering to a string failed: {e}"))?;
    }
    let end = guard(|| {
        let mut p = Parser::new(src);
        p.by_ref().count();
        (p.next().is_some(), p.next().is_some())
    })?;
    if end.0 || end.1 {
        return Err("events after the last".to_string().into());
    }
    Ok(obs(evs.iter()))
}

/// C19: a text with all its punctuation escaped.
pub fn escaped(s: &str) -> V {
    let bad = |l: &str| {
        let ws = |c: char| c.is_ascii_whitespace();
        l.is_empty() || l.starts_with(ws) || l.ends_with(ws)
    };
    if s.contains(['\r', '\x0c']) || s.split('\n').any(bad) {
        return Err(Stop::Skip);
    }
    let mut doc = String::new();
    for c in s.chars() {
        if c.is_ascii_punctuation() {
            doc.push('\\');
        }
        doc.push(c);
    }
    let evs = imp_plain(&doc)?;
    let mut text = String::new();
    let n = evs.len();
    for (i, e) in evs.iter().enumerate() {
        match e {
            E::Start(C::Document, a) if i == 0 && a.is_empty() => {}
            E::Start(C::Paragraph, a) if i == 1 && a.is_empty() => {}
            E::End(C::Paragraph) if i + 2 == n => {}
            E::End(C::Document) if i + 1 == n => {}
            E::Str(t) => text.push_str(t),
            E::Escape => {}
            E::Softbreak => text.push('\n'),
            e => return Err(format!("{doc:?} has {e:?}").into()),
        }
    }
    if text != s {
        return Err(format!("{doc:?} has the text {text:?}, not {s:?}").into());
    }
    let html = guard(|| jotdown::html::render_to_string(evs.iter().cloned()))?;
    let mut want = String::from("<p>");
    for c in s.chars() {
        match c {
            '<' => want.push_str("&lt;"),
            '>' => want.push_str("&gt;"),
            '&' => want.push_str("&amp;"),
            c => want.push(c),
        }
    }
    want.push_str("</p>\n");
    if html != want {
        return Err(format!("{doc:?} is rendered as {html:?}, not {want:?}").into());
    }
    Ok(crate::conform::obs_text(
        s,
        !s.contains(|c: char| c.is_ascii_punctuation()),
    ))
}

const NESTS: [(&str, &str, &str, &str); 22] = [
    ("quotes", "> ", "a", ""),
    ("items", "- ", "a", ""),
    ("ordered", "1. ", "a", ""),
    ("descriptions", ": ", "a", ""),
    ("footnotes", "[^a]: ", "a", ""),
    ("mixed", "- > ", "a", ""),
    ("strong", "{*", "a", "*}"),
    ("bidirectional", "*", "a", "*"),
    ("quoted", "\"", "a", "\""),
    ("spans", "[", "a", "]{.b}"),
    ("links", "[", "a", "](b)"),
    ("images", "![", "a", "](b)"),
    ("brackets", "[", "a", ""),
    ("openers", "*a ", "a", ""),
    ("braces", "{", "a", ""),
    ("attributes", "{a", "a", ""),
    ("angles", "<", "a", ""),
    ("verbatim", "` `` ", "a", ""),
    ("destinations", "[a](", "a", ""),
    ("cells", "|a", "|", ""),
    ("headings", "# a\n\n", "a", ""),
    ("notes", "[^a]", "a", ""),
];

/// Kinds of which each level is parsed by recursion.
const BLOCKS: [&str; 6] = [
    "quotes",
    "items",
    "ordered",
    "descriptions",
    "footnotes",
    "mixed",
];

pub fn deep_cases() -> Vec<String> {
    let mut v = Vec::new();
    for (name, ..) in NESTS {
        let large = if BLOCKS.contains(&name) {
            100_000
        } else {
            8000
        };
        for n in [500, large] {
            v.push(format!("{name} {n}"));
        }
    }
    v
}

/// Whether nesting of some depth is parsed, as it may take down the process.
pub fn deep_case(case: &str) -> V {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut cmd = std::process::Command::new(exe);
    cmd.arg("deep")
        .arg(case)
        .stderr(std::process::Stdio::null());
    let (name, n) = case.split_once(' ').ok_or("case".to_string())?;
    let msg = match crate::engine::run_for(&mut cmd, 40) {
        None => "does not terminate in 40 s".to_string(),
        Some(st) if st.code() == Some(0) => return Ok(crate::conform::obs_text(case, false)),
        Some(st) => st.to_string(),
    };
    let msg = format!("{n} nested {name}: {msg}");
    if n == "100000" && BLOCKS.contains(&name) {
        return Err(Stop::Known("stack-overflow", msg));
    }
    Err(msg.into())
}

pub fn deep(case: &str) -> bool {
    let (name, n) = case.split_once(' ').unwrap();
    let (_, open, mid, close) = NESTS.iter().find(|x| x.0 == name).unwrap();
    let n: usize = n.parse().unwrap();
    let doc = format!("{}{mid}{}", open.repeat(n), close.repeat(n));
    let r = total(&doc);
    if let Err(Stop::Bad(m)) = &r {
        eprintln!("{m}");
    }
    r.is_ok()
}

// ---- C32 ----

fn classified(c: &C) -> Result<(), String> {
    let inline = is_inline_container(c);
    let block = !inline && *c != C::Document;
    if c.is_block() != block {
        return Err(format!(
            "{c:?} is a block: {}, should be {block}",
            c.is_block()
        ));
    }
    let holds = block
        && matches!(
            kind(c),
            Kind::Blocks | Kind::Tasks | Kind::Items | Kind::Desc | Kind::Table | Kind::Row(_)
        );
    if c.is_block_container() != holds {
        return Err(format!(
            "{c:?} is a block container: {}, should be {holds}",
            c.is_block_container()
        ));
    }
    Ok(())
}

/// C32: containers are where their classification says.
pub fn classification(src: &str) -> V {
    let evs = imp_plain(src)?;
    let mut open: Vec<&C> = Vec::new();
    for (i, e) in evs.iter().enumerate() {
        if let E::End(_) = e {
            if open.pop().is_none() {
                return Err(Stop::Skip);
            }
            continue;
        }
        let among_blocks = open
            .last()
            .is_none_or(|p| **p == C::Document || p.is_block_container());
        match e {
            E::Start(c, _) => {
                classified(c)?;
                if *c != C::Document && c.is_block() != among_blocks {
                    return Err(format!("{c:?} at {i} is inside of {:?}", open.last()).into());
                }
                open.push(c);
            }
            E::Str(_)
            | E::Softbreak
            | E::Hardbreak
            | E::Symbol(_)
            | E::FootnoteReference(_)
            | E::NonBreakingSpace
            | E::Escape
            | E::LeftSingleQuote
            | E::RightSingleQuote
            | E::LeftDoubleQuote
            | E::RightDoubleQuote
            | E::Ellipsis
            | E::EnDash
            | E::EmDash
                if among_blocks =>
            {
                return Err(format!("{e:?} at {i} is inside of {:?}", open.last()).into());
            }
            E::Blankline | E::ThematicBreak(_) if !among_blocks => {
                return Err(format!("{e:?} at {i} is inside of {:?}", open.last()).into());
            }
            _ => {}
        }
    }
    Ok(obs(evs.iter()))
}

/// C32: bullets and characters, of every character.
pub fn bullet(s: &str) -> V {
    use jotdown::ListBulletType as B;
    let c = s.chars().next().ok_or(Stop::Skip)?;
    let want = match c {
        '-' => Some(B::Dash),
        '*' => Some(B::Star),
        '+' => Some(B::Plus),
        _ => None,
    };
    let check = |what: &str, got: Option<B>| {
        if got == want {
            Ok(())
        } else {
            Err(format!("{what} {c:?} is {got:?}, should be {want:?}"))
        }
    };
    check("character", crate::engine::guard(|| B::try_from(c).ok())?)?;
    if c.is_ascii() {
        check("byte", B::try_from(c as u8).ok())?;
    } else if let Ok(b) = u8::try_from(u32::from(c)) {
        check("byte", B::try_from(b).ok())?;
    }
    if let Some(b) = want {
        if char::from(b) != c || u32::from(u8::from(b)) != u32::from(c) {
            return Err(format!("{b:?} is not converted to {c:?}").into());
        }
        let doc = format!("{c} a");
        let is = imp_plain(&doc)?.iter().any(
            |e| matches!(e, E::Start(C::List { kind: ListKind::Unordered(t), .. }, _) if *t == b),
        );
        if !is {
            return Err(format!("{doc:?} is no list with {b:?}").into());
        }
    }
    Ok(crate::conform::obs_text(s, want.is_none()))
}
