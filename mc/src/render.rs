//! Properties of the HTML renderer (C24 to C27).

use crate::conform::*;
use crate::engine::{Stop, V};
use crate::html::*;
use crate::invariants::check_balanced;
use jotdown::html::Renderer;
use jotdown::{Container as C, Event as E};

fn parsed(src: &str) -> Result<Vec<E<'_>>, Stop> {
    let evs = imp_plain(src)?;
    // what is rendered does not matter unless it is a tree
    check_balanced(&evs).map_err(|_| Stop::Skip)?;
    Ok(evs)
}

fn differ(what: &str, got: &str, want: &str) -> Stop {
    Stop::Bad(format!(
        "{what} output differs:\n  rendered  {got:?}\n  specified {want:?}"
    ))
}

/// Default output is that of the reference renderer.
pub fn check_html(evs: &[E]) -> V {
    let want = layout(&render(evs), Some(("", 0)));
    let got = imp_render(evs, default())?;
    if got != want {
        return Err(differ("default", &got, &want));
    }
    let trivial = !got.contains('<') || got.starts_with("<p>") && got.matches('<').count() == 2;
    Ok(obs_text(&got, trivial))
}

/// C25
pub fn html(src: &str) -> V {
    check_html(&parsed(src)?)
}

/// C24
pub fn footnotes(src: &str) -> V {
    let evs = parsed(src)?;
    let raw =
        |c: &C| matches!(c, C::RawBlock { format } | C::RawInline { format } if format == "html");
    if evs.iter().any(|e| matches!(e, E::Start(c, _) if raw(c))) {
        return Err(Stop::Skip);
    }
    let got = imp_render(&evs, Renderer::minified())?;
    let toks = read(&got)?;
    let get = |a: &[(String, String)], k: &str| a.iter().find(|x| x.0 == k).map(|x| x.1.clone());
    // references in alternative text count, but are not rendered
    let unseen = evs.iter().any(|e| matches!(e, E::Start(C::Image(..), _)));
    let mut in_notes = false;
    let mut sections = 0;
    let mut max = 0;
    let mut items = 0;
    let mut backs = 0;
    for t in &toks {
        let Tok::Open(n, a) = t else { continue };
        match get(a, "role").as_deref() {
            Some("doc-endnotes") => {
                sections += 1;
                in_notes = true;
            }
            Some("doc-noteref") => {
                let href = get(a, "href").unwrap_or_default();
                let k: usize = href
                    .strip_prefix("#fn")
                    .and_then(|n| n.parse().ok())
                    .ok_or("reference without number".to_string())?;
                if (!unseen && k > max + 1) || k == 0 {
                    return Err(format!("reference {k} comes before {}", max + 1).into());
                }
                max = max.max(k);
                if get(a, "id") != Some(format!("fnref{k}")) {
                    return Err(format!("reference {k} has the id of another").into());
                }
            }
            Some("doc-backlink") => {
                backs += 1;
                if get(a, "href") != Some(format!("#fnref{items}")) {
                    return Err(format!("backlink of {items} leads elsewhere").into());
                }
            }
            _ => {}
        }
        if n == "li" && in_notes && get(a, "id").is_some_and(|i| i.starts_with("fn")) {
            items += 1;
            if get(a, "id") != Some(format!("fn{items}")) {
                return Err("endnotes are not in order".to_string().into());
            }
            if backs + 1 != items {
                return Err(format!("{backs} backlinks before endnote {items}").into());
            }
        }
    }
    if (sections > 1)
        || (!unseen && (sections == 1) != (max > 0))
        || items < max
        || (!unseen && items != max)
        || backs != items
    {
        return Err(format!(
            "{max} footnotes are referenced, {items} rendered in {sections} sections with {backs} backlinks"
        )
        .into());
    }
    // numbers, contents and positions
    let want = layout(&render(&evs), None);
    if got != want {
        return Err(differ("minified", &got, &want));
    }
    Ok(obs_text(&got, items == 0))
}

/// C26
pub fn wellformed(src: &str) -> V {
    let evs = parsed(src)?;
    let raw =
        |c: &C| matches!(c, C::RawBlock { format } | C::RawInline { format } if format == "html");
    if evs.iter().any(|e| matches!(e, E::Start(c, _) if raw(c))) {
        return Err(Stop::Skip);
    }
    let (text, dsts) = expected_text(&evs);
    let min = imp_render(&evs, Renderer::minified())?;
    let toks = read(&min)?;
    let got = text_of(&toks);
    if got != text {
        return Err(differ("text of", &got, &text));
    }
    let links: Vec<String> = toks
        .iter()
        .filter_map(|t| match t {
            Tok::Open(n, a) if n == "a" => a.iter().find(|a| a.0 == "href").map(|a| a.1.clone()),
            Tok::Open(n, a) if n == "img" => a.iter().rfind(|a| a.0 == "src").map(|a| a.1.clone()),
            _ => None,
        })
        .collect();
    let own_keys = evs
        .iter()
        .any(|e| matches!(e, E::Start(_, a) if a.contains_key("href") || a.contains_key("src")));
    if links != dsts && !own_keys {
        return Err(format!("destinations are {links:?}, should be {dsts:?}").into());
    }
    // values of attribute sets
    let mut values: Vec<(String, String)> = toks
        .iter()
        .filter_map(|t| match t {
            Tok::Open(_, a) => Some(a.clone()),
            _ => None,
        })
        .flatten()
        .collect();
    let mut image = 0;
    let mut note = 0;
    for e in &evs {
        match e {
            E::Start(C::Footnote { .. }, _) => note += 1,
            E::End(C::Footnote { .. }) => note -= 1,
            E::End(C::Image(..)) => image -= 1,
            _ => {}
        }
        if let E::Start(c, a) = e {
            let tight_para = matches!(c, C::Paragraph | C::Document | C::LinkDefinition { .. });
            let is_raw = matches!(c, C::RawBlock { .. } | C::RawInline { .. });
            if image == 0 && note == 0 && !tight_para && !is_raw && !matches!(c, C::Footnote { .. })
            {
                for (k, v) in crate::model::attr::unique(&elems(a)) {
                    if k == "class" {
                        continue; // merged
                    }
                    match values.iter().position(|x| x.0 == k && x.1 == v) {
                        Some(i) => {
                            values.swap_remove(i);
                        }
                        None => return Err(format!("attribute {k}={v:?} is not rendered").into()),
                    }
                }
            }
            if matches!(c, C::Image(..)) {
                image += 1;
            }
        }
    }
    read(&imp_render(&evs, default())?)?;
    read(&imp_render(&evs, indented("\t", 1))?)?;
    let trivial = toks.len() <= 3;
    Ok(obs_text(&min, trivial))
}

const MARK: char = '\u{e000}';

/// C27
pub fn formats(src: &str) -> V {
    let evs = parsed(src)?;
    check_formats(&evs, src.contains(MARK))
}

pub fn check_formats(evs: &[E], has_mark: bool) -> V {
    let min = imp_render(evs, Renderer::minified())?;
    let def = imp_render(evs, default())?;
    let empty = imp_render(evs, indented("", 7))?;
    if empty != def {
        return Err(differ("indented by nothing", &empty, &def));
    }
    let nl = |s: &str| s.replace('\n', "");
    if nl(&min) != nl(&def) {
        return Err(differ("default", &def, &min));
    }
    let raw = evs.iter().any(|e| {
        matches!(e, E::Start(C::RawBlock { format } | C::RawInline { format }, _) if format == "html")
    });
    let soft = evs
        .iter()
        .map(|e| match e {
            E::Softbreak => 1,
            E::Str(s) => s.matches('\n').count(),
            // a label without a definition is its own destination
            E::Start(C::Image(s, _) | C::Link(s, _), _) => s.matches('\n').count(),
            _ => 0,
        })
        .sum::<usize>();
    if !raw && min.matches('\n').count() > soft + evs.iter().filter(|e| **e == E::Hardbreak).count()
    {
        return Err("minified output has line breaks of its own"
            .to_string()
            .into());
    }
    for level in [0, 2] {
        let m = MARK.to_string();
        let ind = imp_render(evs, indented(&m, level))?;
        if has_mark {
            break;
        }
        if ind.replace(MARK, "") != def {
            return Err(differ("indented", &ind, &def));
        }
        if !raw && !literal_breaks(evs) {
            depth_of_lines(&ind, level)?;
        }
        let two = imp_render(evs, indented("  ", level))?;
        if two != ind.replace(MARK, "  ") {
            return Err(differ("indented by spaces", &two, &ind.replace(MARK, "  ")));
        }
    }
    // exactly as specified
    let t = render(evs);
    for (name, got, want) in [
        ("minified", min, layout(&t, None)),
        ("default", def.clone(), layout(&t, Some(("", 0)))),
        (
            "indented",
            imp_render(evs, indented("<->", 2))?,
            layout(&t, Some(("<->", 2))),
        ),
    ] {
        if got != want {
            return Err(differ(name, &got, &want));
        }
    }
    let trivial = def.matches('\n').count() <= 1;
    Ok(obs_text(&def, trivial))
}

/// Line breaks inside of text, other than in code blocks.
fn literal_breaks(evs: &[E]) -> bool {
    let mut code = false;
    evs.iter().any(|e| {
        match e {
            E::Start(C::CodeBlock { .. }, _) => code = true,
            E::End(C::CodeBlock { .. }) => code = false,
            _ => {}
        }
        matches!(e, E::Str(s) if s.contains('\n') && !code)
            || matches!(e, E::Start(C::LinkDefinition { .. }, _))
    })
}

/// Lines are indented by how many containers are open around them.
fn depth_of_lines(out: &str, level: usize) -> Result<(), String> {
    let mut depth = level;
    let mut notes = false;
    let mut pre = false;
    let mut alt = false;
    for (i, line) in out.split('\n').enumerate() {
        let t = line.trim_start_matches(MARK);
        let n = (line.len() - t.len()) / MARK.len_utf8();
        let was_literal = pre || alt;
        // tags of the line
        let mut s = t;
        let closes = CONTAINERS.iter().any(|c| {
            t.strip_prefix("</")
                .and_then(|t| t.strip_prefix(c))
                .is_some_and(|t| t.starts_with('>'))
        });
        let here = depth - usize::from(closes && !notes);
        if alt {
            // continues alternative text
            match s.find('"') {
                Some(i) => {
                    s = &s[i..];
                    alt = false;
                }
                None => s = "",
            }
        }
        while let Some(i) = s.find('<') {
            s = &s[i + 1..];
            let close = s.starts_with('/');
            let name = s.trim_start_matches('/');
            let name = &name[..name
                .find(|c: char| !c.is_ascii_alphanumeric())
                .unwrap_or(name.len())];
            if name == "pre" {
                pre = !close;
            }
            if s.starts_with("section role=\"doc-endnotes\"") {
                notes = true;
            }
            // endnotes are not indented, except for the contents of the footnotes
            let own = notes
                && (s.starts_with("section role=\"doc-endnotes\"")
                    || s.starts_with("li id=\"fn")
                    || s == "ol>");
            if own {
                // balance is kept by the renderer, not by the markup
                return Ok(());
            }
            if CONTAINERS.contains(&name) {
                if close {
                    depth -= 1;
                } else {
                    depth += 1;
                }
            }
            if name == "img" {
                let tag = &s[..s.find('>').unwrap_or(s.len())];
                let q = tag.matches('"').count();
                alt = q % 2 == 1;
            }
        }
        let last = t.is_empty() && n == 0; // end of output, or of a source line
        if !was_literal && n != here && !last {
            return Err(format!(
                "line {} is indented {n} times instead of {here}: {t:?} in {out:?}",
                i + 1
            ));
        }
        if was_literal && n != 0 {
            return Err(format!("literal line {} is indented: {t:?}", i + 1));
        }
    }
    Ok(())
}

/// All formatting options, for given events.
pub fn check_all(evs: &[E]) -> V {
    let o = check_html(evs)?;
    check_formats(evs, false)?;
    Ok(o)
}

/// C24: references to definitions, of each kind and in each place.
pub fn notes(c: &mut crate::engine::Choices, thorough: bool) -> V {
    let labels = ["a", "b", "c"];
    let mut text = String::from("x");
    for _ in 0..c.choose(if thorough { 5 } else { 4 }) {
        text.push_str(&format!(" [^{}]", c.of(&labels)));
    }
    text.push_str("\n\n");
    let mut defs = String::new();
    for l in labels {
        match c.choose(if thorough { 8 } else { 6 }) {
            0 => {}
            1 => defs.push_str(&format!("[^{l}]: d{l}\n\n")),
            2 => defs.push_str(&format!("[^{l}]: [^{}]\n\n", c.of(&labels))),
            3 => defs.push_str(&format!("[^{l}]: y\n\n  - [^{}]\n\n", c.of(&labels))),
            4 => defs.push_str(&format!(
                "[^{l}]: [^{}] [^{}]\n\n",
                c.of(&labels),
                c.of(&labels)
            )),
            5 => defs.push_str(&format!("[^{l}]: # h\n\n  > [^{}]\n\n", c.of(&labels))),
            6 => defs.push_str(&format!("[^{l}]:\n\n  ```\n  z\n  ```\n\n")),
            _ => defs.push_str(&format!("[^{l}]: [^{}]:\n\n", c.of(&labels))),
        }
    }
    let doc = if c.flag() { defs + &text } else { text + &defs };
    footnotes(&doc)
}
