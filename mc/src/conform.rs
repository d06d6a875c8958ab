//! Running the implementation, and comparing it to the reference model.

use crate::engine::{guard, Obs, Stop, V};
use crate::model::Doc;
use jotdown::{Container, Event, LinkType, Parser, SpanLinkType};
use std::hash::{Hash, Hasher};
use std::ops::Range;

pub type Ev<'s> = (Event<'s>, Range<usize>);

/// Hash that is the same on every run.
#[derive(Default)]
pub struct H(pub u64);
impl Hasher for H {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for b in b {
            self.0 = (self.0.rotate_left(5) ^ u64::from(*b)).wrapping_mul(0x517c_c1b7_2722_0a95);
        }
    }
}

pub fn max_events(src: &str) -> usize {
    64 + 12 * src.len()
}

/// All events with offsets.
pub fn imp(src: &str) -> Result<Vec<Ev<'_>>, String> {
    let max = max_events(src);
    let v: Vec<Ev> = guard(|| Parser::new(src).into_offset_iter().take(max + 1).collect())?;
    if v.len() > max {
        return Err(format!("more than {max} events"));
    }
    Ok(v)
}

/// All events.
pub fn imp_plain(src: &str) -> Result<Vec<Event<'_>>, String> {
    let max = max_events(src);
    let v: Vec<Event> = guard(|| Parser::new(src).take(max + 1).collect())?;
    if v.len() > max {
        return Err(format!("more than {max} events"));
    }
    Ok(v)
}

fn container_hash(c: &Container, h: &mut H) {
    std::mem::discriminant(c).hash(h);
    match c {
        Container::List { kind, tight } => {
            tight.hash(h);
            std::mem::discriminant(kind).hash(h);
        }
        Container::Heading { level, .. } => level.hash(h),
        Container::TableCell { alignment, head } => {
            (*alignment as u8).hash(h);
            head.hash(h);
        }
        Container::Link(d, t) => {
            d.hash(h);
            std::mem::discriminant(t).hash(h);
        }
        Container::Image(d, _) => d.hash(h),
        Container::CodeBlock { language: s }
        | Container::RawBlock { format: s }
        | Container::RawInline { format: s }
        | Container::Div { class: s }
        | Container::Footnote { label: s }
        | Container::LinkDefinition { label: s } => s.hash(h),
        _ => {}
    }
}

pub fn obs<'a, 's: 'a>(evs: impl Iterator<Item = &'a Event<'s>>) -> Obs {
    let mut h = H::default();
    let mut trivial = true;
    for e in evs {
        std::mem::discriminant(e).hash(&mut h);
        match e {
            Event::Start(c, a) => {
                container_hash(c, &mut h);
                a.len().hash(&mut h);
                trivial &= matches!(c, Container::Document | Container::Paragraph);
            }
            Event::Str(s) => s.hash(&mut h),
            Event::End(_) | Event::Blankline | Event::Softbreak => {}
            Event::Symbol(s) | Event::FootnoteReference(s) => {
                s.hash(&mut h);
                trivial = false;
            }
            _ => trivial = false,
        }
    }
    Obs { hash: h.0, trivial }
}

pub fn obs_text(s: &str, trivial: bool) -> Obs {
    let mut h = H::default();
    s.hash(&mut h);
    Obs { hash: h.0, trivial }
}

/// First difference between two event streams.
pub fn diff(what: [&str; 2], a: &[String], b: &[String]) -> String {
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let from = i.saturating_sub(3);
    let show = |v: &[String]| {
        v[from..v.len().min(i + 4)]
            .iter()
            .map(|s| format!("    {s}"))
            .collect::<Vec<_>>()
            .join("\n")
    };
    format!(
        "events differ at {i}:\n  {}:\n{}\n  {}:\n{}",
        what[0],
        show(a),
        what[1],
        show(b)
    )
}

pub fn strings<T: std::fmt::Debug>(v: &[T]) -> Vec<String> {
    v.iter().map(|e| format!("{e:?}")).collect()
}

/// Destinations may be any of those of several headings with the same label.
fn same(doc_amb: &std::collections::HashMap<String, Vec<String>>, a: &Event, b: &Event) -> bool {
    if a == b {
        return true;
    }
    if doc_amb.is_empty() {
        return false;
    }
    let dst = |e: &Event| match e {
        Event::Start(Container::Link(d, LinkType::Span(SpanLinkType::Reference)), _)
        | Event::End(Container::Link(d, LinkType::Span(SpanLinkType::Reference)))
        | Event::Start(Container::Image(d, SpanLinkType::Reference), _)
        | Event::End(Container::Image(d, SpanLinkType::Reference)) => {
            d.strip_prefix('#').map(String::from)
        }
        _ => None,
    };
    let set = |e: &Event, to: &str| {
        let mut e = e.clone();
        match &mut e {
            Event::Start(Container::Link(d, _) | Container::Image(d, _), _)
            | Event::End(Container::Link(d, _) | Container::Image(d, _)) => {
                *d = to.to_string().into();
            }
            _ => {}
        }
        format!("{e:?}")
    };
    match (dst(a), dst(b)) {
        (Some(x), Some(y)) => {
            doc_amb.values().any(|v| v.contains(&x) && v.contains(&y)) && set(a, "") == set(b, "")
        }
        _ => false,
    }
}

pub enum Tight {
    /// Tightness has to be as specified, except for the known finding.
    Decide,
    /// Tightness may also deviate as described by the known finding.
    Either,
}

pub fn compare(src: &str, tight: Tight, ranges: bool) -> V {
    let evs = imp(src)?;
    let doc = Doc::new(src);
    let amb = doc.ambiguous();
    let quirk = doc.quirk_applies;
    let exp = doc.events(false);
    let eq = |exp: &[Ev]| {
        exp.len() == evs.len()
            && exp
                .iter()
                .zip(&evs)
                .all(|(a, b)| (!ranges || a.1 == b.1) && same(&amb, &a.0, &b.0))
    };
    if eq(&exp) {
        return Ok(obs(evs.iter().map(|e| &e.0)));
    }
    if quirk && eq(&Doc::new(src).events(true)) {
        let o = obs(evs.iter().map(|e| &e.0));
        return match tight {
            Tight::Either => Ok(o),
            Tight::Decide => Err(Stop::Known(
                "tight-last-block",
                diff(["reported", "specified"], &strings(&evs), &strings(&exp)),
            )),
        };
    }
    if ranges {
        return Err(diff(["reported", "specified"], &strings(&evs), &strings(&exp)).into());
    }
    let p = |v: &[Ev]| v.iter().map(|e| format!("{:?}", e.0)).collect::<Vec<_>>();
    Err(diff(["reported", "specified"], &p(&evs), &p(&exp)).into())
}

/// Events are exactly those of the reference model.
pub fn conform(src: &str) -> V {
    compare(src, Tight::Either, false)
}

/// As [`conform`], including the tightness of lists.
pub fn conform_lists(src: &str) -> V {
    compare(src, Tight::Decide, false)
}

/// All ways to consume an iterator agree with the items that it should give.
pub fn consumed<I>(make: impl Fn() -> I, rest: &[I::Item]) -> Result<(), String>
where
    I: Iterator,
    I::Item: PartialEq,
{
    let (low, high) = make().size_hint();
    if low > rest.len() || high.is_some_and(|h| h < rest.len()) {
        return Err(format!(
            "{} items are left, outside of {low}..={high:?}",
            rest.len()
        ));
    }
    let mut i = 0;
    let mut same = true;
    make().for_each(|x| {
        same &= rest.get(i) == Some(&x);
        i += 1;
    });
    if !same || i != rest.len() {
        return Err("items differ if they are consumed at once".into());
    }
    if make().count() != rest.len() || make().last().as_ref() != rest.last() {
        return Err("number of items or the last one differ".into());
    }
    for k in [1, 2, 3, rest.len().saturating_sub(1), rest.len()] {
        let mut it = make();
        if it.nth(k).as_ref() != rest.get(k) || it.next().as_ref() != rest.get(k + 1) {
            return Err(format!("item {k} or the one after it differ"));
        }
    }
    let mut it = make();
    let found = it.find(|x| Some(x) == rest.get(1));
    if found.as_ref() != rest.get(1).filter(|_| found.is_some()) {
        return Err("item that is searched differs".into());
    }
    if make().collect::<Vec<_>>() != rest {
        return Err("collected items differ".into());
    }
    Ok(())
}
