//! Sinks and their faults (C28), clones and history of parsers (C29).

use crate::conform::*;
use crate::engine::{guard, Choices, Stop, V};
use crate::invariants::check_balanced;
use jotdown::html::{Indentation, Renderer};
use jotdown::{Event as E, Parser, Render};
use std::io;

/// Number of kinds of renderers.
const RENDERERS: usize = 4;

fn make<'s>(k: usize) -> Any<'s> {
    Any::Html(match k {
        0 => Renderer::default(),
        1 => Renderer::minified(),
        2 => Renderer::indented(Indentation {
            string: "\t".into(),
            initial_level: 1,
        }),
        _ => return Any::Own(Own { left: usize::MAX }),
    })
}

/// A renderer as written by a user of the library, fails on its own after a number of events.
struct Own {
    left: usize,
}

impl<'s> Render<'s> for Own {
    fn push_event<W: std::fmt::Write>(&mut self, e: E<'s>, mut out: W) -> std::fmt::Result {
        if self.left == 0 {
            return Err(std::fmt::Error);
        }
        self.left -= 1;
        match e {
            E::Start(c, a) => {
                out.write_char('\u{ab}')?;
                write!(out, "{:?}{}", std::mem::discriminant(&c), a.len())
            }
            E::End(_) => out.write_char('\u{bb}'),
            E::Str(s) => {
                for part in s.split_inclusive(' ') {
                    out.write_str(part)?;
                    out.write_str("")?;
                }
                Ok(())
            }
            e => writeln!(&mut out, "{e:?}"),
        }
    }
}

/// Any renderer, all methods are those of the renderer itself.
enum Any<'s> {
    Html(Renderer<'s>),
    Own(Own),
}

impl<'s> Render<'s> for Any<'s> {
    fn push_event<W: std::fmt::Write>(&mut self, e: E<'s>, out: W) -> std::fmt::Result {
        match self {
            Self::Html(r) => r.push_event(e, out),
            Self::Own(r) => r.push_event(e, out),
        }
    }
    fn write_event<W: io::Write>(&mut self, e: E<'s>, out: W) -> io::Result<()> {
        match self {
            Self::Html(r) => r.write_event(e, out),
            Self::Own(r) => r.write_event(e, out),
        }
    }
    fn push_events<I: Iterator<Item = E<'s>>, W: std::fmt::Write>(
        &mut self,
        evs: I,
        out: W,
    ) -> std::fmt::Result {
        match self {
            Self::Html(r) => r.push_events(evs, out),
            Self::Own(r) => r.push_events(evs, out),
        }
    }
    fn write_events<I: Iterator<Item = E<'s>>, W: io::Write>(
        &mut self,
        evs: I,
        out: W,
    ) -> io::Result<()> {
        match self {
            Self::Html(r) => r.write_events(evs, out),
            Self::Own(r) => r.write_events(evs, out),
        }
    }
}

/// An error that can be recognised.
#[derive(Debug)]
struct Full;

impl std::fmt::Display for Full {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "sink is full 42")
    }
}

impl std::error::Error for Full {}

/// Error code of the system for a full device.
const FULL: i32 = 28;

/// Accepts a number of bytes of each write, fails once a total is reached.
struct Sink {
    got: Vec<u8>,
    /// Bytes accepted by each write, in turn.
    step: Vec<usize>,
    turn: usize,
    fail_at: Option<usize>,
    fault: Fault,
    /// Writes after a failure.
    late: usize,
    failed: bool,
    interrupts: bool,
    flip: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    Error,
    Os,
    Zero,
}

impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.failed {
            self.late += 1;
        }
        if self.interrupts {
            self.flip = !self.flip;
            if self.flip {
                return Err(io::Error::new(io::ErrorKind::Interrupted, "again"));
            }
        }
        let room = self
            .fail_at
            .map_or(usize::MAX, |f| f - self.got.len().min(f));
        if room == 0 && !b.is_empty() {
            self.failed = true;
            return match self.fault {
                Fault::Error => Err(io::Error::new(io::ErrorKind::StorageFull, Full)),
                Fault::Os => Err(io::Error::from_raw_os_error(FULL)),
                Fault::Zero => Ok(0),
            };
        }
        let n = self.step[self.turn % self.step.len()].max(1);
        self.turn += 1;
        let n = n.min(b.len()).min(room);
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct Text {
    got: String,
    /// Number of writes that succeed.
    left: usize,
    late: usize,
    failed: bool,
}

impl std::fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed {
            self.late += 1;
        }
        if self.left == 0 {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.left -= 1;
        self.got.push_str(s);
        Ok(())
    }
}

fn full<'s>(evs: &[E<'s>], k: usize) -> Result<String, String> {
    let mut s = String::new();
    let mut r = make(k);
    guard(|| r.push_events(evs.iter().cloned(), &mut s))?
        .map_err(|_| "rendering to a string failed".to_string())?;
    Ok(s)
}

/// All ways to render without faults agree, and every point of failure gives that failure.
pub fn sinks(src: &str) -> V {
    let evs = imp_plain(src)?;
    check_balanced(&evs).map_err(|_| Stop::Skip)?;
    let mut out = String::new();
    for k in 0..RENDERERS {
        let want = full(&evs, k)?;
        no_faults(&evs, k, &want)?;
        faults(&evs, k, &want)?;
        if k == 0 {
            out = want;
        }
    }
    own_faults(&evs)?;
    let conv = guard(|| jotdown::html::render_to_string(evs.iter().cloned()))?;
    if conv != out {
        return Err(format!("render_to_string gives {conv:?} instead of {out:?}").into());
    }
    Ok(obs_text(&out, out.matches('<').count() <= 2))
}

fn no_faults(evs: &[E], k: usize, want: &str) -> Result<(), String> {
    let same = |how: &str, got: &[u8]| {
        if got == want.as_bytes() {
            Ok(())
        } else {
            Err(format!(
                "{how} gives {:?} instead of {want:?}",
                String::from_utf8_lossy(got)
            ))
        }
    };
    // one event at a time
    let mut s = String::new();
    let mut r = make(k);
    for e in evs {
        guard(|| r.push_event(e.clone(), &mut s))?.map_err(|_| "push_event failed".to_string())?;
    }
    same("push_event", s.as_bytes())?;
    // any split into two calls
    for at in [0, 1, evs.len() / 2, evs.len().saturating_sub(1), evs.len()] {
        let mut s = String::new();
        let mut r = make(k);
        guard(|| {
            r.push_events(evs[..at].iter().cloned(), &mut s)?;
            r.push_events(evs[at..].iter().cloned(), &mut s)
        })?
        .map_err(|_| "push_events failed".to_string())?;
        same("push_events in parts", s.as_bytes())?;
    }
    // byte sinks that accept parts of what they are given
    for step in [vec![usize::MAX], vec![1], vec![2], vec![3, 1], vec![1, 7]] {
        for (one, interrupts) in [(false, false), (true, false), (false, true)] {
            let mut sink = Sink {
                got: Vec::new(),
                step: step.clone(),
                turn: 0,
                fail_at: None,
                fault: Fault::Error,
                late: 0,
                failed: false,
                interrupts,
                flip: false,
            };
            let mut r = make(k);
            guard(|| {
                if one {
                    evs.iter()
                        .try_for_each(|e| r.write_event(e.clone(), &mut sink))
                } else {
                    r.write_events(evs.iter().cloned(), &mut sink)
                }
            })?
            .map_err(|e| format!("writing failed: {e}"))?;
            same(&format!("writing by {step:?}"), &sink.got)?;
        }
    }
    let mut v = Vec::new();
    let mut r = make(k);
    guard(|| r.write_events(evs.iter().cloned(), io::BufWriter::with_capacity(3, &mut v)))?
        .map_err(|e| format!("writing failed: {e}"))?;
    same("buffered writing", &v)
}

/// A renderer that fails on its own, though the sink does not.
fn own_faults(evs: &[E]) -> Result<(), String> {
    for left in 0..evs.len() {
        let want = {
            let mut s = String::new();
            let mut r = Own { left };
            for e in &evs[..left] {
                let _ = r.push_event(e.clone(), &mut s);
            }
            s
        };
        let mut taken = 0;
        let mut s = String::new();
        let res = guard(|| {
            let evs = evs.iter().cloned().inspect(|_| taken += 1);
            Own { left }.push_events(evs, &mut s)
        })?;
        if res.is_ok() || s != want || taken != left + 1 {
            return Err(format!(
                "renderer that fails after {left} events: push_events took {taken} and gives {s:?}, {res:?}"
            ));
        }
        let mut taken = 0;
        let mut v = Vec::new();
        let res = guard(|| {
            let evs = evs.iter().cloned().inspect(|_| taken += 1);
            Own { left }.write_events(evs, &mut v)
        })?;
        if res.is_ok() || v != want.as_bytes() || taken != left + 1 {
            return Err(format!(
                "renderer that fails after {left} events: write_events took {taken} and gives {:?}, {res:?}",
                String::from_utf8_lossy(&v)
            ));
        }
    }
    Ok(())
}

fn faults(evs: &[E], k: usize, want: &str) -> Result<(), String> {
    for at in 0..want.len() {
        for (fault, step) in [
            (Fault::Error, usize::MAX),
            (Fault::Error, 2),
            (Fault::Zero, usize::MAX),
            (Fault::Os, 2),
        ] {
            {
                for one in [false, true] {
                    let mut sink = Sink {
                        got: Vec::new(),
                        step: vec![step],
                        turn: 0,
                        fail_at: Some(at),
                        fault,
                        late: 0,
                        failed: false,
                        interrupts: false,
                        flip: false,
                    };
                    let mut r = make(k);
                    let res = guard(|| {
                        if one {
                            evs.iter()
                                .try_for_each(|e| r.write_event(e.clone(), &mut sink))
                        } else {
                            r.write_events(evs.iter().cloned(), &mut sink)
                        }
                    })?;
                    let what = format!("sink that fails ({fault:?}) after {at} bytes");
                    match (res, fault) {
                        (Ok(()), _) => return Err(format!("{what}: reported as success")),
                        (Err(e), Fault::Error) => {
                            if e.kind() != io::ErrorKind::StorageFull
                                || e.to_string() != "sink is full 42"
                                || !e.get_ref().is_some_and(|e| e.is::<Full>())
                            {
                                return Err(format!("{what}: reported as {e:?}"));
                            }
                        }
                        (Err(e), Fault::Os) => {
                            if e.raw_os_error() != Some(FULL) {
                                return Err(format!("{what}: reported as {e:?}"));
                            }
                        }
                        (Err(e), Fault::Zero) => {
                            if e.kind() != io::ErrorKind::WriteZero {
                                return Err(format!("{what}: reported as {e:?}"));
                            }
                        }
                    }
                    if sink.late > 0 {
                        return Err(format!("{what}: {} writes after the failure", sink.late));
                    }
                    if !want.as_bytes().starts_with(&sink.got) {
                        return Err(format!(
                            "{what}: wrote {:?}, which is not the start of {want:?}",
                            String::from_utf8_lossy(&sink.got)
                        ));
                    }
                }
            }
        }
    }
    // text sinks
    for left in 0.. {
        for one in [false, true] {
            let mut sink = Text {
                got: String::new(),
                left,
                late: 0,
                failed: false,
            };
            let mut r = make(k);
            let res = guard(|| {
                if one {
                    evs.iter()
                        .try_for_each(|e| r.push_event(e.clone(), &mut sink))
                } else {
                    r.push_events(evs.iter().cloned(), &mut sink)
                }
            })?;
            if res.is_ok() == sink.failed {
                return Err(format!("text sink that fails at write {left}: {res:?}"));
            }
            if sink.late > 0 {
                return Err(format!(
                    "text sink: {} writes after failure {left}",
                    sink.late
                ));
            }
            if !want.starts_with(&sink.got) || !sink.failed && sink.got != want {
                return Err(format!(
                    "text sink that fails at write {left}: wrote {:?}, output is {want:?}",
                    sink.got
                ));
            }
            if !sink.failed && one {
                return Ok(());
            }
        }
    }
    Ok(())
}

// ---- C29 ----

/// A clone is taken after any number of events, both are advanced in any of several orders.
pub fn clones(src: &str) -> V {
    let all = imp_plain(src)?;
    let again = imp_plain(src)?;
    if all != again {
        return Err("second parse gives other events".to_string().into());
    }
    let off = imp(src)?;
    let err = |what: String| -> V { Err(what.into()) };
    let mut p = guard(|| Parser::new(src))?;
    for n in 0..=all.len() {
        let rest = &all[n..];
        let take = |mut p: Parser<'_>| -> Result<bool, String> {
            guard(|| {
                let mut same = true;
                for e in rest {
                    same &= p.next().as_ref() == Some(e);
                }
                same && p.next().is_none() && p.next().is_none()
            })
        };
        let c = guard(|| p.clone())?;
        let c2 = guard(|| c.clone())?;
        if !take(c)? {
            return err(format!(
                "clone taken after {n} events continues with other events"
            ));
        }
        if !take(c2)? {
            return err(format!("clone of a clone taken after {n} events differs"));
        }
        // original after clone was used up is checked by going on
        // interleaved, clone ahead by one and by turns
        let (mut a, mut b) = guard(|| (p.clone(), p.clone()))?;
        let ok = guard(|| {
            let mut same = true;
            let mut ib = 0;
            for (ia, e) in rest.iter().enumerate() {
                same &= a.next().as_ref() == Some(e);
                if ia % 3 != 1 {
                    same &= b.next().as_ref() == rest.get(ib);
                    ib += 1;
                }
            }
            while ib < rest.len() {
                same &= b.next().as_ref() == rest.get(ib);
                ib += 1;
            }
            same && a.next().is_none() && b.next().is_none()
        })?;
        if !ok {
            return err(format!(
                "clones taken after {n} events influence each other"
            ));
        }
        // offsets of what is left
        if n == 0 {
            let o: Vec<_> = guard(|| p.clone().into_offset_iter().collect())?;
            if o != off {
                return err("clone gives other offsets".into());
            }
        } else {
            let o: Vec<_> = guard(|| p.clone().into_offset_iter().collect())?;
            if o != off[n..] {
                return err(format!("offsets after {n} events differ"));
            }
        }
        if n < 2 || n == all.len() / 2 || n + 1 >= all.len() {
            guard(|| consumed(|| p.clone(), rest))??;
            guard(|| consumed(|| p.clone().into_offset_iter(), &off[n..]))??;
        }
        let next = guard(|| p.next())?;
        if next.as_ref() != all.get(n) {
            return err(format!("event {n} differs after it was cloned"));
        }
    }
    Ok(obs(all.iter()))
}

pub const DOCS: [&str; 8] = [
    "[a]: u\n\n[a][] [b][] `x",
    "# b\n\n[a][]\n\n{.c}\n",
    "x[^a] *y\n\n[^a]: z\n",
    "- a\n\n- b\n",
    "| a |\n|-:|\n| b |\n",
    "a{.b} [c]{",
    "```\na",
    "# b\n\n# b\n\n\"x",
];

/// All interleavings of parsers and a renderer of different documents, by the same thread.
pub fn interleave(c: &mut Choices, thorough: bool) -> V {
    let a = *c.of(&DOCS);
    let b = *c.of(&DOCS);
    let want_a = imp_plain(a)?;
    let want_b = imp_plain(b)?;
    let mut pa = guard(|| Parser::new(a))?;
    let mut pb: Option<Parser> = None;
    let mut ga = Vec::new();
    let mut gb = Vec::new();
    let mut ra = (make(0), String::new());
    let mut rb = (make(0), String::new());
    // context switches are what is bounded
    let mut left = if thorough { 5 } else { 3 };
    let mut on_a = true;
    loop {
        if left > 0 && c.flag() {
            on_a = !on_a;
            left -= 1;
        }
        let done = if on_a {
            match guard(|| pa.next())? {
                Some(e) => {
                    ga.push(e.clone());
                    guard(|| ra.0.push_event(e, &mut ra.1))?.map_err(|_| "failed".to_string())?;
                    false
                }
                None => true,
            }
        } else {
            let p = match &mut pb {
                Some(p) => p,
                None => pb.insert(guard(|| Parser::new(b))?),
            };
            match guard(|| p.next())? {
                Some(e) => {
                    gb.push(e.clone());
                    guard(|| rb.0.push_event(e, &mut rb.1))?.map_err(|_| "failed".to_string())?;
                    false
                }
                None => true,
            }
        };
        if done {
            if left == 0 {
                break;
            }
            left -= 1;
            on_a = !on_a;
        }
    }
    if !want_a.starts_with(&ga) || !want_b.starts_with(&gb) {
        return Err(format!("parsers of {a:?} and {b:?} influence each other").into());
    }
    for (g, w, r) in [(&ga, &want_a, &ra.1), (&gb, &want_b, &rb.1)] {
        if g.len() == w.len() && *r != full(w, 0)? {
            return Err(format!("renderers of {a:?} and {b:?} influence each other").into());
        }
    }
    Ok(obs(ga.iter().chain(gb.iter())))
}

/// Documents that define the same names in other ways, or use what others define.
const SAME_NAMES: [&str; 13] = [
    "[a]: u\n\n[a][] [b][] `x",
    "[a]: v\n\n[a][] [b][] `x",
    "{.c}\n[a]: u\n\n[a][]\n[b][]",
    "# a\n\n# b\n\n[a][] [b][]\n",
    "# b\n\n# d\n\n[a][] [b][]\n",
    "{#c}\n# a\n\n# a\n\n[a][]\n",
    "# a\n\n{#c}\n# a\n\n[b][]\n",
    "x[^a] *y\n\n[^a]: z\n[^b]",
    "x[^b] *y\n\n[^b]: z\n[^a]",
    "{k=\"a\\\"b\" .c}\nd{k=e .f}\n",
    "{k=\"a\\!bc\" .d}\ne{k=f #g}\n",
    "1. a\n\n2. b\n> c\n|d|\n|-|",
    "2) a\n3) b\n\n> c\n|d|\n|:|",
];

/// Sequences of documents that are written to the same place in memory, and rendered.
pub fn same_buffer(c: &mut Choices, thorough: bool) -> V {
    let mut buffer = String::with_capacity(64);
    let mut last = obs([].iter());
    let n = if thorough { 4 } else { 3 };
    let place = buffer.as_ptr();
    let size = SAME_NAMES.iter().map(|d| d.len()).max().unwrap_or(0);
    for i in 0..n {
        let d = *c.of(&SAME_NAMES);
        buffer.clear();
        buffer.push_str(d);
        while buffer.len() < size {
            buffer.push('\n');
        }
        if buffer.as_ptr() != place {
            return Err("buffer has moved".to_string().into());
        }
        let evs = match c.choose(2) {
            0 => imp_plain(&buffer)?,
            _ => imp(&buffer)?.into_iter().map(|e| e.0).collect(),
        };
        let html = crate::html::imp_render(&evs, Renderer::default())?;
        // elsewhere, where nothing has been
        let other = format!("{}{buffer}", " \n".repeat(i + 1));
        let other = &other[2 * (i + 1)..];
        let want: Vec<E> = crate::model::events(other)
            .into_iter()
            .map(|e| e.0)
            .collect();
        let doc = crate::model::Doc::new(other);
        if evs != want && !doc.quirk_applies && doc.ambiguous().is_empty() {
            return Err(format!("events of {d:?}, parsed as document {i}, differ").into());
        }
        if html != crate::html::layout(&crate::html::render(&evs), Some(("", 0))) {
            return Err(format!("{d:?}, rendered as document {i}, differs").into());
        }
        last = obs(evs.iter());
    }
    Ok(last)
}

/// Parsing a document is not influenced by what was parsed before, by any thread.
pub fn history(c: &mut Choices, thorough: bool) -> V {
    let n = if thorough { 4 } else { 3 };
    let mut last = obs([].iter());
    for i in 0..n {
        let d = *c.of(&DOCS);
        let how = c.choose(4);
        let evs = match how {
            0 => imp_plain(d)?,
            1 => imp(d)?.into_iter().map(|e| e.0).collect(),
            2 => {
                // partly, then dropped
                guard(|| Parser::new(d).take(3).count())?;
                imp_plain(d)?
            }
            _ => {
                let h = std::thread::spawn(move || {
                    guard(|| Parser::new(d).map(|e| format!("{e:?}")).collect::<Vec<_>>())
                });
                let s = h.join().map_err(|_| "thread failed".to_string())??;
                let evs = imp_plain(d)?;
                if strings(&evs) != s {
                    return Err(format!("events of {d:?} differ in another thread").into());
                }
                evs
            }
        };
        let want: Vec<E> = crate::model::events(d).into_iter().map(|e| e.0).collect();
        let quirk = crate::model::Doc::new(d).quirk_applies;
        if evs != want && !quirk && crate::model::Doc::new(d).ambiguous().is_empty() {
            return Err(format!("events of {d:?}, parsed as document {i}, differ").into());
        }
        last = obs(evs.iter());
    }
    Ok(last)
}
