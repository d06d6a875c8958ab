//! Reference block parser. Builds a tree by recursive descent on lists of line ranges, without
//! looking at inline content (except for where table rows have their pipes).

use super::attr;
use super::inline::R;

use jotdown::Alignment;
use jotdown::OrderedListNumbering as Num;
use jotdown::OrderedListStyle as Style;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ItemTy {
    Bullet(u8),
    Task(u8),
    Description,
    Ordered(Num, Style, u64),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Class {
    Blank,
    Attrs,
    Thematic,
    Heading(usize),
    Quote,
    Code { ch: u8, len: usize, spec: String },
    Div { len: usize, spec: String },
    LinkDef(String),
    Foot(String),
    Item { ty: ItemTy, checked: bool },
    Table,
    Para,
}

/// What the first line of a block says about it.
#[derive(Clone, Debug)]
pub struct Mark {
    pub class: Class,
    pub indent: usize,
    /// Range of the marker, relative to start of line.
    pub mark: R,
}

fn ws(c: char) -> bool {
    c.is_ascii_whitespace()
}

fn blank(l: &str) -> bool {
    l.chars().all(ws)
}

/// End of a table row is marked by a pipe that is neither escaped nor inside verbatim.
pub fn row_pipes(t: &str) -> Option<Vec<usize>> {
    let b = t.as_bytes();
    if b.first() != Some(&b'|') {
        return None;
    }
    let mut pipes = Vec::new();
    let mut i = 1;
    while i < b.len() {
        match b[i] {
            b'\\' if b.get(i + 1).is_some_and(|c| c.is_ascii_punctuation()) => i += 2,
            b'|' => {
                pipes.push(i);
                i += 1;
            }
            b'`' => {
                let run = |i: usize| b[i..].iter().take_while(|c| **c == b'`').count();
                let n = run(i);
                let mut j = i + n;
                loop {
                    if j >= b.len() {
                        return None; // never closed
                    }
                    let m = run(j);
                    j += m.max(1);
                    if m == n {
                        break;
                    }
                }
                i = j;
            }
            _ => i += 1,
        }
    }
    (pipes.last().copied() == Some(b.len() - 1) && b.len() > 1).then_some(pipes)
}

fn ordered(t: &str) -> Option<(ItemTy, usize)> {
    let b = t.as_bytes();
    let open = usize::from(b[0] == b'(');
    let first = *b.get(open)?;
    let is_roman_l = |c: &u8| b"ivxlcdm".contains(c);
    let is_roman_u = |c: &u8| b"IVXLCDM".contains(c);
    let rest = &b[open..];
    let count = |f: &dyn Fn(&u8) -> bool| rest.iter().take_while(|c| f(c)).count();
    let (num, n, max) = if first.is_ascii_digit() {
        (Num::Decimal, count(&|c| c.is_ascii_digit()), 19)
    } else if is_roman_l(&first) {
        (Num::RomanLower, count(&is_roman_l), 13)
    } else if is_roman_u(&first) {
        (Num::RomanUpper, count(&is_roman_u), 13)
    } else if first.is_ascii_lowercase() {
        (Num::AlphaLower, 1, 1)
    } else if first.is_ascii_uppercase() {
        (Num::AlphaUpper, 1, 1)
    } else {
        return None;
    };
    if n > max {
        return None;
    }
    let digits = &rest[..n];
    let style = match (open, rest.get(n)?) {
        (1, b')') => Style::ParenParen,
        (0, b')') => Style::Paren,
        (0, b'.') => Style::Period,
        _ => return None,
    };
    if rest.get(n + 1).is_some_and(|c| !c.is_ascii_whitespace()) {
        return None;
    }
    let value = match num {
        Num::Decimal => digits
            .iter()
            .fold(0u64, |a, c| a * 10 + u64::from(c - b'0')),
        Num::AlphaLower => u64::from(digits[0] - b'a') + 1,
        Num::AlphaUpper => u64::from(digits[0] - b'A') + 1,
        _ => {
            let v = |c: u8| match c.to_ascii_lowercase() {
                b'i' => 1i64,
                b'v' => 5,
                b'x' => 10,
                b'l' => 50,
                b'c' => 100,
                b'd' => 500,
                _ => 1000,
            };
            let mut sum = 0;
            for (i, c) in digits.iter().enumerate() {
                if digits.get(i + 1).is_some_and(|n| v(*n) > v(*c)) {
                    sum -= v(*c);
                } else {
                    sum += v(*c);
                }
            }
            sum as u64
        }
    };
    Some((ItemTy::Ordered(num, style, value), open + n + 1))
}

pub fn classify(l: &str) -> Mark {
    let t = l.trim_start_matches(|c| ws(c) && c != '\n');
    let indent = l.len() - t.len();
    let tt = t.trim_end_matches(ws);
    let mk = |class, s, e| Mark {
        class,
        indent,
        mark: (s, e),
    };
    let para = mk(Class::Para, indent, indent);
    let b = t.as_bytes();
    if b.is_empty() || b[0] == b'\n' {
        return mk(Class::Blank, indent, indent + b.len().min(1));
    }
    let ws_or_end = |i: usize| b.get(i).is_none_or(u8::is_ascii_whitespace);
    match b[0] {
        b'#' => {
            let n = b.iter().take_while(|c| **c == b'#').count();
            if ws_or_end(n) {
                return mk(Class::Heading(n), indent, indent + n);
            }
        }
        b'>' => {
            if ws_or_end(1) {
                return mk(Class::Quote, indent, indent + 1);
            }
        }
        b'{' => {
            if let attr::Set::Done(e, _) = attr::set(b, 0) {
                if e == tt.len() {
                    return mk(Class::Attrs, indent, indent + t.len());
                }
            }
        }
        b'|' => {
            if row_pipes(tt).is_some() {
                return mk(Class::Table, indent, indent);
            }
        }
        b'[' => {
            if let Some(e) = t.find(']') {
                if t[e + 1..].starts_with(':') {
                    let label = &t[1..e];
                    let class = match label.strip_prefix('^') {
                        Some(l) => Class::Foot(l.to_string()),
                        None => Class::LinkDef(label.to_string()),
                    };
                    return mk(class, indent, indent + e + 2);
                }
            }
        }
        b'-' | b'*' | b'+' | b':' => {
            let dashes = b.iter().filter(|c| **c == b'-' || **c == b'*').count();
            let rest_ws = b
                .iter()
                .all(|c| *c == b'-' || *c == b'*' || c.is_ascii_whitespace());
            if matches!(b[0], b'-' | b'*') && rest_ws && dashes >= 3 {
                return mk(Class::Thematic, indent, indent + tt.len());
            }
            if b[0] == b':' && ws_or_end(1) {
                let ty = ItemTy::Description;
                return mk(Class::Item { ty, checked: false }, indent, indent + 1);
            }
            if b[0] != b':' && b.get(1).is_none_or(|c| *c == b' ') {
                if b.len() >= 5
                    && b[2] == b'['
                    && matches!(b[3], b' ' | b'x' | b'X')
                    && b[4] == b']'
                    && ws_or_end(5)
                {
                    let ty = ItemTy::Task(b[0]);
                    let checked = b[3] != b' ';
                    return mk(Class::Item { ty, checked }, indent, indent + 5);
                }
                let ty = ItemTy::Bullet(b[0]);
                return mk(Class::Item { ty, checked: false }, indent, indent + 1);
            }
        }
        _ => {}
    }
    if matches!(b[0], b':' | b'`' | b'~') {
        let len = b.iter().take_while(|c| **c == b[0]).count();
        let spec = tt[len..].trim_start_matches(ws);
        if len >= 3 {
            if b[0] == b':' {
                if spec.bytes().all(attr::is_name) {
                    let spec = spec.to_string();
                    return mk(Class::Div { len, spec }, indent, l.len());
                }
            } else if !spec.contains(ws) && !spec.contains('`') {
                let spec = spec.to_string();
                return mk(
                    Class::Code {
                        ch: b[0],
                        len,
                        spec,
                    },
                    indent,
                    l.len(),
                );
            }
        }
        return para;
    }
    if let Some((ty, n)) = ordered(t) {
        return mk(Class::Item { ty, checked: false }, indent, indent + n);
    }
    para
}

#[derive(Clone, Debug)]
pub struct Block {
    pub class: Class,
    pub open: R,
    pub close: R,
    /// Text of leaf.
    pub lines: Vec<R>,
    pub kids: Vec<Block>,
    pub rows: Vec<Row>,
    pub caption: Option<Vec<R>>,
    /// Start of content following the marker.
    pub inner: usize,
}

#[derive(Clone, Debug)]
pub struct Row {
    pub open: R,
    pub end: usize,
    pub head: bool,
    /// Start, content, closing pipe, alignment.
    pub cells: Vec<(usize, R, R, Alignment)>,
}

/// Number of lines that the first block covers.
fn extent(src: &str, lines: &[R], m: &Mark) -> (usize, bool) {
    let line = |i: usize| &src[lines[i].0..lines[i].1];
    let class = |i: usize| classify(line(i)).class;
    let n = lines.len();
    let mut i = 1;
    match &m.class {
        Class::Blank | Class::Attrs | Class::Thematic => {}
        Class::Para => {
            while i < n && !blank(line(i)) {
                i += 1;
            }
        }
        Class::Heading(l) => {
            while i < n && matches!(class(i), Class::Para)
                || i < n && class(i) == Class::Heading(*l)
            {
                i += 1;
            }
        }
        Class::Quote => {
            while i < n && matches!(class(i), Class::Para | Class::Quote) {
                i += 1;
            }
        }
        Class::LinkDef(_) => {
            while i < n && line(i).starts_with(' ') && !blank(line(i)) {
                i += 1;
            }
        }
        Class::Item { .. } | Class::Foot(_) => {
            // everything that is indented more, or lazy
            let mut lazy = true;
            while i < n {
                let c = class(i);
                if c == Class::Blank {
                    lazy = false;
                } else {
                    let w = line(i).len() - line(i).trim_start_matches(ws).len();
                    if !(w > m.indent || lazy && c == Class::Para) {
                        break;
                    }
                    lazy = true;
                }
                i += 1;
            }
        }
        Class::Code { ch, len, .. } => {
            while i < n {
                if let Class::Code {
                    ch: c,
                    len: l,
                    spec,
                } = class(i)
                {
                    if c == *ch && l >= *len && spec.is_empty() {
                        return (i + 1, true);
                    }
                }
                i += 1;
            }
        }
        Class::Div { len, .. } => {
            let mut code: Option<(u8, usize)> = None;
            while i < n {
                match (class(i), code) {
                    (Class::Code { ch, len, spec }, Some((c, l))) => {
                        if ch == c && len >= l && spec.is_empty() {
                            code = None;
                        }
                    }
                    (Class::Code { ch, len, .. }, None) => code = Some((ch, len)),
                    (Class::Div { len: l, spec }, None) => {
                        if l >= *len && spec.is_empty() {
                            return (i + 1, true);
                        }
                    }
                    _ => {}
                }
                i += 1;
            }
        }
        Class::Table => {
            while i < n && row_pipes(line(i).trim_matches(ws)).is_some() {
                i += 1;
            }
            let mut j = i;
            while j < n && blank(line(j)) {
                j += 1;
            }
            if j < n && line(j).trim_matches(ws).starts_with("^ ") {
                while j < n && !blank(line(j)) {
                    j += 1;
                }
                return (j, true);
            }
        }
    }
    (i, false)
}

fn trim_start(src: &str, r: R) -> R {
    let s = &src[r.0..r.1];
    (r.1 - s.trim_start_matches(ws).len(), r.1)
}

fn trim_end(src: &str, r: R) -> R {
    let s = &src[r.0..r.1];
    (r.0, r.0 + s.trim_end_matches(ws).len())
}

/// Trim all lines of a leaf, white space is only kept before line breaks.
fn leaf_lines(src: &str, lines: &[R]) -> Vec<R> {
    let mut out: Vec<R> = lines
        .iter()
        .map(|l| trim_start(src, *l))
        .filter(|l| l.0 < l.1)
        .collect();
    if let Some(l) = out.last_mut() {
        *l = trim_end(src, *l);
    }
    out
}

pub fn lines(src: &str) -> Vec<R> {
    let mut out = Vec::new();
    let mut s = 0;
    for l in src.split_inclusive('\n') {
        out.push((s, s + l.len()));
        s += l.len();
    }
    out
}

/// Remove up to `max` bytes of leading white space.
fn dedent(src: &str, r: R, max: usize) -> R {
    let n = src[r.0..r.1]
        .bytes()
        .take_while(|c| c.is_ascii_whitespace() && *c != b'\n')
        .count();
    (r.0 + n.min(max), r.1)
}

pub fn blocks(src: &str, ls: &[R]) -> Vec<Block> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < ls.len() {
        let m = classify(&src[ls[i].0..ls[i].1]);
        let (n, closed) = extent(src, &ls[i..], &m);
        out.push(block(src, &ls[i..i + n], m, closed));
        i += n;
    }
    out
}

fn block(src: &str, ls: &[R], m: Mark, closed: bool) -> Block {
    let open = (ls[0].0 + m.mark.0, ls[0].0 + m.mark.1);
    let last = ls[ls.len() - 1];
    let mut b = Block {
        class: m.class.clone(),
        open,
        close: (last.1, last.1),
        lines: Vec::new(),
        kids: Vec::new(),
        rows: Vec::new(),
        caption: None,
        inner: open.1,
    };
    match &m.class {
        Class::Blank | Class::Attrs | Class::Thematic => {}
        Class::Para => b.lines = leaf_lines(src, ls),
        Class::Heading(_) => {
            let mut l = vec![(open.1, ls[0].1)];
            for r in &ls[1..] {
                let r = trim_start(src, *r);
                let s = &src[r.0..r.1];
                let t = s.trim_start_matches('#');
                // marker may be repeated
                if t.is_empty() || t.starts_with(ws) {
                    l.push((r.1 - t.len(), r.1));
                } else {
                    l.push(r);
                }
            }
            b.lines = leaf_lines(src, &l);
        }
        Class::LinkDef(_) => {
            let mut l = vec![(open.1, ls[0].1)];
            l.extend(&ls[1..]);
            b.lines = leaf_lines(src, &l)
                .into_iter()
                .map(|r| trim_end(src, r))
                .collect();
        }
        Class::Code { spec, .. } => {
            if closed {
                b.close = last;
            }
            b.lines = ls[1..ls.len() - usize::from(closed)]
                .iter()
                .map(|r| dedent(src, *r, m.indent))
                .collect();
            if spec.starts_with('=') {
                if let Some(l) = b.lines.last_mut() {
                    *l = trim_end(src, *l);
                }
            }
            b.lines.retain(|r| r.0 < r.1);
        }
        Class::Div { .. } => {
            if closed {
                b.close = last;
            }
            let l: Vec<R> = ls[1..ls.len() - usize::from(closed)]
                .iter()
                .map(|r| dedent(src, *r, m.indent))
                .collect();
            b.kids = blocks(src, &l);
        }
        Class::Quote => {
            let l: Vec<R> = ls
                .iter()
                .map(|r| {
                    let t = trim_start(src, *r);
                    let s = &src[t.0..t.1];
                    match s.strip_prefix('>') {
                        Some(s) if s.starts_with([' ', '\t']) => (t.0 + 2, t.1),
                        Some(s) if s.is_empty() || s.starts_with('\n') => (t.0 + 1, t.1),
                        // carriage return or form feed
                        Some(s) if s.starts_with(ws) => {
                            let first = r.0 == ls[0].0;
                            (t.0 + if first { 1 } else { 2 }, t.1)
                        }
                        _ => *r,
                    }
                })
                .collect();
            b.kids = blocks(src, &l);
        }
        Class::Item { .. } | Class::Foot(_) => {
            let mut l = vec![(open.1, ls[0].1)];
            l.extend(ls[1..].iter().map(|r| dedent(src, *r, m.mark.1)));
            b.kids = blocks(src, &l);
        }
        Class::Table => {
            table(src, ls, &mut b, closed);
        }
    }
    b
}

fn table(src: &str, ls: &[R], b: &mut Block, caption: bool) {
    b.open = (b.open.0, b.open.0);
    let mut aligns: Vec<Alignment> = Vec::new();
    for (i, r) in ls.iter().enumerate() {
        let t = trim_end(src, trim_start(src, *r));
        let s = &src[t.0..t.1];
        if s.is_empty() {
            continue;
        }
        if s.starts_with("^ ") && caption {
            let mut c = vec![(t.0 + 2, r.1)];
            c.extend(&ls[i + 1..]);
            b.caption = Some(leaf_lines(src, &c));
            return;
        }
        let pipes = row_pipes(s).expect("row");
        let mut cells = Vec::new();
        let mut start = t.0 + 1;
        for p in &pipes {
            let p = t.0 + p;
            let mut c = trim_end(src, (start, p));
            c = trim_start(src, c);
            cells.push((start, c, (p, p + 1)));
            start = p + 1;
        }
        let sep: Option<Vec<Alignment>> = cells
            .iter()
            .map(|(_, c, _)| {
                let c = &src[c.0..c.1];
                let l = c.starts_with(':');
                let r = c.len() > 1 && c.ends_with(':');
                let d = &c[usize::from(l)..c.len() - usize::from(r)];
                (!d.is_empty() && d.bytes().all(|c| c == b'-')).then_some(match (l, r) {
                    (false, false) => Alignment::Unspecified,
                    (true, false) => Alignment::Left,
                    (false, true) => Alignment::Right,
                    (true, true) => Alignment::Center,
                })
            })
            .collect();
        let align = |a: &[Alignment], i: usize| a.get(i).copied().unwrap_or(Alignment::Unspecified);
        if let Some(sep) = sep {
            aligns = sep;
            if let Some(row) = b.rows.last_mut() {
                row.head = true;
                for (i, c) in row.cells.iter_mut().enumerate() {
                    c.3 = align(&aligns, i);
                }
            }
        } else {
            b.rows.push(Row {
                open: (t.0, t.0 + 1),
                end: t.1,
                head: false,
                cells: cells
                    .into_iter()
                    .enumerate()
                    .map(|(i, (s, c, p))| (s, c, p, align(&aligns, i)))
                    .collect(),
            });
        }
    }
}

#[derive(Clone, Debug)]
pub enum Node {
    Block(Block, Vec<Node>),
    List {
        ty: ItemTy,
        start: usize,
        items: Vec<(Block, Vec<Node>)>,
        tight: bool,
        /// Tightness as reported by the implementation for a list that is only loosened by the
        /// last block before its end.
        tight_quirk: bool,
    },
}

fn ambiguity(n: Num, v: u64) -> Option<(Num, u64)> {
    let alpha = match n {
        Num::RomanLower => Num::AlphaLower,
        Num::RomanUpper => Num::AlphaUpper,
        _ => return None,
    };
    let c = match v {
        1 => b'i',
        5 => b'v',
        10 => b'x',
        50 => b'l',
        100 => b'c',
        500 => b'd',
        1000 => b'm',
        _ => return None,
    };
    Some((alpha, u64::from(c - b'a') + 1))
}

/// If an item continues a list, return the types the previous and the new item then have.
fn continues(prev: ItemTy, new: ItemTy) -> Option<(ItemTy, ItemTy)> {
    let (ItemTy::Ordered(n0, s0, v0), ItemTy::Ordered(n1, s1, v1)) = (prev, new) else {
        return (prev == new).then_some((prev, new));
    };
    if s0 != s1 {
        return None;
    }
    if n0 == n1 {
        return Some((prev, new));
    }
    if let Some((n, v)) = ambiguity(n0, v0) {
        return (n == n1 && v + 1 == v1).then_some((ItemTy::Ordered(n, s0, v), new));
    }
    if let Some((n, v)) = ambiguity(n1, v1) {
        return (n == n0 && v0 + 1 == v).then_some((prev, ItemTy::Ordered(n, s1, v)));
    }
    None
}

pub fn group(blocks: Vec<Block>) -> Vec<Node> {
    let mut out: Vec<Node> = Vec::new();
    let mut prev: Option<ItemTy> = None;
    for mut b in blocks {
        let kids = group(std::mem::take(&mut b.kids));
        let Class::Item { ty: new, .. } = b.class else {
            prev = None;
            out.push(Node::Block(b, kids));
            continue;
        };
        if let (Some(p), Some(Node::List { ty, items, .. })) = (prev, out.last_mut()) {
            if let Some((p2, n2)) = continues(p, new) {
                if *ty == p {
                    *ty = p2;
                }
                prev = Some(n2);
                items.push((b, kids));
                continue;
            }
        }
        prev = Some(new);
        out.push(Node::List {
            ty: new,
            start: b.open.0,
            items: vec![(b, kids)],
            tight: true,
            tight_quirk: true,
        });
    }
    out
}

/// Lists that have blank lines between their blocks are loose.
pub fn tightness(nodes: &mut [Node]) {
    // flatten: visit blocks in document order
    struct St {
        blank: bool,
        /// List that was loosened by the directly preceding block.
        by_prev: bool,
        open: Vec<(bool, bool)>, // tight, tight_quirk
    }
    fn loosen(st: &mut St) {
        if let Some(l) = st.open.last_mut() {
            l.0 = false;
            if l.1 {
                l.1 = false;
                st.by_prev = true;
            }
        }
    }
    fn non_blank(st: &mut St, may_loosen: bool) {
        st.by_prev = false;
        if st.blank && may_loosen {
            loosen(st);
        }
        st.blank = false;
    }
    fn close(st: &mut St, n: &mut Node) {
        let (t, mut q) = st.open.pop().unwrap();
        if st.by_prev {
            q = true;
        }
        if let Node::List {
            tight, tight_quirk, ..
        } = n
        {
            *tight = t;
            *tight_quirk = q;
        }
    }
    fn walk(st: &mut St, nodes: &mut [Node], top: bool) {
        for i in 0..nodes.len() {
            let (before, rest) = nodes.split_at_mut(i);
            if let Some(n @ Node::List { .. }) = before.last_mut() {
                close(st, n);
            }
            match &mut rest[0] {
                Node::Block(b, kids) => {
                    if b.class == Class::Blank {
                        st.blank = true;
                    } else {
                        non_blank(st, true);
                    }
                    walk(st, kids, false);
                }
                Node::List { items, .. } => {
                    for (j, (_, kids)) in items.iter_mut().enumerate() {
                        non_blank(st, j > 0);
                        if j == 0 {
                            st.open.push((true, true));
                        }
                        walk(st, kids, false);
                    }
                }
            }
        }
        if let Some(n @ Node::List { .. }) = nodes.last_mut() {
            if !top {
                st.blank = false;
                st.by_prev = false;
            }
            close(st, n);
        }
    }
    walk(
        &mut St {
            blank: false,
            by_prev: false,
            open: Vec::new(),
        },
        nodes,
        true,
    );
}

pub fn tree(src: &str) -> Vec<Node> {
    let mut t = group(blocks(src, &lines(src)));
    tightness(&mut t);
    t
}
