//! Properties of attribute sets on their own (C20, C21).

use crate::conform::*;
use crate::engine::{guard, Choices, Obs, Stop, V};
use crate::model::attr::{self, Elem, Kind};
use jotdown::{AttributeKind, AttributeValue, Attributes, ParseAttributesError};

fn show(a: &Attributes) -> String {
    a.iter().map(|(k, v)| format!("{k:?}={v:?};")).collect()
}

/// C20
pub fn grammar(s: &str) -> V {
    let got = guard(|| Attributes::try_from(s))?;
    let want = attr::whole(s);
    let trivial = want.is_err();
    match (&got, &want) {
        (Ok(a), Ok(e)) => {
            let e = attr::to_jot(e);
            if *a != e {
                return Err(format!("elements {} should be {}", show(a), show(&e)).into());
            }
            Ok(obs_text(&show(a), trivial))
        }
        (Err(ParseAttributesError { pos }), Err(p)) => {
            if pos != p {
                return Err(format!("error at {pos} should be at {p}").into());
            }
            Ok(Obs {
                hash: *pos as u64,
                trivial,
            })
        }
        _ => Err(format!("result {got:?} should be {want:?}").into()),
    }
}

fn queries(a: &Attributes, e: &[Elem]) -> V {
    let pairs: Vec<(String, AttributeValue)> = guard(|| {
        a.unique_pairs()
            .map(|(k, v)| (k.to_string(), v.clone()))
            .collect()
    })?;
    let want = attr::unique(e);
    let p: Vec<(String, String)> = pairs
        .iter()
        .map(|(k, v)| (k.clone(), v.to_string()))
        .collect();
    let w: Vec<(String, String)> = want
        .iter()
        .map(|(k, v)| (k.clone(), attr::display(v)))
        .collect();
    if p != w {
        return Err(format!("unique pairs {p:?} should be {w:?}").into());
    }
    for (k, v) in &pairs {
        let concat: String = guard(|| v.parts().map(str::to_string).collect())?;
        if concat != v.to_string() {
            return Err(
                format!("parts of {k} are {concat:?}, displayed {:?}", v.to_string()).into(),
            );
        }
    }
    let mut keys: Vec<String> = e
        .iter()
        .filter_map(|(k, _)| attr::key(k).map(String::from))
        .collect();
    keys.extend(["class", "id", "k", "none", "", "%", "K", "clas", "classs"].map(String::from));
    for k in keys {
        let has = guard(|| a.contains_key(&k))?;
        let val = guard(|| a.get_value(&k).map(|v| v.to_string()))?;
        let listed = p.iter().find(|(x, _)| *x == k).map(|x| x.1.clone());
        let want = attr::lookup(e, &k).map(|v| attr::display(&v));
        if has != want.is_some() || val != want || listed != want {
            return Err(format!(
                "{k:?}: present {has}, looked up {val:?}, listed {listed:?}, should be {want:?}"
            )
            .into());
        }
    }
    let shown: Vec<(Option<String>, String)> = a
        .iter()
        .map(|(k, v)| (k.key().map(String::from), v.to_string()))
        .collect();
    let want: Vec<(Option<String>, String)> = e
        .iter()
        .map(|(k, v)| (attr::key(k).map(String::from), attr::display(v)))
        .collect();
    if shown != want {
        return Err(format!("elements {shown:?} should be {want:?}").into());
    }
    guard(|| {
        let pairs: Vec<_> = a.unique_pairs().collect();
        crate::conform::consumed(|| a.unique_pairs(), &pairs)?;
        for (_, v) in a.iter() {
            let parts: Vec<_> = v.parts().collect();
            crate::conform::consumed(|| v.parts(), &parts)?;
        }
        Ok::<(), String>(())
    })??;
    Ok(obs_text(&show(a), e.is_empty()))
}

/// C21, of a parsed set.
pub fn parsed(s: &str) -> V {
    let Ok(e) = attr::whole(s) else {
        return Err(Stop::Skip);
    };
    let Ok(a) = guard(|| Attributes::try_from(s))? else {
        return Err(Stop::Skip);
    };
    if a != attr::to_jot(&e) {
        return Err(Stop::Skip); // not about queries
    }
    // the ways to make and take apart a set agree
    let v: Vec<_> = a.clone().into();
    let b: Attributes = v.clone().into();
    let c: Attributes = v.into_iter().collect();
    if b != a || c != a || a.len() != e.len() || (&a).into_iter().count() != e.len() {
        return Err("conversions do not preserve the elements"
            .to_string()
            .into());
    }
    let seen = queries(&a, &e)?;
    let debug = guard(|| format!("{a:?}"))?;
    match guard(|| Attributes::try_from(&*debug))? {
        Ok(b) if b == a => {}
        b => {
            let msg = format!("printed as {debug:?}, which parses as {b:?}");
            let odd = |v: &str| v.bytes().rev().take_while(|c| *c == b'\\').count() % 2 == 1;
            if e.iter().any(|(k, v)| matches!(k, Kind::Pair(_)) && odd(v)) {
                return Err(Stop::Known("trailing-backslash", msg));
            }
            return Err(msg.into());
        }
    }
    Ok(seen)
}

/// Display of a value.
pub fn value(s: &str) -> V {
    let want = attr::display(s);
    for v in [
        AttributeValue::from(s),
        AttributeValue::from(s.to_string()),
        AttributeValue::from(std::borrow::Cow::<str>::from(s.to_string())),
    ] {
        let got = guard(|| v.to_string())?;
        let parts: String = guard(|| v.parts().map(str::to_string).collect())?;
        if got != want || parts != want {
            return Err(format!("{s:?} is displayed as {got:?} ({parts:?}), not {want:?}").into());
        }
    }
    Ok(obs_text(&want, want == s))
}

/// C21, of a set that is built.
pub fn built(c: &mut Choices, thorough: bool) -> V {
    let n = c.choose(if thorough { 6 } else { 5 });
    let mut e: Vec<Elem> = Vec::new();
    for _ in 0..n {
        let k = match c.choose(6) {
            0 => Kind::Class,
            1 => Kind::Id,
            2 => Kind::Pair("k".into()),
            3 => Kind::Pair("class".into()),
            4 => Kind::Pair("id".into()),
            _ => Kind::Comment,
        };
        let v = *c.of(&["a", "", "b\\\"", "c d"]);
        e.push((k, v.to_string()));
    }
    let owned = c.flag();
    let a: Attributes = if owned {
        attr::to_jot(&e)
    } else {
        e.iter()
            .map(|(k, v)| {
                let k = match k {
                    Kind::Class => AttributeKind::Class,
                    Kind::Id => AttributeKind::Id,
                    Kind::Pair(k) => AttributeKind::Pair {
                        key: k.as_str().into(),
                    },
                    Kind::Comment => AttributeKind::Comment,
                };
                (k, AttributeValue::from(v.as_str()))
            })
            .collect()
    };
    queries(&a, &e)
}

/// C20: sets of the grammar, with an element of each kind at each position.
pub fn elements(c: &mut Choices, thorough: bool) -> V {
    let mut s = String::new();
    let sets = 1 + c.choose(2);
    for set in 0..sets {
        s.push('{');
        for _ in 0..c.choose(if set > 0 {
            2
        } else {
            4 + usize::from(thorough)
        }) {
            s.push_str(c.of(&[
                ".a",
                "#b",
                "k=v",
                "k=\"v w\"",
                "%c%",
                " ",
                "\n",
                "k=\"\\\"\\a\"",
                "k=\"a\n b\"",
                "%c",
                ".a:b-_9",
                "k",
                ".",
            ]));
            s.push_str(c.of(&["", " "]));
        }
        s.push('}');
    }
    s.push_str(c.of(&["", " ", "a"]));
    grammar(&s)
}
