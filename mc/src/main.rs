//! Bounded model checking of jotdown, see DESIGN.md.

mod attrs;
mod built;
mod checks;
mod cli;
mod conform;
mod dictionary;
mod engine;
mod html;
mod invariants;
mod meta;
mod model;
mod render;
mod sinks;

use std::path::Path;

fn tier(s: &str) -> bool {
    match s {
        "quick" => false,
        "thorough" => true,
        _ => panic!("unknown tier {s:?}"),
    }
}

/// Value of a string field of a replay.
fn field(text: &str, key: &str) -> String {
    let at = text.find(&format!("\"{key}\":")).expect("field") + key.len() + 3;
    let mut out = String::new();
    let mut cs = text[at..].chars();
    assert_eq!(cs.next(), Some('"'));
    while let Some(c) = cs.next() {
        match c {
            '"' => break,
            '\\' => match cs.next().unwrap() {
                'n' => out.push('\n'),
                'u' => {
                    let h: String = cs.by_ref().take(4).collect();
                    out.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap());
                }
                c => out.push(c),
            },
            c => out.push(c),
        }
    }
    out
}

fn replay(path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let id = field(&text, "property");
    let hex = field(&text, "case_hex");
    let bytes: Vec<u8> = (0..hex.len() / 2)
        .map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap())
        .collect();
    let case = String::from_utf8_lossy(&bytes).to_string();
    let check = checks::check(&id).expect("property of replay");
    let thorough = text.contains("\"thorough\":true");
    match engine::one(&check, &field(&text, "group"), &case, thorough) {
        None => {
            println!("{id}: holds");
            0
        }
        Some(msg) => {
            engine::report(&id, Path::new(path), &case, &msg);
            1
        }
    }
}

fn main() {
    engine::quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args[1..].iter().map(String::as_str).collect();
    let code = match a[..] {
        ["check", id, t] => {
            let c = checks::check(id).expect("unknown property");
            engine::supervise(&c, tier(t))
        }
        ["work", id, t, slots] => {
            let c = checks::check(id).expect("unknown property");
            engine::work(&c, tier(t), Path::new(slots))
        }
        ["one" | "replay", path] => replay(path),
        ["eval", id, group] => {
            // decide an input that is given on standard input
            let c = checks::check(id).expect("unknown property");
            let g = &c.groups[group.parse::<usize>().unwrap()];
            let s = std::io::read_to_string(std::io::stdin()).unwrap();
            println!("{:?}", (g.oracle)(&s));
            0
        }
        ["events", src] => {
            // events and their ranges of an input with escapes
            let src = src
                .replace("\\n", "\n")
                .replace("\\t", "\t")
                .replace("\\r", "\r");
            let evs = conform::imp(&src);
            for (i, e) in evs.iter().flatten().enumerate() {
                println!("{i:3} {e:?}");
            }
            println!(
                "{:?}",
                jotdown::html::render_to_string(jotdown::Parser::new(&src))
            );
            if !model::events(&src).iter().eq(evs.iter().flatten()) {
                for (i, e) in model::events(&src).iter().enumerate() {
                    println!("specified {i:3} {e:?}");
                }
            }
            0
        }
        ["deep", case] => i32::from(!invariants::deep(case)),
        _ => panic!("usage: mc check ID quick|thorough"),
    };
    std::process::exit(code);
}
