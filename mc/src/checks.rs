//! The spaces that are explored for each property.

use crate::attrs;
use crate::built;
use crate::cli;
use crate::conform::*;
use crate::dictionary;
use crate::engine::*;
use crate::invariants as inv;
use crate::meta;
use crate::render;
use crate::sinks;

/// All characters of one byte, and others.
fn every() -> Vec<String> {
    let mut v: Vec<String> = (b' '..=b'~').map(|b| char::from(b).to_string()).collect();
    v.extend(
        [
            "\n",
            "\t",
            "\u{e9}",
            "\r",
            "\0",
            "\x0c",
            "\x0b",
            "\x7f",
            "\u{a0}",
            "\u{2003}",
            "\u{201c}",
            "\u{661}",
            "\u{1f600}",
        ]
        .map(String::from),
    );
    v.sort_by_key(|s| !s.starts_with(['a', ' ', '\n']));
    v
}

/// Every character in a context.
fn around(pre: &str, post: &str, weight: f64, o: Oracle) -> Group {
    // the weights are for an alphabet of 100
    let every = every();
    let k = (every.len() as f64 / 100.0).powi(3);
    let mut g = group(pre, post, every, weight * k, o);
    g.name = format!("{pre:?} .. {post:?}: all ASCII and some others");
    g
}

/// Each construct on its own line, to combine blocks.
fn lines(toks: &str, weight: f64, o: Oracle) -> Group {
    let toks = toks
        .split_whitespace()
        .map(|t| match t {
            "NL" => "\n".to_string(),
            t => format!("{}\n", tok(t)),
        })
        .collect();
    group("", "", toks, weight, o)
}

// ---- general spaces: all constructs, not specific to a property ----

const BLOCK: [&str; 25] = [
    "a NL SP - > #",
    "a NL <SP><SP> -<SP> 1.<SP> :<SP> >",
    "a NL ``` ~~~~ SP > ::: -",
    "NL a ``` <SP><SP> -<SP>",
    "PIPE a NL - : SP ^<SP> \\",
    "PIPEaPIPE PIPE-PIPE NL ^<SP>a SP > PIPE `",
    "{.a} {#b} { } NL a SP #<SP>",
    "{.a} NL -<SP>a >a #<SP>a PIPEaPIPE ``` ::: [a]: [^a]: SP",
    "[^a]: [a]: SP NL a [a][] [^a] {.c}",
    "#<SP> ##<SP> a NL - {#a} >",
    "-<SP>a +<SP>b *<SP>c NL <SP> >",
    "i. v. a. (1) 1) NL SP a",
    "-<SP> [ ] x NL a SP",
    ":<SP>a NL <SP><SP>b : a",
    "*<SP> - _ NL SP *",
    "{ } . a NL SP \" =",
    "::: :::: a NL SP > ```",
    "=<SP> ``` =a NL a {.b}",
    "> SP NL a TAB - CR",
    "a TAB CR FF NL SP > -",
    "\u{a0} a NL SP -<SP> >",
    "\u{2003} \u{a0} # a NL PIPE :",
    "> TAB ``` a NL SP -<SP>",
    "TAB SP -<SP>a [^a]: NL a :<SP>a",
    "-<TAB> 1.<TAB> #<TAB> :<TAB> a NL TAB SP",
];

const INLINE: [&str; 25] = [
    "a SP * _ ` NL \\",
    "a [ ] ( ) ! ^ {.a}",
    "{ } * _ a SP = - +",
    "' \" a SP . - { }",
    "$ ` {=a} a SP NL",
    "< > : a @ SP +",
    "\u{e9} a * SP NL _ ` \"",
    "[ ] a NL SP ( ) {.b}",
    "{ } . # a = \" NL SP %",
    "* ` { } a NL",
    "* _ [ ] a (b) {.c}",
    "{* *} {_ _} * _ a SP",
    "{= =} {+ +} {- -} a SP -",
    "^ ~ {^ ^} {~ ~} a SP",
    "- . \\ a SP { }",
    "\\ NL SP a * ` TAB",
    "[^ ] [ a ^ !",
    ":a : _ + a SP -",
    "[a][ [a]( ] ) \\ a NL *",
    "a{.b} {.c} * a SP NL {",
    "\" ' \\ a SP * NL",
    "` `` a SP NL \\ *",
    "\u{a0} a {.b} SP * '",
    "\u{2003} \x0b a * \\ ` [ ]",
    "\u{201c} \u{a0} ' \" _ a -",
];

/// Spaces that have every construct.
fn general(unit: f64, o: Oracle) -> Vec<Group> {
    let mut v: Vec<Group> = Vec::new();
    for s in BLOCK.iter().chain(&INLINE) {
        v.push(sp(&s.replace("PIPE", "<PIPE>"), unit, o));
    }
    for s in BLOCK.iter().chain(&INLINE) {
        if s.contains("NL") {
            let s = s.replace("PIPE", "<PIPE>").replace("NL", "CRNL");
            v.push(sp(&s, 0.2 * unit, o));
        }
    }
    v.extend(contexts(unit, o));
    v.extend(documents(unit, o));
    v.extend(constructs(unit, o));
    v
}

const CONTEXTS: [(&str, &str); 43] = [
    ("a", "a"),
    ("*a", "*"),
    ("`a", "`"),
    ("[a", "](b)"),
    ("[a](", "b)"),
    ("[a][", "b]"),
    ("[^", "b]"),
    ("{", "b}"),
    ("a{b=", "c}"),
    ("{b=\"", "c\"}\nd"),
    ("<a", ":b>"),
    (":a", "b:"),
    ("$`", "`"),
    ("{*", "a*}"),
    ("\"", "a\""),
    ("a'", "b'"),
    ("\\", "a"),
    ("a\n", "b"),
    ("- ", "b"),
    ("-", "b\nc"),
    ("> ", "b"),
    (">", "b\nc"),
    ("# ", "b"),
    ("#", "b\nc"),
    ("1. ", "b"),
    ("1", " b"),
    ("(", ") b"),
    ("```", "b\nc\n```"),
    ("```\n", "b\n```\nc"),
    ("```\nb\n", "```\nc"),
    (":::", "b\nc\n:::"),
    ("::: b\nc\n", ":::\nd"),
    ("| a", "| b |\n"),
    ("| a | b |\n|", "-|--|\n| c | d |"),
    ("|a|\n", "^ b"),
    ("[a]", ": b\n\n[a][]"),
    ("[a]: ", "b\n\n[a][]"),
    ("[^a]", ": b\n\n[^a]"),
    (": ", "b\n\n  c"),
    ("- [", "] b"),
    ("{.a}", "b"),
    ("{.a}\n", "b"),
    ("a\n\n", "{#b}\n\nc"),
];

/// Every character, next to each construct.
fn contexts(unit: f64, o: Oracle) -> Vec<Group> {
    let mut v = vec![around("", "", 11.0 * unit, o)];
    for (pre, post) in CONTEXTS {
        v.push(around(pre, post, 0.12 * unit, o));
    }
    v
}

/// Documents of several blocks.
fn documents(unit: f64, o: Oracle) -> Vec<Group> {
    [
        "a NL -<SP>a <SP><SP>a >a #<SP>a {.b}",
        "a NL ``` <PIPE>a<PIPE> <PIPE>-<PIPE> ^<SP>c {.b} ::: -<SP>d",
        "[a]:<SP>u [a][] NL #<SP>a {#b} ><SP>[a][] <SP>v",
        "[^a]:<SP>b a[^a] NL <SP><SP>c -<SP>d [^b][^a] [^b]:<SP>[^c]",
        "*a _a `a [a {.a \"a NL a* {=a",
        "1.<SP>a i.<SP>b -<SP>c NL <SP><SP>d <SP><SP>-<SP>e :<SP>f",
        "#<SP>a ##<SP>a NL #<SP>b ###<SP><SP> >#<SP>a a -<SP>#<SP>a",
        "````` ``` ```<SP>x ~~~ NL <SP><SP>a ><SP>``` -<SP>```",
        ":::<SP>a :::: ::: NL a <SP><SP>b -<SP>::: ><SP>:::",
    ]
    .iter()
    .map(|s| lines(s, unit, o))
    .collect()
}

// ---- boundaries: sizes that are not reached by enumeration ----

const SIZES: [usize; 26] = [
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256,
    257,
];

fn rep(s: &str, n: usize) -> String {
    s.repeat(n)
}

/// Runs of each marker character.
fn runs() -> Vec<String> {
    let mut v = Vec::new();
    for c in "`*_-.#:=~>|[](){}\"'$\\!^<+%@a1 \u{e9}\n".chars() {
        let c = c.to_string();
        for n in SIZES {
            let r = rep(&c, n);
            v.push(r.clone());
            v.push(format!("a{r}b"));
            v.push(format!("{r} a"));
            v.push(format!("{r}a{r}"));
            v.push(format!("{r}a{}", rep(&c, n - 1)));
            v.push(format!("{r}a{r}{c}"));
            v.push(format!("{r}\na\n{r}\n"));
            v.push(format!("{r}\na\n{r}{c}\nb"));
            v.push(format!("{r}\na\n{}\nb", rep(&c, n - 1)));
            v.push(format!("a {r} \"b\" *c*"));
        }
    }
    v
}

/// Constructs that are long, or many of them.
fn many() -> Vec<String> {
    let mut v = Vec::new();
    for n in SIZES.into_iter().chain([100, 300, 999, 1000, 1001]) {
        let a = rep("a", n);
        for s in [
            "[L](L)",
            "[a](L)",
            "![L][b]",
            "[L]: b\n\n[L][]",
            "[a]: L\n\n[a][]",
            "[a]: b\n L\n\n[a][]",
            "<https://L>",
            "<L@b>",
            ":L:",
            "[^L]\n\n[^L]: b",
            "{.L #L L=L}\nb",
            "a{L=\"L\"}",
            "a{%L%}b",
            "*L*",
            "{=L=}",
            "`L`",
            "``L`",
            "$`L`",
            "`a`{=L}",
            "``` L\nL\n```",
            "``` =L\nL\n```",
            "::: L\nL\n:::",
            "# L",
            "# L\n\n[L][]",
            "| L | L |\n|-|-:|\n| L |",
            "- L\n- L",
            "> L",
            ": L\n\n  L",
            "L\nL\nL",
            "L L L",
            "L\\\nL",
            "\"L\" 'L'",
            "L--L...L",
            "{#L}\n# L\n\n# L",
            "|a|\n\n^ L",
            "1. L\n\n   L",
            "[L]{.L}",
            "L{.L}",
            "{L",
            "[L",
            "<L",
            "{L}",
        ] {
            v.push(s.replace('L', &a));
        }
        for (pre, unit, post) in [
            ("", "- a\n", ""),
            ("", "- a\n\n", ""),
            ("", "1. a\n", "2. b"),
            ("", "> ", "a"),
            ("", "a\n", ""),
            ("", "a\n\n", ""),
            ("", "\n", "a"),
            ("", "# a\n\n", "[a][]"),
            ("", "| a ", "|"),
            ("", "| a |\n", "^ b"),
            ("", "| a |\n|--:|\n", ""),
            ("|", "-|", "\n|a|b|c|d|e|f|g|h|i|j|k|"),
            ("", "a ", ""),
            ("", "*a* ", ""),
            ("", "*a ", "b*"),
            ("", "a* ", ""),
            ("", "{*a*}", ""),
            ("", "[", "a](b)"),
            ("", "[a](b) ", ""),
            ("[a]: b\n\n", "[a][]\n\n", ""),
            ("", "{.a}\n", "b"),
            ("a", "{.a}", "b"),
            ("{", ".a ", "}\nb"),
            ("a{", "k=v ", "}"),
            ("a{", "\n", ".b}"),
            ("{.b", "\n ", "}\nc"),
            ("", "[^a] ", "\n\n[^a]: b"),
            ("", "\"a ", "b\""),
            ("", "\\", "*"),
            ("```\n", "a\n", "```"),
            ("```\n", "\n", "a"),
            ("", ":::\n", "a"),
            ("::: a\n", "b\n\n", ":::\nc"),
            ("", ": a\n\n  b\n", ""),
            ("", "[a]: b\n", "[a][]"),
            ("[a]: b", "\n b", "\n\n[a][]"),
            ("[a]:", "\n bbbbbbbb", "\n\n[a][]"),
            ("> [a]: b", "\n>  b", "\n\n[a][]"),
            ("[a", "\nb", "](c)"),
            ("[a]: b\n\n[c][a", "\nb", "]"),
            ("{.b", "\n .b", "}\n[a]: b\n\n[a][]"),
            ("`", "a\n", "`"),
            ("[a](", "b\n", "c)"),
            ("", "<a:b>", ""),
            ("", ":a:", ""),
            ("", "$`a` ", ""),
            ("", "a\n> ", "b"),
            ("- a\n", "  b\n", "c"),
            ("- a\n\n", "  b\n\n", "c"),
            ("", "`a` ", ""),
            ("", "--", ""),
            ("", "\u{e9}", " *a*"),
            (" ", " ", "- a\n"),
            ("-", " ", "a\n  b"),
            ("- a\n", " ", "- b\n"),
            ("- a\n\n", " ", "b\n"),
            ("", " ", "```\n    a\n```"),
            ("- ", " ", "```\n    a\n```"),
            ("```\n", " ", "a\n```"),
            ("> ", " ", "a"),
            ("# a", "\n# b", "\n\n[a b b][]"),
            ("", "[^a]: b\n\n", "[^a]"),
        ] {
            v.push(format!("{pre}{}{post}", rep(unit, n)));
        }
    }
    v
}

/// Nested containers of each kind.
fn deep() -> Vec<String> {
    let mut v = Vec::new();
    for n in (1..40).chain([63, 64, 65, 100, 127, 128, 129]) {
        v.push(format!("{}a", rep("> ", n)));
        v.push(format!("{}a\nb", rep("> ", n)));
        v.push(format!("{}a", rep("- ", n)));
        v.push(format!("{}a\n\nb", rep("- ", n)));
        v.push(format!("{}a", rep("1. ", n)));
        v.push(format!("{}a", rep(": ", n)));
        v.push(format!("{}a", rep("> - ", n)));
        v.push(format!("{}a", rep("- > ", n)));
        v.push((0..n).map(|i| format!("{}- a\n\n", rep("  ", i))).collect());
        v.push(
            (0..n)
                .map(|i| format!("{}- a\n\n", rep("  ", n - i)))
                .collect(),
        );
        v.push(
            (0..n)
                .map(|i| format!("{}1. a\n\n", rep("   ", i)))
                .collect(),
        );
        v.push(
            (0..n)
                .map(|i| format!("{}\n", rep(":", n - i + 2)))
                .collect::<String>()
                + "a\n",
        );
        v.push(
            (0..n)
                .map(|i| format!("{}\n", rep(":", i + 3)))
                .collect::<String>()
                + "a\n",
        );
        v.push((1..=n).map(|i| format!("{} a\n\n", rep("#", i))).collect());
        v.push(
            (0..n)
                .map(|i| format!("{} a\n\n", rep("#", n - i)))
                .collect(),
        );
        for (o, c) in [
            ("*", "*"),
            ("_", "_"),
            ("{*", "*}"),
            ("{=", "=}"),
            ("{+", "+}"),
            ("{-", "-}"),
            ("^", "^"),
            ("~", "~"),
            ("\"", "\""),
            ("'", "'"),
            ("[", "]"),
            ("![", "](b)"),
            ("[", "](b)"),
            ("[", "][b]"),
            ("[", "]{.b}"),
            ("*_", "_*"),
            ("{*_", "_*}"),
            ("{\"", "\"}"),
            ("(", ")"),
        ] {
            v.push(format!("{}a{}", rep(o, n), rep(c, n)));
            v.push(format!("{} a{}", rep(o, n), rep(c, n)));
            v.push(format!("{}a{}", rep(o, n), rep(c, n - 1)));
            v.push(format!(
                "{}a b {}",
                rep(&format!("{o}x"), n),
                rep(&format!("y{c}"), n)
            ));
        }
    }
    v
}

/// Numbers and letters of ordered lists.
fn ordinals() -> Vec<String> {
    let mut nums: Vec<String> = (0..=30).map(|n: u32| n.to_string()).collect();
    for n in [
        "00",
        "01",
        "007",
        "99",
        "100",
        "255",
        "256",
        "999",
        "1000",
        "65535",
        "65536",
        "4294967295",
        "4294967296",
        "9223372036854775807",
        "9223372036854775808",
        "999999999999999999",
        "1000000000000000000",
        "9999999999999999999",
        "18446744073709551615",
        "18446744073709551616",
        "99999999999999999999",
        "000000000000000000001",
        "0000000000000000000",
    ] {
        nums.push(n.into());
    }
    for c in 'a'..='z' {
        nums.push(c.to_string());
        nums.push(c.to_ascii_uppercase().to_string());
        nums.push(format!("{c}{c}"));
        nums.push(format!("i{c}"));
        nums.push(format!("{c}I"));
    }
    let roman = |n: usize| {
        let mut s = String::new();
        let mut n = n;
        for (v, r) in [
            (1000, "m"),
            (900, "cm"),
            (500, "d"),
            (400, "cd"),
            (100, "c"),
            (90, "xc"),
            (50, "l"),
            (40, "xl"),
            (10, "x"),
            (9, "ix"),
            (5, "v"),
            (4, "iv"),
            (1, "i"),
        ] {
            while n >= v {
                n -= v;
                s.push_str(r);
            }
        }
        s
    };
    for n in (1..=60).chain([
        89, 90, 99, 100, 399, 400, 444, 499, 500, 888, 900, 999, 1000, 1999, 3999,
    ]) {
        let r = roman(n);
        nums.push(r.to_uppercase());
        nums.push(r);
    }
    for s in [
        "iiii", "vx", "iix", "ic", "mmmmmmmm", "vv", "xxxxx", "iIi", "lc", "dm", "ivi", "xm",
    ] {
        nums.push(s.into());
        nums.push(s.to_uppercase());
    }
    for n in 9..=17 {
        for s in ["i", "m", "x", "mdclxvi", "mmmdccclxxxviii", "ab", "1", "0"] {
            let s: String = s.chars().cycle().take(n).collect();
            nums.push(s.to_uppercase());
            nums.push(s);
        }
    }
    let mut v = Vec::new();
    for n in &nums {
        for (l, r) in [("", "."), ("", ")"), ("(", ")"), ("(", "."), ("(", "")] {
            let m = format!("{l}{n}{r}");
            v.push(format!("{m} a"));
            v.push(format!("{m}"));
            v.push(format!("{m}a"));
            for next in ["1", "2", "i", "ii", "a", "b", "j", "v", "I", "B", "w", "A"] {
                v.push(format!("{m} a\n{l}{next}{r} b"));
                v.push(format!("{l}{next}{r} b\n{m} a"));
            }
            v.push(format!("{m} a\n\n{m} b\n\n1. c"));
        }
    }
    v
}

/// Ids of headings that collide.
fn headings() -> Vec<String> {
    let mut v = Vec::new();
    for n in [2, 3, 9, 10, 11, 12, 99, 100, 101, 102] {
        v.push(rep("# a\n\n", n));
        v.push(rep("#\n\n", n));
        v.push(rep("# *\n\n", n));
        v.push(rep("## a\n\n# a\n\n", n));
        v.push(format!("# a-{n}\n\n{}", rep("# a\n\n", n + 1)));
        v.push(format!("{}# a-{n}\n\n# a\n", rep("# a\n\n", n)));
        v.push(format!("# s-{n}\n\n{}", rep("#\n\n", n + 1)));
        v.push(format!("{}[a][] [a-1][]", rep("# a\n\n", n)));
    }
    v
}

/// Orders of footnote references and definitions.
fn notes() -> Vec<String> {
    let mut v = Vec::new();
    for n in [1, 2, 3, 8, 9, 10, 11, 12, 20, 99, 100, 101] {
        let def = |i: usize| format!("[^n{i}]: d{i}\n\n");
        let refs: String = (0..n).map(|i| format!("[^n{i}] ")).collect();
        let back: String = (0..n).rev().map(|i| format!("[^n{i}] ")).collect();
        let defs: String = (0..n).map(def).collect();
        v.push(format!("{refs}\n\n{defs}"));
        v.push(format!("{back}\n\n{defs}"));
        v.push(format!("{defs}{refs}{back}"));
        v.push(format!("{refs}{refs}"));
        let chain: String = (0..n)
            .map(|i| format!("[^n{i}]: d [^n{}]\n\n", i + 1))
            .collect();
        v.push(format!("[^n0]\n\n{chain}"));
        let chain: String = (0..n)
            .rev()
            .map(|i| format!("[^n{i}]: d [^n{}] [^n0]\n\n", i + 1))
            .collect();
        v.push(format!("{chain}[^n0]"));
        let all: String = (0..n).map(|i| format!("[^n{i}]: {back}\n\n")).collect();
        v.push(format!("[^n1]\n\n{all}"));
    }
    v
}

/// Complete constructs of one or few lines.
fn block_constructs() -> Vec<String> {
    [
        "a\n",
        "\n",
        "a b\nc\n",
        "# a\n",
        "## b\n",
        "### a\nb\n",
        "> a\n",
        "> a\nb\n",
        ">\n",
        "> > a\n",
        "- a\n",
        "- b\n  c\n",
        "+ a\n",
        "- \n",
        "- [ ] a\n",
        "- [x] b\n",
        "1. a\n",
        "2. b\n",
        "i. a\n",
        "a) b\n",
        "(1) c\n",
        ": a\n",
        ":\n",
        "  a\n",
        "  - a\n",
        "   > b\n",
        "    1. c\n",
        "```\na\n```\n",
        "```\n",
        "``` =html\n<b>\n```\n",
        "~~~~ a\n",
        "::: a\n",
        ":::\n",
        "::::\n",
        "| a | b |\n",
        "|:-|-:|\n",
        "|a|\n",
        "^ a\n",
        "[a]: u\n",
        "[b]:\n  v\n",
        "[^a]: b\n",
        "[^b]: > c\n",
        "[^a][^b]\n",
        "[a][] [b][]\n",
        "{.a}\n",
        "{#b}\n",
        "{.c\n .d}\n",
        "{}\n",
        "---\n",
        "* * *\n",
        "*a\n",
        "b* `a\n",
        "a\\\n",
        "\ta\n",
        "![a](b)\n",
        "\"a\n",
        "{=a\n",
        "- # a\n",
        "> - a\n",
        "- > a\n",
        "- ```\n",
        "> ```\n",
        "- {.a}\n",
        "> {.a}\n",
        "- | a |\n",
        "- [a]: b\n",
        "a{.b}\n",
        "<b> & \"\n",
        ">\ta\n",
        ">\t```\n",
        "\t- a\n",
        "-\ta\n",
        "1.\tb\n",
        "#\ta\n",
        ":\ta\n",
        "|\ta\t|\n",
        "[a]:\tu\n",
        "[^a]:\tb\n",
    ]
    .map(String::from)
    .into()
}

/// Complete inline constructs, and their parts.
fn inline_constructs() -> Vec<String> {
    [
        "a",
        " ",
        "\n",
        "*a*",
        "_a_",
        "{*a*}",
        "{_a_}",
        "{=a=}",
        "{+a+}",
        "{-a-}",
        "^a^",
        "~a~",
        "{^a^}",
        "{~a~}",
        "\"a\"",
        "'a'",
        "`a`",
        "``a``",
        "$`a`",
        "$$`a`",
        "`a`{=html}",
        "[a](b)",
        "[a][b]",
        "[a][]",
        "![a](b)",
        "![a][b]",
        "[a]{.c}",
        "[a]",
        "<a:b>",
        "<a@b>",
        "<a:b@c>",
        ":a:",
        "[^a]",
        "{.a}",
        "{#b}",
        "{k=\"v\"}",
        "{%c%}",
        "{}",
        "\\*",
        "\\ ",
        "\\\n",
        "\\a",
        "--",
        "---",
        "...",
        "-",
        ".",
        "*",
        "_",
        "`",
        "``",
        "[",
        "]",
        "(",
        ")",
        "{",
        "}",
        "\"",
        "'",
        "!",
        "<",
        ">",
        "\\",
        "$",
        "^",
        "~",
        ":",
        "=",
        "+",
        "{*",
        "*}",
        "{=",
        "=}",
        "](b)",
        "][b]",
        "]{.c}",
        "{\"",
        "'}",
        "\u{e9}",
        "\u{a0}",
        "1",
        "&",
        "[a](#b)",
    ]
    .map(String::from)
    .into()
}

/// All short sequences of complete constructs.
fn constructs(unit: f64, o: Oracle) -> Vec<Group> {
    let mut b = group("", "", block_constructs(), 16.0 * unit, o);
    b.name = "all block constructs".into();
    let mut i = group("", "", inline_constructs(), 22.0 * unit, o);
    i.name = "all inline constructs".into();
    vec![b, i]
}

/// Pairs of constructs, repeated together.
fn pairs() -> Vec<String> {
    let mut v = repeated(&block_constructs());
    v.extend(repeated(&inline_constructs()));
    v
}

fn repeated(all: &[String]) -> Vec<String> {
    let mut v = Vec::new();
    for a in all {
        for b in all {
            for n in [2, 3, 5, 9, 17, 33] {
                v.push(rep(&format!("{a}{b}"), n));
            }
        }
    }
    v
}

/// A construct in containers.
fn nested(s: &str) -> [String; 4] {
    let with = |first: &str, next: &str| {
        let lines: Vec<&str> = s.split_inclusive('\n').collect();
        format!("{first}{}", lines.join(next))
    };
    [
        with("- ", "  "),
        with("> ", "> "),
        with("[^c]: ", " "),
        format!("::: c\n{s}:::\n"),
    ]
}

/// What may be around inline constructs.
const AROUND_INLINE: [(&str, &str); 26] = [
    ("*", "*"),
    ("_", "_"),
    ("{*", "*}"),
    ("{=", "=}"),
    ("{+", "+}"),
    ("^", "^"),
    ("\"", "\""),
    ("'", "'"),
    ("[", "](u)"),
    ("[", "][]"),
    ("[", "][r]"),
    ("[", "]{.c}"),
    ("[", "]"),
    ("![", "](u)"),
    ("![", "][]"),
    ("![", "][r]"),
    ("[a](", ")"),
    ("![a](", ")"),
    ("[a][", "]"),
    ("`", "`"),
    ("a{k=\"", "\"}"),
    ("{%", "%}"),
    ("# ", "\n\n[a][]"),
    ("| ", " | b |\n|---|\n"),
    (": ", "\n\n  b"),
    ("[r]: ", "\n\n[a][r]"),
];

/// Inline constructs in others, and next to another one inside or outside.
fn nested_inlines() -> Vec<String> {
    let mut all = inline_constructs();
    for s in [
        "`<b>`",
        "`<b>`{=html}",
        "`<\"&`{=x}",
        "$`<\"`",
        "<b>",
        "\"&",
        "a\\ b",
        "![<\"](\"&)",
        "a{k=\"<&\"}",
        "[^<]",
        "\\\"",
        "a\nb",
        "a\\\nb",
    ] {
        all.push(s.into());
    }
    let mut v = Vec::new();
    for (pre, post) in AROUND_INLINE {
        for a in &all {
            for b in [
                " <b>\"",
                "`<b>`",
                "`<b>`{=html}",
                "\n",
                "\\\n",
                "[^a]",
                "*b*",
                "*",
                "\"b\"",
                "'",
                "{.c}",
                "[b](c)",
                "![b](c)",
                ":b:",
                "a",
                "--",
                "\\ ",
            ] {
                v.push(format!("{pre}{a}{b}{post}"));
                v.push(format!("{pre}{b}{a}{post}"));
                v.push(format!("{pre}{a}{post}{b}"));
            }
            for (pre2, post2) in AROUND_INLINE {
                v.push(format!("{pre}{pre2}{a}{post2}{post}"));
                v.push(format!("{pre}{pre2}{a}{post2} a{post} <b>"));
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// All sequences of three lists items with a letter each, and of four with some of them.
fn letters() -> Vec<String> {
    let mut v = Vec::new();
    let all: Vec<String> = ('a'..='z')
        .map(String::from)
        .chain(["ii", "iv", "vi", "1", "2"].map(String::from))
        .collect();
    for a in &all {
        for b in &all {
            for c in &all {
                v.push(format!("{a}. 1\n{b}. 2\n{c}. 3"));
                v.push(format!("({a}) 1\n({b}) 2\n({c}) 3").to_uppercase());
            }
        }
    }
    let some = ["a", "b", "c", "d", "h", "i", "j", "u", "v", "w", "ii", "vi"];
    for a in some {
        for b in some {
            for c in some {
                for d in some {
                    v.push(format!("{a}) 1\n{b}) 2\n{c}) 3\n{d}) 4"));
                }
            }
        }
    }
    v
}

/// Pairs of constructs, some of which are in one or two containers, and three that are separated.
fn nested_pairs() -> Vec<String> {
    let mut v = Vec::new();
    let all = block_constructs();
    for a in &all {
        for b in &all {
            v.push(format!("{a}\n{b}\n{a}"));
            for n in nested(a) {
                v.push(format!("{n}{b}"));
                v.push(format!("{n}\n{b}"));
            }
            for n in nested(b) {
                v.push(format!("{a}{n}"));
                v.push(format!("{a}\n{n}"));
                v.push(format!("{a}\n{b}\n{n}"));
            }
            for n in nested(&format!("{a}{b}")) {
                v.push(n);
            }
            for n in nested(b) {
                v.extend(nested(&format!("{a}{n}")));
                v.extend(nested(&format!("{n}{a}")));
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Each construct after many others.
fn after_many() -> Vec<String> {
    let mut v = Vec::new();
    let units = [
        "- a\n",
        "1. a\n",
        "# a\n\n",
        "[a]: b\n\n",
        "[^a] ",
        "[^a]: b\n\n",
        "*a* ",
        "*a ",
        "[a ",
        "`a` ",
        "a ",
        "a\n",
        "\n",
        "| a ",
        "| a |\n",
        "> ",
        "> a\n\n",
        "{.a}\n",
        "\"a ",
        "{*a ",
        "a{.b} ",
        ": a\n\n",
        "::: a\n",
        "```\n```\n",
        "\u{e9}",
        "\\*",
        "[a](b) ",
        "![",
    ];
    for n in [4, 5, 8, 9, 10, 16, 17, 32, 33, 64, 65, 128, 129, 256, 257] {
        for u in units {
            let pre = rep(u, n);
            for c in block_constructs() {
                v.push(format!("{pre}{c}"));
                v.push(format!("{pre}\n\n{c}"));
            }
            for c in inline_constructs() {
                v.push(format!("{pre}{c}"));
            }
        }
    }
    v
}

/// Constructs that cross or come after positions that are special for counters.
fn far() -> Vec<String> {
    let mut v = Vec::new();
    for n in (240..258).chain([65_520, 65_533, 65_535, 65_540]) {
        for a in ["a\n\n", "a\n", "a"] {
            let pre = rep("a", n - a.len() + 1) + &a[1..];
            for c in block_constructs().iter().filter(|_| a.len() > 1) {
                v.push(format!("{pre}{c}"));
            }
            for c in inline_constructs() {
                v.push(format!("{pre}{c}"));
            }
        }
    }
    for n in [255, 256, 257, 65_535, 65_536, 65_537] {
        for u in ["\n", "a\n\n"] {
            let pre = rep(u, n);
            for s in [
                "*a*\n",
                "- a\n\n  - b\n",
                "# a\n\n## b\n\n[a][]\n",
                "[^a]\n\n[^a]: b\n",
                "> *a\n> b*\n",
                "| a |\n|--:|\n| b |\n",
                "[a]: u\n\n[a][]\n",
                "{.a}\nb{.c}\n",
                "::: a\n``` b\nc\n```\n:::\n",
                "\"a\" 'b' -- ...\n",
                ": a\n\n  b\n",
            ] {
                v.push(format!("{pre}{s}"));
            }
        }
    }
    v
}

fn large_marker() -> Vec<String> {
    let mut v: Vec<String> = [65534, 65535, 65536, 65537, 70000]
        .map(|n| format!("{} a", rep("#", n)))
        .into();
    // different elements after more than can be counted with two bytes
    for s in ["[a](b) ", "a{.b} ", "![a][b] ", "[a]{.b}"] {
        v.push(format!("{}[c](d) e{{.f}} [g][h] ![i](j)", rep(s, 65536)));
    }
    // and different blocks
    for s in [
        "a\n\n",
        "a\n",
        "- a\n",
        "1. a\n",
        ": a\n",
        "> a\n",
        "| a |\n",
        "{.a}\n",
        "```\na\n```\n",
        ":::\n:::\n",
        "***\n",
        "\n",
        "[a]: b\n",
        "[^a]: b\n\n",
        "- [ ] a\n",
        "- a\n\n> b\n\n",
        "|a|\n|-|\n\n",
    ] {
        v.push(format!(
            "{}\n{{#a .b}}\n# c\n\n3) d[^e]\n\n   | f |\n   |:-:|\n   | [g][] |\n\n[g]: h\n\n[^e]: i\n",
            rep(s, 65536)
        ));
    }
    v.push(format!(
        "|{}b|\n|{}:-|\n|{}c|\n",
        rep("a|", 65536),
        rep("-|", 65536),
        rep("d|", 65536)
    ));
    v.push(format!("```\n{}```\n# a", rep("b\n", 65537)));
    // different names
    for n in [9, 10, 11, 99, 100, 101, 255, 256, 257, 300, 1001] {
        let each = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
        let all = [
            each(&|i| format!("[^{i}] ")) + "\n\n" + &each(&|i| format!("[^{i}]: a{i}\n\n")),
            each(&|i| format!("[^{i}] ")) + "\n\n" + &each(&|i| format!("[^{}]: a\n\n", n - i)),
            each(&|i| format!("[^{i}]: [^{}]\n\n", i + 1)) + "[^0] [^1]",
            each(&|i| format!("[a{i}]: b{i}\n")) + "\n" + &each(&|i| format!("[a{i}][] ")),
            each(&|i| format!("# a{i}\n\n")) + &each(&|i| format!("[a{}][] ", n - i)),
            each(&|i| format!("{{#a{i} .b{i} c{i}=d}}\n")) + "e",
            format!(
                "[e]{{{}}}",
                each(&|i| format!(".b{i} #a{i} c{}=d{i} ", i % 7))
            ),
            each(&|i| format!("{i}. a\n")),
        ];
        v.extend(all);
    }
    for n in [7, 33, 65, 129, 257] {
        let up: String = (1..=n).map(|i| rep("#", i) + " a\n\n").collect();
        v.push(format!("{up}{} b\n\n# c\n", rep("#", n / 2)));
        let down: String = (1..=n).rev().map(|i| rep("#", i) + " a\n\n").collect();
        v.push(format!("{down}{} b\n\n# c\n", rep("#", n / 2)));
    }
    v
}

/// Literals of the source code, next to each construct and each other.
fn literals() -> Vec<String> {
    let (mut texts, numbers) = dictionary::literals();
    texts.extend(numbers.iter().map(usize::to_string));
    let texts: Vec<String> = texts
        .into_iter()
        .filter(|t| t.chars().count() > 1)
        .collect();
    let mut v = Vec::new();
    for a in &texts {
        for (pre, post) in CONTEXTS {
            v.push(format!("{pre}{a}{post}"));
            v.push(format!("{pre}{a}b{post}"));
            v.push(format!("{pre}b{a}{post}"));
        }
        for c in block_constructs().iter().chain(&inline_constructs()) {
            v.push(format!("{a}{c}"));
            v.push(format!("{c}{a}"));
        }
        for b in &texts {
            v.push(format!("{a}{b}"));
            v.push(format!("{a} {b}\n"));
        }
    }
    v
}

/// Each construct as often as numbers of the source code.
fn numbers() -> Vec<String> {
    let mut v = Vec::new();
    for n in dictionary::literals().1 {
        let sizes = [n.saturating_sub(1), n, n.saturating_add(1)];
        for n in sizes.into_iter().filter(|n| (2..=600).contains(n)) {
            for c in block_constructs().iter().chain(&inline_constructs()) {
                v.push(rep(c, n));
                v.push(format!("{}b", rep(c, n)));
            }
            for c in every() {
                v.push(rep(&c, n));
                v.push(format!("a {} b\n", rep(&c, n)));
            }
        }
        for n in sizes.into_iter().filter(|n| (601..=70_000).contains(n)) {
            for c in every() {
                v.push(format!("{} b", rep(&c, n)));
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// All texts that differ from `s` by one character that is inserted or replaced by `c`.
fn edits(s: &str, c: &str, v: &mut Vec<String>) {
    for (i, old) in s.char_indices() {
        v.push(format!("{}{c}{}", &s[..i], &s[i..]));
        v.push(format!("{}{c}{}", &s[..i], &s[i + old.len_utf8()..]));
    }
    v.push(format!("{s}{c}"));
}

/// Constructs with one character inserted or replaced by any other.
fn edited() -> Vec<String> {
    let mut v = Vec::new();
    let every = every();
    for a in block_constructs().iter().chain(&inline_constructs()) {
        for c in &every {
            edits(a, c, &mut v);
        }
    }
    v
}

/// Pairs of constructs with one character inserted or replaced by white space.
fn edited_pairs() -> Vec<String> {
    let mut v = Vec::new();
    for all in [block_constructs(), inline_constructs()] {
        for a in &all {
            for b in &all {
                for c in ["\u{a0}", "\t", " ", "\n"] {
                    edits(&format!("{a}{b}"), c, &mut v);
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Pairs of constructs with other line ends.
fn line_ends() -> Vec<String> {
    let mut v = Vec::new();
    for all in [block_constructs(), inline_constructs()] {
        for a in &all {
            for b in &all {
                let s = format!("{a}{b}");
                let breaks = s.matches('\n').count();
                v.push(s.replace('\n', "\r\n"));
                if breaks > 1 {
                    for (i, _) in s.match_indices('\n') {
                        v.push(format!("{}\r{}", &s[..i], &s[i..]));
                    }
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

fn bounds(o: Oracle) -> Vec<Group> {
    vec![
        list("runs of each marker", runs(), o),
        list("long or repeated constructs", many(), o),
        list("deeply nested constructs", deep(), o),
        list("markers of ordered lists", ordinals(), o),
        list("headings with the same id", headings(), o),
        list("orders of footnotes", notes(), o),
        list("very many of the same", large_marker(), o),
        list("repeated pairs of constructs", pairs(), o),
        list("pairs of constructs in containers", nested_pairs(), o),
        list("inline constructs in others", nested_inlines(), o),
        list("constructs after many others", after_many(), o),
        list("constructs at large positions", far(), o),
        list("literals of the source code", literals(), o),
        list("numbers of the source code", numbers(), o),
        list("edited constructs", edited(), o),
        list("edited pairs of constructs", edited_pairs(), o),
        list("line breaks with carriage returns", line_ends(), o),
    ]
}

/// Only the cases of lists that are not too long for an expensive oracle.
fn short(len: usize, mut groups: Vec<Group>) -> Vec<Group> {
    for g in &mut groups {
        if let Cases::List(cases) = &mut g.cases {
            cases.retain(|c| c.len() <= len);
        }
    }
    groups
}

/// Spaces for a cheap oracle.
fn deeper(factor: f64, mut groups: Vec<Group>) -> Vec<Group> {
    for g in &mut groups {
        if let Cases::Strings {
            pre, post, toks, ..
        } = &g.cases
        {
            let mut n = group(pre, post, toks.clone(), g.weight * factor, g.oracle);
            n.name = std::mem::take(&mut g.name);
            *g = n;
        }
    }
    groups
}

/// The spaces of a property that is decided by conformance with the model, and the general ones.
fn conforming(f: fn() -> Vec<Group>) -> Vec<Group> {
    let mut v = f();
    let o = v[0].oracle;
    let mut seen: std::collections::HashSet<String> = v.iter().map(|g| g.name.clone()).collect();
    for g in general(0.3, o).into_iter().chain(bounds(o)) {
        if seen.insert(g.name.clone()) {
            v.push(g);
        }
    }
    v
}

/// The spaces that are made for particular constructs, less deep and for another oracle.
fn focused(scale: f64, o: Oracle) -> Vec<Group> {
    let mut seen: std::collections::HashSet<String> =
        general(1.0, o).into_iter().map(|g| g.name).collect();
    let mut v = Vec::new();
    for f in [
        c09, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c22, c23,
    ] {
        for g in f() {
            if let Cases::Strings {
                pre, post, toks, ..
            } = g.cases
            {
                if seen.insert(g.name.clone()) {
                    let mut n = group(&pre, &post, toks, g.weight * scale, o);
                    n.name = g.name;
                    v.push(n);
                }
            }
        }
    }
    v
}

fn all(unit: f64, o: Oracle) -> Vec<Group> {
    let mut v = general(unit, o);
    v.extend(focused(0.1 * unit, o));
    v.extend(bounds(o));
    v
}

// ---- properties ----

fn mc(id: &'static str, groups: Vec<Group>) -> Check {
    Check {
        id,
        level: "model_checking",
        assumptions: vec![
            "Inputs are limited to the listed alphabets, contexts and depths; sizes beyond them are only covered at the listed boundaries.".into(),
        ],
        groups,
    }
}

fn of(spaces: &[&str], weight: f64, o: Oracle) -> Vec<Group> {
    spaces.iter().map(|s| sp(s, weight, o)).collect()
}

fn within(spaces: &[(&str, &str, &str)], weight: f64, o: Oracle) -> Vec<Group> {
    spaces
        .iter()
        .map(|(pre, post, s)| ctx(pre, post, s, weight, o))
        .collect()
}

fn of_lines(spaces: &[&str], weight: f64, o: Oracle) -> Vec<Group> {
    spaces.iter().map(|s| lines(s, weight, o)).collect()
}

fn c09() -> Vec<Group> {
    let o: Oracle = conform;
    let mut v = of(
        &[
            "a NL SP - > #",
            "a NL SP * > -",
            "> SP NL a - TAB",
            "# SP NL a",
            "# SP NL a > -",
            "* - SP NL TAB",
            "-<SP> *<SP> NL - * a",
            "a NL <SP><SP> -<SP> >",
            "a NL : SP",
            "::: : NL a SP >",
            "``` ` NL a SP >",
            "<PIPE> a NL SP > -",
            "{.a} NL a SP > -",
            "{ } .a NL SP a",
            "{ } \" k= NL SP a",
            "[a]: NL SP a >",
            "[^a]: NL SP a >",
            "[ ] : ^ a NL SP",
            "1 . ) ( SP NL a",
            "a NL SP TAB CR > -",
            "a NL FF CR SP #",
            "-<SP> +<SP> NL SP a >",
            "\u{e9} NL SP > - #",
        ],
        3.0,
        o,
    );
    v.extend(of_lines(
        &[
            "a NL -<SP>a >a #<SP>a ***",
            "a NL <SP><SP>a -<SP>a > ```",
            "a NL > >a >> -",
            "a NL #<SP>a # ##<SP>a <SP>#<SP>a",
            "a NL :::<SP>x ::: :::: -<SP>a",
            "a NL ``` ```` ```<SP>x -<SP>``` <SP><SP>```",
            "::: ``` ```` :::: ```<SP>x a NL",
            "a NL {.b} {.c <SP>d} } {",
            "a NL [a]:<SP>b <SP>c [^a]:<SP>b <SP><SP>d -",
            "a NL <PIPE>a<PIPE> <PIPE>-<PIPE> ^<SP>c <SP><SP>d -<SP>e",
            "a NL :<SP>a <SP><SP>b : -<SP>c",
            "a NL 1.<SP>b <SP><SP><SP>c 2)<SP>d -<SP>1.<SP>e",
            "a NL *<SP>*<SP>* --- -<SP>-<SP>- -- *-*",
        ],
        4.0,
        o,
    ));
    v.extend(contexts(1.0, o));
    v.extend(documents(3.0, o));
    v.extend(bounds(o));
    v
}

fn c10() -> Vec<Group> {
    let o: Oracle = conform_lists;
    let mut v = of(
        &[
            "-<SP> +<SP> *<SP> NL a <SP>",
            "1.<SP> 2.<SP> i.<SP> a NL <SP>",
            "(1)<SP> 1)<SP> 1.<SP> NL a <SP>",
            "a.<SP> b.<SP> i.<SP> v.<SP> NL",
            "A)<SP> I)<SP> V)<SP> B)<SP> NL a",
            "-<SP> [ ] x X SP NL",
            "-<SP>[<SP>]<SP> -<SP>[x]<SP> -<SP> NL a <SP>",
            ":<SP> NL a <SP><SP> -",
            "-<SP> NL a <SP><SP> >",
            "-<SP> NL <SP><SP> #<SP>a {.b} ```",
            "- NL SP a",
            "1. NL SP a (",
            "i v x . SP NL",
            "c d l m . SP NL",
            "1 0 9 . SP NL",
            "-<SP> NL <SP><SP> <PIPE>a<PIPE> {.b} [a]:b :::",
            "-<SP> NL <SP><SP> > a >-",
        ],
        3.0,
        o,
    );
    v.extend(of_lines(
        &[
            "-<SP>a NL <SP><SP>b <SP><SP>-<SP>c a <SP><SP><SP><SP>d",
            "-<SP>a +<SP>b NL <SP><SP>c <SP>-<SP>d >",
            "1.<SP>a 2.<SP>b i.<SP>c ii.<SP>d NL a.<SP>e",
            "a.<SP>a b.<SP>b i.<SP>c j.<SP>d NL h.<SP>e",
            "i)<SP>a v)<SP>b c)<SP>c ii)<SP>d iv)<SP>e d)<SP>f",
            "(A)<SP>a (B)<SP>b (I)<SP>c (II)<SP>d NL (AA)<SP>e",
            "-<SP>[<SP>]<SP>a -<SP>[x]<SP>b -<SP>c NL <SP><SP>d *<SP>[X]<SP>e",
            ":<SP>a <SP><SP>b NL :<SP><SP>c <SP><SP>-<SP>d e",
            "-<SP>a NL <SP><SP>-<SP>b <SP><SP><SP><SP>-<SP>c <SP><SP>d",
            "-<SP>a NL <SP><SP>```` <SP><SP>b ```` -<SP>c",
            "-<SP>a NL <SP><SP>{.b} {.c} <SP><SP>[a]:<SP>b <SP><SP>d",
            "><SP>-<SP>a > ><SP><SP><SP>b NL ><SP><SP><SP>-<SP>c -<SP>d",
            "1.<SP>a <SP><SP><SP>-<SP>b NL <SP><SP><SP>1.<SP>c <SP><SP><SP><SP><SP>d 3.<SP>e",
            ":::<SP>a -<SP>b NL <SP><SP>c ::: -<SP>d",
        ],
        4.0,
        o,
    ));
    v.push(list("markers of ordered lists", ordinals(), o));
    v.push(list("sequences of letters as markers", letters(), o));
    v.push(list("long or repeated constructs", many(), o));
    v.push(list("deeply nested constructs", deep(), o));
    v.push(around("", "\n", 11.0, o));
    v.extend(
        [
            ("-", " a\n- b"),
            ("", ". a\n- b"),
            ("(", ") a\n1. b"),
            ("- [", "] a\n- b"),
            ("- a\n", "- b"),
            ("1", "2. a\n"),
        ]
        .map(|(a, b)| around(a, b, 0.15, o)),
    );
    v
}

fn c11() -> Vec<Group> {
    let o: Oracle = conform;
    let mut v = of(
        &[
            "<PIPE> a SP NL - :",
            "<PIPE> - : NL",
            "<PIPE> a NL ` \\ SP",
            "<PIPE> a NL ^<SP> SP",
            "<PIPE> a NL ^ -",
            "<PIPE>a<PIPE> <PIPE>-:<PIPE> <PIPE>:-<PIPE> NL ^<SP>c a",
            "<PIPE> a * NL [ ] _",
            "<PIPE> a `` ` SP $",
            "<PIPE> {.a} a NL SP",
            "<PIPE> > NL a SP -",
            "<PIPE> -<SP> NL a SP <SP><SP>",
            "<PIPE>a <PIPE> {.b} NL ^<SP>c >",
            "<PIPE> - TAB SP NL a",
            "<PIPE> \u{e9} NL ` ^<SP> -",
            "<PIPE> a \\ ` NL",
            "<PIPE> a < > [ ] (",
            "<PIPE> a \" ' { }",
        ],
        3.0,
        o,
    );
    v.extend(of_lines(
        &[
            "<PIPE>a<PIPE> <PIPE>-:<PIPE> <PIPE>:-<PIPE>-<PIPE> <PIPE>b<PIPE>c<PIPE> NL ^<SP>d",
            "<PIPE>a<PIPE> <PIPE>:-:<PIPE> NL ^<SP>b <SP><SP>c {.d}",
            "<PIPE>a<PIPE> <PIPE>-<PIPE> NL b ><SP><PIPE>a<PIPE> -<SP><PIPE>a<PIPE>",
            "<PIPE>a<PIPE> NL ^<SP>b ^ <SP>^<SP>c ^d",
            "<PIPE>a<PIPE>b<PIPE> <PIPE>:-<PIPE>-:<PIPE> <PIPE>-<PIPE> <PIPE> <PIPE><PIPE> NL",
            "<PIPE>a<PIPE> <PIPE>`b<PIPE> c`<PIPE> <PIPE>\\<PIPE> <PIPE>--a<PIPE> <SP><PIPE>d<PIPE>",
            "<PIPE>a<PIPE> {.b} NL <PIPE>c<PIPE><SP> <PIPE>*d<PIPE>e* #<SP><PIPE>",
            "><SP><PIPE>a<PIPE> ><SP><PIPE>-:<PIPE> ><SP>^<SP>b > NL ><SP>c",
        ],
        4.0,
        o,
    ));
    v.extend(within(
        &[
            ("| a | b |\n", "\n| c | d |\n", "<PIPE> - : SP"),
            (
                "| a |\n|:-|\n| b |\n",
                "\n\n| c |\n",
                "<PIPE> - : NL a ^<SP>",
            ),
            ("|", "|\n", "a <PIPE> ` \\ SP"),
            ("|", "|\n", "a * _ [ ] ^ <PIPE>"),
            ("|", "|x|", "` <PIPE> \\ $ a"),
            ("| a |\n\n", "\n\nb", "^ SP c NL * `"),
        ],
        3.0,
        o,
    ));
    for (pre, post) in [
        ("|", "|"),
        ("|", "|\n|-|\n"),
        ("", "|a|\n"),
        ("|a|", "\nb"),
        ("|a", "b|c|"),
        ("|a|\n|", "|\n|b|"),
        ("|a|\n|-", "|\n|b|"),
        ("|a|\n|", "-:|\n|b|"),
        ("|a|\n", "^ c\n"),
        ("|a|\n^", "c\n"),
        ("|a|\n\n^ c\n", "d"),
    ] {
        v.push(around(pre, post, 0.3, o));
    }
    v.push(list("long or repeated constructs", many(), o));
    v.push(list("runs of each marker", runs(), o));
    v
}

fn c12() -> Vec<Group> {
    let o: Oracle = conform;
    let mut v = of(
        &[
            "``` ` a NL SP",
            "~~~ ~ a NL SP ```",
            "``` a NL SP >",
            "``` a NL <SP><SP> -<SP>",
            "``` =a = NL SP a {.b}",
            "``` ```` NL a > SP",
            "::: : a NL SP",
            "::: :::: NL a ``` SP",
            "::: a NL -<SP> <SP><SP> >",
            "::: a NL {.b} # ```",
            "``` NL TAB a SP",
            "``` NL \\ * a { [",
            "``` NL CR FF SP a",
            "::: - _ a1 NL SP",
            "``` [^a]: NL a <SP> b",
            "``` :<SP> NL a <SP> b",
            "``` 1.<SP> NL a <SP> b",
            "``` \u{e9} NL SP ` a",
            "::: NL ::: a :::: >",
        ],
        3.0,
        o,
    );
    v.extend(of_lines(
        &[
            "``` ```` ```<SP>x a NL <SP><SP>b ~~~",
            "::: ``` ```` :::: ```<SP>x a NL",
            "::: ``` ~~~ ~~~~ \\``` a NL",
            "``` NL a <SP>``` <SP><SP>a <SP><SP>```` <SP><SP><SP>b",
            "><SP>``` > ><SP>a >b ``` ><SP><SP>c NL",
            "-<SP>``` <SP><SP>a <SP><SP>``` ``` NL <SP>b <SP><SP><SP>c",
            "```<SP>=html ``` a <html> NL ```<SP>=<SP>html ><SP>```",
            ":::<SP>a ::: :::: ```` a NL -<SP>b <SP><SP>:::",
            "::: ::::: :::: <SP>:::: ``` :::: NL a",
            "1.<SP>``` <SP><SP><SP>a <SP><SP><SP><SP>b NL <SP><SP><SP>``` c <SP>d",
            "[^a]:<SP>``` <SP>a <SP><SP>b <SP>``` NL c",
            "-<SP>::: <SP><SP>``` <SP><SP>a <SP><SP><SP>b NL <SP><SP>::: c",
            "{.a} ``` ~~~ =a {#b} NL b",
            "~~~~ ~~~ ~~~~~ ~~~<SP>~ a~~~ ```~ NL",
        ],
        4.0,
        o,
    ));
    for (pre, post) in [
        ("```", "\na\n```\nb"),
        ("``` ", "b\na\n```\nb"),
        ("```=", "\na\n```\nb"),
        ("``` =", "b\na\n```\nb"),
        ("```\n", "\n```\nb"),
        ("```\na\n", "```\nb"),
        ("```\na\n```", "\nb"),
        ("```\na\n``", "\nb"),
        ("~~~", "\na\n~~~\nb"),
        ("~~~\na\n~~~", "\nb"),
        (":::", "\na\n:::\nb"),
        ("::: ", "b\na\n:::\nb"),
        (":::\na\n:::", "\nb"),
        (":::\na\n", ":::\nb"),
        (" ```\n", "a\n```\nb"),
        ("- ```\n", "a\n  ```\nb"),
        ("> ```\n> ", "a\n> ```\nb"),
        ("> ```\n>", "a\n> ```\nb"),
    ] {
        v.push(around(pre, post, 0.3, o));
    }
    v.push(list("long or repeated constructs", many(), o));
    v.push(list("runs of each marker", runs(), o));
    v.push(list("deeply nested constructs", deep(), o));
    v
}

fn c13() -> Vec<Group> {
    let o: Oracle = conform;
    let mut v = of(
        &[
            "a SP *",
            "a SP * _",
            "a SP * _ NL",
            "{ } a SP *",
            "{ } a SP _ ~",
            "{ } = a SP",
            "{ } + - a SP",
            "{ } ^ ~ a SP",
            "{* *} {_ _} * a SP",
            "{= =} {+ +} {- -} a",
            "{^ ^} {~ ~} ^ ~ a",
            "* _ ^ ~ a SP",
            "* ^ {= =} a SP \\",
            "\" ' a SP * {",
            "\" ' a SP NL (",
            "{\" \"} {' '} \" ' a SP",
            "* [ ] a ( ) SP",
            "* [ ] [b] {.c} a",
            "[ ] ( ) a ! _",
            "* _ ` a SP",
            "* _ \" a {.b} SP",
            "* {* *} ** a SP",
            "_ __ ___ a SP",
            "* \\ a SP _",
            "[ ] * {.a} NL ^",
            "* _ . - a SP",
            "{ } * ` a \"",
            "{ } ! [ ] a *",
            "* \u{e9} _ SP \"",
            "* TAB NL a _ CR",
            "~ ^ [ ] {= =} a",
            "{- -} - -- a SP",
            "< > * _ a :",
            "$ ` * _ a",
        ],
        2.5,
        o,
    );
    v.extend(of_lines(
        &[
            "*a a* NL -<SP>*a >*a {*a a*}",
            "_a a_ NL \"a a\" 'a a'",
            "[a a](b) *a a* NL `a",
        ],
        2.0,
        o,
    ));
    for (pre, post) in [
        ("*", "a*"),
        ("*a", "*"),
        ("a*", "b*"),
        ("_a", "_b_"),
        ("{_", "a_}"),
        ("{=a", "=}"),
        ("*a ", "_b* c_"),
        ("\"", "a\" b"),
        ("a\"", "\"b"),
        ("'", "a' b'"),
        ("[", "a*](b*)"),
        ("*a", "\nb*"),
        ("", "*a*"),
        ("*a*", ""),
        ("^", "a^"),
        ("{-", "a-}"),
    ] {
        v.push(around(pre, post, 0.3, o));
    }
    v.push(list("runs of each marker", runs(), o));
    v.push(list("deeply nested constructs", deep(), o));
    v.push(list("long or repeated constructs", many(), o));
    v
}

fn c14() -> Vec<Group> {
    let o: Oracle = conform;
    let mut v = of(
        &[
            "` a SP",
            "` a SP NL",
            "` $ a SP",
            "` $ a {=b} SP",
            "` {=a} {.b} a SP",
            "` { } = a SP",
            "` \\ a * SP",
            "` [ ] ( ) a",
            "` > NL a SP",
            "` <SP><SP> -<SP> NL a",
            "` `` ``` a NL SP",
            "` * _ a { }",
            "` \" ' - . a",
            "$ $$ $$$ ` a \\",
            "` TAB CR NL a",
            "` \u{e9} SP NL $",
            "` {=a} NL SP a",
            "` {= html } a SP",
            "` <PIPE> NL a",
            "` #<SP> NL a SP",
            "` ^ [ ] {.a} !",
            "` < > : a @",
        ],
        3.0,
        o,
    );
    v.extend(of_lines(
        &[
            "`a a` NL ``a -<SP>`a >a`",
            "$`a a` NL a`{=b} `",
            "><SP>`a >b ><SP><SP>c` > <SP>`d",
            "-<SP>`a <SP><SP><SP>b c` <SP>`` NL",
            "#<SP>`a #<SP>b` c ` NL",
            "[^a]:<SP>`b <SP><SP>c` d NL `",
        ],
        3.0,
        o,
    ));
    for (pre, post) in [
        ("`", "`"),
        ("`", "a`"),
        ("`a", "`"),
        ("`a`", "b"),
        ("a", "`b`"),
        ("``", "``"),
        ("`a`{", "b}"),
        ("`a`{=", "b}"),
        ("`a`{=b", "}"),
        ("$", "`a`"),
        ("$`a`", "{=b}"),
        ("a$", "$`a`"),
        ("`a\n", "b`"),
        ("> `a\n", "b`"),
        ("`a`", "{=b}"),
    ] {
        v.push(around(pre, post, 0.3, o));
    }
    v.push(list("runs of each marker", runs(), o));
    v.push(list("long or repeated constructs", many(), o));
    v
}

fn c15() -> Vec<Group> {
    let o: Oracle = conform;
    let mut v = of(
        &[
            "[ ] ( ) a",
            "[ ] ( ) a ! SP",
            "[ ] ( ) a NL \\",
            "[ ] a ! ^ SP",
            "[ ] ( ) * a",
            "[ ] ( ) ` a",
            "[ ] ( ) {.b} a",
            "[ ] [a] (b) ! *",
            "< > a : SP",
            "< > a @ . :",
            "< > a : NL \\ *",
            "< > http:// a@b <SP>",
            ": a SP _ -",
            ": a + 1 NL *",
            ": :: a SP {.b}",
            "[^ ] a SP NL",
            "[^a] [ ] ( ) ^ {.b}",
            "[ ] \\ ] ( ) a",
            "[ ]( ) NL > SP a",
            "[ ][ ] NL > SP a",
            "[a]( ) <SP><SP> -<SP> NL b",
            "![ [ ] (a) a *",
            "\u{e9} [ ] ( ) < >",
            "[ ] ( ) < > : a",
            "[a]( ) ` \\ * (",
            "[ ] <PIPE> ( ) a NL",
            "< > ` : a {.b}",
        ],
        2.5,
        o,
    );
    v.extend(within(
        &[
            ("[a]: u\n\n", "", "[ ] a ! SP NL"),
            ("> [a](", "c)", "b NL ><SP> SP \\"),
            ("- [a](", "c)", "b NL <SP><SP> SP \\"),
            ("- [a][", "c]", "b NL <SP><SP> > SP"),
            ("[a", "](b)", "[ ] ( ) ` a ^"),
            ("[a](", ")", "[ ] ( ) \\ a SP"),
            ("[a][", "]", "[ ] ( ) \\ a SP"),
            ("<", ">", "a @ : . SP NL /"),
        ],
        2.0,
        o,
    ));
    for (pre, post) in [
        ("[a]", "(b)"),
        ("[a](", ")"),
        ("[a](", "b)"),
        ("[a](b", ")"),
        ("[a](b)", ""),
        ("", "[a](b)"),
        ("[", "](b)"),
        ("[a][", "]"),
        ("[a]", "[b]"),
        ("!", "[a](b)"),
        ("[^", "]"),
        ("[", "^a]"),
        ("[^a", "]"),
        ("<", "a:b>"),
        ("<a", "b>"),
        ("<a", ":b>"),
        ("<a@", ">"),
        ("<a:", ">"),
        (":", ":"),
        (":a", ":"),
        (":a", "b:"),
        ("", ":a:"),
        (":a:", ""),
        ("[a\n", "](b)"),
        ("[a](b\n", ")"),
    ] {
        v.push(around(pre, post, 0.3, o));
    }
    v.push(list("runs of each marker", runs(), o));
    v.push(list("long or repeated constructs", many(), o));
    v.push(list("deeply nested constructs", deep(), o));
    v
}

fn c16() -> Vec<Group> {
    let o: Oracle = conform;
    let mut v = of(
        &[
            "[a]: [a][] SP NL u",
            "[a] : [] SP NL u",
            "[a]:<SP>u [a][] NL {.b} [a]:<SP>v",
            "[a]: <SP>u [a][] NL <SP>v [b]:",
            "#<SP> a NL [a][] {#b}",
            "#<SP> a b NL [a<SP>b][] [a<NL>b][]",
            "#<SP>a [a][] [a]:<SP>u NL b",
            "[a]: u NL SP > -",
            "![a][] [a][] [a]:<SP>u NL {.b}",
            "[*a*][] *a*:<SP> [a][] [a]:<SP>u NL #<SP>",
            "[a]:<SP>u <SP> NL [b][a] [^a]: [a][]",
            "[ ] : SP NL a",
            "#<SP> * ` a NL [a][] [*a*][]",
            "#<SP> \" - a NL ['a'][]",
            "[\u{e9}]: [\u{e9}][] SP NL u",
            "[a]:<SP> u \\ * NL [a][]",
            "[A]:<SP>u [a][] [A][] NL #<SP>",
        ],
        3.0,
        o,
    );
    v.extend(of_lines(
        &[
            "[a]:<SP>u [a]:<SP>v [a][] NL {.b} <SP>w",
            "[a][] {.b} {#c} [a]:<SP>u NL #<SP>a",
            "#<SP>a #<SP>b [a][] [a<SP>b][] {#c} NL",
            "><SP>[a]:<SP>u [a][] NL -<SP>[a]:<SP>v ><SP>#<SP>a ><SP><SP>w",
            "[a<SP>b]:<SP>u [a b][] [a<SP>b][] NL [c][a b]",
            "[a]:<SP>u [a][]{.c} ![a][]{.d} {.b} NL [a]{.e}[]",
            "[a]: <SP>u <SP>v <SP> [a][] NL",
            "[b]:<SP>u [a][b] [b][a] #<SP>a{#b} #<SP>b NL",
            "#<SP>*a* #<SP>a [a][] [*a*][] [a]:<SP>u NL",
            "#<SP>[a][] [a]:<SP>u #<SP>[a](b) [a][] NL [[a][]][]",
            "[a]:<SP>u [^n]:<SP>[a][] [^n] [n][] [^n][] NL",
            "| [a][] [a]:<SP>u ^<SP>[a][] | NL [a]",
        ],
        4.0,
        o,
    ));
    v.extend(within(
        &[
            ("[", "]: u\n\n[a b][] [a][] [b][]", "a b SP NL * ] \\"),
            ("[a b]: u\n\n[x][", "]", "a b SP NL * TAB CR"),
            ("[a b]: u\n\n[", "][]", "a b SP NL * \\ _"),
            ("# a b\n\n[", "][]", "a b SP NL * \\ _"),
            ("# ", "\n\n[a b][] [a][]", "a b SP NL * \\ `"),
            ("[a]:", "\n\n[a][]", "u SP NL \\ * [ >"),
            ("{.b}\n[a]: u\n\n[a][]", "\n\n[a][]", "{.c} {#d} SP NL x"),
            ("[a]: u\n\n- [a][\n", "", "a ] SP NL <SP><SP> >"),
        ],
        2.0,
        o,
    ));
    for (pre, post) in [
        ("[", "]: u\n\n[a][]"),
        ("[a", "]: u\n\n[a][]"),
        ("[a]", ": u\n\n[a][]"),
        ("[a]:", "u\n\n[a][]"),
        ("[a]: ", "u\n\n[a][]"),
        ("[a]: u", "\n\n[a][]"),
        ("[a]: u\n", "v\n\n[a][]"),
        ("[a]: u\n\n[", "a][]"),
        ("[a]: u\n\n[x][", "a]"),
        ("[a]: u\n\n[x][a", "]"),
        ("# ", "\n\n[a][]"),
        ("# a", "\n\n[a][]"),
        ("# a\n\n[a", "][]"),
        ("# a\n\n[x][", "a]"),
    ] {
        v.push(around(pre, post, 0.3, o));
    }
    v.push(list("long or repeated constructs", many(), o));
    v.push(list("headings with the same id", headings(), o));
    v
}

fn c17() -> Vec<Group> {
    let o: Oracle = conform;
    let mut v = of(
        &[
            "#<SP> a NL",
            "#<SP> ##<SP> a NL -",
            "#<SP> ##<SP> ###<SP> NL a",
            "#<SP> * a NL _ `",
            "#<SP> a - 1 NL",
            "#<SP>a NL {#a} {#b} - 1",
            "#<SP> { } #a NL a",
            "#<SP> a SP NL TAB",
            "#<SP> a ! [ ] (b) NL",
            "#<SP> > NL a -<SP>",
            "#<SP> :a: $`a` [^a] NL a",
            "#<SP> ... -- ' \" a NL",
            "#<SP> <a:b> ![a](b) a NL \\",
            "# SP NL a s -1",
            "#<SP> \u{e9} a NL - \u{2014}",
            "#<SP>a {#a-1} {.c} NL ##<SP>a",
            "#<SP> a `b`{=c} {-d-} NL _",
            "#<SP> s - 1 NL {#s-1}",
            "#<SP> a SP NL \\ ... -- ~",
            "#<SP>a {#} {id=} {id=\"\"} NL {#b} a [a][]",
        ],
        3.0,
        o,
    );
    v.extend(of_lines(
        &[
            "#<SP>a ##<SP>a NL {#a} {.b} a",
            "#<SP>a ##<SP>b ###<SP>c NL ><SP>#<SP>d e",
            "#<SP>a #<SP>a-1 #<SP>a-2 NL {#a-1} {#a}",
            "# #<SP>s-1 #<SP>* NL {#s-1} ##<SP>s-2",
            "-<SP>#<SP>a #<SP>a NL <SP><SP>#<SP>b <SP><SP>a ##<SP>a",
            "::: #<SP>a NL ##<SP>b ::: {#c}",
            "[^a]:<SP>#<SP>b #<SP>b NL <SP><SP>#<SP>c [^a] ##<SP>b",
            "#<SP>a <SP>b #<SP><SP>c NL ##<SP>d [a][] [a<SP>b][]",
            "{#a} {#b} #<SP>c ><SP>a NL [c][] ##<SP>a",
            "{#a} {id=\"\"} #<SP>c NL [c][] {id=c} #<SP>d",
            "#<SP>a\\<SP>b #<SP>a<SP>b #<SP>a...b #<SP>a--b NL [a<SP>b][] [ab][] [a...b][] [a\\<SP>b][]",
            "####<SP>a ###<SP>a ##<SP>a #<SP>a NL {id=b}",
            "#######<SP>a ########<SP>b NL #<SP>c <PIPE>a<PIPE> -<SP>b",
        ],
        4.0,
        o,
    ));
    for (pre, post) in [
        ("# ", "\n"),
        ("# a", "b\n"),
        ("# a", "\n\n# a\n"),
        ("# a ", "b\n\n# b"),
        ("#", "a\n\n# a"),
        ("", "# a\n"),
        ("# a\n", "# b\n"),
        ("{#", "}\n# a"),
        ("{#a}\n", "# a\n\n# a"),
        ("# a\n\n", "# b"),
    ] {
        v.push(around(pre, post, 0.5, o));
    }
    v.push(list("headings with the same id", headings(), o));
    v.push(list("long or repeated constructs", many(), o));
    v.push(list("deeply nested constructs", deep(), o));
    v.push(list("very many of the same", large_marker(), o));
    v
}

fn c18() -> Vec<Group> {
    let o: Oracle = conform;
    let mut v = of(
        &[
            "-",
            ".",
            "- a",
            ". a",
            "- . a",
            "- { } a",
            "- {- -} a SP",
            ". \\ a - SP",
            "\" a SP",
            "' a SP",
            "\" ' a SP",
            "\" ' a SP NL",
            "\" ' a ( ) SP",
            "\" { } a SP",
            "' { } a SP",
            "\" ' * _ a SP",
            "\" ' [ ] (b) a",
            "\" ' ` a SP",
            "\" ' \\ a SP",
            "\" ' - . a SP",
            "\" ' 1 s \u{e9} SP",
            "{\" \"} {' '} a SP \"",
            "\" ' {.a} a SP",
            "\" ' TAB NL a CR",
            "\" ' : < > a",
            "' \" [ ] ! a SP",
            "- -- --- a SP",
            ". .. ... a SP",
            "- > NL a SP",
            "\" ' $ ` a",
        ],
        3.0,
        o,
    );
    v.extend(of_lines(
        &[
            "\"a a\" 'a a' NL >\"a -<SP>a'",
            "--a a-- ... a.. NL -<SP>--",
        ],
        2.0,
        o,
    ));
    let mut r = Vec::new();
    for n in 0..300 {
        let h = rep("-", n);
        let d = rep(".", n);
        for (a, b) in [
            ("a", "b"),
            ("a ", " b"),
            ("\\-", "b"),
            ("{", "}"),
            ("{", "-}"),
            ("\\", ""),
            ("*", "*"),
            ("a{.b}", "{.c}"),
            ("\"", "\""),
        ] {
            r.push(format!("{a}{h}{b}"));
            r.push(format!("{a}{d}{b}"));
            r.push(format!("{a}{h}{d}{b}"));
            r.push(format!("{a}{d}{h}{b}"));
        }
    }
    v.push(list("runs of hyphens and periods up to 299", r, o));
    for (pre, post) in [
        ("\"", "a\""),
        ("\"a", "\""),
        ("", "\"a\""),
        ("\"a\"", ""),
        ("a", "\"b\""),
        ("'", "a'"),
        ("'a", "'"),
        ("", "'a'"),
        ("'a'", ""),
        ("a", "'b'"),
        ("a--", "b"),
        ("a", "--b"),
        ("a..", "b"),
        ("a", "..b"),
        ("{", "\"a"),
        ("a'", "}"),
    ] {
        v.push(around(pre, post, 0.3, o));
    }
    v.push(list("runs of each marker", runs(), o));
    v
}

fn c19() -> Vec<Group> {
    let o: Oracle = conform;
    let mut v = of(
        &[
            "\\ a SP NL",
            "\\ * _ a SP",
            "\\ ` a SP",
            "\\ [ ] ( ) a",
            "\\ { } .a a *",
            "\\ \" ' a SP",
            "\\ - . a",
            "\\ < > : a",
            "\\ $ ` a",
            "\\ ! [ ] (b) ^",
            "\\ > NL a SP",
            "\\ # NL a SP",
            "\\ - NL a SP +",
            "\\ <PIPE> NL a `",
            "\\ ::: ``` NL a :",
            "\\ 1 . ) ( SP NL",
            "\\ [^a]: [a]: NL SP",
            "\\ TAB SP NL a CR",
            "\\ \u{e9} SP * a",
            "\\ ~ ^ = + { }",
            "\\ {.a} a NL SP",
            "\\ : <SP> a NL",
            "\\ [a] [b]: (c) NL",
        ],
        3.0,
        o,
    );
    v.extend(of_lines(
        &[
            "a\\ \\ NL b\\\\ >a\\ -<SP>\\",
            "*a\\* \\*a* \\`a `a\\` NL \\[a](b)",
        ],
        2.0,
        o,
    ));
    for (pre, post) in [
        ("\\", ""),
        ("\\", "a"),
        ("a\\", "b"),
        ("\\\\", "a"),
        ("*a\\", "*"),
        ("`a\\", "`"),
        ("[a\\", "](b)"),
        ("[a](b\\", ")"),
        ("\\", "[a](b)"),
        ("\\", "`a`"),
        ("\\", "*a*"),
        ("a{b=\"\\", "\"}"),
        ("```\n\\", "\n```"),
        ("\\", " a\n"),
        ("| \\", "| a |"),
        ("- \\", "a"),
        ("\"a\\", "\""),
        ("<a:\\", "b>"),
        (":\\", "a:"),
        ("[^\\", "a]"),
        ("a\\", "\nb"),
    ] {
        v.push(around(pre, post, 0.3, o));
    }
    v.push({
        let mut g = group("", "", every(), 20.0, inv::escaped);
        g.name = "escaped texts: all ASCII and U+E9".into();
        g
    });
    v.extend(of(
        &[
            "a SP * _ ` [ ] ( ) { }",
            "- SP 1 . ) NL",
            "a # > ` ~ : SP",
            "\" ' - . a SP",
            "[ ] ^ : a NL",
            "$ ` { = a }",
            "< > : @ a !",
            "<PIPE> - : a NL",
            "a NL SP TAB \\",
        ],
        3.0,
        inv::escaped,
    ));
    v.push(list("runs of each marker", runs(), o));
    v
}

fn c20() -> Vec<Group> {
    let o: Oracle = attrs::grammar;
    let mut v = of(
        &[
            "{ } . a SP",
            "{ } # a NL",
            "{ } = a \"",
            "{ } = a \" \\ SP",
            "{ } % a SP",
            "{ } . # = a \" %",
            "{ } =\" \" a \\ NL",
            "{ } .a #b c=d SP %e%",
            "{ } .a k= \"v\" SP NL",
            "{ } a= \" \\\" SP",
            "{ } - _ : . 1 =",
            "{ } \u{e9} . a =\" \"",
            "{ } TAB CR FF . a",
            "{.a} {} { } SP a",
            "{ } 1 a= 1a - :",
            "{ % } % } . a",
        ],
        4.0,
        o,
    );
    for (pre, post) in [
        ("", ""),
        ("{", "}"),
        ("{.", "}"),
        ("{.a", "}"),
        ("{#", "}"),
        ("{#a", "}"),
        ("{a", "=b}"),
        ("{", "a=b}"),
        ("{a=", "}"),
        ("{a=b", "}"),
        ("{a=\"", "\"}"),
        ("{a=\"b", "\" .c}"),
        ("{a=\"b\"", "}"),
        ("{%", "%}"),
        ("{%a", "}"),
        ("{.a}", ""),
        ("{.a}", "{.b}"),
        ("", "{.a}"),
        ("{.a ", ".b}"),
        ("{a=\"\\", "\"}"),
        ("{.a", ""),
        ("{a=\"b\n", "c\"}"),
    ] {
        v.push(around(pre, post, 0.6, o));
    }
    v.push(choices(
        "sets of elements, with and without space between",
        attrs::elements,
    ));
    let mut l = Vec::new();
    for n in SIZES {
        let a = rep("a", n);
        for s in [
            "{.L}",
            "{#L}",
            "{L=L}",
            "{L=\"L\"}",
            "{%L%}",
            "{%L}",
            "{.L",
            "{L",
            "{L=",
            "{L=\"L",
        ] {
            l.push(s.replace('L', &a));
        }
        l.push(rep("{.a}", n));
        l.push(rep("{}", n));
        l.push(format!("{{{}}}", rep(".a ", n)));
        l.push(format!("{{{}}}", rep(".a", n)));
        l.push(format!("{{{}.a}}", rep("\n", n)));
        l.push(format!("{{a=\"{}\"}}", rep("\\\"", n)));
        l.push(format!("{{a=\"{}\"}}", rep("\\", n)));
        l.push(format!("{{a=\"{}\"}}", rep("\n", n)));
        l.push(format!("{}", rep("{%%}", n)));
    }
    v.push(list("long sets", l, o));
    // the same grammar where sets are attached
    let d: Oracle = conform;
    v.extend(of(
        &[
            "{ } . a SP",
            "a { } = \" SP NL",
            "{ } % .a a NL",
            "a{ } .b # k=v SP %",
            "a{k=\" \" \\ NL } SP",
            "*a*{ } . b NL %",
            "[a]{ } . b = \"",
            "{k=\" \" \\ NL } a",
            "{ } . NL a - <SP>",
        ],
        2.0,
        d,
    ));
    for (pre, post) in [
        ("a{", "}"),
        ("a{.b", "}"),
        ("a{b=", "}"),
        ("a{b=\"", "\"}"),
        ("a{%", "%}"),
        ("{", "}\na"),
        ("{.b", "}\na"),
        ("{b=", "}\na"),
        ("{b=\"", "\"}\na"),
        ("{.b}", "\na"),
        ("a{.b}", "c"),
    ] {
        v.push(around(pre, post, 0.2, d));
    }
    v
}

fn c21() -> Vec<Group> {
    let mut v = vec![choices("built sets", attrs::built)];
    v.extend(of(
        &[
            "{. {# } a SP",
            "{ } .a .b class=c class=\"d<SP>e\" SP",
            "{ } #a #b id=c id=\"\" SP",
            "{ } k=v k=w k=\"\" l=m SP",
            "{ } .a #b k=v k=w %c% SP",
            "{k=\" \\ a \" } \"",
            "{k=\" \\\\ \\\" NL a \"}",
            "{ } %a% %b .c SP",
            "{class=\" \"} .a} {.b a SP",
            "{k=\" \u{e9} \\ \"} a",
        ],
        3.0,
        attrs::parsed,
    ));
    v.push(around("{k=\"", "\"}", 11.0, attrs::parsed));
    v.push(around("{k=", " .b}", 11.0, attrs::parsed));
    v.push(around("{.", "}", 0.5, attrs::parsed));
    v.push(around("{%", "%}", 0.5, attrs::parsed));
    v.push(around("", "", 11.0, attrs::value));
    v.extend(of(
        &["\\ a \" NL", "\\ \u{e9} * SP \\\\"],
        2.0,
        attrs::value,
    ));
    let mut l = Vec::new();
    for n in SIZES {
        l.push(format!("{{{}}}", rep(".a ", n)));
        l.push(format!(
            "{{{}}}",
            (0..n).map(|i| format!(".c{i} ")).collect::<String>()
        ));
        l.push(format!(
            "{{{}}}",
            (0..n).map(|i| format!("k{i}=v{i} ")).collect::<String>()
        ));
        l.push(format!(
            "{{{}}}",
            (0..n)
                .map(|i| format!("k{}=v{i} .a ", i % 3))
                .collect::<String>()
        ));
        l.push(format!(
            "{{{}}}",
            (0..n).map(|i| format!("#i{i} %c% ")).collect::<String>()
        ));
        l.push(format!("{{k=\"{}\"}}", rep("\\\"", n)));
        l.push(format!("{{k=\"{}\"}}", rep("a\\b", n)));
    }
    v.push(list("long sets", l, attrs::parsed));
    v
}

fn c22() -> Vec<Group> {
    let o: Oracle = conform;
    let mut v = of(
        &[
            "{.a} {#b} NL a SP",
            "{.a} NL a SP > -",
            "{.a} NL #<SP> a ##<SP>",
            "{.a} NL -<SP> a <SP><SP>",
            "{.a} NL ``` a >",
            "{.a} NL ::: a SP",
            "{.a} NL <PIPE>a<PIPE> ^<SP>c SP",
            "{.a} NL [a]:<SP>u [a][] a",
            "{.a} NL [^a]:<SP> [^a] a <SP>",
            "{.a} NL :<SP> a <SP><SP>",
            "{.a} NL --- a *",
            "{.a} NL 1.<SP> a <SP><SP><SP>",
            "{.a <SP>b} } NL a SP",
            "{ } .a NL a SP",
            "{.a} {%b%} {} NL a",
            "{.a} {.b} NL > - a",
            "{k=v} {k=w} {k=\"<NL> \"} NL a SP",
            "{.a} \\ NL a ` *",
            "{.a} NL TAB CR a SP",
        ],
        3.0,
        o,
    );
    v.extend(of_lines(
        &[
            "{.a} {#b} NL a #<SP>b -<SP>c",
            "{.a} NL <SP><SP>{.b} -<SP>c <SP><SP>d <SP><SP>-<SP>e",
            "{.a} NL ><SP>{.b} ><SP>c > d",
            "{.a} ::: NL b ``` {.c}",
            "{.a} <PIPE>a<PIPE> <PIPE>-<PIPE> ^<SP>c NL {.b}",
            "{.a} :<SP>b <SP><SP>c <SP><SP>{.d} NL e",
            "{.a} [a]:<SP>u [a][] NL {.b} <SP>v",
            "{.a} [^a]:<SP>b <SP>{.c} <SP>d NL [^a]",
            "{.a #b} {.c k=v} {%d%} NL e {k=w}",
            "{.a b} <SP>.c} {.d e",
            "-<SP>{.a} <SP><SP>b <SP><SP>{.c} NL -<SP>d {.e}",
            "{.a} #<SP>b ##<SP>c {.d} NL ><SP>#<SP>e e",
            "{.a} {.b {} <SP>} NL c",
            "{.a} *** NL ``` =<SP>b ```<SP>=c d",
            "-<SP>[<SP>]<SP>a {.a} <SP><SP>{.b} NL 1.<SP>c <SP><SP><SP>{.d}",
        ],
        4.0,
        o,
    ));
    for (pre, post) in [
        ("{.a}", "\nb"),
        ("{.a}\n", "b"),
        ("{.a}\n", "\nb"),
        ("{.a}\n\n", "b"),
        ("", "{.a}\nb"),
        ("b\n", "{.a}\nb"),
        ("{.a\n", "}\nb"),
        ("{", "}\nb"),
        ("{.a}{", "}\nb"),
        ("{.a}\n", "{.c}\nb"),
        ("- {.a}\n", "b"),
        ("> {.a}\n", "b"),
    ] {
        v.push(around(pre, post, 0.4, o));
    }
    v.push(list("long or repeated constructs", many(), o));
    v
}

fn c23() -> Vec<Group> {
    let o: Oracle = conform;
    let mut v = of(
        &[
            "a {.b} SP",
            "a {.b} {.c} SP NL",
            "a { } . SP",
            "a { } # = \" SP",
            "a { } .b * _",
            "*a* {.b} SP NL {",
            "[a] {.b} (c) SP {",
            "[a] {.b} [c] ! {}",
            "`a` {.b} {=c} SP a",
            "$`a` {.b} a SP",
            "<a:b> {.c} a SP",
            ":a: {.c} a SP",
            "[^a] {.b} a SP",
            "\" ' {.b} a SP",
            "a {.b <SP>c} } NL SP",
            "a {k=\" \" } NL SP",
            "a {k=\" \" } NL > SP",
            "a {k=\" \"} <SP><SP> -<SP> NL",
            "a {.b .c} NL ><SP> SP",
            "a {%b%} {%c } SP",
            "a {} {.b} SP *",
            "[ ] { } .a a",
            "* _ {.a} {.b} a SP",
            "a - . {.b} SP",
            "a \\ {.b} SP *",
            "a \u{e9} {.b} SP TAB",
            "{* *} {.a} {= =} a",
            "{ } { .a a * NL",
            "<PIPE> a {.b} SP NL",
            "a {.b} #<SP> NL SP",
            "a{.b ` } * NL",
        ],
        2.5,
        o,
    );
    v.extend(of_lines(
        &[
            "a{.b .c} d} NL <SP>e} >f}",
            "[a]{.b .c} NL *a*{.d k=\"e f\"}",
            "><SP>a{.b >c} ><SP>d} > e}",
            "-<SP>a{k=\"b <SP><SP>c\"} d\"} NL <SP>e}",
        ],
        3.0,
        o,
    ));
    for (pre, post) in [
        ("a", "{.b}"),
        ("a{.b}", ""),
        ("a{.b}", "{.c}"),
        ("a{", ".b}"),
        ("a{.b", "}"),
        ("*a*", "{.b}"),
        ("[a]", "{.b}"),
        ("[a]{", "}"),
        ("`a`", "{.b}"),
        ("[a](b)", "{.c}"),
        ("a{.b\n", "}c"),
        ("a{k=\"\n", "\"}c"),
        (" ", "{.b}"),
        ("\\", "{.b}"),
        ("{=a", "=}{.b}"),
    ] {
        v.push(around(pre, post, 0.3, o));
    }
    v.push(list("long or repeated constructs", many(), o));
    v.push(list("deeply nested constructs", deep(), o));
    v
}

fn c24() -> Vec<Group> {
    let o: Oracle = render::footnotes;
    let mut v = of_lines(
        &[
            "[^a] [^b] [^a]:<SP>x [^b]:<SP>y NL z",
            "[^a] [^a]:<SP>[^b] [^b]:<SP>[^a] [^c]:<SP>[^b][^c] NL [^c]",
            "[^a] [^a]:<SP>x <SP>y <SP>-<SP>z NL <SP>```",
            "[^a] [^a]: <SP>>x <SP>#<SP>y NL <SP>{.b} <SP>[c]:<SP>d",
            "><SP>[^a]:<SP>x -<SP>[^b]:<SP>y [^a][^b] NL #<SP>[^a] ^<SP>[^b]",
            "[^a]*x*[^b] [^b]:<SP><PIPE>[^c]<PIPE> [^c]:<SP>*[^d]* [^d]:<SP>[^a] NL [^a]:<SP>[^d]",
            "[^a] [^a]:<SP>x [^a]:<SP>y [^b]:<SP>[^b] [^b] NL",
        ],
        5.0,
        o,
    );
    v.extend(of(
        &[
            "[^a] [^b] [^a]: SP NL x",
            "[^a]: [^b]: [^a] [^b] NL SP",
            "[^a]: <SP> NL - > [^a]",
            "[^ ] : a NL SP b",
            "[^a] {.b} [^a]: NL SP x",
            "[^a] [^a]:<SP>x NL ![ ](b) *",
            "[^a] <PIPE> NL [^a]:<SP>[^b] -",
        ],
        4.0,
        o,
    ));
    v.extend(bounds(o));
    let within: Vec<String> = block_constructs()
        .iter()
        .map(|c| {
            let indented = c.lines().map(|l| {
                if l.is_empty() {
                    "\n".into()
                } else {
                    format!("  {l}\n")
                }
            });
            indented.collect()
        })
        .chain(["a[^b]\n".into(), "[^b]: c[^a]\n".into(), "# [^a]\n".into()])
        .collect();
    for pre in ["[^a]\n\n[^a]: x\n", "[^a] [^b]\n\n[^a]:\n"] {
        let mut g = group(pre, "", within.clone(), 4.0, o);
        g.name = format!("{pre:?} ..: all block constructs");
        v.push(g);
    }
    let mut g = group(
        "[^a] [^b]\n\n[^a]: ",
        "\n\n[^b]: d",
        inline_constructs(),
        5.5,
        o,
    );
    g.name = "note with all inline constructs".into();
    v.push(g);
    v.push(choices("references and definitions", render::notes));
    v.push(around("[^a]", "\n\n[^a]: b", 0.5, o));
    v.push(around("[^", "]\n\n[^a]: b", 0.5, o));
    v.push(around("[^a]\n\n[^a]:", "b", 0.5, o));
    v.push(around("[^a]\n\n[^a]: b\n", "c", 0.5, o));
    v.push(around("[^a]\n\n[^a]: ", "b", 11.0, o));
    v
}

fn rendered(o: Oracle, unit: f64) -> Vec<Group> {
    let mut v = all(unit, o);
    v.extend(of(
        &[
            "< > & \" ' a",
            "[ ] ( ) & \" a <",
            "![ ] ( ) & \" * NL",
            "{ } k= \" & < ' a",
            "{ } .a #b class=c id=d SP x",
            "`a` `<` {=html} {=x} $ {.b}",
            "``` =html <NL> <b> a NL",
            "<a:& > \" ' @ <",
            "![ ]( ) `a` \\ NL [^a] :b:",
        ],
        2.0 * unit,
        o,
    ));
    v.extend(of_lines(
        &[
            "-<SP>a NL <SP><SP>b <SP><SP>-<SP>c {.d}",
            "1.<SP>a 3)<SP>b i.<SP>c (C)<SP>d NL {start=5}",
            "{#x} #<SP>a {.y} {id=z} NL ##<SP>b",
            "-<SP>[<SP>]<SP>a -<SP>[X]<SP>b NL <SP><SP>c {.d}",
            "<PIPE>a<PIPE> <PIPE>:-<PIPE>-:<PIPE> <PIPE>b<PIPE>c<PIPE> NL ^<SP>c {.d}",
            "```<SP>=html ``` ```<SP>a <b> NL {.c}",
            ":::<SP>a {.b} ::: NL {class=c} d",
            ":<SP>a <SP><SP>b NL {.c} <SP><SP>{.d} [^a]",
        ],
        2.0 * unit,
        o,
    ));
    v
}

fn driven() -> Vec<Group> {
    vec![
        choices(
            "built events: each container with attributes and contents",
            built::containers,
        ),
        choices("built events: nesting of containers", built::nesting),
        choices("built events: inline content", built::inlines),
        choices("built events: lists", built::lists),
    ]
}

pub fn check(id: &str) -> Option<Check> {
    let c = match id {
        "C01" => {
            let mut c = mc("C01", all(1.0, inv::total));
            c.groups.push(list(
                "nesting up to 100000, in a process of its own",
                inv::deep_cases(),
                inv::deep_case,
            ));
            c
        }
        "C02" => mc("C02", all(1.0, inv::balanced)),
        "C03" => mc("C03", all(1.0, inv::content)),
        "C04" => mc("C04", all(1.0, inv::ranges)),
        "C05" => mc("C05", all(1.0, inv::syntax_of_ranges)),
        "C06" => mc("C06", all(1.0, inv::coverage)),
        "C07" => {
            let mut v = Vec::new();
            for s in INLINE {
                v.push(sp(s, 0.4, meta::block_independent));
                v.push(sp(s, 0.03, meta::neighbour_independent));
            }
            v.push(around("", "", 11.0, meta::block_independent));
            v.push(group(
                "",
                "",
                inline_constructs(),
                5.5,
                meta::block_independent,
            ));
            v.push(group(
                "",
                "",
                inline_constructs(),
                0.07,
                meta::neighbour_independent,
            ));
            v.push(list(
                "repeated pairs of constructs",
                repeated(&inline_constructs()),
                meta::block_independent,
            ));
            v.push(around("", "", 0.11, meta::neighbour_independent));
            v.push(list(
                "deeply nested constructs",
                deep(),
                meta::block_independent,
            ));
            mc("C07", v)
        }
        "C08" => {
            let mut v = Vec::new();
            for s in BLOCK.iter().chain(&INLINE) {
                v.push(sp(&s.replace("PIPE", "<PIPE>"), 0.25, meta::transparent));
            }
            v.extend(documents(0.25, meta::transparent));
            v.extend(contexts(0.05, meta::transparent));
            for o in [
                meta::transparent_in_quote,
                meta::transparent_in_item,
                meta::transparent_in_div,
                meta::transparent_in_note,
            ] {
                for s in [BLOCK[0], BLOCK[1], BLOCK[2], BLOCK[5], BLOCK[7]] {
                    v.push(sp(&s.replace("PIPE", "<PIPE>"), 0.1, o));
                }
                v.extend(documents(0.1, o));
            }
            v.extend(focused(0.015, meta::transparent));
            v.extend(constructs(0.2, meta::transparent));
            v.extend(short(400, bounds(meta::transparent)));
            mc("C08", v)
        }
        "C09" => mc("C09", conforming(c09)),
        "C10" => mc("C10", conforming(c10)),
        "C11" => mc("C11", conforming(c11)),
        "C12" => mc("C12", conforming(c12)),
        "C13" => mc("C13", deeper(2.5, conforming(c13))),
        "C14" => mc("C14", deeper(2.5, conforming(c14))),
        "C15" => mc("C15", deeper(2.5, conforming(c15))),
        "C16" => mc("C16", conforming(c16)),
        "C17" => mc("C17", conforming(c17)),
        "C18" => mc("C18", deeper(2.5, conforming(c18))),
        "C19" => mc("C19", deeper(2.5, conforming(c19))),
        "C20" => mc("C20", deeper(6.0, c20())),
        "C21" => mc("C21", deeper(6.0, c21())),
        "C22" => mc("C22", conforming(c22)),
        "C23" => mc("C23", deeper(2.5, conforming(c23))),
        "C24" => mc("C24", c24()),
        "C25" => {
            let mut v = rendered(render::html, 0.6);
            v.extend(driven());
            mc("C25", v)
        }
        "C26" => mc("C26", rendered(render::wellformed, 0.6)),
        "C27" => {
            let mut v = rendered(render::formats, 0.3);
            v.extend(driven());
            mc("C27", v)
        }
        "C28" => {
            let mut v = Vec::new();
            for s in BLOCK.iter().chain(&INLINE) {
                v.push(sp(&s.replace("PIPE", "<PIPE>"), 0.01, sinks::sinks));
            }
            v.extend(documents(0.01, sinks::sinks));
            v.extend(constructs(0.005, sinks::sinks));
            v.extend(short(7, bounds(sinks::sinks)));
            let mut c = mc("C28", v);
            c.level = "fault_enumeration";
            c
        }
        "C29" => {
            let mut v = general(0.1, sinks::clones);
            v.extend(focused(0.01, sinks::clones));
            v.extend(short(60, bounds(sinks::clones)));
            v.push(choices(
                "interleavings of two parsers and renderers",
                sinks::interleave,
            ));
            v.push(choices("histories of parsed documents", sinks::history));
            v.push(choices(
                "histories of documents in the same buffer",
                sinks::same_buffer,
            ));
            mc("C29", v)
        }
        "C30" => {
            let mut c = mc(
                "C30",
                vec![
                    choices("arguments and files that fail", cli::paths),
                    choices("input that is not UTF-8", cli::invalid_input),
                    choices("outputs that accept nothing", cli::refused),
                    choices("inputs, outputs and options", cli::options),
                    choices("outputs without room, at every position", cli::full),
                    choices("documents", cli::documents),
                    choices("large documents", cli::large),
                ],
            );
            c.level = "fault_enumeration";
            c
        }
        "C31" => {
            let mut v = Vec::new();
            for s in BLOCK.iter().chain(&INLINE) {
                let s = s.replace("PIPE", "<PIPE>");
                v.push(sp(&s, 0.3, meta::line_ends));
                v.push(sp(&s, 0.3, meta::continuation));
                v.push(sp(&s, 0.3, meta::marker_spaces));
            }
            v.extend(documents(0.3, meta::line_ends));
            for o in [meta::line_ends, meta::continuation, meta::marker_spaces] {
                v.extend(constructs(0.1, o));
                v.extend(short(60, bounds(o)).into_iter().map(|mut g| {
                    let len = match &*g.name {
                        "pairs of constructs in containers" => 16,
                        "edited pairs of constructs" => 9,
                        _ => 60,
                    };
                    if let Cases::List(c) = &mut g.cases {
                        c.retain(|s| s.len() <= len);
                    }
                    g
                }));
            }
            let mut s = every();
            s.retain(|s| s != "\u{e9}");
            s.insert(0, "\u{e9}".into());
            for (pre, post) in [
                ("", ""),
                ("\u{e9}", ""),
                ("", "\u{e9}"),
                ("a\n", "\u{e9}"),
                ("- \u{e9}", ""),
            ] {
                let mut g = group(pre, post, s.clone(), 0.2, meta::unicode);
                g.name = format!("{pre:?} .. {post:?}: other characters than ASCII");
                v.push(g);
            }
            for s in BLOCK.iter().chain(&INLINE) {
                v.push(sp(
                    &format!(
                        "\u{e9} {}",
                        s.replace("PIPE", "<PIPE>").replace("\u{e9} ", "")
                    ),
                    0.2,
                    meta::unicode,
                ));
            }
            mc("C31", v)
        }
        "C32" => {
            let mut v = general(0.3, inv::classification);
            v.extend(focused(0.03, inv::classification));
            v.extend(bounds(inv::classification));
            v.push(list(
                "every character",
                (0..=0x10_ffff)
                    .filter_map(char::from_u32)
                    .map(String::from)
                    .collect(),
                inv::bullet,
            ));
            mc("C32", v)
        }
        "C33" => {
            let mut v = general(0.1, meta::separated);
            v.extend(focused(0.003, meta::separated));
            v.extend(short(60, bounds(meta::separated)).into_iter().map(|mut g| {
                let len = match &*g.name {
                    "pairs of constructs in containers" => 13,
                    "edited constructs" | "edited pairs of constructs" => 5,
                    "literals of the source code" | "markers of ordered lists" => 8,
                    _ => 60,
                };
                if let Cases::List(c) = &mut g.cases {
                    c.retain(|s| s.len() <= len);
                }
                g
            }));
            mc("C33", v)
        }
        _ => return None,
    };
    Some(c)
}
