//! C13 strict hexadecimal input, C21 syntax highlighting.

use super::*;

pub fn spaces() -> Vec<Space> {
    vec![
        space("C13", "c13-chars", "all texts of 0..6 (thorough 7) characters over 16 characters", c13_chars),
        space("C13", "c13-unicode", "every Unicode scalar value in 6 contexts", c13_unicode),
        space("C13", "c13-tokens", "sequences of 1..4 tokens from 14 spellings joined by each of 9 separators, with 6 paddings before and after", c13_tokens),
        space(
            "C13",
            "c13-long",
            "compact and separated texts of every byte count 1..60 (thorough 1..300), intact or with one digit missing or replaced at every position",
            c13_long,
        ),
        space("C13", "c13-token", "texts with one token of 0..100 characters of 1 to 4 bytes at 4 alignments, 4 leads, 3 endings", c13_token),
        space("C13", "c13-big", "texts of 1000 to 65536 bytes in 4 spellings, intact or with one fault at every 1/16", c13_big),
        space(
            "C13",
            "c13-affix",
            "every 1, 2 or 3 printable ASCII characters before, after or inside a byte (3 inside: thorough) and 4 of 25 characters around it, alone, first and last of three bytes",
            c13_affix,
        ),
        space("C13", "c13-deep", "all texts of 0..8 (thorough 9) characters over 8 characters", c13_deep),
        space("C21", "c21-chars", "all texts of 0..4 (thorough 5) characters over 18 characters in 6 languages", c21_chars),
        space("C21", "c21-tokens", "all sequences of 0..4 (thorough 5) out of 20 tokens of the 4 languages, in 6 languages", c21_tokens),
        space("C21", "c21-long", "texts of 13 units repeated 0..300, 1000 and 4096 times, in 6 languages", c21_long),
        space(
            "C21",
            "c21-context",
            "14 opening contexts followed by all texts of 0..2 (thorough 4) characters over 24 characters and 4 endings in 6 languages",
            c21_context,
        ),
        space("C21", "c21-unicode", "every Unicode scalar value in 5 languages and 2 contexts", c21_unicode),
        space("C21", "c21-output", "rendered JSON, YAML, CSV, XML and Mermaid of telegrams with every text byte, in 6 languages", c21_output),
    ]
}

// ---------------------------------------------------------------------------------------- C13

pub fn model_hex(input: &str) -> Result<Vec<u8>, (&'static str, Option<usize>)> {
    let start = input.find(|c: char| !c.is_whitespace());
    let Some(start) = start else {
        return Err(("input.empty", None));
    };
    let body = input.trim_end();
    let body = &body[start..];
    let digit = |b: u8| -> Option<u8> {
        match b {
            b'0'..=b'9' => Some(b - b'0'),
            b'a'..=b'f' => Some(b - b'a' + 10),
            b'A'..=b'F' => Some(b - b'A' + 10),
            _ => None,
        }
    };
    if body.bytes().all(|b| digit(b).is_some()) {
        if body.len() % 2 == 1 {
            return Err(("input.invalid_hex", Some(start + body.len() - 1)));
        }
        return Ok(body.as_bytes().chunks(2).map(|c| digit(c[0]).unwrap() * 16 + digit(c[1]).unwrap()).collect());
    }
    let sep = |b: u8| matches!(b, b' ' | b'\t' | b'\n' | b'\r' | 0x0C | b':' | b'-');
    let b = body.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if sep(b[i]) {
            i += 1;
            continue;
        }
        let mut e = i;
        while e < b.len() && !sep(b[e]) {
            e += 1;
        }
        let mut t = &b[i..e];
        if t.len() >= 2 && t[0] == b'0' && (t[1] | 0x20) == b'x' {
            t = &t[2..];
        }
        match t {
            [h, l] if digit(*h).is_some() && digit(*l).is_some() => out.push(digit(*h).unwrap() * 16 + digit(*l).unwrap()),
            _ => return Err(("input.invalid_hex", Some(start + i))),
        }
        i = e;
    }
    if out.is_empty() {
        return Err(("input.empty", None));
    }
    Ok(out)
}

fn c13_check(ch: &mut Ch, text: &str) -> Res {
    ch.note(|| format!("text={text:?}"));
    let want = model_hex(text);
    let got = m_bus_parser::decode_hex_bytes(text).map_err(|e| (e.code(), e.byte_offset()));
    ch.ok();
    if got != want {
        return fail("hex", format!("implementation {got:?}, model {want:?}"));
    }
    // the text entry points read the same bytes
    let a = m_bus_parser::decode_hex(text, &options(None));
    let b = m_bus_parser::decode_data_records_hex(text);
    let c = m_bus_parser::render_hex(text, m_bus_parser::OutputFormat::Annotated, &Default::default());
    match &want {
        Err(e) => {
            for (name, r) in [
                ("decode", a.err().map(|e| (e.code(), e.byte_offset()))),
                ("records", b.err().map(|e| (e.code(), e.byte_offset()))),
                ("render", c.err().map(|e| (e.code(), e.byte_offset()))),
            ] {
                if r != Some(*e) {
                    return fail("entry", format!("{name}: {r:?}, model {e:?}"));
                }
            }
            refused(&e)
        }
        Ok(bytes) => {
            let code = |e: &m_bus_parser::OutputError| e.code().starts_with("input.");
            if a.as_ref().is_err_and(code) || b.as_ref().is_err_and(code) || c.as_ref().is_err_and(code) {
                return fail("entry", "an entry point refuses the text");
            }
            if let Ok(o) = &a {
                if o.raw.original_frame_hex != hex(bytes) {
                    return fail("entry", format!("decoded bytes {}", o.raw.original_frame_hex));
                }
            }
            out(bytes)
        }
    }
}

fn c13_chars(ch: &mut Ch) -> Res {
    const A: [char; 16] = ['0', '9', 'a', 'F', 'E', '5', 'x', 'X', ' ', ':', '-', '\n', 'g', ',', 'é', '\u{b}'];
    let n = ch.n(ch.tier(7, 8));
    let s: String = (0..n).map(|_| ch.of(&A)).collect();
    c13_check(ch, &s)
}

fn c13_unicode(ch: &mut Ch) -> Res {
    let hi = ch.n(0x110);
    let lo = ch.n(0x1000);
    let Some(c) = char::from_u32((hi * 0x1000 + lo) as u32) else {
        return refused(&0);
    };
    let s = match ch.n(6) {
        0 => format!("{c}"),
        1 => format!("0A{c}0B"),
        2 => format!("{c}0A"),
        3 => format!("0A{c}"),
        4 => format!("0{c}"),
        _ => format!("0A 0x{c}1 0B"),
    };
    c13_check(ch, &s)
}

fn c13_tokens(ch: &mut Ch) -> Res {
    const T: [&str; 14] = ["E5", "0xE5", "0Xe5", "e", "0x", "0xE", "E5E5", "0xE5E5", "x5", "0x0x", "5x0", "00x5", "+1", "#"];
    const S: [&str; 9] = [" ", ":", "-", "\t", "\r\n", "  ", " - ", "", "\u{a0}"];
    const P: [&str; 6] = ["", " ", "\n\t", "\u{3000}", ":", "-"];
    let n = 1 + ch.n(4);
    let mut s = ch.of(&P).to_string();
    for i in 0..n {
        if i > 0 {
            s.push_str(if n == 4 { ch.of(&S[..3]) } else { ch.of(&S) });
        }
        s.push_str(if n == 4 { ch.of(&T[..6]) } else { ch.of(&T) });
    }
    s.push_str(ch.of(&P));
    c13_check(ch, &s)
}

fn c13_long(ch: &mut Ch) -> Res {
    let n = 1 + ch.n(ch.tier(60, 300));
    let sep = ch.of(&["", " ", ":", "0x"]);
    let b = crate::gen::pattern(n, 0x31);
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i > 0 && sep != "0x" {
            s.push_str(sep);
        }
        if sep == "0x" {
            s.push_str(" 0x");
        }
        s.push_str(&format!("{x:02x}"));
    }
    match ch.n(4) {
        0 => {}
        1 => {
            let p = ch.n(s.len());
            s.remove(p);
        }
        2 => {
            let p = ch.n(s.len());
            s.replace_range(p..p + 1, "g");
        }
        _ => {
            let p = ch.n(s.len());
            s.insert(p, '0');
        }
    }
    c13_check(ch, &s)
}

fn c13_affix(ch: &mut Ch) -> Res {
    const A: &[u8; 25] = b"\\&#;%$uUxXhH0'\"<>()[]{},/";
    let n = 1 + ch.n(4);
    let at = ch.n(if n == 3 { ch.tier(2, 3) } else { 3 });
    let x: String = (0..n).map(|_| if n == 4 { ch.of(A) } else { b' ' + ch.n(95) as u8 } as char).collect();
    let t = match at {
        0 if n == 4 => format!("{}4A{}", &x[..3], &x[3..]),
        1 if n == 4 => format!("{}4A{}", &x[..2], &x[2..]),
        2 if n == 4 => format!("{x}4A"),
        0 => format!("{x}4A"),
        1 => format!("4A{x}"),
        _ => format!("4{x}A"),
    };
    let s = match ch.n(3) {
        0 => t,
        1 => format!("{t} 4B:4C"),
        _ => format!("4B-4C {t}"),
    };
    c13_check(ch, &s)
}

fn c13_big(ch: &mut Ch) -> Res {
    let n = ch.of(&[1000usize, 4095, 4096, 4097, 65_535, 65_536]);
    let sep = ch.of(&["", " ", ":", " 0x"]);
    let mut s = crate::gen::pattern(n, 0x31).iter().map(|x| format!("{x:02X}")).collect::<Vec<_>>().join(sep);
    let p = s.len() * ch.n(17) / 17;
    match ch.n(4) {
        0 => {}
        1 => {
            s.remove(p);
        }
        2 => s.replace_range(p..p + 1, "g"),
        _ => s.insert(p, '0'),
    }
    c13_check(ch, &s)
}

fn c13_deep(ch: &mut Ch) -> Res {
    const A: [char; 8] = ['0', 'a', 'E', '5', 'x', ' ', ':', '\u{a0}'];
    let n = ch.n(ch.tier(9, 10));
    let s: String = (0..n).map(|_| ch.of(&A)).collect();
    c13_check(ch, &s)
}

// ---------------------------------------------------------------------------------------- C21

fn c21_check(ch: &mut Ch, source: &str, language: &str) -> Res {
    ch.note(|| format!("source={source:?} language={language:?}"));
    let Ok(html) = m_bus_parser_wasm_pack::m_bus_highlight(source, language) else {
        return fail("error", "highlighting failed");
    };
    ch.ok();
    let mut text = String::new();
    let mut depth = 0i32;
    let mut spans = 0u32;
    let mut rest = html.as_str();
    while let Some(c) = rest.chars().next() {
        if c == '<' {
            if let Some(r) = rest.strip_prefix("</span>") {
                depth -= 1;
                if depth < 0 {
                    return fail("tags", format!("unbalanced closing tag in {html:?}"));
                }
                rest = r;
            } else if let Some(r) = rest.strip_prefix("<span class=\"") {
                let Some(end) = r.find('"') else {
                    return fail("tags", format!("open attribute in {html:?}"));
                };
                if !r[..end].chars().all(|c| c.is_ascii_alphanumeric() || " -_.+#/".contains(c)) {
                    return fail("tags", format!("unexpected class {:?}", &r[..end]));
                }
                let Some(r) = r[end + 1..].strip_prefix('>') else {
                    return fail("tags", format!("unexpected attribute in {html:?}"));
                };
                depth += 1;
                spans += 1;
                rest = r;
            } else {
                return fail("markup", format!("raw markup in {html:?}"));
            }
        } else if c == '&' {
            let Some(end) = rest.find(';') else {
                return fail("markup", format!("raw & in {html:?}"));
            };
            let ent = &rest[1..end];
            let decoded = match ent {
                "amp" => Some('&'),
                "lt" => Some('<'),
                "gt" => Some('>'),
                "quot" => Some('"'),
                "apos" => Some('\''),
                _ => ent
                    .strip_prefix("#x")
                    .and_then(|h| u32::from_str_radix(h, 16).ok())
                    .or_else(|| ent.strip_prefix('#').and_then(|d| d.parse().ok()))
                    .and_then(char::from_u32),
            };
            let Some(d) = decoded else {
                return fail("markup", format!("unknown entity in {html:?}"));
            };
            text.push(d);
            rest = &rest[end + 1..];
        } else {
            text.push(c);
            rest = &rest[c.len_utf8()..];
        }
    }
    if depth != 0 {
        return fail("tags", format!("{depth} open tags in {html:?}"));
    }
    if text != source {
        return fail("lossless", format!("text {text:?} from {html:?}"));
    }
    out(&(spans, html.len()))
}

const LANGS: [&str; 6] = ["json", "yaml", "xml", "csv", "text", " CSV "];

fn c21_chars(ch: &mut Ch) -> Res {
    const A: [char; 18] = ['<', '>', '&', '"', '\'', ',', '\n', '\r', '{', ':', '-', '#', 'a', '1', ' ', '/', '\\', 'é'];
    let lang = ch.of(&LANGS);
    let n = ch.n(ch.tier(5, 6));
    let s: String = (0..n).map(|_| ch.of(&A)).collect();
    c21_check(ch, &s, lang)
}

fn c21_tokens(ch: &mut Ch) -> Res {
    const T: [&str; 20] = [
        "\"a\"",
        "\"",
        "\"\"",
        "'",
        "\\\"",
        ",",
        "\r\n",
        "\n",
        "<a b=\"c\">",
        "</a>",
        "<!--",
        "-->",
        "&amp;",
        "key: ",
        "- ",
        "# ",
        "-1.5e3",
        "true",
        "\u{1f44d}",
        "  ",
    ];
    let lang = ch.of(&LANGS);
    let n = ch.n(ch.tier(5, 6));
    let s: String = (0..n).map(|_| ch.of(&T)).collect();
    c21_check(ch, &s, lang)
}

fn c21_long(ch: &mut Ch) -> Res {
    const U: [&str; 13] = ["a", "\"", ",", "\n", "\r\n", "\"a\",", "{\"a\":", "[", "<a>", "<", "&", "- a: ", "\u{6f22}"];
    let lang = ch.of(&LANGS);
    let u = ch.of(&U);
    let n = ch.n(303);
    let n = [1000, 4096].get(n.wrapping_sub(301)).copied().unwrap_or(n);
    c21_check(ch, &u.repeat(n), lang)
}

fn c21_context(ch: &mut Ch) -> Res {
    const C: [&str; 14] =
        ["{\"a\": \"", "{\"a\":", "[1, ", "<a b=\"", "<a b='", "<!-- ", "<![CDATA[", "<?xml ", "key: |\n  ", "- &", "a: \"", "x,\"", "\"\"\"", "# "];
    const A: [char; 24] = ['<', '>', '&', '"', '\'', ',', '\n', '\r', '{', '}', ']', ':', '-', '#', 'a', '1', ' ', '/', '\\', 'é', '\t', '\u{0}', ';', '!'];
    let lang = ch.of(&LANGS);
    let mut s = ch.of(&C).to_string();
    let n = ch.n(ch.tier(3, 5));
    for _ in 0..n {
        s.push(ch.of(&A));
    }
    s.push_str(ch.of(&["", "\n", "\"}\n", " -->\n<x>"]));
    c21_check(ch, &s, lang)
}

fn c21_unicode(ch: &mut Ch) -> Res {
    let hi = ch.n(0x1100);
    let lo = ch.n(0x100);
    let Some(c) = char::from_u32((hi * 0x100 + lo) as u32) else {
        return refused(&0);
    };
    let lang = ch.of(&LANGS[..5]);
    let s = if ch.flag() { format!("{c}") } else { format!("\"a{c}b\": <{c}>,\n{c}") };
    c21_check(ch, &s, lang)
}

fn c21_output(ch: &mut Ch) -> Res {
    use m_bus_parser::OutputFormat as F;
    let b = ch.byte();
    let f = ch.of(&[F::Json, F::Yaml, F::Csv, F::Xml, F::Mermaid]);
    let lang = ch.of(&LANGS);
    let d = stream(&[0x0D, 0x78, 0x05, b'<', b, b'"', b, b'&']);
    let Ok(s) = m_bus_parser::render_bytes(&d, f, &Default::default()) else {
        return refused(&0);
    };
    c21_check(ch, &s, lang)
}

fn c13_token(ch: &mut Ch) -> Res {
    let s = crate::gen::token(ch);
    c13_check(ch, &s)
}
