//! C23: what the formal syntax does not allow is rejected. Only built without quirks.
use imap_codec::imap_types::{
    command::{Command, CommandBody},
    core::*,
    fetch::MessageDataItem,
    response::*,
    search::SearchKey,
};

use super::types::candidate;
use crate::{
    gen,
    refp::{self, NumKind, Printed, Style},
    tape::Src,
    util::*,
    Cx, Prop,
};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        rule: "every case: a valid message with one thing that the formal syntax forbids, or one token or date at a place of the protocol; distinct by wire bytes",
        f: c23,
    }]
}

fn c23(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    match s.below(8) {
        0..=4 => damaged(s, cx),
        5 => tokens(s, cx),
        6 => dates(s, cx),
        _ => forms(s, cx),
    }
}

/// Positions outside of quoted strings, literals (with their announcement) and dates.
fn structural(p: &Printed, extra: &[(usize, usize)]) -> Vec<bool> {
    let mut v = vec![true; p.out.len()];
    let n = p.out.len() - 2;
    v[n..].fill(false);
    for (a, b) in p.quoted.iter().chain(&p.dates).chain(extra) {
        v[*a..*b].fill(false);
    }
    for l in &p.lits {
        v[l.ann..l.end].fill(false);
    }
    v
}

/// Commands and data have no free text.
fn plain_msg(s: &mut Src) -> Msg {
    match s.below(2) {
        0 => Msg::Command(gen::command(s)),
        _ => Msg::Response(Response::Data(gen::data(s))),
    }
}

fn with(w: &[u8], at: usize, cut: usize, ins: &[u8]) -> Vec<u8> {
    [&w[..at], ins, &w[at + cut..]].concat()
}

/// The end of the parenthesised group that starts at `i`.
fn group(w: &[u8], st: &[bool], i: usize) -> Option<usize> {
    let mut depth = 0;
    for j in i..w.len() {
        if st[j] {
            match w[j] {
                b'(' => depth += 1,
                b')' => depth -= 1,
                _ => {}
            }
            if depth == 0 {
                return Some(j + 1);
            }
        }
    }
    None
}

/// Whether the list at `i` is one of those that may be empty.
fn may_be_empty(w: &[u8], st: &[bool], i: usize, e: usize) -> bool {
    let before = w[..i].to_ascii_uppercase();
    if before.ends_with(b"FLAGS ") || before.ends_with(b"FLAGS.SILENT ") {
        return true;
    }
    // Perhaps the parameters of a body, where it is accepted on purpose.
    let inside = |c: u8| (i + 1..e).filter(|j| st[*j] && w[*j] == c).count();
    if before.ends_with(b" ") && inside(b'(') == 0 && inside(b' ') % 2 == 1 && before.windows(8).any(|x| x == b" FETCH (") {
        return true;
    }
    let depth = (0..i).filter(|j| st[*j]).fold(0i32, |d, j| d + i32::from(w[j] == b'(') - i32::from(w[j] == b')'));
    let mut words = before.split(|b| *b == b' ');
    let (tag, name) = (words.next().unwrap_or_default(), words.next().unwrap_or_default());
    let data = tag == b"*";
    depth == 0
        && match name {
            b"LIST" | b"LSUB" => data,
            b"APPEND" | b"SETQUOTA" => !data,
            // the types have empty lists of items
            b"FETCH" => !data,
            b"UID" => words.next() == Some(b"FETCH"),
            b"STATUS" | b"ID" => true,
            _ => false,
        }
}

fn damaged(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let m = plain_msg(s);
    let p = refp::print(&m, Style::Rand(s), true);
    let st = structural(&p, &[]);
    let pos: Vec<usize> = (0..p.out.len()).filter(|i| st[*i]).collect();
    let of = |f: &dyn Fn(u8) -> bool| -> Vec<usize> { pos.iter().copied().filter(|i| f(p.out[*i])).collect() };
    let any = |s: &mut Src, v: Vec<usize>| (!v.is_empty()).then(|| *s.pick(&v));
    // a place in the middle of structural text
    let (name, w): (&'static str, Option<Vec<u8>>) = match s.below(12) {
        0 => (
            "number too large",
            (!p.numbers.is_empty()).then(|| {
                let (a, b, k) = *s.pick(&p.numbers);
                let n = match k {
                    NumKind::U32 | NumKind::Nz32 => match s.below(4) {
                        0 => "4294967296".to_string(),
                        1 => (4_294_967_296 + s.below(1 << 40)).to_string(),
                        2 => "18446744073709551617".into(),
                        _ => format!("{}0000000000", s.range(1, 99)),
                    },
                    NumKind::U64 | NumKind::Nz64 => match s.below(3) {
                        0 => "18446744073709551616".to_string(),
                        1 => "36893488147419103233".into(),
                        _ => format!("{}00000000000000000000", s.range(1, 99)),
                    },
                };
                with(&p.out, a, b - a, n.as_bytes())
            }),
        ),
        1 => ("zero", {
            let v: Vec<_> = p.numbers.iter().filter(|n| matches!(n.2, NumKind::Nz32 | NumKind::Nz64)).collect();
            (!v.is_empty()).then(|| {
                let (a, b, _) = **s.pick(&v);
                with(&p.out, a, b - a, if s.bool() { b"0" } else { b"00" })
            })
        }),
        2 => (
            "not a number",
            (!p.numbers.is_empty()).then(|| {
                let (a, b, _) = *s.pick(&p.numbers);
                let mut n = p.out[a..b].to_vec();
                let i = s.idx(n.len() + 1);
                n.insert(i, *s.pick(b"abxe.-+_ "));
                // a dot or space may start something else: only the sign in front, or a letter
                if !n[i].is_ascii_alphabetic() && n[i] != b'_' {
                    n = [if s.bool() { b"-" } else { b"+" }, &p.out[a..b]].concat();
                }
                with(&p.out, a, b - a, &n)
            }),
        ),
        3 => ("two spaces", any(s, of(&|b| b == b' ')).map(|i| with(&p.out, i, 0, b" "))),
        4 => ("space inserted", any(s, pos.iter().copied().filter(|i| p.out[*i] == b'(' && st.get(*i + 1) == Some(&true)).collect()).map(|i| with(&p.out, i + 1, 0, b" "))),
        // (an empty initial response is in the grammar)
        5 => ("space before the line end", (!matches!(&m, Msg::Command(Command { body: CommandBody::Authenticate { .. }, .. }))).then(|| with(&p.out, p.out.len() - 2, 0, b" "))),
        6 => ("unbalanced", {
            if s.bool() {
                any(s, of(&|b| b == b'(' || b == b')')).map(|i| with(&p.out, i, 1, b""))
            } else {
                let c: &[u8] = if s.bool() { b"(" } else { b")" };
                any(s, pos.clone()).map(|i| with(&p.out, i, 0, c))
            }
        }),
        7 => ("control or 8-bit byte", {
            let b = *s.pick(&[0u8, 1, 7, 9, 11, 12, 0x1b, 0x1f, 0x7f, 0x80, 0xa0, 0xc3, 0xff]);
            any(s, pos.clone()).map(|i| with(&p.out, i, 0, &[b]))
        }),
        8 => ("line end inside", {
            let b: &[u8] = *s.pick(&[&b"\r"[..], b"\r\r\n"]);
            any(s, pos.clone()).map(|i| with(&p.out, i, 0, b)).map(|w| if s.one_in(4) { with(&p.out, p.out.len() - 2, 2, b"\r\r\n") } else { w })
        }),
        9 => ("byte in quoted", {
            let b: &[u8] = *s.pick(&[&b"\r"[..], b"\n", b"\r\n", b"\xff", b"\xc0\x80", b"\xed\xa0\x80", b"\\a", b"\\ ", b"\\\r", b"\\n", b"\x80"]);
            let q: Vec<_> = p.quoted.iter().filter(|q| q.1 - q.0 >= 2).collect();
            (!q.is_empty()).then(|| {
                let (a, e) = **s.pick(&q);
                // not behind a backslash
                let mut ok = vec![];
                let mut i = a + 1;
                while i < e {
                    ok.push(i);
                    i += if p.out[i] == b'\\' { 2 } else { 1 };
                }
                let i = *s.pick(&ok);
                with(&p.out, i, 0, b)
            })
        }),
        10 => ("emptied list", {
            let v: Vec<(usize, usize)> = of(&|b| b == b'(').into_iter().filter_map(|i| group(&p.out, &st, i).map(|e| (i, e))).filter(|(i, e)| e - i > 2 && !may_be_empty(&p.out, &st, *i, *e)).collect();
            (!v.is_empty()).then(|| {
                let (a, e) = *s.pick(&v);
                with(&p.out, a, e - a, b"()")
            })
        }),
        _ => ("NUL in a literal", {
            let l: Vec<_> = p.lits.iter().filter(|l| !l.lit8 && l.end > l.start).collect();
            (!l.is_empty()).then(|| {
                let l = *s.pick(&l);
                let i = l.start + s.idx(l.end - l.start);
                with(&p.out, i, 1, b"\0")
            })
        }),
    };
    let Some(w) = w else {
        return dropped_space(s, cx, &m, &p, &st);
    };
    cx.label(name);
    cx.nontrivial(&w);
    cx.sample(|| format!("{name}: {}", esc(&w)));
    match decode(m.kind(), &w) {
        Dec::Failed => Ok(()),
        o => Err(format!("{name}: {} gives {o:?}", esc(&w))),
    }
}

/// Without one of its spaces a message is never the same message.
fn dropped_space(s: &mut Src, cx: &mut Cx, m: &Msg, p: &Printed, st: &[bool]) -> Result<(), String> {
    let v: Vec<usize> = (0..p.out.len()).filter(|i| st[*i] && p.out[*i] == b' ').collect();
    if v.is_empty() {
        return Ok(());
    }
    let w = with(&p.out, *s.pick(&v), 1, b"");
    cx.label("dropped space");
    cx.nontrivial(&w);
    cx.sample(|| format!("dropped space: {}", esc(&w)));
    match decode(m.kind(), &w) {
        Dec::Ok { msg, .. } if msg == m.expected() => Err(format!("dropped-space: {} gives the same as {}", esc(&w), esc(&p.out))),
        _ => Ok(()),
    }
}

fn cmd(b: CommandBody<'static>) -> Msg {
    Msg::Command(Command { tag: Tag::try_from("A").unwrap(), body: b })
}

/// A token at a place of the protocol is accepted exactly if the grammar allows it there.
fn tokens(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let v = candidate(s);
    let all1 = |f: fn(u8) -> bool| !v.is_empty() && v.iter().all(|b| f(*b));
    // A candidate with one of these has structure of its own.
    let bare = |stop: &[u8]| !v.iter().any(|b| stop.contains(b));
    let (name, k, pre, post, want): (&'static str, Kind, &str, &str, Option<bool>) = match s.below(12) {
        0 => ("tag", Kind::Command, "", " NOOP", bare(b" ").then(|| all1(gen::is_tag_char))),
        1 => ("response tag", Kind::Response, "", " OK x", (bare(b" ") && v != b"*" && v != b"+").then(|| all1(gen::is_tag_char))),
        2 => ("mailbox", Kind::Command, "A CREATE ", "", bare(b" \"{").then(|| all1(gen::is_astring_char))),
        3 => ("user", Kind::Command, "A LOGIN ", " x", bare(b" \"{").then(|| all1(gen::is_astring_char))),
        4 => ("list pattern", Kind::Command, "A LIST x ", "", bare(b" \"{").then(|| all1(gen::is_list_char))),
        5 => ("keyword", Kind::Command, "A SEARCH KEYWORD ", "", bare(b" ").then(|| all1(gen::is_atom_char))),
        6 => ("flag", Kind::Command, "A STORE 1 FLAGS (", ")", bare(b" )\\").then(|| all1(gen::is_atom_char) || v.is_empty())),
        7 => ("system flag", Kind::Command, "A STORE 1 FLAGS (\\", ")", bare(b" )").then(|| all1(gen::is_atom_char))),
        8 => ("charset", Kind::Command, "A SEARCH CHARSET ", " ALL", bare(b" \"").then(|| all1(gen::is_atom_char))),
        9 => ("capability", Kind::Response, "* CAPABILITY ", "", bare(b" ").then(|| all1(gen::is_atom_char))),
        10 => ("mailbox in data", Kind::Response, "* STATUS ", " (MESSAGES 1)", bare(b" \"{").then(|| all1(gen::is_astring_char))),
        _ => ("text", Kind::Response, "* OK ", "", bare(b"\r\n").then(|| all1(gen::is_text_char)).filter(|_| !v.starts_with(b"["))),
    };
    let Some(want) = want else {
        return Ok(());
    };
    let mut w = pre.as_bytes().to_vec();
    w.extend_from_slice(&v);
    w.extend_from_slice(post.as_bytes());
    w.extend_from_slice(b"\r\n");
    // known names are compared elsewhere
    cx.label(name);
    cx.nontrivial(&w);
    cx.sample(|| format!("{name}: {}", esc(&w)));
    let complete = |d: &Dec| matches!(d, Dec::Ok { consumed, .. } if *consumed == w.len());
    let d = decode(k, &w);
    // some mechanisms of the grammar have fixed names: COMPRESS= and the like are checked in C18
    if name == "capability" && want && v.to_ascii_lowercase().starts_with(b"compress=") {
        return Ok(());
    }
    if complete(&d) != want {
        return Err(format!("{name}: {} gives {d:?}, but the grammar {} it", esc(&w), if want { "allows" } else { "forbids" }));
    }
    if want {
        if let Dec::Ok { msg, .. } = d {
            let e = msg.encode();
            if !e.eq_ignore_ascii_case(&w) {
                return Err(format!("{name}: {} is encoded as {}", esc(&w), esc(&e)));
            }
        }
    }
    Ok(())
}

fn days(y: u32, m: u32) -> u32 {
    match m {
        2 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
        2 => 28,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

const MONTHS: [&str; 12] = ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"];

fn number(t: &str, min: usize, max: usize) -> Option<u32> {
    (t.len() >= min && t.len() <= max && t.bytes().all(|b| b.is_ascii_digit())).then(|| t.parse().unwrap())
}

/// `date-text`
fn is_date(t: &str) -> bool {
    let p: Vec<&str> = t.split('-').collect();
    let [d, m, y] = p[..] else { return false };
    let (Some(d), Some(m), Some(y)) = (number(d, 1, 2), MONTHS.iter().position(|x| x.eq_ignore_ascii_case(m)), number(y, 4, 4)) else { return false };
    d >= 1 && d <= days(y, m as u32 + 1)
}

/// `date-time` without its quotes; none: left open
fn is_date_time(t: &str) -> Option<bool> {
    if !t.is_ascii() || t.len() != 26 || &t[11..12] != " " || &t[20..21] != " " {
        return Some(false);
    }
    let (date, time, zone) = (&t[..11], &t[12..20], &t[21..]);
    let ok = is_date(date.strip_prefix(' ').unwrap_or(date));
    let p: Vec<Option<u32>> = time.split(':').map(|x| number(x, 2, 2)).collect();
    let [Some(h), Some(m), Some(s)] = p[..] else { return Some(false) };
    let (Some(zh), Some(zm)) = (number(&zone[1..3], 2, 2), number(&zone[3..], 2, 2)) else { return Some(false) };
    if s == 60 || zm > 59 {
        return None;
    }
    Some(ok && matches!(&zone[..1], "+" | "-") && h < 24 && m < 60 && s < 60 && zh < 24)
}

/// A date with one character removed, added or replaced.
fn typo(s: &mut Src, t: &str) -> String {
    let mut b = t.as_bytes().to_vec();
    let i = s.idx(b.len());
    let c = *s.pick(b"0123456789 -:+/JanFebX".as_slice());
    match s.below(3) {
        0 => drop(b.remove(i)),
        1 => b.insert(i, c),
        _ => b[i] = c,
    }
    String::from_utf8(b).unwrap()
}

fn mistyped(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let (y, m, d) = (s.below(10_000), s.idx(12), s.range(1, 31));
    let mon = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"][m];
    let (k, w, want) = if s.bool() {
        let t = if s.bool() { format!("{d}-{mon}-{y:04}") } else { format!("{d:02}-{mon}-{y:04}") };
        let t = typo(s, &t);
        let w = if s.bool() { format!("A SEARCH ON \"{t}\"\r\n") } else { format!("A SEARCH ON {t}\r\n") };
        // what is behind a space is another key, unless quoted
        if t.contains(' ') && !w.contains('"') {
            return Ok(());
        }
        (Kind::Command, w, Some(is_date(&t)))
    } else {
        let t = format!("{d:>2}-{mon}-{y:04} {:02}:{:02}:{:02} {}{:02}{:02}", s.below(24), s.below(60), s.below(60), if s.bool() { '+' } else { '-' }, s.below(15), s.below(60));
        let t = typo(s, &t);
        let want = is_date_time(&t);
        if s.bool() {
            (Kind::Command, format!("A APPEND x \"{t}\" {{1}}\r\ny\r\n"), want)
        } else {
            (Kind::Response, format!("* 1 FETCH (INTERNALDATE \"{t}\")\r\n"), want)
        }
    };
    let Some(want) = want else { return Ok(()) };
    cx.label(if want { "mistyped date, still one" } else { "mistyped date" });
    cx.nontrivial(w.as_bytes());
    cx.sample(|| w.clone());
    let dec = decode(k, w.as_bytes());
    match (&dec, want) {
        (Dec::Failed, false) => Ok(()),
        (Dec::Ok { consumed, .. }, true) if *consumed == w.len() => Ok(()),
        _ => Err(format!("mistyped-date: {w:?} gives {dec:?}, expected to be {}", if want { "accepted" } else { "rejected" })),
    }
}

fn dates(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    use chrono::{Datelike, Timelike};
    if s.one_in(4) {
        return mistyped(s, cx);
    }
    const M: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
    let y = match s.below(3) {
        0 => *s.pick(&[0u32, 1, 4, 100, 400, 1900, 1970, 2000, 2023, 2024, 2100, 9999]),
        _ => s.below(10_000) as u32,
    };
    let m = s.range(1, 12) as u32;
    let d = match s.below(3) {
        0 => days(y, m) + s.below(3) as u32,
        1 => *s.pick(&[0u32, 1, 28, 29, 30, 31, 32, 99]),
        _ => s.range(1, 31) as u32,
    }
    .min(99);
    let mon = {
        let x = M[m as usize - 1];
        match s.below(3) {
            0 => x.to_string(),
            1 => x.to_uppercase(),
            _ => x.to_lowercase(),
        }
    };
    let ok_date = d >= 1 && d <= days(y, m);
    if s.bool() {
        // SEARCH
        let dd = if d < 10 && s.bool() { format!("{d}") } else { format!("{d:02}") };
        let mut t = format!("{dd}-{mon}-{y:04}");
        let mut ok = ok_date;
        if s.one_in(4) {
            ok = false;
            t = match s.below(7) {
                0 => format!("{dd} {mon}-{y:04}"),
                1 => format!("{dd}-{mon}-{y}0"),
                2 => format!("{dd}-{mon}-{:03}", y % 1000),
                3 => format!("{dd}-{m:02}-{y:04}"),
                4 => format!("0{d:02}-{mon}-{y:04}"),
                5 => format!(" {d}-{mon}-{y:04}"),
                _ => format!("{dd}-{mon}y-{y:04}"),
            };
            if t.len() == dd.len() + mon.len() + 6 && t == format!("{dd}-{mon}-{y}0") {
                // three digits and a zero are four digits
                ok = is_date(&t);
            }
        }
        if s.bool() {
            t = format!("\"{t}\"");
        }
        let key = *s.pick(&["BEFORE", "ON", "SINCE", "SENTBEFORE", "SENTON", "SENTSINCE"]);
        let w = format!("A SEARCH {key} {t}\r\n");
        cx.label("search date");
        cx.nontrivial(w.as_bytes());
        cx.sample(|| w.clone());
        let dec = decode(Kind::Command, w.as_bytes());
        return match (&dec, ok) {
            (Dec::Failed, false) => Ok(()),
            (Dec::Ok { msg: Msg::Command(Command { body: CommandBody::Search { criteria, .. }, .. }), .. }, true) => {
                use SearchKey::*;
                let (Before(x) | On(x) | Since(x) | SentBefore(x) | SentOn(x) | SentSince(x)) = &criteria.as_ref()[0] else {
                    return Err(format!("search-date: {w:?} gives {dec:?}"));
                };
                let x = x.as_ref();
                if t.trim_matches('"').ends_with(&format!("{:04}", x.year())) && x.month() == m && x.day() == d {
                    Ok(())
                } else {
                    Err(format!("search-date: {w:?} gives {dec:?}"))
                }
            }
            _ => Err(format!("search-date: {w:?} gives {dec:?}, expected to be {}", if ok { "accepted" } else { "rejected" })),
        };
    }
    let hms = |s: &mut Src, n: u32| match s.below(4) {
        0 => *s.pick(&[0, n - 1, n, n + 1, 99]),
        _ => s.below(u64::from(n)) as u32,
    };
    let (h, mi, se) = (hms(s, 24), hms(s, 60), hms(s, 60));
    let (zh, zm) = (*s.pick(&[0u32, 1, 5, 12, 14, 23, 24, 25, 99]), *s.pick(&[0u32, 1, 30, 45, 59]));
    let sign = if s.bool() { '+' } else { '-' };
    if se == 60 {
        return Ok(()); // leap second: left open
    }
    let mut ok = ok_date && h < 24 && mi < 60 && se < 60 && zh * 60 + zm < 24 * 60;
    let dd = if d < 10 && s.bool() { format!(" {d}") } else { format!("{d:02}") };
    let mut t = format!("\"{dd}-{mon}-{y:04} {h:02}:{mi:02}:{se:02} {sign}{zh:02}{zm:02}\"");
    if s.one_in(5) {
        ok = false;
        t = match s.below(9) {
            0 => t.replace('"', ""),
            1 => t.replace(&format!(" {sign}"), &sign.to_string()),
            2 => t.replace(sign, " "),
            3 => format!("\"{d}-{mon}-{y:04} {h:02}:{mi:02}:{se:02} {sign}{zh:02}{zm:02}\""),
            4 => format!("\"{dd}-{mon}-{y:04} {h:02}:{mi:02} {sign}{zh:02}{zm:02}\""),
            5 => format!("\"{dd}-{mon}-{y:04} {h:02}:{mi:02}:{se:02} {sign}{zh:02}:{zm:02}\""),
            6 => format!("\"{dd}-{mon}-{y:04} {h:02}:{mi:02}:{se:02}\""),
            7 => format!("\"{dd}-{mon}-{y:04}  {h:02}:{mi:02}:{se:02} {sign}{zh:02}{zm:02}\""),
            _ => format!("\"{dd}-{mon}-{y:04} {h:02}:{mi:02}:{se:02} {sign}{zh:02}{zm:02}0\""),
        };
        // one digit days have two forms only
        if d >= 10 && t.starts_with(&format!("\"{d}-{mon}-{y:04} {h:02}:{mi:02}:{se:02} {sign}{zh:02}{zm:02}\"")) {
            return Ok(());
        }
    }
    let w = if s.bool() { format!("A APPEND x {t} {{1}}\r\ny\r\n") } else { format!("* 1 FETCH (INTERNALDATE {t})\r\n") };
    let k = if w.starts_with('A') { Kind::Command } else { Kind::Response };
    cx.label("date-time");
    cx.nontrivial(w.as_bytes());
    cx.sample(|| w.clone());
    let dec = decode(k, w.as_bytes());
    let got = match &dec {
        Dec::Ok { msg: Msg::Command(Command { body: CommandBody::Append { date: Some(x), .. }, .. }), .. } => Some(x.clone()),
        Dec::Ok { msg: Msg::Response(Response::Data(Data::Fetch { items, .. })), .. } => match &items.as_ref()[0] {
            MessageDataItem::InternalDate(x) => Some(x.clone()),
            _ => None,
        },
        _ => None,
    };
    match (got, ok) {
        (None, false) if dec == Dec::Failed => Ok(()),
        (Some(x), true) => {
            let x = x.as_ref();
            let off = (zh * 60 + zm) as i32 * 60 * if sign == '-' { -1 } else { 1 };
            if (x.year() as u32, x.month(), x.day(), x.hour(), x.minute(), x.second()) == (y, m, d, h, mi, se) && x.offset().local_minus_utc() == off {
                Ok(())
            } else {
                Err(format!("date-time: {w:?} gives {x:?}"))
            }
        }
        _ => Err(format!("date-time: {w:?} gives {dec:?}, expected to be {}", if ok { "accepted" } else { "rejected" })),
    }
}

/// Forms that look plausible, but are not in the grammar. `#` stands for a mailbox.
const BAD: &[(Kind, &str)] = &[
    (Kind::Command, "A"),
    (Kind::Command, "A "),
    (Kind::Command, " NOOP"),
    (Kind::Command, "A NOOP x"),
    (Kind::Command, "A NOOPx"),
    (Kind::Command, "NOOP"),
    (Kind::Command, "* NOOP"),
    (Kind::Command, "A+ NOOP"),
    (Kind::Command, "A CAPABILITY x"),
    (Kind::Command, "A LOGIN #"),
    (Kind::Command, "A LOGIN # "),
    (Kind::Command, "A LOGIN x y z"),
    (Kind::Command, "A LOGIN () x"),
    (Kind::Command, "A LOGIN NIL"),
    (Kind::Command, "A SELECT"),
    (Kind::Command, "A SELECT # ()"),
    (Kind::Command, "A SELECT # (FOO)"),
    (Kind::Command, "A SELECT # # "),
    (Kind::Command, "A SELECT # (CONDSTORE"),
    (Kind::Command, "A SELECT # (QRESYNC)"),
    (Kind::Command, "A SELECT # (QRESYNC (1))"),
    (Kind::Command, "A SELECT # (QRESYNC (0 1))"),
    (Kind::Command, "A SELECT # (QRESYNC (1 0))"),
    (Kind::Command, "A SELECT # (QRESYNC (1 1 1 ()))"),
    (Kind::Command, "A SELECT # (QRESYNC (1 1 (1 2) 1))"),
    (Kind::Command, "A SELECT x%"),
    (Kind::Command, "A SELECT x*"),
    (Kind::Command, "A CREATE (#)"),
    (Kind::Command, "A DELETE # #"),
    (Kind::Command, "A RENAME #"),
    (Kind::Command, "A RENAME # # #"),
    (Kind::Command, "A SUBSCRIBE"),
    (Kind::Command, "A UNSUBSCRIBE x y"),
    (Kind::Command, "A LIST #"),
    (Kind::Command, "A LIST # # #"),
    (Kind::Command, "A LIST () # #"),
    (Kind::Command, "A LIST # (x)"),
    (Kind::Command, "A STATUS #"),
    (Kind::Command, "A STATUS # MESSAGES"),
    (Kind::Command, "A STATUS # (FOO)"),
    (Kind::Command, "A STATUS # (MESSAGES 1)"),
    (Kind::Command, "A STATUS # (MESSAGES,UIDNEXT)"),
    (Kind::Command, "A APPEND # "),
    (Kind::Command, "A APPEND # x"),
    (Kind::Command, "A APPEND # \"x\""),
    (Kind::Command, "A APPEND # \\Seen {1}\r\nx"),
    (Kind::Command, "A APPEND # (\\Seen) \"x\" {1}\r\nx"),
    (Kind::Command, "A APPEND # ({1}\r\nx)"),
    (Kind::Command, "A APPEND # {1}\r\nxy"),
    (Kind::Command, "A APPEND # {+1}\r\nx"),
    (Kind::Command, "A APPEND # {1-}\r\nx"),
    (Kind::Command, "A APPEND # { 1}\r\nx"),
    (Kind::Command, "A APPEND # {}\r\nx"),
    (Kind::Command, "A APPEND # {1++}\r\nx"),
    (Kind::Command, "A APPEND # {1} \r\nx"),
    (Kind::Command, "A APPEND # ~x{1}\r\nx"),
    (Kind::Command, "A CHECK x"),
    (Kind::Command, "A CLOSE x"),
    (Kind::Command, "A EXPUNGE 1"),
    (Kind::Command, "A UID EXPUNGE"),
    (Kind::Command, "A UID EXPUNGE 0"),
    (Kind::Command, "A UID NOOP"),
    (Kind::Command, "A UID SELECT #"),
    (Kind::Command, "A UID"),
    (Kind::Command, "A UID UID FETCH 1 FLAGS"),
    (Kind::Command, "A SEARCH"),
    (Kind::Command, "A SEARCH ()"),
    (Kind::Command, "A SEARCH (ALL"),
    (Kind::Command, "A SEARCH ALL)"),
    (Kind::Command, "A SEARCH (ALL )"),
    (Kind::Command, "A SEARCH ( ALL)"),
    (Kind::Command, "A SEARCH NOT"),
    (Kind::Command, "A SEARCH OR ALL"),
    (Kind::Command, "A SEARCH FROM"),
    (Kind::Command, "A SEARCH KEYWORD \"x\""),
    (Kind::Command, "A SEARCH KEYWORD \\Seen"),
    (Kind::Command, "A SEARCH HEADER x"),
    (Kind::Command, "A SEARCH LARGER x"),
    (Kind::Command, "A SEARCH LARGER -1"),
    (Kind::Command, "A SEARCH 0"),
    (Kind::Command, "A SEARCH 1:"),
    (Kind::Command, "A SEARCH :1"),
    (Kind::Command, "A SEARCH 1,"),
    (Kind::Command, "A SEARCH ,1"),
    (Kind::Command, "A SEARCH 1,,2"),
    (Kind::Command, "A SEARCH 1:2:3"),
    (Kind::Command, "A SEARCH 1-2"),
    (Kind::Command, "A SEARCH **"),
    (Kind::Command, "A SEARCH UID"),
    (Kind::Command, "A SEARCH UID x"),
    (Kind::Command, "A SEARCH CHARSET"),
    (Kind::Command, "A SEARCH CHARSET UTF-8"),
    (Kind::Command, "A SEARCH CHARSET {1}\r\nx ALL"),
    (Kind::Command, "A SEARCH SINCE x"),
    (Kind::Command, "A SEARCH ALLALL"),
    (Kind::Command, "A SEARCH MODSEQ"),
    (Kind::Command, "A SEARCH MODSEQ x"),
    (Kind::Command, "A SEARCH MODSEQ \"/flags/x\" 1"),
    (Kind::Command, "A SEARCH MODSEQ \"/flags/x\" priv"),
    (Kind::Command, "A SEARCH MODSEQ \"x\" all 1"),
    (Kind::Command, "A SEARCH MODSEQ /flags/x all 1"),
    (Kind::Command, "A SORT (DATE) UTF-8"),
    (Kind::Command, "A SORT () UTF-8 ALL"),
    (Kind::Command, "A SORT DATE UTF-8 ALL"),
    (Kind::Command, "A SORT (DATE) ALL"),
    (Kind::Command, "A SORT (REVERSE) UTF-8 ALL"),
    (Kind::Command, "A SORT (FOO) UTF-8 ALL"),
    (Kind::Command, "A THREAD REFERENCES UTF-8"),
    (Kind::Command, "A THREAD REFERENCES ALL"),
    (Kind::Command, "A THREAD (REFERENCES) UTF-8 ALL"),
    (Kind::Command, "A FETCH 1"),
    (Kind::Command, "A FETCH 1 FOO"),
    (Kind::Command, "A FETCH 1 FLAGS UID"),
    (Kind::Command, "A FETCH 1 (ALL)"),
    (Kind::Command, "A FETCH 1 (FAST FLAGS)"),
    (Kind::Command, "A FETCH 0 FLAGS"),
    (Kind::Command, "A FETCH 1 BODY["),
    (Kind::Command, "A FETCH 1 BODY[0]"),
    (Kind::Command, "A FETCH 1 BODY[1.0]"),
    (Kind::Command, "A FETCH 1 BODY[1.]"),
    (Kind::Command, "A FETCH 1 BODY[.1]"),
    (Kind::Command, "A FETCH 1 BODY[MIME]"),
    (Kind::Command, "A FETCH 1 BODY[FOO]"),
    (Kind::Command, "A FETCH 1 BODY[HEADER.FIELDS]"),
    (Kind::Command, "A FETCH 1 BODY[HEADER.FIELDS ()]"),
    (Kind::Command, "A FETCH 1 BODY[HEADER.FIELDS x]"),
    (Kind::Command, "A FETCH 1 BODY[HEADER.MIME]"),
    (Kind::Command, "A FETCH 1 BODY[TEXT]<0>"),
    (Kind::Command, "A FETCH 1 BODY[TEXT]<0.0>"),
    (Kind::Command, "A FETCH 1 BODY[TEXT]<.1>"),
    (Kind::Command, "A FETCH 1 BODY[TEXT]<0.1"),
    (Kind::Command, "A FETCH 1 BODY[TEXT] <0.1>"),
    (Kind::Command, "A FETCH 1 BODY [TEXT]"),
    (Kind::Command, "A FETCH 1 BODY.PEEK"),
    (Kind::Command, "A FETCH 1 BODYSTRUCTURE[]"),
    (Kind::Command, "A FETCH 1 RFC822[]"),
    (Kind::Command, "A FETCH 1 RFC822.FOO"),
    (Kind::Command, "A FETCH 1 BINARY"),
    (Kind::Command, "A FETCH 1 BINARY[TEXT]"),
    (Kind::Command, "A FETCH 1 BINARY.SIZE[1]<0.1>"),
    (Kind::Command, "A FETCH 1 BINARY.SIZE"),
    (Kind::Command, "A FETCH 1 FLAGS ()"),
    (Kind::Command, "A FETCH 1 FLAGS (FOO)"),
    (Kind::Command, "A FETCH 1 FLAGS (CHANGEDSINCE)"),
    (Kind::Command, "A FETCH 1 FLAGS (CHANGEDSINCE 0)"),
    (Kind::Command, "A FETCH 1 FLAGS CHANGEDSINCE 1"),
    (Kind::Command, "A STORE 1 FLAGS"),
    (Kind::Command, "A STORE 1 FLAGS "),
    (Kind::Command, "A STORE 1 FLAGSx"),
    (Kind::Command, "A STORE 1 () FLAGS (x)"),
    (Kind::Command, "A STORE 1 FLAGS (x) y"),
    (Kind::Command, "A STORE 1 FLAGS (\\*)"),
    (Kind::Command, "A STORE 1 *FLAGS (x)"),
    (Kind::Command, "A STORE 1 + FLAGS (x)"),
    (Kind::Command, "A STORE 1 FLAGS.LOUD (x)"),
    (Kind::Command, "A STORE 1 FLAG (x)"),
    (Kind::Command, "A STORE FLAGS (x)"),
    (Kind::Command, "A STORE 1 (UNCHANGEDSINCE) FLAGS (x)"),
    (Kind::Command, "A STORE 1 (CHANGEDSINCE 1) FLAGS (x)"),
    (Kind::Command, "A COPY 1"),
    (Kind::Command, "A COPY #"),
    (Kind::Command, "A COPY 0 #"),
    (Kind::Command, "A COPY 1 # #"),
    (Kind::Command, "A MOVE 1"),
    (Kind::Command, "A MOVE 1,x #"),
    (Kind::Command, "A AUTHENTICATE"),
    (Kind::Command, "A AUTHENTICATE (PLAIN)"),
    (Kind::Command, "A AUTHENTICATE PLAIN x y"),
    (Kind::Command, "A AUTHENTICATE PLAIN *"),
    (Kind::Command, "A IDLE x"),
    (Kind::Command, "A DONE"),
    (Kind::Command, "A ENABLE"),
    (Kind::Command, "A ENABLE (x)"),
    (Kind::Command, "A ENABLE \"x\""),
    (Kind::Command, "A COMPRESS"),
    (Kind::Command, "A COMPRESS FOO"),
    (Kind::Command, "A COMPRESS DEFLATEx"),
    (Kind::Command, "A GETQUOTA"),
    (Kind::Command, "A GETQUOTA # #"),
    (Kind::Command, "A GETQUOTAROOT"),
    (Kind::Command, "A SETQUOTA #"),
    (Kind::Command, "A SETQUOTA # STORAGE 1"),
    (Kind::Command, "A SETQUOTA # (STORAGE)"),
    (Kind::Command, "A SETQUOTA # (STORAGE x)"),
    (Kind::Command, "A SETQUOTA # (STORAGE 1 MESSAGE)"),
    (Kind::Command, "A ID"),
    (Kind::Command, "A ID (\"x\")"),
    (Kind::Command, "A ID (\"x\" \"y\" \"z\")"),
    (Kind::Command, "A ID (x y)"),
    (Kind::Command, "A ID \"x\""),
    (Kind::Command, "A ID (NIL \"x\")"),
    (Kind::Command, "A NAMESPACE x"),
    (Kind::Command, "A UNSELECT #"),
    (Kind::Command, "A STARTTLS x"),
    (Kind::Command, "A GETMETADATA #"),
    (Kind::Command, "A GETMETADATA # ()"),
    (Kind::Command, "A GETMETADATA (DEPTH 2) # /private/x"),
    (Kind::Command, "A GETMETADATA (FOO) # /private/x"),
    (Kind::Command, "A SETMETADATA # (/private/x)"),
    (Kind::Command, "A SETMETADATA # /private/x NIL"),
    (Kind::Command, "A SETMETADATA # ()"),
    (Kind::Command, "A XFOO"),
    (Kind::Command, "A LOGIN \"a\r\nb\" x"),
    (Kind::Response, "*"),
    (Kind::Response, "* "),
    (Kind::Response, "* FOO"),
    (Kind::Response, "* OK"),
    (Kind::Response, "*OK x"),
    (Kind::Response, "+x"),
    (Kind::Response, "A FOO x"),
    (Kind::Response, "A BYE x"),
    (Kind::Response, "A PREAUTH x"),
    (Kind::Response, "* FLAGS"),
    (Kind::Response, "* FLAGS x"),
    (Kind::Response, "* FLAGS (\\*)"),
    (Kind::Response, "* LIST \"/\" #"),
    (Kind::Response, "* LIST () #"),
    (Kind::Response, "* LIST () / #"),
    (Kind::Response, "* LIST () \"//\" #"),
    (Kind::Response, "* LIST () \"\" #"),
    (Kind::Response, "* LIST () \"/\""),
    (Kind::Response, "* LIST (x) \"/\" #"),
    (Kind::Response, "* LIST (\\Noselect\\Marked) \"/\" #"),
    (Kind::Response, "* LSUB () NIL"),
    (Kind::Response, "* SEARCH x"),
    (Kind::Response, "* SEARCH 0"),
    (Kind::Response, "* SEARCH 1,2"),
    (Kind::Response, "* SEARCH 1:2"),
    (Kind::Response, "* SEARCH (1)"),
    (Kind::Response, "* SEARCH 1 (MODSEQ)"),
    (Kind::Response, "* SEARCH 1 (MODSEQ 0)"),
    (Kind::Response, "* SEARCH 1 (MODSEQ 1) 2"),
    (Kind::Response, "* SORT x"),
    (Kind::Response, "* SORT 0"),
    (Kind::Response, "* THREAD 1"),
    (Kind::Response, "* THREAD ()"),
    (Kind::Response, "* THREAD (0)"),
    (Kind::Response, "* THREAD ((1))"),
    (Kind::Response, "* THREAD (1 (2))"),
    (Kind::Response, "* THREAD (1) (2)"),
    (Kind::Response, "* THREAD (1(2)(3))"),
    (Kind::Response, "* STATUS #"),
    (Kind::Response, "* STATUS # MESSAGES 1"),
    (Kind::Response, "* STATUS # (MESSAGES)"),
    (Kind::Response, "* STATUS # (FOO 1)"),
    (Kind::Response, "* STATUS # (UIDNEXT 0)"),
    (Kind::Response, "* STATUS # (MESSAGES 1 UIDNEXT)"),
    (Kind::Response, "* EXISTS"),
    (Kind::Response, "* x EXISTS"),
    (Kind::Response, "* -1 EXISTS"),
    (Kind::Response, "* 1EXISTS"),
    (Kind::Response, "* 1 EXISTS 1"),
    (Kind::Response, "* 0 EXPUNGE"),
    (Kind::Response, "* 1 FETCH"),
    (Kind::Response, "* 1 FETCH ()"),
    (Kind::Response, "* 0 FETCH (UID 1)"),
    (Kind::Response, "* 1 FETCH UID 1"),
    (Kind::Response, "* 1 FETCH (UID)"),
    (Kind::Response, "* 1 FETCH (UID 0)"),
    (Kind::Response, "* 1 FETCH (UID 1, UID 2)"),
    (Kind::Response, "* 1 FETCH (FLAGS x)"),
    (Kind::Response, "* 1 FETCH (FLAGS (\\*))"),
    (Kind::Response, "* 1 FETCH (ENVELOPE ())"),
    (Kind::Response, "* 1 FETCH (ENVELOPE (NIL NIL NIL NIL NIL NIL NIL NIL NIL))"),
    (Kind::Response, "* 1 FETCH (ENVELOPE (NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL))"),
    (Kind::Response, "* 1 FETCH (ENVELOPE (NIL NIL () NIL NIL NIL NIL NIL NIL NIL))"),
    (Kind::Response, "* 1 FETCH (ENVELOPE (NIL NIL (NIL NIL NIL NIL) NIL NIL NIL NIL NIL NIL NIL))"),
    (Kind::Response, "* 1 FETCH (ENVELOPE (NIL NIL ((NIL NIL NIL)) NIL NIL NIL NIL NIL NIL NIL))"),
    (Kind::Response, "* 1 FETCH (BODY ())"),
    (Kind::Response, "* 1 FETCH (BODY NIL)"),
    (Kind::Response, "* 1 FETCH (BODY (\"TEXT\" \"PLAIN\" (\"a\") NIL NIL \"7BIT\" 1 1))"),
    (Kind::Response, "* 1 FETCH (BODY (\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" x 1))"),
    (Kind::Response, "* 1 FETCH (BODY (TEXT PLAIN NIL NIL NIL \"7BIT\" 1 1))"),
    (Kind::Response, "* 1 FETCH (BODY ((\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" 1 1)))"),
    (Kind::Response, "* 1 FETCH (BODY ((\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" 1 1) MIXED))"),
    (Kind::Response, "* 1 FETCH (BODY ((\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" 1 1) (\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" 1 1) \"MIXED\"))"),
    (Kind::Response, "* 1 FETCH (BODY[] x)"),
    (Kind::Response, "* 1 FETCH (BODY[]<0.1> NIL)"),
    (Kind::Response, "* 1 FETCH (BODY[]<x> NIL)"),
    (Kind::Response, "* 1 FETCH (BODY[0] NIL)"),
    (Kind::Response, "* 1 FETCH (BODY.PEEK[] NIL)"),
    (Kind::Response, "* 1 FETCH (RFC822.SIZE)"),
    (Kind::Response, "* 1 FETCH (RFC822.SIZE x)"),
    (Kind::Response, "* 1 FETCH (RFC822 x)"),
    (Kind::Response, "* 1 FETCH (INTERNALDATE NIL)"),
    (Kind::Response, "* 1 FETCH (INTERNALDATE x)"),
    (Kind::Response, "* 1 FETCH (MODSEQ 1)"),
    (Kind::Response, "* 1 FETCH (MODSEQ ())"),
    (Kind::Response, "* 1 FETCH (MODSEQ (0))"),
    (Kind::Response, "* 1 FETCH (BINARY[1] x)"),
    (Kind::Response, "* 1 FETCH (BINARY.SIZE[1] NIL)"),
    (Kind::Response, "* 1 FETCH (BINARY.SIZE[1] x)"),
    (Kind::Response, "* CAPABILITY"),
    (Kind::Response, "* CAPABILITY "),
    (Kind::Response, "* CAPABILITY (x)"),
    (Kind::Response, "* QUOTA #"),
    (Kind::Response, "* QUOTA # STORAGE 1 2"),
    (Kind::Response, "* QUOTA # ()"),
    (Kind::Response, "* QUOTA #(STORAGE 1 2)"),
    (Kind::Response, "* QUOTA # (STORAGE 1)"),
    (Kind::Response, "* QUOTA # (STORAGE 1 2 3)"),
    (Kind::Response, "* QUOTAROOT"),
    (Kind::Response, "* QUOTAROOT (#)"),
    (Kind::Response, "* ID"),
    (Kind::Response, "* ID (\"a\")"),
    (Kind::Response, "* ID (\"a\" \"b\" \"c\")"),
    (Kind::Response, "* NAMESPACE"),
    (Kind::Response, "* NAMESPACE NIL NIL"),
    (Kind::Response, "* NAMESPACE NIL NIL NIL NIL"),
    (Kind::Response, "* NAMESPACE () NIL NIL"),
    (Kind::Response, "* NAMESPACE ((\"\")) NIL NIL"),
    (Kind::Response, "* NAMESPACE (\"\" \"/\") NIL NIL"),
    (Kind::Response, "* NAMESPACE ((\"\" \"//\")) NIL NIL"),
    (Kind::Response, "* METADATA #"),
    (Kind::Response, "* METADATA # ()"),
    (Kind::Response, "* METADATA # (/private/x)"),
    (Kind::Response, "* VANISHED"),
    (Kind::Response, "* VANISHED (FOO) 1"),
    (Kind::Response, "* VANISHED 0"),
    (Kind::Response, "* VANISHED EARLIER 1"),
    (Kind::Greeting, "* BAD x"),
    (Kind::Greeting, "* NO x"),
    (Kind::Greeting, "A OK x"),
    (Kind::Greeting, "+ x"),
    (Kind::Greeting, "* OK"),
    (Kind::Greeting, "*OK x"),
    (Kind::Idle, "DONE x"),
    (Kind::Idle, "DON"),
    (Kind::Idle, "A DONE"),
    (Kind::Idle, " DONE"),
];

fn forms(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let (k, t) = *s.pick(BAD);
    let _ = cmd;
    let mb = match &gen::mailbox(s) {
        x => {
            let c = Msg::Command(Command { tag: Tag::try_from("A").unwrap(), body: CommandBody::Create { mailbox: x.clone() } });
            let p = refp::print(&c, Style::Rand(s), true).out;
            p[9..p.len() - 2].to_vec()
        }
    };
    let mut w = vec![];
    for (i, part) in t.split('#').enumerate() {
        if i > 0 {
            w.extend_from_slice(&mb);
        }
        w.extend_from_slice(part.as_bytes());
    }
    w.extend_from_slice(b"\r\n");
    cx.label("forbidden form");
    cx.nontrivial(&w);
    cx.sample(|| esc(&w));
    match decode(k, &w) {
        Dec::Failed => Ok(()),
        o => Err(format!("form: {} gives {o:?}", esc(&w))),
    }
}
