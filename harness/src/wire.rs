//! Generated wire input: valid messages in many spellings, mutations of them, and token soup.
use crate::{
    gen,
    refp::{self, Style},
    tape::Src,
    util::*,
};

/// A valid message in one of the spellings the grammar allows.
pub fn valid(s: &mut Src) -> (Msg, Vec<u8>) {
    let m = gen_msg(s);
    let w = spell(s, &m);
    (m, w)
}

pub fn spell(s: &mut Src, m: &Msg) -> Vec<u8> {
    match s.below(3) {
        0 => m.encode(),
        _ => refp::print(m, Style::Rand(s), s_raw()).out,
    }
}

/// Print sets as they are: the decoder does not normalize.
pub fn s_raw() -> bool {
    true
}

pub const TOKENS: &[&[u8]] = &[
    b" ", b"(", b")", b"[", b"]", b"{", b"}", b"\"", b"\\", b"\r\n", b"\n", b"\r", b"*", b"* ", b"+ ", b"+", b"A1 ", b"NIL",
    b"{0}\r\n", b"{1}\r\na", b"{5}\r\nhello", b"{3+}\r\nabc", b"~{3}\r\na\0b", b"{4294967295}\r\n", b"{4294967296}\r\n",
    b"{99999999999999999999}\r\n", b"\"\"", b"\"a\"", b"\"\\\"\"", b"\"\xc3\xa4\"", b"<0.1>", b"<0>", b"<0.0>", b"1", b"0", b"4294967295", b"4294967296",
    b"18446744073709551615", b"18446744073709551616", b"9223372036854775808", b"*:*", b"1:*", b"1,2", b",", b":", b".", b"=", b"-1", b"-0",
    b"\\Seen", b"\\*", b"\\Recent", b"\\", b"OK ", b"NO ", b"BAD ", b"BYE ", b"PREAUTH ", b"FETCH ", b"UID ", b"NOT ", b"OR ", b"BODY", b"BODY[",
    b"BODY.PEEK[", b"BODYSTRUCTURE ", b"ENVELOPE ", b"FLAGS ", b"INTERNALDATE ", b"RFC822", b".SIZE ", b".HEADER ", b".TEXT ",
    b"BINARY[", b"BINARY.PEEK[", b"BINARY.SIZE[", b"MODSEQ ", b"HEADER.FIELDS ", b"HEADER.FIELDS.NOT ", b".MIME", b"\0", b"\x80", b"\xff", b"\x7f",
    b"\" 1-Jan-2000 00:00:00 +0000\"", b"\"01-Jan-2000 00:00:00 +0000\"", b"1-Jan-2000", b"\"32-Jan-2000\"", b"30-Feb-2000",
    b"\"01-Jan-2000 24:00:60 +9999\"", b"CHARSET ", b"SEARCH ", b"SORT ", b"THREAD ", b"STATUS ", b"QUOTA ", b"NAMESPACE ", b"METADATA ", b"VANISHED ", b"EARLIER",
    b"CAPABILITY ", b"[CAPABILITY ", b"PERMANENTFLAGS ", b"COPYUID ", b"APPENDUID ", b"MESSAGE", b"RFC822\"", b"\"TEXT\"", b"((", b"))", b"  ", b"\t",
    b"=", b"==", b"AAAA", b"DONE", b"LIST ", b"LSUB ", b"ID ", b"STORE ", b"FLAGS.SILENT ", b"+FLAGS ", b"-FLAGS ", b"APPEND ", b"LOGIN ", b"AUTHENTICATE ",
    b"(MODSEQ 1)", b"(UNCHANGEDSINCE 1)", b"(CHANGEDSINCE 1)", b"(QRESYNC (1 1", b"(CONDSTORE)", b" (DEPTH 0)", b"KEYWORD ", b"HEADER ", b"LARGER ", b"BEFORE ",
];

pub fn mutate_once(s: &mut Src, v: &mut Vec<u8>) {
    let n = v.len();
    let pos = |s: &mut Src, n: usize| if n == 0 { 0 } else { s.idx(n) };
    match s.below(14) {
        0 => {
            if n > 0 {
                let i = pos(s, n);
                v[i] = s.byte();
            }
        }
        1 => {
            if n > 0 {
                let i = pos(s, n);
                v.remove(i);
            }
        }
        2 => {
            let i = s.idx(n + 1);
            let b = s.byte();
            v.insert(i, b);
        }
        3..=5 => {
            let i = s.idx(n + 1);
            let t = *s.pick(TOKENS);
            v.splice(i..i, t.iter().copied());
        }
        6 => {
            // replace a range by a token
            let i = pos(s, n);
            let k = s.idx(8).min(n - i);
            let t = *s.pick(TOKENS);
            v.splice(i..i + k, t.iter().copied());
        }
        7 => {
            // delete a range
            let i = pos(s, n);
            let k = s.idx(16).min(n - i);
            v.drain(i..i + k);
        }
        8 => {
            // duplicate a range
            let i = pos(s, n);
            let k = s.idx(24).min(n - i);
            let d = v[i..i + k].to_vec();
            v.splice(i..i, d);
        }
        9 => {
            // change a digit
            let d: Vec<usize> = (0..n).filter(|i| v[*i].is_ascii_digit()).collect();
            if !d.is_empty() {
                let i = *s.pick(&d);
                if s.bool() {
                    v[i] = b'0' + s.below(10) as u8;
                } else {
                    let t = *s.pick(&[&b"4294967296"[..], b"0", b"-1", b"00", b"99999999999999999999", b"4294967295"]);
                    v.splice(i..i + 1, t.iter().copied());
                }
            }
        }
        10 => {
            // space: drop or double one
            let d: Vec<usize> = (0..n).filter(|i| v[*i] == b' ').collect();
            if !d.is_empty() {
                let i = *s.pick(&d);
                if s.bool() {
                    v.remove(i);
                } else {
                    v.insert(i, b' ');
                }
            }
        }
        11 => {
            // truncate
            v.truncate(s.idx(n + 1));
        }
        12 => {
            // splice with another valid message
            let (_, o) = valid(s);
            let i = s.idx(n + 1);
            let j = s.idx(o.len() + 1);
            v.truncate(i);
            v.extend_from_slice(&o[j..]);
        }
        _ => {
            // flip case or one bit
            if n > 0 {
                let i = pos(s, n);
                if s.bool() {
                    v[i] ^= 0x20;
                } else {
                    v[i] ^= 1 << s.below(8);
                }
            }
        }
    }
}

/// Repeats a token many times: deep nesting, long lists.
fn deep(s: &mut Src) -> (Kind, Vec<u8>) {
    let n = match s.below(6) {
        0 => s.range(1, 12),
        1 => s.range(5, 40),
        2 => s.range(20, 300),
        3 => s.range(100, 3000),
        4 => s.range(1000, 20000),
        _ => s.range(20000, 60000),
    } as usize;
    let (k, pre, rep, mid, post): (Kind, &[u8], &[u8], &[u8], &[u8]) = match s.below(20) {
        0 => (Kind::Command, b"A SEARCH ", b"NOT ", b"ALL", b""),
        1 => (Kind::Command, b"A SEARCH ", b"(", b"ALL", b")"),
        2 => (Kind::Command, b"A SEARCH ", b"OR ALL ", b"ALL", b""),
        3 => (Kind::Command, b"A SEARCH ", b"OR ", b"ALL", b" ALL"),
        4 => (Kind::Command, b"A SORT (DATE) UTF-8 ", b"(NOT ", b"ALL", b")"),
        5 => (Kind::Response, b"* THREAD ", b"(", b"1", b")"),
        6 => (Kind::Response, b"* THREAD ", b"(1 ", b"(1)(2)", b"(2))"),
        7 => (Kind::Response, b"* THREAD ", b"((1)", b"(2)", b")"),
        8 => (Kind::Response, b"* 1 FETCH (BODYSTRUCTURE ", b"(", b"(\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" 1 1)", b" \"MIXED\")"),
        9 => (
            Kind::Response,
            b"* 1 FETCH (BODYSTRUCTURE ",
            b"(\"MESSAGE\" \"RFC822\" NIL NIL NIL \"7BIT\" 1 (NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL) ",
            b"(\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" 1 1)",
            b" 1)",
        ),
        10 => (
            Kind::Response,
            b"* 1 FETCH (BODY (\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" 1 1 NIL NIL NIL NIL ",
            b"(",
            b"1",
            b")",
        ),
        11 => (Kind::Response, b"* 1 FETCH (FLAGS (", b"\\Seen ", b"a", b""),
        12 => (Kind::Command, b"A FETCH ", b"1:2,", b"3 ALL", b""),
        13 => (Kind::Response, b"* SEARCH", b" 1", b"", b""),
        14 => (Kind::Command, b"A LOGIN \"", b"\\\"", b"\" \"", b"\\\\"),
        15 => (Kind::Response, b"* CAPABILITY IMAP4REV1", b" A", b"", b""),
        16 => (Kind::Response, b"* NAMESPACE ", b"((\"\" NIL \"x\" (\"a\"))", b"", b")"),
        17 => (
            Kind::Response,
            b"* 1 FETCH (BODYSTRUCTURE ",
            b"((\"MESSAGE\" \"RFC822\" NIL NIL NIL \"7BIT\" 1 (NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL) ",
            b"(\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" 1 1)",
            b" 1) \"MIXED\")",
        ),
        18 => {
            let k = *s.pick(KINDS);
            let t = *s.pick(TOKENS);
            let p: &[u8] = *s.pick(&[&b"* "[..], b"A ", b"+ ", b"", b"* 1 FETCH (", b"A FETCH 1 (", b"A SEARCH ", b"* OK [", b"* LIST ("]);
            (k, p, t, b"", b"")
        }
        _ => (Kind::Response, b"* 1 FETCH (ENVELOPE (NIL NIL (", b"(NIL NIL NIL NIL)", b"", b""),
    };
    let mut v = pre.to_vec();
    for _ in 0..n {
        v.extend_from_slice(rep);
    }
    v.extend_from_slice(mid);
    let n2 = if s.one_in(6) { s.idx(n + 2) } else { n };
    for _ in 0..n2 {
        v.extend_from_slice(post);
    }
    match s.below(5) {
        0 => v.extend_from_slice(b")\r\n"),
        1 => {}
        2 => v.extend_from_slice(b" \"x\"\r\n"),
        3 => v.extend_from_slice(b"))\r\n"),
        _ => v.extend_from_slice(b"\r\n"),
    }
    (k, v)
}

fn soup(s: &mut Src) -> Vec<u8> {
    let mut v = vec![];
    let start: &[u8] = *s.pick(&[&b"A1 "[..], b"* ", b"+ ", b"", b"* 1 FETCH (", b"a SEARCH ", b"* OK ", b"A FETCH 1 "]);
    v.extend_from_slice(start);
    for _ in 0..s.below(30) {
        match s.below(4) {
            0 => v.extend_from_slice(s.pick(gen::WORDS).as_bytes()),
            _ => v.extend_from_slice(s.pick(TOKENS)),
        }
        if s.bool() {
            v.push(b' ');
        }
    }
    if s.bool() {
        v.extend_from_slice(b"\r\n");
    }
    v
}

/// Any input at all, biased to nearly valid.
pub fn any(s: &mut Src) -> (Kind, Vec<u8>) {
    match s.below(16) {
        0 => {
            let (m, w) = valid(s);
            (m.kind(), w)
        }
        1..=9 => {
            let (m, mut w) = valid(s);
            let n = match s.below(4) {
                0 | 1 => 1,
                2 => 2,
                _ => s.range(2, 6),
            };
            for _ in 0..n {
                mutate_once(s, &mut w);
            }
            let k = if s.one_in(12) { *s.pick(KINDS) } else { m.kind() };
            (k, w)
        }
        10..=12 => {
            let v = soup(s);
            (*s.pick(KINDS), v)
        }
        13 => deep(s),
        14 => {
            let v = gen::bytes(s, true);
            (*s.pick(KINDS), v)
        }
        15 if s.bool() => announced(s),
        _ => {
            let n = s.idx(40);
            let v = (0..n).map(|_| s.byte()).collect();
            (*s.pick(KINDS), v)
        }
    }
}

/// A message cut right behind a literal announcement, announcing any length in any mode.
pub fn announced(s: &mut Src) -> (Kind, Vec<u8>) {
    let (m, p) = loop_literal(s);
    let k = m.kind();
    let mut w = p.out;
    if !p.lits.is_empty() {
        let l = s.pick(&p.lits).clone();
        w.truncate(l.ann);
        let n = gen::u64_edge(s);
        let tilde = if l.lit8 != s.one_in(10) { "~" } else { "" };
        let plus = *s.pick(&["", "+"]);
        w.extend_from_slice(format!("{tilde}{{{n}{plus}}}\r\n").as_bytes());
        if s.one_in(6) {
            w.push(s.byte());
        }
    }
    (k, w)
}

fn loop_literal(s: &mut Src) -> (Msg, crate::refp::Printed) {
    for i in 0.. {
        let k = if s.bool() { Kind::Command } else { Kind::Response };
        let m = gen_msg_of(s, k);
        let p = crate::refp::print(&m, crate::refp::Style::Rand(s), true);
        if !p.lits.is_empty() || i == 5 {
            return (m, p);
        }
    }
    unreachable!()
}

/// Like `any`, without the deep inputs.
pub fn near_valid(s: &mut Src) -> (Kind, Vec<u8>) {
    let (m, mut w) = valid(s);
    let n = match s.below(6) {
        0 => 0,
        1..=3 => 1,
        _ => s.range(1, 3),
    };
    for _ in 0..n {
        mutate_once(s, &mut w);
    }
    (m.kind(), w)
}
