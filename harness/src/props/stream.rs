//! C03, C04, C05: the decoders on arbitrary, partial and trailing input.
use crate::{
    alloc,
    refp::{self, Style},
    tape::Src,
    util::*,
    wire, Cx, Prop,
};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C03",
            rule: "the input has at least 8 bytes (most are mutated valid messages, token soup or deeply nested); distinct by codec and input bytes",
            f: c03,
        },
        Prop {
            id: "C04",
            rule: "a valid message of at least 12 bytes cut at several places (every place if at most 220 bytes); distinct by message bytes",
            f: c04,
        },
        Prop {
            id: "C05",
            rule: "the message carries at least one literal; distinct by message bytes",
            f: c05,
        },
    ]
}

/// Lists of the grammar: codec, what goes before, an element, the separator, what goes after.
const LISTS: &[(Kind, &str, &str, &str, &str)] = &[
    (Kind::Command, "A SEARCH ", "NOT SEEN", " ", "\r\n"),
    (Kind::Command, "A SEARCH (", "OR SEEN 1:4,7", " ", ")\r\n"),
    (Kind::Command, "A SEARCH 1 (", "BCC \"a\\\"b\"", " ", ")\r\n"),
    (Kind::Command, "A SORT (", "REVERSE DATE", " ", ") UTF-8 ALL\r\n"),
    (Kind::Command, "A FETCH 1 (", "BODY[1.2.HEADER.FIELDS (a b)]<1.2>", " ", ")\r\n"),
    (Kind::Command, "A FETCH 1 BODY[HEADER.FIELDS (", "abc", " ", ")]\r\n"),
    (Kind::Command, "A FETCH 1 BODY[", "1", ".", "]\r\n"),
    (Kind::Command, "A FETCH ", "3:7", ",", " FLAGS\r\n"),
    (Kind::Command, "A STORE 1 FLAGS (", "\\Seen", " ", ")\r\n"),
    (Kind::Command, "A STORE 1 FLAGS ", "abc", " ", "\r\n"),
    (Kind::Command, "A APPEND a (", "\\Xyz", " ", ") {1}\r\nx\r\n"),
    (Kind::Command, "A STATUS a (", "MESSAGES", " ", ")\r\n"),
    (Kind::Command, "A ENABLE ", "ABC", " ", "\r\n"),
    (Kind::Command, "A SETQUOTA a (", "STORAGE 7", " ", ")\r\n"),
    (Kind::Command, "A LOGIN a \"", "\\\\", "", "\"\r\n"),
    (Kind::Command, "A LOGIN a ", "b", "", "\r\n"),
    (Kind::Command, "", "a", "", " NOOP\r\n"),
    (Kind::Command, "A LIST \"\" ", "%", "", "\r\n"),
    (Kind::Command, "A AUTHENTICATE PLAIN ", "AAAA", "", "\r\n"),
    (Kind::Auth, "", "AAAA", "", "\r\n"),
    (Kind::Response, "* SEARCH ", "12", " ", "\r\n"),
    (Kind::Response, "* SORT ", "12", " ", "\r\n"),
    (Kind::Response, "* THREAD ", "(1 2)", "", "\r\n"),
    (Kind::Response, "* THREAD (", "1", " ", ")\r\n"),
    (Kind::Response, "* THREAD (1 ", "(2)", "", "(3))\r\n"),
    (Kind::Response, "* FLAGS (", "\\Seen", " ", ")\r\n"),
    (Kind::Response, "* LIST (", "\\Marked", " ", ") \"/\" a\r\n"),
    (Kind::Response, "* STATUS a (", "MESSAGES 1", " ", ")\r\n"),
    (Kind::Response, "* CAPABILITY ", "AUTH=X", " ", "\r\n"),
    (Kind::Response, "* OK [CAPABILITY ", "IMAP4REV1", " ", "] x\r\n"),
    (Kind::Response, "* OK [PERMANENTFLAGS (", "a", " ", ")] x\r\n"),
    (Kind::Response, "* OK [BADCHARSET (", "\"a\"", " ", ")] x\r\n"),
    (Kind::Response, "* OK [XYZ ", "a", "", "] x\r\n"),
    (Kind::Response, "* OK ", "a", "", "\r\n"),
    (Kind::Response, "* QUOTA a (", "STORAGE 1 2", " ", ")\r\n"),
    (Kind::Response, "* QUOTAROOT a ", "b", " ", "\r\n"),
    (Kind::Response, "* ENABLED ", "b", " ", "\r\n"),
    (Kind::Response, "* 1 FETCH (", "UID 1", " ", ")\r\n"),
    (Kind::Response, "* 1 FETCH (FLAGS (", "\\Recent", " ", "))\r\n"),
    (Kind::Response, "* 1 FETCH (ENVELOPE (NIL NIL (", "(NIL NIL NIL \"a\")", "", ") NIL NIL NIL NIL NIL NIL NIL))\r\n"),
    (Kind::Response, "* 1 FETCH (BODY (\"a\" \"b\" (", "\"c\" {1}\r\nd", " ", ") NIL NIL \"7BIT\" 1))\r\n"),
    (Kind::Response, "* 1 FETCH (BODY (", "(\"a\" \"b\" NIL NIL NIL \"7BIT\" 1)", "", " \"mixed\"))\r\n"),
    (Kind::Response, "* 1 FETCH (BODYSTRUCTURE (\"a\" \"b\" NIL NIL NIL \"7BIT\" 1 NIL NIL (", "\"en\"", " ", ")))\r\n"),
    (Kind::Response, "* 1 FETCH (BODYSTRUCTURE (\"a\" \"b\" NIL NIL NIL \"7BIT\" 1 NIL NIL NIL NIL ", "(1 NIL)", " ", "))\r\n"),
    (Kind::Response, "* 1 FETCH (RFC822 \"", "\\\"x", "", "\")\r\n"),
    (Kind::Response, "+ ", "AAAA", "", "\r\n"),
    (Kind::Response, "+ ", "A ", "", "x\r\n"),
    (Kind::Greeting, "* OK ", "a", "", "\r\n"),
];

/// Ways to put one thing into another of its kind: what the whole needs around it, and the layers.
#[allow(clippy::type_complexity)]
const NESTS: &[(Kind, &str, &str, &[(&str, &str)], &str)] = &[
    (
        Kind::Command,
        "A SEARCH ",
        "\r\n",
        &[("(", ")"), ("(", " 2)"), ("(2 ", ")"), ("NOT ", ""), ("OR ", " 1"), ("OR 1 ", "")],
        "NOT SEEN",
    ),
    (
        Kind::Response,
        "* 1 FETCH (BODY ",
        ")\r\n",
        &[
            ("(", " \"mixed\")"),
            ("((\"a\" \"b\" NIL NIL NIL \"7BIT\" 1)", " \"mixed\")"),
            ("(", "(\"a\" \"b\" NIL NIL NIL \"7BIT\" 1) \"mixed\")"),
            ("(\"message\" \"rfc822\" NIL NIL NIL \"7BIT\" 1 (NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL) ", " 7)"),
        ],
        "(\"a\" \"b\" NIL NIL NIL \"7BIT\" 1)",
    ),
    (Kind::Response, "* THREAD ", "\r\n", &[("(", "(1))"), ("((1)", ")"), ("(1 ", "(2))"), ("(1 2 (3)", ")")], "(1 2)"),
    (
        Kind::Response,
        "* 1 FETCH (BODYSTRUCTURE (\"a\" \"b\" NIL NIL NIL \"7BIT\" 1 NIL NIL NIL NIL ",
        "))\r\n",
        &[("(", ")"), ("(1 ", ")"), ("(", " 1)"), ("(\"a\" NIL ", " NIL)")],
        "(1)",
    ),
];

/// Work as counted by the allocator.
fn work(k: Kind, w: &[u8]) -> (usize, usize) {
    let (_, u) = alloc::measure(|| decode_only(k, w));
    (u.count, u.total)
}

/// Twice the input is about twice the work, and a layer around it is next to nothing.
fn proportional(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let damage = |s: &mut Src, w: &str, d: u64| -> Vec<u8> {
        let mut v = w.as_bytes().to_vec();
        match d {
            // cut, or spoilt near the end: what was parsed may be parsed again as something else
            0 => v.truncate(v.len() - s.range(1, 6).min(v.len() as u64) as usize),
            1 => {
                let i = v.len() - 1 - s.idx(6.min(v.len()));
                v[i] = b'?';
            }
            _ => {}
        }
        v
    };
    let d = s.below(5);
    if s.bool() {
        let (k, pre, el, sep, post) = *s.pick(LISTS);
        let n = s.range(60, 250) as usize;
        let list = |n: usize| format!("{pre}{}{post}", vec![el; n].join(sep));
        let (a, b) = (damage(s, &list(n), 2), damage(s, &list(8 * n), d));
        cx.label("proportional: list");
        cx.nontrivial(&b);
        cx.sample(|| format!("{k:?} {}", esc(&a)));
        if d > 1 && !decode_only(k, &a) && cfg!(feature = "ext") && cfg!(feature = "quirk") {
            return Err(format!("list: not accepted: {}", esc(&a)));
        }
        let (wa, wb) = (work(k, &a), work(k, &b));
        if wb.0 > 24 * wa.0 + 2000 || wb.1 > 24 * wa.1 + 200_000 {
            return Err(format!("proportional: {n} elements take (allocations, bytes) {wa:?}, 8 times as many take {wb:?}: {}", esc(&a)));
        }
        // and, rarely, very many (the time limit shows what the allocator does not)
        if s.one_in(64) {
            let w = list(60_000);
            let limit = 200_000_000 + w.len() as u64 * 5_000;
            let dt = (0..3)
                .map(|_| {
                    let t0 = alloc::cpu_ns();
                    decode_only(k, w.as_bytes());
                    alloc::cpu_ns() - t0
                })
                .find(|t| *t <= limit);
            if dt.is_none() {
                return Err(format!("time: {} bytes take more than {} ms of CPU time: {}…", w.len(), limit / 1_000_000, &w[..100]));
            }
        }
        return Ok(());
    }
    let (k, pre, post, layers, leaf) = *s.pick(NESTS);
    let n = s.range(40, 200) as usize;
    let inner = match k {
        Kind::Command => format!("({})", vec![leaf; n].join(" ")),
        _ if pre.contains("THREAD") => format!("({})", vec![leaf; n].concat()),
        _ if pre.contains("BODYSTRUCTURE") => format!("({})", vec![leaf; n].join(" ")),
        _ => format!("({} \"mixed\")", vec![leaf; n].concat()),
    };
    let depth = s.range(3, 6);
    let same = s.bool();
    let mut x = inner.clone();
    let mut l = *s.pick(layers);
    for _ in 0..depth {
        if !same {
            l = *s.pick(layers);
        }
        x = format!("{}{x}{}", l.0, l.1);
    }
    let (a, b) = (damage(s, &format!("{pre}{inner}{post}"), 2), damage(s, &format!("{pre}{x}{post}"), d));
    cx.label("proportional: nested");
    cx.nontrivial(&b);
    cx.sample(|| format!("{k:?} {}", esc(&b)));
    let (wa, wb) = (work(k, &a), work(k, &b));
    if wb.0 > 4 * wa.0 + 500 || wb.1 > 4 * wa.1 + 50_000 {
        return Err(format!("proportional: one layer takes (allocations, bytes) {wa:?}, {depth} more take {wb:?}: {}", esc(&b)));
    }
    Ok(())
}

fn c03(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    if s.one_in(40) {
        return proportional(s, cx);
    }
    let (k, w) = wire::any(s);
    if w.len() >= 8 {
        let mut fp = w.clone();
        fp.push(k as u8);
        cx.nontrivial(&fp);
    }
    cx.sample(|| format!("{k:?} {}", esc(&w)));
    let t0 = alloc::cpu_ns();
    let (ok, u) = alloc::measure(|| decode_only(k, &w));
    let mut dt = alloc::cpu_ns() - t0;
    cx.label(if ok { "accepted" } else { "rejected" });
    // A decoded message needs space in proportion to the input. The largest element a few bytes can
    // stand for is a body structure or an envelope (about 1 KiB); vectors double.
    let limit = 64 * 1024 + w.len().saturating_mul(4096);
    if u.peak > limit {
        return Err(format!("memory: decoding {} bytes held {} bytes at once: {:?} {}", w.len(), u.peak, k, esc(&w[..w.len().min(2000)])));
    }
    // The number of allocations is a deterministic measure of work (backtracking shows in it).
    let n = 20_000 + w.len().saturating_mul(400);
    if u.count > n {
        return Err(format!("work: decoding {} bytes made {} allocations: {:?} {}", w.len(), u.count, k, esc(&w[..w.len().min(2000)])));
    }
    // So is the number of bytes copied.
    let n = (1 << 20) + w.len().saturating_mul(2000);
    if u.total > n {
        return Err(format!("copying: decoding {} bytes allocated {} bytes in all: {:?} {}", w.len(), u.total, k, esc(&w[..w.len().min(2000)])));
    }
    // CPU time of this thread: 50 times what the slowest inputs take, best of four.
    let n = 200_000_000 + w.len() as u64 * 5_000;
    for _ in 0..3 {
        if dt > n {
            let t0 = alloc::cpu_ns();
            decode_only(k, &w);
            dt = dt.min(alloc::cpu_ns() - t0);
        }
    }
    if dt > n {
        return Err(format!("time: decoding {} bytes took {} ms of CPU time: {:?} {}", w.len(), dt / 1_000_000, k, esc(&w[..w.len().min(2000)])));
    }
    // Decoding is a function of the input.
    let a = decode(k, &w);
    if a.is_ok() != ok {
        return Err(format!("nondeterministic: {k:?} {}", esc(&w)));
    }
    if let Dec::Ok { msg, .. } = a {
        // whatever was decoded can be encoded, printed and dropped
        let _ = msg.encode();
        let _ = format!("{msg:?}");
    }
    Ok(())
}

/// Cut points of a message of n bytes.
fn cuts(s: &mut Src, w: &[u8], special: &[usize]) -> Vec<usize> {
    let n = w.len();
    if n <= 220 {
        return (0..n).collect();
    }
    let mut v: Vec<usize> = (0..40).collect();
    v.extend(n - 40..n);
    for x in special {
        for d in 0..4 {
            v.push(x.saturating_sub(d));
            v.push(x + d);
        }
    }
    for _ in 0..60 {
        v.push(s.idx(n));
    }
    // after structural bytes
    let st: Vec<usize> = (0..n).filter(|i| matches!(w[*i], b'\r' | b'\n' | b'{' | b'}' | b'"' | b'(' | b')' | b' ' | b']')).collect();
    for _ in 0..40 {
        if let Some(i) = (!st.is_empty()).then(|| *s.pick(&st)) {
            v.push(i);
            v.push(i + 1);
        }
    }
    v.retain(|x| *x < n);
    v.sort();
    v.dedup();
    // long messages: fewer cuts, so that the work per case stays bounded
    let cap = (400_000 / n).clamp(24, 400);
    if v.len() > cap {
        let all = v;
        v = (0..cap).map(|_| *s.pick(&all)).collect();
        v.extend((0..cap / 3).filter_map(|_| (!special.is_empty()).then(|| *s.pick(special))));
        v.retain(|x| *x < n);
        v.sort();
        v.dedup();
    }
    v
}

pub fn c04(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let m = gen_msg(s);
    let (w, lits) = if s.one_in(3) {
        (m.encode(), vec![])
    } else {
        let p = refp::print(&m, Style::Rand(s), true);
        (p.out, p.lits)
    };
    let k = m.kind();
    cx.label(label(&m));
    if w.len() >= 14 {
        cx.nontrivial(&w);
    }
    cx.sample(|| esc(&w));
    let special: Vec<usize> = lits.iter().flat_map(|l| [l.ann, l.start, l.end]).collect();
    for c in cuts(s, &w, &special) {
        match decode(k, &w[..c]) {
            Dec::Incomplete | Dec::Literal { .. } => {}
            o => return Err(format!("prefix: first {c} of {} bytes decode to {} — {} | {}", w.len(), o.class(), esc(&w[..c]), esc(&w[c..]))),
        }
    }
    // followed by anything
    let whole = decode(k, &w);
    let Dec::Ok { consumed, .. } = &whole else {
        return Err(format!("whole: {} for {}", whole.class(), esc(&w)));
    };
    if *consumed != w.len() {
        return Err(format!("whole: consumed {consumed} of {} bytes of {}", w.len(), esc(&w)));
    }
    for i in 0..3 {
        let tail: Vec<u8> = match (i, s.below(4)) {
            (0, 0) => b"\r\n".to_vec(),
            (0, 1) => b" ".to_vec(),
            (_, 2) => wire::valid(s).1,
            _ => crate::gen::bytes(s, true),
        };
        let mut x = w.clone();
        x.extend_from_slice(&tail);
        let d = decode(k, &x);
        if d != whole {
            return Err(format!("trailing: {} followed by {} gives {:?}, alone {:?}", esc(&w), esc(&tail), d, whole));
        }
    }
    Ok(())
}

pub fn c05(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let k = if s.bool() { Kind::Command } else { Kind::Response };
    let mut m = gen_msg_of(s, k);
    let mut p = refp::print(&m, Style::Rand(s), true);
    for _ in 0..5 {
        if !p.lits.is_empty() {
            break;
        }
        m = gen_msg_of(s, k);
        p = refp::print(&m, Style::Rand(s), true);
    }
    let w = p.out;
    if p.lits.is_empty() {
        cx.label("no literal");
    } else {
        cx.nontrivial(&w);
        cx.label(label(&m));
        if p.lits.len() > 1 {
            cx.label("several literals");
        }
    }
    cx.sample(|| esc(&w));
    let tag = tag_of(&m).map(|t| t.inner().to_string());
    let special: Vec<usize> = p.lits.iter().flat_map(|l| [l.ann, l.start, l.end]).collect();
    for c in cuts(s, &w, &special) {
        // right behind the announcement, nothing of the literal there yet
        let inside = p.lits.iter().find(|l| l.start == c);
        let want = match inside {
            Some(l) => Dec::Literal {
                tag: tag.clone(),
                length: (l.end - l.start) as u32,
                mode: (k == Kind::Command).then_some(l.mode),
            },
            None => Dec::Incomplete,
        };
        let got = decode(k, &w[..c]);
        if got != want {
            return Err(format!("literal: after {c} of {} bytes want {want:?} got {got:?} — {} | {}", w.len(), esc(&w[..c]), esc(&w[c..])));
        }
    }
    // The announcement alone decides: any announced length is reported as is, however large.
    if let Some(l) = (!p.lits.is_empty()).then(|| s.pick(&p.lits).clone()) {
        let n = crate::gen::u64_edge(s);
        let mut x = w[..l.ann].to_vec();
        if l.lit8 {
            x.push(b'~');
        }
        let plus = s.bool();
        x.extend_from_slice(format!("{{{n}{}}}\r\n", if plus { "+" } else { "" }).as_bytes());
        let got = decode(k, &x);
        if n > u64::from(u32::MAX) {
            if got != Dec::Failed {
                return Err(format!("literal-overflow: {got:?} for {}", esc(&x)));
            }
        } else {
            let mode = (k == Kind::Command).then_some(if plus {
                imap_codec::imap_types::core::LiteralMode::NonSync
            } else {
                imap_codec::imap_types::core::LiteralMode::Sync
            });
            let want = Dec::Literal { tag, length: n as u32, mode };
            if got != want {
                return Err(format!("literal-length: want {want:?} got {got:?} for {}", esc(&x)));
            }
            // some, but not all, of the data: more is needed, and no literal is to be agreed to
            if n > 1 {
                x.extend(std::iter::repeat_n(b'x', s.range(1, (n - 1).min(3)) as usize));
                let got = decode(k, &x);
                if got != Dec::Incomplete {
                    return Err(format!("literal-partial: got {got:?} for {}", esc(&x)));
                }
            }
        }
    }
    Ok(())
}
