//! C06..C09: fragments — the encoder's and the fragmentizer's.
use imap_codec::{
    encode::Fragment,
    fragmentizer::{DecodeMessageError, FragmentInfo, Fragmentizer, LineEnding, LiteralAnnouncement},
    imap_types::core::{LiteralMode, Tag},
    CommandCodec, ResponseCodec,
};

use crate::{
    alloc, gen,
    refp::{self, Style},
    tape::Src,
    util::*,
    wire, Cx, Prop,
};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            rule: "the message is encoded into at least two fragments (it has a literal) or into at least 40 bytes; distinct by encoded bytes",
            f: c06,
        },
        Prop {
            id: "C07",
            rule: "the stream has at least two lines and was fed in at least two chunks; distinct by stream and chunk sizes",
            f: c07,
        },
        Prop {
            id: "C08",
            rule: "the history has at least two completed messages or one skip/poison/overflow; distinct by stream and history",
            f: c08,
        },
        Prop {
            id: "C09",
            rule: "at least two messages in the stream, one of them with a literal, malformed or oversized; distinct by stream",
            f: c09,
        },
    ]
}

// ----- C06 -----

/// The tail of a line (without line end) as literal announcement.
fn announcement(line: &[u8]) -> Option<(u32, LiteralMode)> {
    let body = line.strip_suffix(b"}")?;
    let (body, mode) = match body.strip_suffix(b"+") {
        Some(b) => (b, LiteralMode::NonSync),
        None => (body, LiteralMode::Sync),
    };
    let digits = body.iter().rev().take_while(|b| b.is_ascii_digit()).count();
    if digits == 0 || body.len() <= digits || body[body.len() - digits - 1] != b'{' {
        return None;
    }
    let n: u32 = std::str::from_utf8(&body[body.len() - digits..]).unwrap().parse().ok()?;
    Some((n, mode))
}

/// Messages that end in free text, whose end a fragmentizer could take for an announcement.
fn ends_in_text(m: &Msg) -> bool {
    use imap_codec::imap_types::response::*;
    match m {
        Msg::Greeting(_) => true,
        Msg::Response(Response::Status(_)) => true,
        Msg::Response(Response::CommandContinuationRequest(CommandContinuationRequest::Basic(_))) => true,
        _ => false,
    }
}

fn c06(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let m = gen_msg(s);
    let frags = m.fragments();
    let dump = m.encode();
    cx.label(label(&m));
    if frags.len() >= 2 || dump.len() >= 40 {
        cx.nontrivial(&dump);
    }
    cx.sample(|| format!("{frags:?}"));
    let bad = |what: &str| Err(format!("{what}: {frags:?} of {m:?}"));
    if frags.is_empty() {
        return bad("fragments-empty");
    }
    let mut all = vec![];
    let mut lits = vec![];
    let mut expect: Option<(u32, LiteralMode)> = None;
    for (i, f) in frags.iter().enumerate() {
        let last = i + 1 == frags.len();
        match f {
            Fragment::Line { data } => {
                all.extend_from_slice(data);
                if expect.is_some() {
                    return bad("fragments-line-after-announcement");
                }
                let Some(body) = data.strip_suffix(b"\r\n") else {
                    return bad("fragments-line-without-crlf");
                };
                if body.contains(&b'\r') || body.contains(&b'\n') {
                    return bad("fragments-line-with-inner-line-end");
                }
                let a = announcement(body);
                if last {
                    if a.is_some() && !ends_in_text(&m) {
                        return bad("fragments-announcement-without-literal");
                    }
                } else if a.is_none() {
                    return bad("fragments-literal-without-announcement");
                } else {
                    expect = a;
                }
            }
            Fragment::Literal { data, mode } => {
                all.extend_from_slice(data);
                if expect != Some((data.len() as u32, *mode)) {
                    return bad("fragments-announcement-mismatch");
                }
                if last {
                    return bad("fragments-ends-in-literal");
                }
                expect = None;
                lits.push((data.clone(), *mode));
            }
        }
    }
    if all != dump {
        return bad("fragments-dump");
    }
    // one literal fragment per literal of the message, in order, unchanged
    let p = refp::print(&m, Style::Plain, !cfg!(feature = "q_normalize"));
    let want: Vec<_> = p.lits.iter().map(|l| (p.out[l.start..l.end].to_vec(), l.mode)).collect();
    if want != lits {
        return bad("fragments-literals");
    }
    Ok(())
}

// ----- reference model of the fragmentizer -----

#[derive(Clone, Debug, PartialEq)]
enum Expect {
    Line,
    Literal(usize),
    Done,
}

#[derive(Clone, Debug)]
struct Model {
    max: Option<usize>,
    queue: Vec<u8>,
    /// All bytes of the current message that were parsed.
    msg: Vec<u8>,
    /// Where the current fragment starts.
    start: usize,
    expect: Expect,
    poisoned: bool,
}

impl Model {
    fn new(max: Option<u32>) -> Self {
        Model { max: max.map(|m| m as usize), queue: vec![], msg: vec![], start: 0, expect: Expect::Line, poisoned: false }
    }
    fn reset(&mut self) {
        self.msg.clear();
        self.start = 0;
        self.expect = Expect::Line;
        self.poisoned = false;
    }
    fn progress(&mut self) -> Option<FragmentInfo> {
        if self.expect == Expect::Done {
            self.reset();
        }
        match self.expect {
            Expect::Line => {
                let n = self.queue.iter().position(|b| *b == b'\n').map(|i| i + 1);
                let take = n.unwrap_or(self.queue.len());
                self.msg.extend(self.queue.drain(..take));
                n?;
                let line = &self.msg[self.start..self.msg.len() - 1];
                let (line, ending) = match line.strip_suffix(b"\r") {
                    Some(l) => (l, LineEnding::CrLf),
                    None => (line, LineEnding::Lf),
                };
                let a = announcement(line).map(|(length, mode)| LiteralAnnouncement { mode, length });
                let f = FragmentInfo::Line { start: self.start, end: self.msg.len(), announcement: a, ending };
                self.start = self.msg.len();
                self.expect = match a {
                    Some(a) => Expect::Literal(self.start + a.length as usize),
                    None => Expect::Done,
                };
                Some(f)
            }
            Expect::Literal(end) => {
                let take = (end - self.msg.len()).min(self.queue.len());
                self.msg.extend(self.queue.drain(..take));
                if self.msg.len() < end {
                    return None;
                }
                let f = FragmentInfo::Literal { start: self.start, end };
                self.start = end;
                self.expect = Expect::Line;
                Some(f)
            }
            Expect::Done => unreachable!(),
        }
    }
    fn cut(&self, n: usize) -> usize {
        self.max.map_or(n, |m| m.min(n))
    }
    fn bytes(&self) -> &[u8] {
        &self.msg[..self.cut(self.msg.len())]
    }
    fn exceeded(&self) -> bool {
        self.max.is_some_and(|m| self.msg.len() > m)
    }
    fn tag(&self) -> Option<String> {
        let b = self.bytes();
        let sp = b.iter().position(|x| *x == b' ' || *x == b'\n')?;
        if b[sp] != b' ' || sp == 0 || !b[..sp].iter().all(|x| gen::is_tag_char(*x)) {
            return None;
        }
        Some(String::from_utf8(b[..sp].to_vec()).unwrap())
    }
    fn same(&self, f: &Fragmentizer) -> Result<(), String> {
        if f.message_bytes() != self.bytes() {
            return Err(format!("message-bytes: got {} want {}", esc(f.message_bytes()), esc(self.bytes())));
        }
        if f.is_message_complete() != (self.expect == Expect::Done) {
            return Err(format!("complete: got {} want {:?}", f.is_message_complete(), self.expect));
        }
        if f.is_max_message_size_exceeded() != self.exceeded() {
            return Err(format!("exceeded: got {} want {}", f.is_max_message_size_exceeded(), self.exceeded()));
        }
        if f.is_message_poisoned() != self.poisoned {
            return Err(format!("poisoned: got {} want {}", f.is_message_poisoned(), self.poisoned));
        }
        let t = f.decode_tag().map(|t: Tag| t.inner().to_string());
        if t != self.tag() {
            return Err(format!("tag: got {t:?} want {:?} for {}", self.tag(), esc(self.bytes())));
        }
        Ok(())
    }
    fn check_fragment(&self, f: &Fragmentizer, fi: FragmentInfo) -> Result<(), String> {
        let r = fi.range();
        let (FragmentInfo::Line { start, end, .. } | FragmentInfo::Literal { start, end }) = fi;
        if r != (start..end) {
            return Err(format!("range: {r:?} for {fi:?}"));
        }
        let want = &self.msg[self.cut(r.start)..self.cut(r.end)];
        if f.fragment_bytes(fi) != want {
            return Err(format!("fragment-bytes: got {} want {}", esc(f.fragment_bytes(fi)), esc(want)));
        }
        Ok(())
    }
}

/// Bytes that exercise framing: announcements of all shapes, line ends of all shapes.
fn framing(s: &mut Src) -> Vec<u8> {
    let mut v = vec![];
    // Now and then a long stream: hundreds of short lines and literals.
    let items = if s.one_in(300) { s.range(50, 700) } else { s.range(1, 8) };
    for _ in 0..items {
        match s.below(if items > 8 { 6 } else { 12 }) {
            0 => v.extend_from_slice(b"\r\n"),
            1 => v.push(b'\n'),
            2 => v.push(b'\r'),
            3 | 4 => {
                // announcement, with data that may look like anything
                let n = match s.below(400) {
                    399 => s.range(24, 300) as usize,
                    398 => s.range(300, 70_000) as usize,
                    _ => s.idx(24),
                };
                let z = if s.one_in(6) { "0".repeat(s.idx(20)) } else { String::new() };
                let plus = if s.bool() { "+" } else { "" };
                let tilde = if s.one_in(4) { "~" } else { "" };
                v.extend_from_slice(format!("{tilde}{{{z}{n}{plus}}}").as_bytes());
                v.extend_from_slice(*s.pick(&[&b"\r\n"[..], b"\r\n", b"\n", b"\r\r\n", b" \r\n"]));
                let d = *s.pick(&[&b"abcdefgh"[..], b"\r\n", b"{5}\r\n", b"A1 NOOP\r\n", b"\0\xff"]);
                for i in 0..n {
                    v.push(d[i % d.len()]);
                }
            }
            5 => {
                let t: &[u8] = *s.pick(&[
                    &b"{"[..], b"}", b"{}", b"{+}", b"{1", b"1}", b"{1++}", b"{+1}", b"{ 1}", b"{1 }", b"{-1}", b"{1}}", b"{{1}", b"{1{2}", b"{2}x",
                    b"{4294967295}", b"{4294967296}", b"{42949672950}", b"{99999999999999999999}", b"{00000000000000000000002}", b"{0}", b"{0+}",
                    b"{1\r}", b"{1\n}", b"{1}\r ", b"{1+ }", b"{1+", b"\x00", b"{18446744073709551617}",
                ]);
                v.extend_from_slice(t);
                if s.bool() {
                    v.extend_from_slice(*s.pick(&[&b"\r\n"[..], b"\n", b"\r\r\n"]));
                }
            }
            6..=8 => v.extend_from_slice(&wire::valid(s).1),
            9 => {
                let (_, mut w) = wire::valid(s);
                wire::mutate_once(s, &mut w);
                v.extend_from_slice(&w);
            }
            10 => v.extend_from_slice(*s.pick(wire::TOKENS)),
            _ => v.extend_from_slice(&gen::bytes(s, true)),
        }
    }
    v
}

fn chunks(s: &mut Src, n: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut left = n;
    let style = s.below(5);
    while left > 0 {
        let k = match style {
            0 => left,
            1 if v.len() < 3000 => 1,
            2 => s.range(1, 4) as usize,
            3 => s.range(0, 40) as usize,
            _ => s.range(0, 400) as usize,
        };
        let k = if v.len() > 3000 { left } else { k.min(left) };
        v.push(k);
        left -= k;
    }
    v
}

fn c07(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let stream = framing(s);
    let ch = chunks(s, stream.len());
    if stream.iter().filter(|b| **b == b'\n').count() >= 2 && ch.len() >= 2 {
        let mut fp = stream.clone();
        ch.iter().for_each(|c| fp.extend_from_slice(&(*c as u32).to_le_bytes()));
        cx.nontrivial(&fp);
    }
    cx.sample(|| format!("{} in chunks {:?}", esc(&stream), &ch[..ch.len().min(20)]));
    // the whole stream at once, by the reference
    let mut model = Model::new(None);
    model.queue = stream.clone();
    let mut want = vec![];
    let mut complete = vec![];
    while let Some(f) = model.progress() {
        want.push((f, model.msg[f.range()].to_vec()));
        if model.expect == Expect::Done {
            complete.push(model.msg.clone());
        }
    }
    cx.label(if want.len() > 3 { "more than 3 fragments" } else { "few fragments" });
    // in chunks, by the fragmentizer
    let mut f = Fragmentizer::without_max_message_size();
    let mut got = vec![];
    let mut gc = vec![];
    let mut pos = 0;
    let drain = |f: &mut Fragmentizer, got: &mut Vec<_>, gc: &mut Vec<Vec<u8>>, n: usize| {
        for _ in 0..n {
            let Some(fi) = f.progress() else { break };
            got.push((fi, f.fragment_bytes(fi).to_vec()));
            if f.is_message_complete() {
                gc.push(f.message_bytes().to_vec());
            }
        }
    };
    for c in &ch {
        f.enqueue_bytes(&stream[pos..pos + c]);
        pos += c;
        // now and then let several chunks queue up, or take out only some of the fragments
        match s.below(6) {
            4 => {}
            5 => {
                for _ in 0..s.range(1, 3) {
                    drain(&mut f, &mut got, &mut gc, 1);
                }
            }
            _ => drain(&mut f, &mut got, &mut gc, usize::MAX),
        }
    }
    drain(&mut f, &mut got, &mut gc, usize::MAX);
    if got != want {
        let i = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return Err(format!("fragments: of {} in chunks {ch:?}: at {i} got {:?} want {:?}", esc(&stream), got.get(i), want.get(i)));
    }
    if gc != complete {
        return Err(format!("messages: of {} in chunks {ch:?}", esc(&stream)));
    }
    if f.is_message_complete() || f.message_bytes() != model.bytes() {
        return Err(format!("rest: of {} in chunks {ch:?}", esc(&stream)));
    }
    Ok(())
}

/// The time for a long stream is in proportion to its length, however it is fed.
fn long_feed(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let n = s.range(150_000, 300_000) as usize;
    let (name, stream): (&'static str, Vec<u8>) = match s.below(5) {
        0 => ("long feed: one line", [vec![b'a'; n], b"\r\n".to_vec()].concat()),
        1 => ("long feed: one literal", [format!("A {{{n}}}\r\n").into_bytes(), vec![b'\n'; n], b"\r\n".to_vec()].concat()),
        2 => ("long feed: short lines", b"A NOOP\r\n".repeat(n / 8)),
        3 => ("long feed: short literals", [b"A {2}\r\n".to_vec(), b"xy {1+}\r\n".repeat(n / 9)].concat()),
        _ => ("long feed: braces", b"A {1{2{3".repeat(n / 8)),
    };
    let chunk = *s.pick(&[1usize, 7, 64, 1000, 1 << 20]);
    let max = *s.pick(&[None, Some(100), Some(u32::MAX)]);
    cx.label(name);
    cx.nontrivial(format!("{name} {n} {chunk} {max:?}").as_bytes());
    cx.sample(|| format!("{name}, {n} bytes in chunks of {chunk}, limit {max:?}"));
    let limit = 200_000_000 + stream.len() as u64 * 4_000;
    let mut k = 0;
    let mut spent = u64::MAX;
    for _ in 0..3 {
        let mut f = max.map_or_else(Fragmentizer::without_max_message_size, Fragmentizer::new);
        let t0 = crate::alloc::cpu_ns();
        k = 0;
        for c in stream.chunks(chunk) {
            f.enqueue_bytes(c);
            while f.progress().is_some() {
                k += 1;
            }
            if crate::alloc::cpu_ns() - t0 > limit {
                break;
            }
        }
        spent = spent.min(crate::alloc::cpu_ns() - t0);
        if spent <= limit {
            break;
        }
    }
    if spent > limit {
        return Err(format!("time: {name}, {n} bytes in chunks of {chunk}, limit {max:?}: more than {} ms of CPU time, {k} fragments so far", limit / 1_000_000));
    }
    Ok(())
}

fn c08(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    if s.one_in(3000) {
        return long_feed(s, cx);
    }
    let max = match s.below(6) {
        0 => None,
        1 => Some(s.below(4) as u32),
        2 => Some(s.range(4, 40) as u32),
        3 => Some(match s.below(4) {
            0 => {
                let k = s.range(5, 31);
                ((1u64 << k) - 2 + s.below(4)) as u32
            }
            1 => s.range(200, 3000) as u32,
            2 => s.range(3000, 80_000) as u32,
            _ => u32::MAX,
        }),
        _ => Some(s.range(10, 300) as u32),
    };
    let mut f = match max {
        Some(m) => Fragmentizer::new(m),
        None => Fragmentizer::without_max_message_size(),
    };
    let mut m = Model::new(max);
    let mut hist: Vec<String> = vec![];
    let mut interesting = 0;
    let mut infos: Vec<FragmentInfo> = vec![];
    let n_ops = if s.one_in(200) { s.range(40, 400) } else { s.range(4, 40) };
    for _ in 0..n_ops {
        match s.below(16) {
            0..=4 => {
                let b = framing(s);
                let b = if s.bool() {
                    let k = s.idx(b.len() + 1);
                    b[..k].to_vec()
                } else {
                    b
                };
                hist.push(format!("enqueue {}", esc(&b)));
                f.enqueue_bytes(&b);
                m.queue.extend_from_slice(&b);
            }
            5..=11 => {
                hist.push("progress".into());
                if m.expect == Expect::Done {
                    infos.clear();
                }
                let got = f.progress();
                let want = m.progress();
                if got != want {
                    return Err(format!("progress: got {got:?} want {want:?} after {hist:?} max {max:?}"));
                }
                if let Some(fi) = got {
                    infos.push(fi);
                    // every fragment of the current message so far remains readable
                    for fi in infos.iter().rev().take(12) {
                        m.check_fragment(&f, *fi).map_err(|e| format!("{e} after {hist:?} max {max:?}"))?;
                    }
                }
                if m.expect == Expect::Done {
                    interesting += 1;
                }
                if m.exceeded() {
                    interesting += 2;
                }
            }
            12 => {
                hist.push("skip".into());
                f.skip_message();
                m.reset();
                infos.clear();
                interesting += 2;
            }
            13 => {
                hist.push("poison".into());
                f.poison_message();
                m.poisoned = true;
                interesting += 2;
            }
            14 => {
                hist.push("clone".into());
                let g = f.clone();
                f = g;
            }
            _ => {}
        }
        m.same(&f).map_err(|e| format!("{e} after {hist:?} max {max:?}"))?;
        check_decode(&m, &f).map_err(|e| format!("{e} after {hist:?} max {max:?}"))?;
    }
    if interesting >= 2 {
        cx.nontrivial(format!("{max:?}{hist:?}").as_bytes());
    }
    cx.sample(|| format!("max {max:?}: {}", hist.join("; ")));
    // Memory: a huge message in small chunks occupies no more than the limit allows.
    if let Some(mx) = max.filter(|m| *m <= 300) {
        if s.one_in(8) {
            f.skip_message();
            let k = s.range(1, 200) as usize * 1024;
            let data = vec![b'x'; 1024];
            let (_, u) = alloc::measure(|| {
                while f.progress().is_some() {}
                f.skip_message();
                f.enqueue_bytes(format!("A LOGIN {{{k}}}\r\n").as_bytes());
                while f.progress().is_some() {}
                for _ in 0..k / 1024 {
                    f.enqueue_bytes(&data);
                    while f.progress().is_some() {}
                }
                f.enqueue_bytes(b"\r\n");
            });
            if u.peak > 16 * 1024 + 4 * mx as usize {
                return Err(format!("memory: {} bytes held for a message of {k} bytes with limit {mx}", u.peak));
            }
            // and framing survives
            let fi = f.progress();
            if !matches!(fi, Some(FragmentInfo::Line { announcement: None, .. })) || !f.is_message_complete() || f.is_max_message_size_exceeded() != (k as u32 > mx) {
                return Err(format!("framing-after-overflow: {fi:?}"));
            }
        }
    }
    Ok(())
}

fn check_decode(m: &Model, f: &Fragmentizer) -> Result<(), String> {
    macro_rules! go {
        ($codec:expr, $kind:expr, $wrap:path) => {{
            use imap_codec::imap_types::IntoStatic;
            let got = f.decode_message(&$codec);
            if m.exceeded() {
                match got {
                    Err(DecodeMessageError::MessageTooLong { initial }) if *initial.declassify() == m.bytes() => {}
                    o => return Err(format!("decode-too-long: got {o:?}")),
                }
            } else if m.poisoned {
                match got {
                    Err(DecodeMessageError::MessagePoisoned { discarded }) if *discarded.declassify() == m.bytes() => {}
                    o => return Err(format!("decode-poisoned: got {o:?}")),
                }
            } else {
                let d = decode($kind, m.bytes());
                match (got, d) {
                    (Ok(x), Dec::Ok { consumed, msg }) if consumed == m.bytes().len() && msg == $wrap(x.clone().into_static()) => {}
                    (Err(DecodeMessageError::DecodingRemainder { message, remainder }), Dec::Ok { consumed, msg })
                        if consumed < m.bytes().len()
                            && *remainder.declassify() == &m.bytes()[consumed..]
                            && msg == $wrap(message.clone().into_static()) => {}
                    (Err(DecodeMessageError::DecodingFailure(e)), d) if !d.is_ok() && d == dec_err(&e.clone().into()) => {}
                    (g, d) => return Err(format!("decode: got {g:?} want {d:?}")),
                }
            }
        }};
    }
    go!(CommandCodec::default(), Kind::Command, Msg::Command);
    go!(ResponseCodec::default(), Kind::Response, Msg::Response);
    Ok(())
}

enum AnyErr {
    C(imap_codec::decode::CommandDecodeError<'static>),
    R(imap_codec::decode::ResponseDecodeError),
}
impl From<imap_codec::decode::CommandDecodeError<'_>> for AnyErr {
    fn from(e: imap_codec::decode::CommandDecodeError<'_>) -> Self {
        use imap_codec::imap_types::IntoStatic;
        AnyErr::C(e.into_static())
    }
}
impl From<imap_codec::decode::ResponseDecodeError> for AnyErr {
    fn from(e: imap_codec::decode::ResponseDecodeError) -> Self {
        AnyErr::R(e)
    }
}
fn dec_err(e: &AnyErr) -> Dec {
    use imap_codec::decode::{CommandDecodeError as C, ResponseDecodeError as R};
    match e {
        AnyErr::C(C::Incomplete) | AnyErr::R(R::Incomplete) => Dec::Incomplete,
        AnyErr::C(C::Failed) | AnyErr::R(R::Failed) => Dec::Failed,
        AnyErr::C(C::LiteralFound { tag, length, mode }) => {
            Dec::Literal { tag: Some(tag.inner().to_string()), length: *length, mode: Some(*mode) }
        }
        AnyErr::R(R::LiteralFound { length }) => Dec::Literal { tag: None, length: *length, mode: None },
    }
}

// ----- C09 -----

enum Part {
    Good(Box<Msg>, Vec<u8>),
    /// A command that is broken on purpose, but framed correctly. Its tag must still be found.
    Bad(String, Vec<u8>),
}

fn bad_command(s: &mut Src) -> (String, Vec<u8>) {
    let tag = gen::tag(s).inner().to_string();
    let mut v = format!("{tag} ").into_bytes();
    v.extend_from_slice(*s.pick(&[&b"XNOSUCH"[..], b"LOGIN", b"SELECT", b"FETCH 0 ", b"SEARCH (", b"", b"NOOP x"]));
    v.push(b' ');
    for _ in 0..s.below(3) {
        let d = gen::bytes(s, true);
        let plus = if s.bool() { "+" } else { "" };
        v.extend_from_slice(format!("((({{{}{plus}}}\r\n", d.len()).as_bytes());
        v.extend_from_slice(&d);
    }
    v.extend_from_slice(b"((((\r\n");
    (tag, v)
}

fn c09(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let kind = if s.below(3) < 2 { Kind::Command } else { Kind::Response };
    let n = if s.one_in(200) { s.range(20, 200) } else { s.range(2, 6) };
    let mut parts = vec![];
    let mut odd = false;
    for _ in 0..n {
        if kind == Kind::Command && s.below(4) == 3 {
            let (t, v) = bad_command(s);
            odd = true;
            parts.push(Part::Bad(t, v));
            continue;
        }
        let m = gen_msg_of(s, kind);
        let w = wire::spell(s, &m);
        if ends_in_text(&m) && announcement(&w[..w.len() - 2]).is_some() {
            // known limitation: free text that ends like an announcement
            continue;
        }
        odd |= w.contains(&b'{');
        parts.push(Part::Good(Box::new(m), w));
    }
    let max = match s.below(4) {
        0 => None,
        1 => Some(s.range(10, 200) as u32),
        2 if !parts.is_empty() => {
            // just about the size of one of the messages
            let (Part::Good(_, w) | Part::Bad(_, w)) = s.pick(&parts);
            Some((w.len() as u64 + s.below(5)).saturating_sub(2) as u32)
        }
        _ => Some(100_000),
    };
    let stream: Vec<u8> = parts
        .iter()
        .flat_map(|p| match p {
            Part::Good(_, w) | Part::Bad(_, w) => w.iter().copied(),
        })
        .collect();
    if parts.len() >= 2 && (odd || max.is_some_and(|m| m <= 200)) {
        cx.nontrivial(&stream);
    }
    cx.sample(|| format!("max {max:?} {}", esc(&stream)));
    let ch = chunks(s, stream.len());
    let mut f = match max {
        Some(m) => Fragmentizer::new(m),
        None => Fragmentizer::without_max_message_size(),
    };
    let mut pos = 0;
    let mut it = ch.iter();
    for (i, p) in parts.iter().enumerate() {
        let ctx = || format!("message {i} of {} in chunks {ch:?} max {max:?}", esc(&stream));
        let (Part::Good(_, w) | Part::Bad(_, w)) = p;
        let mut anns = vec![];
        loop {
            match f.progress() {
                Some(fi) => {
                    if let FragmentInfo::Line { announcement: Some(a), end, .. } = fi {
                        anns.push((a.length, a.mode, end));
                    }
                    if f.is_message_complete() {
                        break;
                    }
                }
                None => {
                    let Some(c) = it.next() else {
                        return Err(format!("stream-stuck: {}", ctx()));
                    };
                    f.enqueue_bytes(&stream[pos..pos + c]);
                    pos += c;
                }
            }
        }
        let over = max.is_some_and(|m| w.len() > m as usize);
        let cut = max.map_or(w.len(), |m| w.len().min(m as usize));
        if f.message_bytes() != &w[..cut] {
            return Err(format!("stream-framing: got {} for {}", esc(f.message_bytes()), ctx()));
        }
        // decoding
        let (class, same) = match kind {
            Kind::Command => match f.decode_message(&CommandCodec::default()) {
                Ok(c) => ("ok", matches!(p, Part::Good(m, _) if matches!(&**m, Msg::Command(x) if Msg::Command(x.clone()).expected() == Msg::Command(imap_codec::imap_types::IntoStatic::into_static(c.clone())).cmp_form()))),
                Err(DecodeMessageError::MessageTooLong { .. }) => ("too long", true),
                Err(DecodeMessageError::DecodingFailure(_)) => ("failed", true),
                Err(DecodeMessageError::DecodingRemainder { .. }) => ("remainder", true),
                Err(DecodeMessageError::MessagePoisoned { .. }) => ("poisoned", true),
            },
            _ => match f.decode_message(&ResponseCodec::default()) {
                Ok(c) => ("ok", matches!(p, Part::Good(m, _) if matches!(&**m, Msg::Response(x) if Msg::Response(x.clone()).expected() == Msg::Response(imap_codec::imap_types::IntoStatic::into_static(c.clone())).cmp_form()))),
                Err(DecodeMessageError::MessageTooLong { .. }) => ("too long", true),
                Err(DecodeMessageError::DecodingFailure(_)) => ("failed", true),
                Err(DecodeMessageError::DecodingRemainder { .. }) => ("remainder", true),
                Err(DecodeMessageError::MessagePoisoned { .. }) => ("poisoned", true),
            },
        };
        let want = match p {
            _ if over => "too long",
            Part::Good(..) => "ok",
            Part::Bad(..) => "failed",
        };
        cx.label(want);
        if class != want || !same {
            return Err(format!("stream-decode: {class} instead of {want} for {}", ctx()));
        }
        // the tag
        if kind == Kind::Command {
            let tag = match p {
                Part::Good(m, _) => tag_of(m).unwrap().inner().to_string(),
                Part::Bad(t, _) => t.clone(),
            };
            if cut > tag.len() && f.decode_tag().map(|t| t.inner().to_string()) != Some(tag) {
                return Err(format!("stream-tag: {:?} for {}", f.decode_tag(), ctx()));
            }
        }
        // The decoder asks for the same literals at the same places as the fragmentizer announces.
        if let (Part::Good(m, w), true) = (p, w.len() < 3000) {
            let mut found = vec![];
            let lines: Vec<usize> = (0..w.len()).filter(|i| w[*i] == b'\n').map(|i| i + 1).collect();
            for l in lines {
                if l == w.len() {
                    continue;
                }
                if let Dec::Literal { length, mode, .. } = decode(m.kind(), &w[..l]) {
                    found.push((length, mode, l));
                }
            }
            let want: Vec<_> = anns.iter().map(|(l, m, e)| (*l, (kind == Kind::Command).then_some(*m), *e)).collect();
            if found != want {
                return Err(format!("stream-literals: decoder {found:?} fragmentizer {want:?} for {}", ctx()));
            }
        }
    }
    if f.progress().is_some() || !f.message_bytes().is_empty() {
        return Err(format!("stream-rest: {}", esc(&stream)));
    }
    Ok(())
}
