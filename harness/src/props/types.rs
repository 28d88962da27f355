//! C10, C11, C12, C18, C25: the validated types, their conversions and the convenience constructors.
use std::{borrow::Cow, num::NonZeroU32};

use chrono::{Datelike, TimeZone, Timelike};
use imap_codec::imap_types::{
    auth::AuthMechanism,
    command::{Command, CommandBody},
    core::*,
    datetime::{DateTime, NaiveDate},
    extensions::{
        compress::CompressionAlgorithm,
        enable::CapabilityEnable,
        quota::Resource,
        sort::SortAlgorithm,
        thread::ThreadingAlgorithm,
    },
    fetch::{Macro, MessageDataItemName},
    flag::{Flag, FlagNameAttribute, StoreResponse, StoreType},
    mailbox::{ListCharString, ListMailbox, Mailbox, MailboxOther},
    response::*,
    search::SearchKey,
    status::StatusDataItemName,
    utils::{escape_quoted, unescape_quoted},
};

use crate::{
    gen,
    refp::{self, Style},
    tape::Src,
    util::*,
    Cx, Prop,
};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10",
            rule: "the candidate is non-empty and is an accepted string with at most a few bytes changed, or a date near a limit; distinct by candidate",
            f: c10,
        },
        Prop { id: "C11", rule: "the candidate is non-empty; distinct by candidate", f: c11 },
        Prop {
            id: "C12",
            rule: "the name is a respelling of INBOX or differs from one by at most two characters; distinct by wire bytes",
            f: c12,
        },
        Prop {
            id: "C18",
            rule: "the name is a known one (in some case), a known one slightly changed, or contains '=' or '-'; distinct by name and type",
            f: c18,
        },
        Prop {
            id: "C25",
            rule: "at least one argument is not a plain atom; distinct by constructor and arguments",
            f: c25,
        },
    ]
}

/// A candidate string: usually valid for something, with a few bytes changed.
pub fn candidate(s: &mut Src) -> Vec<u8> {
    let mut v: Vec<u8> = match s.below(10) {
        0 => gen::atom_str(s).into_bytes(),
        1..=2 => {
            let t = gen::tag(s);
            t.inner().as_bytes().to_vec()
        }
        3 => gen::list_mailbox_token(s),
        4..=5 => gen::text_chars(s, 0).into_bytes(),
        6 => gen::bytes(s, true),
        7 => vec![],
        8 => {
            let n = s.range(1, 4);
            (0..n).map(|_| s.byte()).collect()
        }
        _ => {
            // text with something beyond ASCII
            let mut t = gen::text_chars(s, 0);
            let c = *s.pick(&['ä', '\u{80}', '\u{ff}', '²', '€', '😀', '\u{17f}', '\u{212a}', 'İ', 'ı', '\u{2028}', '\u{10ffff}', '\u{100}', '\u{10a}', '\u{10d}', '\u{141}', '\u{122}']);
            let at = s.idx(t.chars().count() + 1);
            let p = t.char_indices().nth(at).map(|x| x.0).unwrap_or(t.len());
            t.insert(p, c);
            t.into_bytes()
        }
    };
    for _ in 0..*s.pick(&[0u64, 0, 1, 1, 1, 2]) {
        let b = if s.bool() {
            s.byte()
        } else {
            *s.pick(b"\0\x01\t\n\r\x1f !\"%()*+,-./:;<=>?@[\\]^_`{|}~\x7f\x80\x81\xff")
        };
        if !v.is_empty() && s.bool() {
            let i = match s.below(3) {
                0 => 0,
                1 => v.len() - 1,
                _ => s.idx(v.len()),
            };
            v[i] = b;
        } else {
            let i = match s.below(3) {
                0 => 0,
                1 => v.len(),
                _ => s.idx(v.len() + 1),
            };
            v.insert(i, b);
        }
    }
    v
}

fn is_quotable(b: &[u8]) -> bool {
    b.iter().all(|b| gen::is_text_char(*b))
}
pub fn all1(b: &[u8], f: fn(u8) -> bool) -> bool {
    !b.is_empty() && b.iter().all(|b| f(*b))
}

macro_rules! agree {
    ($name:literal, $v:expr, $want:expr, $got:expr, $bytes:expr) => {{
        let got = $got;
        match (&got, $want) {
            (Ok(x), true) => {
                let f: fn(&_) -> Vec<u8> = $bytes;
                if f(x) != $v {
                    return Err(format!("value: {} changed {} to {}", $name, esc(&$v), esc(&f(x))));
                }
            }
            (Err(_), false) => {}
            (Ok(_), false) => return Err(format!("accepts: {} accepts {}", $name, esc(&$v))),
            (Err(_), true) => return Err(format!("rejects: {} rejects {}", $name, esc(&$v))),
        }
    }};
}

fn c10(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    match s.below(12) {
        0 => return dates(s, cx),
        1 => return chars_and_vecs(s, cx),
        _ => {}
    }
    let v = candidate(s);
    if !v.is_empty() {
        cx.nontrivial(&v);
    }
    cx.sample(|| esc(&v));
    let atom = all1(&v, gen::is_atom_char);
    let atom_ext = all1(&v, gen::is_astring_char);
    let tag = all1(&v, gen::is_tag_char);
    let text = all1(&v, gen::is_text_char);
    let list = all1(&v, gen::is_list_char);
    let quoted = is_quotable(&v);
    let literal = !v.contains(&0);
    cx.label(if atom { "atom" } else if quoted { "quotable" } else if literal { "literal" } else { "nothing" });

    macro_rules! strings {
        ($t:ident, $want:expr) => {{
            if $t::validate(&v).is_ok() != $want {
                return Err(format!("validate: {} {} {}", stringify!($t), !$want, esc(&v)));
            }
            let f: fn(&$t) -> Vec<u8> = |x| x.inner().as_bytes().to_vec();
            agree!("bytes", v, $want, $t::try_from(&v[..]), f);
            agree!("vec", v, $want, $t::try_from(v.clone()), f);
            if let Ok(st) = std::str::from_utf8(&v) {
                agree!("str", v, $want, $t::try_from(st), f);
                agree!("string", v, $want, $t::try_from(st.to_string()), f);
            }
            if $want {
                let x = $t::try_from(&v[..]).unwrap();
                if x.as_ref() as &str != x.inner() {
                    return Err(format!("as_ref: {} {}", stringify!($t), esc(&v)));
                }
            }
        }};
    }
    strings!(Atom, atom);
    strings!(AtomExt, atom_ext);
    strings!(Tag, tag);
    strings!(Text, text);
    strings!(Quoted, quoted);
    if let Ok(st) = std::str::from_utf8(&v) {
        agree!("Atom from Cow", v, atom, Atom::try_from(Cow::Borrowed(st)), |x: &Atom| x.inner().as_bytes().to_vec());
        agree!("ListCharString", v, list, ListCharString::try_from(st), |x: &ListCharString| x.as_ref().to_vec());
        agree!("ListCharString", v, list, ListCharString::try_from(st.to_string()), |x: &ListCharString| x.as_ref().to_vec());
        agree!("Literal", v, literal, Literal::try_from(st), |x: &Literal| x.data().to_vec());
        agree!("Literal", v, literal, Literal::try_from(st.to_string()), |x: &Literal| x.data().to_vec());
    }
    if ListCharString::validate(&v).is_ok() != list {
        return Err(format!("validate: ListCharString {} {}", !list, esc(&v)));
    }
    if Literal::validate(&v).is_ok() != literal {
        return Err(format!("validate: Literal {} {}", !literal, esc(&v)));
    }
    agree!("Literal", v, literal, Literal::try_from(&v[..]), |x: &Literal| x.data().to_vec());
    agree!("Literal", v, literal, Literal::try_from(v.clone()), |x: &Literal| x.as_ref().to_vec());
    let inbox = v.eq_ignore_ascii_case(b"inbox");
    if MailboxOther::validate(&v).is_ok() == inbox {
        return Err(format!("validate: MailboxOther {} {}", inbox, esc(&v)));
    }
    agree!("MailboxOther", v, literal && !inbox, MailboxOther::try_from(&v[..]), |x: &MailboxOther| x.as_ref().to_vec());
    agree!("MailboxOther", v, literal && !inbox, MailboxOther::try_from(v.clone()), |x: &MailboxOther| x.as_ref().to_vec());
    // The same from a string that already has a form.
    let mut forms: Vec<AString> = vec![];
    forms.extend(AtomExt::try_from(v.clone()).map(AString::Atom));
    forms.extend(Quoted::try_from(v.clone()).map(AString::from));
    if let Ok(l) = Literal::try_from(v.clone()) {
        forms.push(AString::from(l.clone().into_non_sync()));
        forms.push(AString::from(l));
    }
    for a in forms {
        agree!("MailboxOther from AString", v, !inbox, MailboxOther::try_from(a.clone()), |x: &MailboxOther| x.as_ref().to_vec());
        match Mailbox::from(a) {
            Mailbox::Inbox if inbox => {}
            Mailbox::Other(o) if !inbox && o.as_ref() == &v[..] => {}
            x => return Err(format!("value: the mailbox {} is {x:?}", esc(&v))),
        }
    }
    named(&v, atom)?;
    if s.one_in(4) {
        let (q, l): (fn(u8) -> bool, fn(u8) -> bool) = (gen::is_text_char, |b| b != 0);
        why("Atom", &v, Atom::validate(&v), true, gen::is_atom_char)?;
        why("AtomExt", &v, AtomExt::validate(&v), true, gen::is_astring_char)?;
        why("Tag", &v, Tag::validate(&v), true, gen::is_tag_char)?;
        why("Text", &v, Text::validate(&v), true, gen::is_text_char)?;
        why("Quoted", &v, Quoted::validate(&v), false, q)?;
        why("ListCharString", &v, ListCharString::validate(&v), true, gen::is_list_char)?;
        why("Literal", &v, Literal::validate(&v), false, l)?;
        why("Literal", &v, Literal::try_from(v.clone()), false, l)?;
        if let Ok(st) = std::str::from_utf8(&v) {
            why("Atom", &v, Atom::try_from(st), true, gen::is_atom_char)?;
            why("AtomExt", &v, AtomExt::try_from(st), true, gen::is_astring_char)?;
            why("Tag", &v, Tag::try_from(st), true, gen::is_tag_char)?;
            why("Text", &v, Text::try_from(st), true, gen::is_text_char)?;
            why("Quoted", &v, Quoted::try_from(st), false, q)?;
            why("ListCharString", &v, ListCharString::try_from(st), true, gen::is_list_char)?;
        }
    }
    if s.one_in(8) {
        unvalidated(&v, [atom, atom_ext, tag, text, quoted, list, literal])?;
    }
    // Quoting: escaping is injective, undone by unescaping, and leaves no bare quote.
    if let (true, Ok(st)) = (quoted, std::str::from_utf8(&v)) {
        let e = escape_quoted(st);
        let mut own = String::new();
        for c in st.chars() {
            if c == '"' || c == '\\' {
                own.push('\\');
            }
            own.push(c);
        }
        if e != own {
            return Err(format!("escape: {} gives {}", esc(&v), esc(e.as_bytes())));
        }
        if unescape_quoted(&e) != st {
            return Err(format!("unescape: {} gives {}", esc(e.as_bytes()), esc(unescape_quoted(&e).as_bytes())));
        }
    }
    // The continuation text must not be confusable with base64 data.
    if text && std::str::from_utf8(&v).is_ok() {
        let t = Text::try_from(v.clone()).unwrap();
        if let Ok(c) = CommandContinuationRequest::basic(None, t.clone()) {
            let enc = Msg::Response(Response::CommandContinuationRequest(c)).encode();
            if let Dec::Ok { msg: Msg::Response(Response::CommandContinuationRequest(CommandContinuationRequest::Base64(_))), .. } =
                decode(Kind::Response, &enc)
            {
                return Err(format!("confusable: basic accepts {}, which decodes as base64", esc(&v)));
            }
        }
    }
    Ok(())
}

/// Names made from a string are made of atoms only, and show as the string, up to case.
fn named(v: &[u8], atom: bool) -> Result<(), String> {
    fn is<T: std::fmt::Display, E: std::fmt::Debug>(name: &str, v: &[u8], want: bool, got: Result<T, E>) -> Result<(), String> {
        match (got, want) {
            (Ok(x), true) if x.to_string().as_bytes().eq_ignore_ascii_case(v) => Ok(()),
            (Err(_), false) => Ok(()),
            (Ok(x), _) => Err(format!("named: {name} makes {x} of {}", esc(v))),
            (Err(e), _) => Err(format!("named: {name} refuses {}: {e:?}", esc(v))),
        }
    }
    macro_rules! atoms {
        ($($t:ident),*) => {$(
            is(stringify!($t), v, atom, $t::try_from(v))?;
            is(stringify!($t), v, atom, $t::try_from(v.to_vec()))?;
            if let Ok(st) = std::str::from_utf8(v) {
                is(stringify!($t), v, atom, $t::try_from(st))?;
                is(stringify!($t), v, atom, $t::try_from(st.to_string()))?;
            }
        )*};
    }
    atoms!(AuthMechanism, Capability, Resource);
    let deflate = v.eq_ignore_ascii_case(b"deflate");
    is("CompressionAlgorithm", v, deflate, CompressionAlgorithm::try_from(v))?;
    let Ok(st) = std::str::from_utf8(v) else { return Ok(()) };
    is("CompressionAlgorithm", v, deflate, CompressionAlgorithm::try_from(st))?;
    is("AuthMechanism", v, atom, AuthMechanism::try_from(Cow::Borrowed(st)))?;
    is("AuthMechanism", v, atom, st.parse::<AuthMechanism<'static>>())?;
    is("Resource", v, atom, Resource::try_from(Cow::Borrowed(st)))?;
    is("CapabilityEnable", v, atom, CapabilityEnable::try_from(st))?;
    for slashes in 0..3 {
        let f = format!("{}{st}", "\\".repeat(slashes));
        let rest = f.strip_prefix('\\').unwrap_or(&f);
        is("Flag", f.as_bytes(), all1(rest.as_bytes(), gen::is_atom_char), Flag::try_from(&f[..]))?;
    }
    Ok(())
}

/// The error of a refused value is about the first byte that is not allowed, or about emptiness.
fn why<T, E: std::fmt::Display>(name: &str, v: &[u8], got: Result<T, E>, filled: bool, f: fn(u8) -> bool) -> Result<(), String> {
    let Err(e) = got else {
        return Ok(());
    };
    let e = e.to_string();
    // What the message names must be right, however it is worded.
    let byte = e.split("\\x").nth(1).and_then(|x| u8::from_str_radix(x.get(..2)?, 16).ok());
    let tail: String = e.chars().rev().take_while(char::is_ascii_digit).collect();
    let index = tail.chars().rev().collect::<String>().parse::<usize>().ok();
    let fits = match v.iter().position(|b| !f(*b)) {
        Some(at) => byte.is_none_or(|b| b == v[at]) && index.is_none_or(|i| i == at) && !e.contains("empty"),
        None => filled && v.is_empty() && byte.is_none(),
    };
    match fits {
        true => Ok(()),
        false => Err(format!("error: {name} refuses {} with {e}", esc(v))),
    }
}

/// What `f` makes, or nothing if it panics.
fn made<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

/// The constructors without validation keep the value, and (as documented) panic on an invalid one where
/// debug assertions are on.
fn unvalidated(v: &[u8], [atom, atom_ext, tag, text, quoted, list, literal]: [bool; 7]) -> Result<(), String> {
    let check = |name: &str, ok: bool, got: Option<Vec<u8>>| {
        if (ok && got.is_none()) || (!ok && got.is_some() && cfg!(debug_assertions)) || got.as_ref().is_some_and(|g| g != v) {
            return Err(format!("unvalidated: {name} {} makes {:?}", esc(v), got.map(|g| esc(&g))));
        }
        Ok(())
    };
    if let Ok(st) = std::str::from_utf8(v) {
        check("Atom", atom, made(|| Atom::unvalidated(st).inner().as_bytes().to_vec()))?;
        check("AtomExt", atom_ext, made(|| AtomExt::unvalidated(st).inner().as_bytes().to_vec()))?;
        check("Tag", tag, made(|| Tag::unvalidated(st).inner().as_bytes().to_vec()))?;
        check("Text", text, made(|| Text::unvalidated(st).inner().as_bytes().to_vec()))?;
        check("Quoted", quoted, made(|| Quoted::unvalidated(st).inner().as_bytes().to_vec()))?;
        check("ListCharString", list, made(|| ListCharString::unvalidated(st).as_ref().to_vec()))?;
        check("Atom", atom, made(|| Atom::unvalidated(st.to_string()).into_inner().as_bytes().to_vec()))?;
        check("Quoted", quoted, made(|| Quoted::unvalidated(st.to_string()).into_inner().as_bytes().to_vec()))?;
    }
    for (sync, l) in [
        (true, made(|| Literal::unvalidated(v))),
        (false, made(|| Literal::unvalidated_non_sync(v.to_vec()))),
    ] {
        if l.as_ref().is_some_and(|l| (l.mode() == LiteralMode::Sync) != sync) {
            return Err(format!("unvalidated: mode of {l:?}"));
        }
        check("Literal", literal, l.map(|l| l.data().to_vec()))?;
    }
    if let Ok(a) = AString::try_from(v.to_vec()) {
        let inbox = v.eq_ignore_ascii_case(b"inbox");
        check("MailboxOther", !inbox, made(|| MailboxOther::unvalidated(a).as_ref().to_vec()))?;
    }
    Ok(())
}

fn dates(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    cx.label("dates");
    let y = match s.below(4) {
        0 => *s.pick(&[-1i32, 0, 1, 9999, 10000, -9999, 10001, 99999, -262000, 262000, 2000]),
        1 => s.range(0, 9999) as i32,
        2 => s.range(0, 20000) as i32 - 5000,
        _ => s.range(9990, 10010) as i32,
    };
    let (mon, day) = (s.range(1, 12) as u32, s.range(1, 31) as u32);
    let d = chrono::NaiveDate::from_ymd_opt(y, mon, day).unwrap_or_else(|| chrono::NaiveDate::from_ymd_opt(y, mon, 28).unwrap());
    let ok = (0..=9999).contains(&y);
    if s.one_in(8) && made(|| NaiveDate::unvalidated(d)).map(|x| x.as_ref() == &d) != (ok || !cfg!(debug_assertions)).then_some(true) {
        return Err(format!("unvalidated: NaiveDate {d}"));
    }
    match (NaiveDate::try_from(d), ok) {
        (Ok(x), true) if x.as_ref() == &d => {}
        (Err(_), false) => {}
        (r, _) => return Err(format!("naive-date: {d} gives {r:?}")),
    }
    let nanos = match s.below(4) {
        0..=1 => 0,
        2 => *s.pick(&[1u32, 999_999_999, 1_000_000_000, 1_999_999_999, 500_000_000, 1_000]),
        _ => s.below(1_000_000_000) as u32,
    };
    let sec = if nanos >= 1_000_000_000 { 59 } else { s.below(60) as u32 };
    let off = match s.below(3) {
        0 => s.below(2879) as i32 * 60 - 1439 * 60,
        1 => s.below(86399 * 2 + 1) as i32 - 86399,
        _ => *s.pick(&[0i32, 1, -1, 59, 60, 61, -59, -60, -61, 86399, -86399, 86340, -86340]),
    };
    let t = d.and_hms_nano_opt(s.below(24) as u32, s.below(60) as u32, sec, nanos).unwrap();
    let Some(dt) = chrono::FixedOffset::east_opt(off).unwrap().from_local_datetime(&t).single() else {
        return Ok(());
    };
    cx.nontrivial(format!("{dt:?}").as_bytes());
    cx.sample(|| format!("{dt:?}"));
    let ok = (0..=9999).contains(&dt.year()) && dt.nanosecond() == 0 && off % 60 == 0;
    let v = DateTime::validate(&dt).is_ok();
    if s.one_in(8) && made(|| DateTime::unvalidated(dt)).map(|x| x.as_ref() == &dt) != (ok || !cfg!(debug_assertions)).then_some(true) {
        return Err(format!("unvalidated: DateTime {dt:?}"));
    }
    match (DateTime::try_from(dt), ok) {
        (Ok(x), true) if x.as_ref() == &dt && x.as_ref().offset() == dt.offset() && v => {}
        (Err(_), false) if !v => {}
        (r, _) => return Err(format!("date-time: {dt:?} gives {r:?}")),
    }
    // what is accepted survives the wire
    if ok {
        let m = Msg::Response(Response::Data(Data::Fetch {
            seq: NonZeroU32::MIN,
            items: Vec1::from(imap_codec::imap_types::fetch::MessageDataItem::InternalDate(DateTime::try_from(dt).unwrap())),
        }));
        super::roundtrip::check_decodes_to(&m, &m.encode(), "date-time-wire")?;
        let enc = m.encode();
        let Dec::Ok { msg: Msg::Response(Response::Data(Data::Fetch { items, .. })), .. } = decode(Kind::Response, &enc) else {
            return Err(format!("date-time-wire: {}", esc(&enc)));
        };
        // PartialEq of chrono ignores the offset
        let imap_codec::imap_types::fetch::MessageDataItem::InternalDate(x) = &items.as_ref()[0] else {
            return Err(format!("date-time-wire: {}", esc(&enc)));
        };
        if x.as_ref().offset() != dt.offset() || x.as_ref().naive_local() != dt.naive_local() {
            return Err(format!("date-time-offset: {dt:?} became {x:?} through {}", esc(&enc)));
        }
    }
    Ok(())
}

fn chars_and_vecs(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    cx.label("chars and vectors");
    let c = match s.below(4) {
        0 => s.below(0x180) as u32,
        1 => 0x100 * s.below(0x1100) as u32 + *s.pick(&[0x22u32, 0x5c, 0x41, 0x0a, 0x0d, 0, 0x7f]),
        2 => s.below(0x11_0000) as u32,
        _ => *s.pick(&[0u32, 1, 9, 10, 11, 12, 13, 14, 0x1f, 0x20, 0x22, 0x5c, 0x7e, 0x7f, 0x80, 0xff, 0x100, 0x10ffff]),
    };
    let c = char::from_u32(c).unwrap_or('\u{fffd}');
    let want = c.is_ascii() && gen::is_text_char(c as u8);
    if QuotedChar::validate(c).is_ok() != want || QuotedChar::try_from(c).map(|q| q.inner()).ok() != want.then_some(c) {
        return Err(format!("quoted-char: {c:?} {}", !want));
    }
    if s.one_in(8) && made(|| QuotedChar::unvalidated(c)).map(|q| q.inner() == c) != (want || !cfg!(debug_assertions)).then_some(true) {
        return Err(format!("unvalidated: QuotedChar {c:?}"));
    }
    let n = s.below(5) as usize;
    let v: Vec<u64> = (0..n).map(|_| s.below(9)).collect();
    cx.nontrivial(format!("{c}{v:?}").as_bytes());
    cx.sample(|| format!("{c:?} {v:?}"));
    if Vec1::validate(&v).is_ok() != (n >= 1) || Vec1::try_from(v.clone()).map(|x: Vec1<u64>| x.into_inner()).ok() != (n >= 1).then(|| v.clone()) {
        return Err(format!("vec1: {v:?}"));
    }
    if Vec2::validate(&v).is_ok() != (n >= 2) || Vec2::try_from(v.clone()).map(|x: Vec2<u64>| x.into_inner()).ok() != (n >= 2).then(|| v.clone()) {
        return Err(format!("vec2: {v:?}"));
    }
    if s.one_in(8) {
        let (a, b) = (made(|| Vec1::unvalidated(v.clone()).into_inner()), made(|| Vec2::unvalidated(v.clone()).into_inner()));
        let want = |min: usize| (n >= min || !cfg!(debug_assertions)).then(|| v.clone());
        if a != want(1) || b != want(2) {
            return Err(format!("unvalidated: vectors of {v:?}"));
        }
    }
    if let Ok(x) = Vec1::<u64>::try_from(v.clone()) {
        if x.as_ref() != &v[..] || x.into_iter().collect::<Vec<_>>() != v {
            return Err(format!("vec1-order: {v:?}"));
        }
    }
    if n > 0 && (Vec1::from(v[0]).into_inner() != vec![v[0]] || Vec2::from((v[0], 7)).into_inner() != vec![v[0], 7]) {
        return Err(format!("vec-from: {v:?}"));
    }
    Ok(())
}

// ----- C11 -----

#[derive(Debug, PartialEq, Clone, Copy)]
enum Repr {
    Atom,
    Quoted,
    Literal,
    Rejected,
}

fn repr_i(x: &IString) -> Repr {
    match x {
        IString::Literal(l) if l.mode() == LiteralMode::Sync => Repr::Literal,
        IString::Quoted(_) => Repr::Quoted,
        _ => Repr::Rejected,
    }
}

fn c11(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let v = candidate(s);
    if !v.is_empty() {
        cx.nontrivial(&v);
    }
    cx.sample(|| esc(&v));
    let istring = if is_quotable(&v) {
        Repr::Quoted
    } else if !v.contains(&0) {
        Repr::Literal
    } else {
        Repr::Rejected
    };
    let astring = if all1(&v, gen::is_astring_char) { Repr::Atom } else { istring };
    let charset = if all1(&v, gen::is_atom_char) {
        Repr::Atom
    } else if istring == Repr::Quoted {
        Repr::Quoted
    } else {
        Repr::Rejected
    };
    let list = if all1(&v, gen::is_list_char) { Repr::Atom } else { istring };
    cx.label(match astring {
        Repr::Atom => "atom",
        Repr::Quoted => "quoted",
        Repr::Literal => "literal",
        Repr::Rejected => "rejected",
    });
    macro_rules! check {
        ($name:literal, $want:expr, $got:expr, $repr:expr, $bytes:expr) => {{
            let got = $got;
            let r = match &got {
                Ok(x) => {
                    let b: Vec<u8> = $bytes(x);
                    if b != v {
                        return Err(format!("content: {} turned {} into {}", $name, esc(&v), esc(&b)));
                    }
                    $repr(x)
                }
                Err(_) => Repr::Rejected,
            };
            if r != $want {
                return Err(format!("representation: {} of {} is {r:?}, not {:?}", $name, esc(&v), $want));
            }
        }};
    }
    macro_rules! all {
        ($name:literal, $t:ident, $want:expr, $repr:expr, $bytes:expr) => {{
            check!($name, $want, $t::try_from(&v[..]), $repr, $bytes);
            check!($name, $want, $t::try_from(v.clone()), $repr, $bytes);
            if let Ok(st) = std::str::from_utf8(&v) {
                check!($name, $want, $t::try_from(st), $repr, $bytes);
                check!($name, $want, $t::try_from(st.to_string()), $repr, $bytes);
            }
        }};
    }
    let ra = |x: &AString| match x {
        AString::Atom(_) => Repr::Atom,
        AString::String(i) => repr_i(i),
    };
    all!("IString", IString, istring, |x: &IString| repr_i(x), |x: &IString| x.as_ref().to_vec());
    all!("IString::into_inner", IString, istring, |x: &IString| repr_i(x), |x: &IString| x.clone().into_inner().into_owned());
    all!("AString", AString, astring, ra, |x: &AString| x.as_ref().to_vec());
    all!(
        "NString",
        NString,
        istring,
        |x: &NString| x.0.as_ref().map_or(Repr::Rejected, repr_i),
        |x: &NString| x.clone().into_option().map(|x| x.into_owned()).unwrap_or_default()
    );
    all!(
        "Charset",
        Charset,
        charset,
        |x: &Charset| match x {
            Charset::Atom(_) => Repr::Atom,
            Charset::Quoted(_) => Repr::Quoted,
        },
        |x: &Charset| x.as_ref().as_bytes().to_vec()
    );
    if let Ok(st) = std::str::from_utf8(&v) {
        let rl = |x: &ListMailbox| match x {
            ListMailbox::Token(_) => Repr::Atom,
            ListMailbox::String(i) => repr_i(i),
        };
        let bl = |x: &ListMailbox| match x {
            ListMailbox::Token(t) => t.as_ref().to_vec(),
            ListMailbox::String(i) => i.as_ref().to_vec(),
        };
        check!("ListMailbox", list, ListMailbox::try_from(st), rl, bl);
        check!("ListMailbox", list, ListMailbox::try_from(st.to_string()), rl, bl);
    }
    if !v.eq_ignore_ascii_case(b"inbox") {
        let rm = |x: &Mailbox| match x {
            Mailbox::Inbox => Repr::Rejected,
            Mailbox::Other(o) => ra(o.inner()),
        };
        let bm = |x: &Mailbox| match x {
            Mailbox::Inbox => b"INBOX".to_vec(),
            Mailbox::Other(o) => o.as_ref().to_vec(),
        };
        all!("Mailbox", Mailbox, astring, rm, bm);
    }
    Ok(())
}

// ----- C12 -----

type MbFn = fn(Mailbox<'static>) -> Msg;

fn cmd(b: CommandBody<'static>) -> Msg {
    Msg::Command(Command { tag: Tag::unvalidated("A"), body: b })
}
fn data(d: Data<'static>) -> Msg {
    Msg::Response(Response::Data(d))
}
fn mb_x() -> Mailbox<'static> {
    Mailbox::try_from("x").unwrap()
}
fn set() -> imap_codec::imap_types::sequence::SequenceSet {
    imap_codec::imap_types::sequence::SequenceSet::try_from(1u32).unwrap()
}

const PLACE: &str = "zzPLACEzz";

/// Every place in the protocol that takes a mailbox name.
fn mailbox_contexts() -> Vec<MbFn> {
    let mut v: Vec<MbFn> = vec![
        |m| cmd(CommandBody::select(m).unwrap()),
        |m| cmd(CommandBody::examine(m).unwrap()),
        |m| cmd(CommandBody::Create { mailbox: m }),
        |m| cmd(CommandBody::Delete { mailbox: m }),
        |m| cmd(CommandBody::Rename { from: m, to: mb_x() }),
        |m| cmd(CommandBody::Rename { from: mb_x(), to: m }),
        |m| cmd(CommandBody::Subscribe { mailbox: m }),
        |m| cmd(CommandBody::Unsubscribe { mailbox: m }),
        |m| cmd(CommandBody::List { reference: m, mailbox_wildcard: ListMailbox::try_from("*").unwrap() }),
        |m| cmd(CommandBody::Lsub { reference: m, mailbox_wildcard: ListMailbox::try_from("%").unwrap() }),
        |m| cmd(CommandBody::Status { mailbox: m, item_names: Cow::Owned(vec![StatusDataItemName::Messages]) }),
        |m| cmd(CommandBody::append(m, vec![Flag::Seen], None, "x").unwrap()),
        |m| cmd(CommandBody::Copy { sequence_set: set(), mailbox: m, uid: false }),
        |m| cmd(CommandBody::Move { sequence_set: set(), mailbox: m, uid: true }),
        |m| cmd(CommandBody::GetQuotaRoot { mailbox: m }),
        |m| data(Data::List { items: vec![], delimiter: None, mailbox: m }),
        |m| data(Data::Lsub { items: vec![FlagNameAttribute::Noselect], delimiter: QuotedChar::try_from('/').ok(), mailbox: m }),
        |m| {
            data(Data::Status {
                mailbox: m,
                items: Cow::Owned(vec![imap_codec::imap_types::status::StatusDataItem::Messages(1)]),
            })
        },
        |m| data(Data::QuotaRoot { mailbox: m, roots: vec![] }),
    ];
    #[cfg(feature = "f_metadata")]
    {
        use imap_codec::imap_types::extensions::metadata::*;
        let extra: Vec<MbFn> = vec![
            |m| {
                cmd(CommandBody::SetMetadata {
                    mailbox: m,
                    entry_values: Vec1::from(EntryValue {
                        entry: Entry::try_from(AString::try_from("/a").unwrap()).unwrap(),
                        value: NString8::NString(NString(None)),
                    }),
                })
            },
            |m| {
                cmd(CommandBody::GetMetadata {
                    options: vec![],
                    mailbox: m,
                    entries: Vec1::from(Entry::try_from(AString::try_from("/a").unwrap()).unwrap()),
                })
            },
            |m| {
                data(Data::Metadata {
                    mailbox: m,
                    items: MetadataResponse::WithoutValues(Vec1::from(Entry::try_from(AString::try_from("/a").unwrap()).unwrap())),
                })
            },
        ];
        v.extend(extra);
    }
    v
}

fn c12(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let mut name: Vec<u8> = b"inbox".iter().map(|b| if s.bool() { b.to_ascii_uppercase() } else { *b }).collect();
    match s.below(6) {
        0..=2 => {}
        3 => {
            let i = s.idx(name.len());
            name[i] = *s.pick(b"aeI0BbNnOoXx_1l ./\"\x01\x7f");
        }
        4 => {
            let t: &[u8] = *s.pick(&[&b" "[..], b"/", b".", b"x", b"\"", b"\\", b"\xff", b"\r\n", b"/INBOX", b"INBOX", b"0", b"\xc4\xb1"]);
            let i = if s.bool() { 0 } else { s.idx(name.len() + 1) };
            name.splice(i..i, t.iter().copied());
        }
        _ => {
            match s.below(3) {
                0 => {
                    name.remove(0);
                }
                1 => {
                    name.pop();
                }
                _ => {
                    // letters that fold to ASCII in Unicode only, and other lookalikes
                    let t: &[u8] = *s.pick(&[&b"\xc4\xb1nbox"[..], b"\xc4\xb0NBOX", b"INBO\xe2\x85\xb9", b"&AGk-nbox", b"inbox\0", b"INBO\xc3\x97", b"{5}"]);
                    name = t.to_vec();
                }
            }
        }
    }
    let is = name.eq_ignore_ascii_case(b"inbox");
    cx.label(if is { "INBOX" } else { "other" });
    // constructors
    let cons: Vec<Result<Mailbox, _>> = vec![Mailbox::try_from(&name[..]), Mailbox::try_from(name.clone())];
    let mut cons: Vec<Option<Mailbox>> = cons.into_iter().map(|x| x.ok()).collect();
    if let Ok(st) = std::str::from_utf8(&name) {
        cons.push(Mailbox::try_from(st).ok());
        cons.push(Mailbox::try_from(st.to_string()).ok());
    }
    for c in &cons {
        match c {
            Some(Mailbox::Inbox) if is => {}
            Some(Mailbox::Other(o)) if !is && o.as_ref() == &name[..] => {}
            None if name.contains(&0) => {}
            o => return Err(format!("constructor: {} becomes {o:?}", esc(&name))),
        }
    }
    if is && (MailboxOther::try_from(&name[..]).is_ok() || MailboxOther::try_from(AString::try_from(name.clone()).unwrap()).is_ok()) {
        return Err(format!("reserved: MailboxOther accepts {}", esc(&name)));
    }
    // the wire
    let ctxs = mailbox_contexts();
    let f = *s.pick(&ctxs);
    let (spell, want): (Vec<u8>, Option<AString<'static>>) = match s.below(4) {
        0 if all1(&name, gen::is_astring_char) => (name.clone(), AtomExt::try_from(name.clone()).ok().map(AString::Atom)),
        1 if is_quotable(&name) => {
            let q = Quoted::try_from(name.clone()).unwrap();
            (format!("\"{}\"", escape_quoted(q.inner())).into_bytes(), Some(AString::from(q.clone())))
        }
        x if !name.contains(&0) => {
            let mut l = Literal::try_from(name.clone()).unwrap();
            if x % 2 == 1 {
                l = l.into_non_sync();
            }
            let mut v = format!("{{{}{}}}\r\n", name.len(), if x % 2 == 1 { "+" } else { "" }).into_bytes();
            v.extend_from_slice(&name);
            (v, Some(AString::from(l)))
        }
        _ => return Ok(()),
    };
    let want = want.unwrap();
    let m = f(if is { Mailbox::Inbox } else { Mailbox::Other(MailboxOther::try_from(want).unwrap()) });
    let tmpl = refp::print(&f(Mailbox::try_from(PLACE).unwrap()), Style::Plain, true).out;
    let at = tmpl.windows(PLACE.len()).position(|w| w == PLACE.as_bytes()).expect("placeholder");
    let mut wire = tmpl[..at].to_vec();
    wire.extend_from_slice(&spell);
    wire.extend_from_slice(&tmpl[at + PLACE.len()..]);
    cx.nontrivial(&wire);
    cx.sample(|| esc(&wire));
    match decode(m.kind(), &wire) {
        Dec::Ok { consumed, msg } if consumed == wire.len() && msg == m => {}
        o => return Err(format!("wire: {} decodes to {o:?}", esc(&wire))),
    }
    // and INBOX is always written as INBOX
    if is {
        let enc = m.encode();
        let at2 = enc.windows(5).position(|w| w == b"INBOX");
        if at2 != Some(at) {
            return Err(format!("encode: {}", esc(&enc)));
        }
    }
    Ok(())
}

// ----- C18 -----

fn names_of(t: usize) -> Vec<&'static str> {
    match t {
        0 => vec![
            "PLAIN", "LOGIN", "OAUTHBEARER", "XOAUTH2", "SCRAM-SHA-1", "SCRAM-SHA-1-PLUS", "SCRAM-SHA-256", "SCRAM-SHA-256-PLUS",
            "SCRAM-SHA3-512", "SCRAM-SHA3-512-PLUS",
        ],
        1 => {
            let mut v = vec![
                "IMAP4REV1", "LOGINDISABLED", "IDLE", "SASL-IR", "ENABLE", "QUOTA", "QUOTASET", "LITERAL+", "LITERAL-", "MOVE", "UNSELECT",
                "SORT", "BINARY", "UIDPLUS", "COMPRESS=DEFLATE",
            ];
            let ext: &[(bool, &[&str])] = &[
                (cfg!(feature = "f_starttls"), &["STARTTLS"]),
                (cfg!(feature = "f_mailbox_referrals"), &["MAILBOX-REFERRALS"]),
                (cfg!(feature = "f_login_referrals"), &["LOGIN-REFERRALS"]),
                (cfg!(feature = "f_id"), &["ID"]),
                (cfg!(feature = "f_metadata"), &["METADATA", "METADATA-SERVER"]),
                (cfg!(feature = "f_condstore"), &["CONDSTORE", "QRESYNC"]),
                (cfg!(feature = "f_namespace"), &["NAMESPACE"]),
                (cfg!(feature = "f_utf8"), &["UTF8=ACCEPT", "UTF8=ONLY"]),
            ];
            v.extend(ext.iter().filter(|x| x.0).flat_map(|x| x.1));
            v
        }
        2 => {
            let ext: &[(bool, &[&str])] = &[
                (cfg!(feature = "f_condstore"), &["CONDSTORE"]),
                (cfg!(feature = "f_metadata"), &["METADATA", "METADATA-SERVER"]),
                (cfg!(feature = "f_utf8"), &["UTF8=ACCEPT", "UTF8=ONLY"]),
            ];
            ext.iter().filter(|x| x.0).flat_map(|x| x.1).copied().collect()
        }
        3 => vec!["STORAGE", "MESSAGE", "MAILBOX", "ANNOTATION-STORAGE"],
        4 => vec!["DISPLAY"],
        5 => vec!["ORDEREDSUBJECT", "REFERENCES"],
        6 => vec!["\\Answered", "\\Deleted", "\\Draft", "\\Flagged", "\\Seen"],
        _ => vec!["\\Noinferiors", "\\Noselect", "\\Marked", "\\Unmarked"],
    }
}

/// The canonical spelling of a name: that of the known name it equals up to case, or itself.
fn canonical(t: usize, x: &str) -> String {
    for k in names_of(t) {
        if x.eq_ignore_ascii_case(k) {
            return k.to_string();
        }
    }
    if t == 1 {
        let pre = |p: &str| (x.len() > p.len() && x[..p.len()].eq_ignore_ascii_case(p)).then(|| x[p.len()..].to_string());
        for (p, u) in PREFIXES {
            if let Some(r) = pre(p) {
                return format!("{p}{}", canonical(u, &r));
            }
        }
    }
    x.to_string()
}

const PREFIXES: [(&str, usize); 4] = [("AUTH=", 0), ("QUOTA=RES-", 3), ("SORT=", 4), ("THREAD=", 5)];

/// Is the whole name made of known names?
fn is_known(t: usize, x: &str) -> bool {
    names_of(t).iter().any(|k| x.eq_ignore_ascii_case(k))
        || (t == 1
            && PREFIXES
                .iter()
                .any(|(p, u)| x.len() > p.len() && x[..p.len()].eq_ignore_ascii_case(p) && is_known(*u, &x[p.len()..])))
}

/// Debug form shows whether a value is a typed variant.
fn is_other(dbg: &str) -> bool {
    dbg.contains("Other(") || dbg.contains("Extension(") || dbg.starts_with("Keyword(")
}

fn c18(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let t = s.idx(8);
    let base: String = match s.below(6) {
        0..=2 if !names_of(t).is_empty() => s.pick(&names_of(t)).to_string(),
        3 if t == 1 => {
            let p = *s.pick(&["AUTH=", "QUOTA=RES-", "SORT=", "THREAD=", "COMPRESS=", "UTF8=", "AUTH", "QUOTA=", "THREAD", "RIGHTS="]);
            let u = *s.pick(&[0usize, 3, 4, 5]);
            let n = names_of(u);
            format!("{p}{}", if s.bool() { s.pick(&n).to_string() } else { gen::atom_str(s) })
        }
        _ => gen::atom_str(s),
    };
    let mut name: String = base.chars().map(|c| if s.below(3) == 0 { c.to_ascii_lowercase() } else if s.below(3) == 0 { c.to_ascii_uppercase() } else { c }).collect();
    match s.below(5) {
        0 => name.push(*s.pick(&gen::alphabets().atom) as char),
        1 if name.len() > 1 => {
            name.pop();
        }
        2 => name.insert(0, *s.pick(&gen::alphabets().atom) as char),
        _ => {}
    }
    // flags and name attributes carry a backslash outside of the atom
    let slash = t >= 6;
    let atom_part = if slash { name.trim_start_matches('\\').to_string() } else { name.clone() };
    let Ok(atom) = Atom::try_from(atom_part.clone()) else {
        return Ok(());
    };
    let full = if slash { format!("\\{atom_part}") } else { atom_part.clone() };
    let want = canonical(t, &full);
    let known = is_known(t, &full);
    if known || base != name || name.contains(['=', '-']) {
        cx.nontrivial(format!("{t} {full}").as_bytes());
    }
    cx.label(if known { "known" } else { "other" });
    cx.sample(|| format!("type {t}: {full}"));
    let atom2 = Atom::try_from(if s.bool() { atom_part.to_ascii_uppercase() } else { atom_part.to_ascii_lowercase() }).unwrap();
    macro_rules! go {
        ($t:ident, $mk:expr, $wire:expr, $get:expr) => {{
            let mk: fn(Atom<'static>) -> $t<'static> = $mk;
            let x = mk(atom.clone());
            let shown = x.to_string();
            if shown != want {
                return Err(format!("display: {} {full} is shown as {shown}, not {want}", stringify!($t)));
            }
            let dbg = format!("{x:?}");
            if known == is_other(&dbg) {
                return Err(format!("alias: {} {full} is {dbg}", stringify!($t)));
            }
            // converting what is shown gives the same value
            let back = Atom::try_from(shown.trim_start_matches('\\').to_string()).map(mk);
            if back.as_ref().ok() != Some(&x) {
                return Err(format!("redisplay: {} {full} is shown as {shown}, which is {back:?}", stringify!($t)));
            }
            // equality: up to case exactly for the known parts
            let y = mk(atom2.clone());
            let full2 = if slash { format!("\\{}", atom2.inner()) } else { atom2.inner().to_string() };
            if (x == y) != (want == canonical(t, &full2)) {
                return Err(format!("equality: {} {full} and {full2} compare {}", stringify!($t), x == y));
            }
            // the decoder sees the same value
            let (k, wire): (Kind, String) = $wire(&full);
            match decode(k, wire.as_bytes()) {
                Dec::Ok { msg, .. } => {
                    let got: Option<$t<'static>> = $get(&msg);
                    if got.as_ref() != Some(&x) {
                        return Err(format!("wire: {wire:?} gives {got:?}, not {x:?}"));
                    }
                }
                o => return Err(format!("wire: {wire:?} gives {}", o.class())),
            }
        }};
    }
    match t {
        0 => {
            go!(
                AuthMechanism,
                |a| AuthMechanism::from(a),
                |n: &str| (Kind::Command, format!("A AUTHENTICATE {n}\r\n")),
                |m: &Msg| match m {
                    Msg::Command(Command { body: CommandBody::Authenticate { mechanism, .. }, .. }) => Some(mechanism.clone()),
                    _ => None,
                }
            );
            let x = AuthMechanism::from(atom.clone());
            if full.parse::<AuthMechanism>().ok() != Some(x.clone())
                || AuthMechanism::try_from(full.as_str()).ok() != Some(x.clone())
                || AuthMechanism::try_from(full.as_bytes()).ok() != Some(x.clone())
                || AuthMechanism::try_from(full.clone()).ok() != Some(x.clone())
                || x.as_ref() != want
            {
                return Err(format!("conversion: AuthMechanism {full}"));
            }
        }
        1 => {
            go!(
                Capability,
                |a| Capability::from(a),
                |n: &str| (Kind::Response, format!("* CAPABILITY IMAP4REV1 {n}\r\n")),
                |m: &Msg| match m {
                    Msg::Response(Response::Data(Data::Capability(v))) => v.as_ref().get(1).cloned(),
                    _ => None,
                }
            );
            let x = Capability::from(atom.clone());
            if Capability::try_from(full.as_str()).ok() != Some(x.clone())
                || Capability::try_from(full.as_bytes()).ok() != Some(x.clone())
                || Capability::try_from(full.clone()).ok() != Some(x.clone())
            {
                return Err(format!("conversion: Capability {full}"));
            }
            // and in response codes
            let w = format!("* OK [CAPABILITY {full}] x\r\n");
            match decode(Kind::Response, w.as_bytes()) {
                Dec::Ok { msg: Msg::Response(Response::Status(Status::Untagged(b))), .. }
                    if matches!(&b.code, Some(Code::Capability(v)) if v.as_ref() == [x.clone()]) => {}
                o => return Err(format!("wire: {w:?} gives {o:?}")),
            }
        }
        2 => {
            go!(
                CapabilityEnable,
                |a| CapabilityEnable::from(a),
                |n: &str| (Kind::Command, format!("A ENABLE x {n}\r\n")),
                |m: &Msg| match m {
                    Msg::Command(Command { body: CommandBody::Enable { capabilities }, .. }) => capabilities.as_ref().get(1).cloned(),
                    _ => None,
                }
            );
            if CapabilityEnable::try_from(full.as_str()).ok() != Some(CapabilityEnable::from(atom.clone())) {
                return Err(format!("conversion: CapabilityEnable {full}"));
            }
        }
        3 => {
            go!(
                Resource,
                |a| Resource::from(a),
                |n: &str| (Kind::Command, format!("A SETQUOTA x ({n} 1)\r\n")),
                |m: &Msg| match m {
                    Msg::Command(Command { body: CommandBody::SetQuota { quotas, .. }, .. }) => quotas.first().map(|q| q.resource.clone()),
                    _ => None,
                }
            );
            let x = Resource::from(atom.clone());
            if Resource::try_from(full.as_str()).ok() != Some(x.clone()) || Resource::try_from(full.clone().into_bytes()).ok() != Some(x) {
                return Err(format!("conversion: Resource {full}"));
            }
        }
        4 => go!(
            SortAlgorithm,
            |a| SortAlgorithm::from(a),
            |n: &str| (Kind::Response, format!("* CAPABILITY IMAP4REV1 SORT={n}\r\n")),
            |m: &Msg| match m {
                Msg::Response(Response::Data(Data::Capability(v))) => match v.as_ref().get(1) {
                    Some(Capability::Sort(Some(a))) => Some(a.clone()),
                    _ => None,
                },
                _ => None,
            }
        ),
        5 => go!(
            ThreadingAlgorithm,
            |a| ThreadingAlgorithm::from(a),
            |n: &str| (Kind::Command, format!("A THREAD {n} UTF-8 ALL\r\n")),
            |m: &Msg| match m {
                Msg::Command(Command { body: CommandBody::Thread { algorithm, .. }, .. }) => Some(algorithm.clone()),
                _ => None,
            }
        ),
        6 => {
            go!(
                Flag,
                |a| Flag::system(a),
                |n: &str| (Kind::Command, format!("A STORE 1 FLAGS ({n})\r\n")),
                |m: &Msg| match m {
                    Msg::Command(Command { body: CommandBody::Store { flags, .. }, .. }) => flags.first().cloned(),
                    _ => None,
                }
            );
            if Flag::try_from(full.as_str()).ok() != Some(Flag::system(atom.clone()))
                || Flag::try_from(atom_part.as_str()).ok() != Some(Flag::keyword(atom.clone()))
                || Flag::keyword(atom.clone()).to_string() != atom_part
            {
                return Err(format!("conversion: Flag {full}"));
            }
        }
        _ => {
            go!(
                FlagNameAttribute,
                |a| FlagNameAttribute::from(a),
                |n: &str| (Kind::Response, format!("* LIST ({n}) NIL x\r\n")),
                |m: &Msg| match m {
                    Msg::Response(Response::Data(Data::List { items, .. })) => items.first().cloned(),
                    _ => None,
                }
            );
            let sel = ["\\noselect", "\\marked", "\\unmarked"].contains(&full.to_ascii_lowercase().as_str());
            if FlagNameAttribute::from(atom.clone()).is_selectability() != sel {
                return Err(format!("selectability: {full}"));
            }
        }
    }
    // the one closed set
    let d = atom_part.eq_ignore_ascii_case("deflate");
    if CompressionAlgorithm::try_from(atom_part.as_str()).is_ok() != d
        || CompressionAlgorithm::try_from(atom_part.as_bytes()).is_ok() != d
        || CompressionAlgorithm::try_from(atom.clone()).is_ok() != d
    {
        return Err(format!("conversion: CompressionAlgorithm {atom_part}"));
    }
    Ok(())
}

// ----- C25 -----

/// A refused command names the argument at fault, and one with a valid set of numbers carries this set.
fn blame(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    use imap_codec::imap_types::{
        command::error::*,
        extensions::{
            binary::LiteralOrLiteral8,
            quota::{error::SetQuotaError, QuotaSet},
            r#move::error::MoveError,
        },
        fetch::MacroOrMessageDataItemNames,
        sequence::SequenceSet,
    };
    use CommandBody as B;
    cx.label("blame");
    let (a, b) = (candidate(s), candidate(s));
    let fine = |v: &[u8]| !v.contains(&0);
    let set: String = (0..s.range(0, 9)).map(|_| *s.pick(b"1203456789:*,1,: ") as char).collect();
    let numbers = SequenceSet::try_from(set.as_str());
    let uid = s.bool();
    cx.nontrivial(format!("{set} {a:?} {b:?}").as_bytes());
    // if both are invalid, any of them may be to blame (3)
    let first = |x: bool, y: bool| i32::from(!x) + 2 * i32::from(!y);
    let (am, bm) = (fine(&a), fine(&b));
    let which = s.below(12);
    let (got, want): (i32, i32) = match which {
        0 => (
            match B::login(a.clone(), b.clone()) {
                Ok(_) => 0,
                Err(LoginError::Username(_)) => 1,
                Err(LoginError::Password(_)) => 2,
            },
            first(am, bm),
        ),
        1 => (
            match B::rename(a.clone(), b.clone()) {
                Ok(_) => 0,
                Err(RenameError::From(_)) => 1,
                Err(RenameError::To(_)) => 2,
            },
            first(am, bm),
        ),
        2 | 3 => {
            let l = String::from_utf8_lossy(&b).into_owned();
            let ok = fine(l.as_bytes());
            let r = if which == 2 { B::list(a.clone(), l) } else { B::lsub(a.clone(), l) };
            (
                match r {
                    Ok(_) => 0,
                    Err(ListError::Reference(_)) => 1,
                    Err(ListError::Mailbox(_)) => 2,
                },
                first(am, ok),
            )
        }
        4 => {
            let flags: Vec<_> = s.vec(0, |s| gen::flag(s, true));
            let date = s.opt(gen::datetime);
            (
                match B::append(a.clone(), flags.clone(), date.clone(), b.clone()) {
                    Ok(B::Append { flags: f, date: d, message: LiteralOrLiteral8::Literal(l), .. })
                        if f == flags && d == date && l.data() == b =>
                    {
                        0
                    }
                    Ok(_) => 9,
                    Err(AppendError::Mailbox(_)) => 1,
                    Err(AppendError::Data(_)) => 2,
                },
                first(am, bm),
            )
        }
        5 => (
            match B::copy(set.as_str(), a.clone(), uid) {
                Ok(B::Copy { sequence_set, uid: u, .. }) if Ok(&sequence_set) == numbers.as_ref() && u == uid => 0,
                Ok(_) => 9,
                Err(CopyError::Sequence(_)) => 1,
                Err(CopyError::Mailbox(_)) => 2,
            },
            first(numbers.is_ok(), am),
        ),
        6 => (
            match B::r#move(set.as_str(), a.clone(), uid) {
                Ok(B::Move { sequence_set, uid: u, .. }) if Ok(&sequence_set) == numbers.as_ref() && u == uid => 0,
                Ok(_) => 9,
                Err(MoveError::Sequence(_)) => 1,
                Err(MoveError::Mailbox(_)) => 2,
            },
            first(numbers.is_ok(), am),
        ),
        7 => {
            let names: Vec<MessageDataItemName> = s.vec(1, gen::item_name);
            (
                match B::fetch(set.as_str(), names.clone(), uid) {
                    Ok(B::Fetch { sequence_set, macro_or_item_names: MacroOrMessageDataItemNames::MessageDataItemNames(n), uid: u, .. })
                        if Ok(&sequence_set) == numbers.as_ref() && u == uid && n == names =>
                    {
                        0
                    }
                    Ok(_) => 9,
                    Err(_) => 1,
                },
                first(numbers.is_ok(), true),
            )
        }
        8 => {
            let flags: Vec<_> = s.vec(0, |s| gen::flag(s, true));
            let k = s.pick(&[StoreType::Add, StoreType::Remove, StoreType::Replace]).clone();
            let r = s.pick(&[StoreResponse::Answer, StoreResponse::Silent]).clone();
            (
                match B::store(set.as_str(), k.clone(), r.clone(), flags.clone(), uid) {
                    Ok(B::Store { sequence_set, kind, response, flags: f, uid: u, .. })
                        if Ok(&sequence_set) == numbers.as_ref() && u == uid && f == flags && kind == k && response == r =>
                    {
                        0
                    }
                    Ok(_) => 9,
                    Err(_) => 1,
                },
                first(numbers.is_ok(), true),
            )
        }
        9 => {
            let quotas: Vec<QuotaSet> = s.vec(0, |s| QuotaSet::new(gen::resource(s), gen::u64_edge(s)));
            (
                match B::set_quota(a.clone(), quotas.clone()) {
                    Ok(B::SetQuota { root, quotas: q }) if root.as_ref() == a && q == quotas => 0,
                    Ok(_) => 9,
                    Err(SetQuotaError::<_, std::convert::Infallible>::Root(_)) => 1,
                    Err(_) => 2,
                },
                first(am, true),
            )
        }
        10 => {
            let caps: Vec<CapabilityEnable> = s.vec(0, gen::capability_enable);
            (
                match B::enable(caps.clone()) {
                    Ok(B::Enable { capabilities }) if capabilities.as_ref() == caps => 0,
                    Ok(_) => 9,
                    Err(_) => 1,
                },
                first(!caps.is_empty(), true),
            )
        }
        _ => {
            let items: Vec<StatusDataItemName> = s.vec(0, gen::status_name);
            (
                match B::status(a.clone(), items.clone()) {
                    Ok(B::Status { item_names, .. }) if item_names[..] == items => 0,
                    Ok(_) => 9,
                    Err(_) => 1,
                },
                first(am, true),
            )
        }
    };
    if got != want && (want != 3 || !matches!(got, 1 | 2)) {
        return Err(format!("blame: constructor {which} with {set:?} {} {}: {got} instead of {want} (0 built, 9 built wrongly, else the argument)", esc(&a), esc(&b)));
    }
    Ok(())
}

fn c25(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    if s.one_in(6) {
        return blame(s, cx);
    }
    // Any command: its name is what is on the wire behind tag (and UID).
    let m = gen_msg_of(s, Kind::Command);
    let Msg::Command(c) = &m else { unreachable!() };
    let enc = m.encode();
    let mut words = enc.split(|b| *b == b' ' || *b == b'\r');
    let tag = words.next().unwrap_or(b"");
    let mut w = words.next().unwrap_or(b"");
    if w == b"UID" {
        w = words.next().unwrap_or(b"");
    }
    if tag != c.tag.inner().as_bytes() || w != c.name().as_bytes() || c.name() != c.body.name() {
        return Err(format!("name: {} for {}", c.name(), esc(&enc)));
    }
    super::cons::rebuild_command(s)?;
    // Constructors, fed with arbitrary bytes: rejected, or one command carrying exactly these bytes.
    let a = candidate(s);
    let b = candidate(s);
    let lossy = |v: &[u8]| String::from_utf8_lossy(v).into_owned();
    let (sa, sb) = (lossy(&a), lossy(&b));
    let which = s.below(26);
    let uid = s.bool();
    if !all1(&a, gen::is_atom_char) || !all1(&b, gen::is_atom_char) {
        let mut fp = a.clone();
        fp.push(which as u8);
        fp.extend_from_slice(&b);
        cx.nontrivial(&fp);
    }
    cx.sample(|| format!("constructor {which} with {} and {}", esc(&a), esc(&b)));
    let mbs = |m: &Mailbox| match m {
        Mailbox::Inbox => b"INBOX".to_vec(),
        Mailbox::Other(o) => o.as_ref().to_vec(),
    };
    let norm = |v: &[u8]| if v.eq_ignore_ascii_case(b"inbox") { b"INBOX".to_vec() } else { v.to_vec() };
    let lmb = |m: &ListMailbox| match m {
        ListMailbox::Token(t) => t.as_ref().to_vec(),
        ListMailbox::String(i) => i.as_ref().to_vec(),
    };
    let fine = |v: &[u8]| !v.contains(&0);
    // (valid arguments?, constructed, expected arguments, how to read them back)
    let (ok, body): (bool, Option<CommandBody<'static>>) = match which {
        0 => (fine(&a) && fine(&b), CommandBody::login(a.clone(), b.clone()).ok()),
        1 => (fine(sa.as_bytes()) && fine(sb.as_bytes()), CommandBody::login(sa.clone(), sb.clone()).ok()),
        2 => (fine(&a), CommandBody::select(a.clone()).ok()),
        3 => (fine(&a), CommandBody::examine(a.clone()).ok()),
        4 => (fine(&a), CommandBody::create(a.clone()).ok()),
        5 => (fine(&a), CommandBody::delete(a.clone()).ok()),
        6 => (fine(&a) && fine(&b), CommandBody::rename(a.clone(), b.clone()).ok()),
        7 => (fine(&a), CommandBody::subscribe(a.clone()).ok()),
        8 => (fine(&a), CommandBody::unsubscribe(a.clone()).ok()),
        9 => (fine(&a) && fine(sb.as_bytes()), CommandBody::list(a.clone(), sb.clone()).ok()),
        10 => (fine(&a) && fine(sb.as_bytes()), CommandBody::lsub(a.clone(), sb.clone()).ok()),
        11 => (fine(&a), CommandBody::status(a.clone(), vec![StatusDataItemName::Unseen]).ok()),
        12 => (fine(&a) && fine(&b), CommandBody::append(a.clone(), vec![Flag::Draft], None, b.clone()).ok()),
        13 => (fine(&a), CommandBody::copy("1:*", a.clone(), uid).ok()),
        14 => (fine(&a), CommandBody::r#move("2,4", a.clone(), uid).ok()),
        15 => (fine(&a), CommandBody::get_quota(a.clone()).ok()),
        16 => (fine(&a), CommandBody::get_quota_root(a.clone()).ok()),
        17 => (fine(&a), CommandBody::set_quota(a.clone(), vec![]).ok()),
        18 => (true, Some(CommandBody::authenticate(AuthMechanism::Plain))),
        19 => (true, Some(CommandBody::authenticate_with_ir(AuthMechanism::Login, a.clone()))),
        20 => {
            let m = s.pick(&[Macro::All, Macro::Fast, Macro::Full]).clone();
            use MessageDataItemName::*;
            let want = match m {
                Macro::All => vec![Flags, InternalDate, Rfc822Size, Envelope],
                Macro::Fast => vec![Flags, InternalDate, Rfc822Size],
                _ => vec![Flags, InternalDate, Rfc822Size, Envelope, Body],
            };
            if m.expand() != want {
                return Err(format!("macro: {m:?} expands to {:?}", m.expand()));
            }
            (true, CommandBody::fetch("3", m, uid).ok())
        }
        21 => (true, CommandBody::store("7:5", StoreType::Add, StoreResponse::Silent, vec![Flag::Seen], uid).ok()),
        22 => (
            fine(&a),
            AString::try_from(a.clone()).ok().map(|x| CommandBody::search(None, Vec1::from(SearchKey::Subject(x)), uid)),
        ),
        23 => (true, Some(CommandBody::unselect())),
        24 => (true, Some(CommandBody::compress(CompressionAlgorithm::Deflate))),
        _ => (
            all1(sa.as_bytes(), gen::is_atom_char),
            Capability::try_from(sa.clone()).ok().and(Atom::try_from(sa.clone()).ok()).and_then(|x| CommandBody::enable(vec![CapabilityEnable::from(x)]).ok()),
        ),
    };
    let Some(body) = body else {
        if ok {
            return Err(format!("constructor-rejects: {which} with {} {}", esc(&a), esc(&b)));
        }
        cx.label("rejected");
        return Ok(());
    };
    if !ok {
        return Err(format!("constructor-accepts: {which} with {} {}: {body:?}", esc(&a), esc(&b)));
    }
    cx.label("constructed");
    let tagged = Command::new("a1", body.clone()).map_err(|e| format!("tag: {e}"))?;
    if body.clone().tag("a1").ok().as_ref() != Some(&tagged) {
        return Err(format!("tag: {body:?}"));
    }
    if body.clone().tag(sb.clone()).is_ok() != all1(sb.as_bytes(), gen::is_tag_char) || Command::new(b.clone(), body.clone()).is_ok() != all1(&b, gen::is_tag_char) {
        return Err(format!("tag: {} as a tag", esc(&b)));
    }
    let m = Msg::Command(tagged.clone());
    let enc = m.encode();
    super::roundtrip::check_decodes_to(&m, &enc, "constructor-wire")?;
    let Dec::Ok { msg: Msg::Command(Command { body, .. }), .. } = decode(Kind::Command, &enc) else {
        return Err("constructor-wire".into());
    };
    use CommandBody as B;
    let good = match (which, &body) {
        (0, B::Login { username, password }) => username.as_ref() == a && password.declassify().as_ref() == b,
        (1, B::Login { username, password }) => username.as_ref() == sa.as_bytes() && password.declassify().as_ref() == sb.as_bytes(),
        #[cfg(feature = "f_condstore")]
        (2, B::Select { mailbox, parameters }) | (3, B::Examine { mailbox, parameters }) => mbs(mailbox) == norm(&a) && parameters.is_empty(),
        #[cfg(not(feature = "f_condstore"))]
        (2, B::Select { mailbox }) | (3, B::Examine { mailbox }) => mbs(mailbox) == norm(&a),
        (4, B::Create { mailbox })
        | (5, B::Delete { mailbox })
        | (7, B::Subscribe { mailbox })
        | (8, B::Unsubscribe { mailbox })
        | (16, B::GetQuotaRoot { mailbox }) => mbs(mailbox) == norm(&a),
        (6, B::Rename { from, to }) => mbs(from) == norm(&a) && mbs(to) == norm(&b),
        (9, B::List { reference, mailbox_wildcard }) | (10, B::Lsub { reference, mailbox_wildcard }) => {
            mbs(reference) == norm(&a) && lmb(mailbox_wildcard) == sb.as_bytes()
        }
        (11, B::Status { mailbox, item_names }) => mbs(mailbox) == norm(&a) && item_names[..] == [StatusDataItemName::Unseen],
        (12, B::Append { mailbox, flags, date, message }) => {
            mbs(mailbox) == norm(&a)
                && flags[..] == [Flag::Draft]
                && date.is_none()
                && matches!(message, imap_codec::imap_types::extensions::binary::LiteralOrLiteral8::Literal(l) if l.data() == &b[..])
        }
        (13, B::Copy { sequence_set, mailbox, uid: u }) => mbs(mailbox) == norm(&a) && *u == uid && *sequence_set == "1:*".try_into().unwrap(),
        (14, B::Move { sequence_set, mailbox, uid: u }) => mbs(mailbox) == norm(&a) && *u == uid && *sequence_set == "2,4".try_into().unwrap(),
        (15, B::GetQuota { root }) => root.as_ref() == a,
        (17, B::SetQuota { root, quotas }) => root.as_ref() == a && quotas.is_empty(),
        (18, B::Authenticate { mechanism, initial_response }) => *mechanism == AuthMechanism::Plain && initial_response.is_none(),
        (19, B::Authenticate { mechanism, initial_response }) => {
            *mechanism == AuthMechanism::Login && initial_response.as_ref().is_some_and(|r| r.declassify()[..] == a[..])
        }
        (20, B::Fetch { uid: u, .. }) => *u == uid,
        (21, B::Store { kind, response, flags, uid: u, .. }) => {
            *kind == StoreType::Add && *response == StoreResponse::Silent && flags[..] == [Flag::Seen] && *u == uid
        }
        (22, B::Search { charset, criteria, uid: u }) => {
            charset.is_none() && *u == uid && matches!(criteria.as_ref(), [SearchKey::Subject(x)] if x.as_ref() == a)
        }
        (23, B::Unselect) | (24, B::Compress { .. }) => true,
        (25, B::Enable { capabilities }) => capabilities.as_ref()[0].to_string().eq_ignore_ascii_case(&sa),
        _ => false,
    };
    if !good {
        return Err(format!("constructor: {which} with {} and {} is {body:?} on the wire", esc(&a), esc(&b)));
    }
    Ok(())
}
