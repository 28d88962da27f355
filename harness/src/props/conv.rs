//! C28: conversions, accessors, printing helpers and character classes keep the value.
use std::borrow::Cow;

use imap_codec::imap_types::{
    core::*,
    extensions::{
        binary::{Literal8, LiteralOrLiteral8},
        sort::SortKey,
        thread::Thread,
    },
    fetch::{Macro, MacroOrMessageDataItemNames, MessageDataItemName},
    flag::{Flag, FlagFetch, FlagPerm},
    mailbox::{Mailbox, MailboxOther},
    response::{CodeOther, Data, Response},
    sequence::SeqOrUid,
    secret::Secret,
    state::State,
    utils::{escape_byte_string, indicators},
    IntoStatic, ToStatic,
};

use super::types::{all1, candidate};
use crate::{gen, tape::Src, util::*, Cx, Prop};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C28",
        rule: "the value is non-empty and contains something other than letters and digits; distinct by value",
        f: c28,
    }]
}

macro_rules! same {
    ($what:expr, $got:expr, $want:expr) => {
        match (&$got, &$want) {
            (got, want) => {
                if got != want {
                    return Err(format!("{}: {got:?} instead of {want:?}", $what));
                }
            }
        }
    };
}

/// Undoes `escape_byte_string`: the harness's own reading of Rust-like byte string escapes.
fn unescape(s: &str) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut it = s.bytes();
    while let Some(b) = it.next() {
        match b {
            b'"' => return None,
            b'\\' => match it.next()? {
                b't' => out.push(9),
                b'n' => out.push(10),
                b'r' => out.push(13),
                b'"' => out.push(b'"'),
                b'\\' => out.push(b'\\'),
                b'x' => {
                    let h = [it.next()?, it.next()?];
                    out.push(u8::from_str_radix(std::str::from_utf8(&h).ok()?, 16).ok()?);
                }
                _ => return None,
            },
            0x20..=0x7e => out.push(b),
            _ => return None,
        }
    }
    Some(out)
}

/// The debug form shows the exact bytes, escaped, between b" and ".
fn shows(what: &str, dbg: String, v: &[u8]) -> Result<(), String> {
    let a = dbg.find("b\"").ok_or_else(|| format!("debug: {what} prints {dbg}"))? + 2;
    let mut end = a;
    let b = dbg.as_bytes();
    while end < b.len() && b[end] != b'"' {
        end += if b[end] == b'\\' { 2 } else { 1 };
    }
    match dbg.get(a..end).and_then(unescape) {
        Some(x) if x == v => Ok(()),
        _ => Err(format!("debug: {what} of {} prints {dbg}", esc(v))),
    }
}

fn classes(b: u8) -> Result<(), String> {
    let atom_special = b"(){ %*\"\\]".contains(&b) || b < 0x20 || b == 0x7f;
    let ch = (1..=0x7f).contains(&b);
    let want = [
        ("is_char", indicators::is_char(b), ch),
        ("is_ctl", indicators::is_ctl(b), b < 0x20 || b == 0x7f),
        ("is_quoted_specials", indicators::is_quoted_specials(b), b == b'"' || b == b'\\'),
        ("is_astring_char", indicators::is_astring_char(b), ch && !atom_special || b == b']'),
        ("is_atom_char", indicators::is_atom_char(b), ch && !atom_special),
        ("is_atom_specials", indicators::is_atom_specials(b), atom_special),
        ("is_list_wildcards", indicators::is_list_wildcards(b), b == b'%' || b == b'*'),
        ("is_resp_specials", indicators::is_resp_specials(b), b == b']'),
        ("is_char8", indicators::is_char8(b), b != 0),
        ("is_text_char", indicators::is_text_char(b), ch && b != b'\r' && b != b'\n'),
        ("is_list_char", indicators::is_list_char(b), ch && !atom_special || b"%*]".contains(&b)),
    ];
    for (n, got, want) in want {
        if got != want {
            return Err(format!("class: {n}({b:#04x}) is {got}"));
        }
    }
    Ok(())
}

fn c28(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let v = if s.one_in(8) { gen::bytes(s, true) } else { candidate(s) };
    if v.iter().any(|b| !b.is_ascii_alphanumeric()) {
        cx.nontrivial(&v);
    }
    cx.sample(|| esc(&v));
    for b in &v {
        classes(*b)?;
    }
    classes(s.byte())?;

    // printing bytes
    let e = escape_byte_string(&v);
    if unescape(&e).as_deref() != Some(&v[..]) {
        return Err(format!("escape: {} gives {e}", esc(&v)));
    }
    let mode = if s.bool() { LiteralMode::Sync } else { LiteralMode::NonSync };
    shows("Literal8", format!("{:?}", Literal8 { data: Cow::Borrowed(&v), mode }), &v)?;
    shows("CodeOther", format!("{:?}", CodeOther::unvalidated(v.clone())), &v)?;
    same!("CodeOther", CodeOther::unvalidated(&v[..]).inner()[..], v[..]);

    // literals: data and mode are independent
    if !v.contains(&0) {
        cx.label("literal");
        let l = Literal::try_from(v.clone()).map_err(|e| format!("literal: {e}"))?;
        same!("default mode", l.mode(), LiteralMode::Sync);
        let b = Literal::try_from(&v[..]).unwrap();
        same!("literal", b, l);
        same!("unvalidated", Literal::unvalidated(v.clone()), l);
        let n = Literal::unvalidated_non_sync(v.clone());
        same!("unvalidated_non_sync", n, l.clone().into_non_sync());
        for (x, m) in [
            (l.clone().into_sync(), LiteralMode::Sync),
            (l.clone().into_non_sync(), LiteralMode::NonSync),
            (n.clone().into_sync(), LiteralMode::Sync),
            (n.clone().into_non_sync(), LiteralMode::NonSync),
            (n.clone().to_static(), LiteralMode::NonSync),
            (n.clone().into_static(), LiteralMode::NonSync),
            (b.to_static(), LiteralMode::Sync),
            (b.into_static(), LiteralMode::Sync),
            (
                {
                    let mut x = if s.bool() { l.clone() } else { n.clone() };
                    x.set_mode(mode);
                    x
                },
                mode,
            ),
        ] {
            same!("literal data", x.data()[..], v[..]);
            same!("literal as_ref", x.as_ref()[..], v[..]);
            same!("literal mode", x.mode(), m);
            shows("Literal", format!("{x:?}"), &v)?;
            same!("IString::Literal", IString::from(x.clone()), IString::Literal(x.clone()));
            same!("IString::Literal", IString::from(x.clone()).as_ref()[..], v[..]);
            same!("AString::Literal", AString::from(x.clone()), AString::String(IString::Literal(x.clone())));
            same!("AString::Literal", AString::from(x.clone()).as_ref()[..], v[..]);
            same!("NString::Literal", NString::from(x.clone()), NString(Some(IString::Literal(x.clone()))));
            same!("into_option", NString::from(x.clone()).into_option().as_deref(), Some(&v[..]));
            same!("literal into_inner", x.into_inner()[..], v[..]);
        }
        if l == n || IString::from(l.clone()) == IString::from(n.clone()) {
            return Err("mode: two literals of different modes are equal".into());
        }
        let o = LiteralOrLiteral8::Literal(n.clone());
        same!("to_static", o.to_static(), o);
    }
    if all1(&v, gen::is_atom_char) {
        cx.label("atom");
        let a = Atom::try_from(v.clone()).unwrap();
        let st = std::str::from_utf8(&v).unwrap();
        same!("Atom display", a.to_string(), st);
        same!("Atom into_inner", a.clone().into_inner(), st);
        same!("AtomExt from Atom", AtomExt::from(a.clone()), AtomExt::try_from(st).unwrap());
        same!("AtomExt from Atom", AtomExt::from(a.clone()).inner(), st);
        same!("AString from Atom", AString::from(a.clone()), AString::Atom(AtomExt::try_from(st).unwrap()));
        same!("AString from Atom", AString::from(a.clone()).as_ref()[..], v[..]);
        same!("Charset from Atom", Charset::from(a.clone()), Charset::Atom(a.clone()));
        same!("Charset as_ref", Charset::from(a.clone()).as_ref(), st);
        flags(&a, st)?;
    }
    if all1(&v, gen::is_astring_char) {
        let st = std::str::from_utf8(&v).unwrap();
        let a = AtomExt::try_from(st).unwrap();
        same!("AtomExt into_inner", a.clone().into_inner(), st);
        same!("AtomExt as_ref", a.as_ref(), st);
        same!("AString from AtomExt", AString::from(a.clone()), AString::Atom(a.clone()));
        same!("AString from AtomExt", AString::from(a.clone()).as_ref()[..], v[..]);
    }
    if v.iter().all(|b| gen::is_text_char(*b)) {
        cx.label("quotable");
        let st = std::str::from_utf8(&v).unwrap();
        let q = Quoted::try_from(v.clone()).unwrap();
        same!("Quoted into_inner", q.clone().into_inner(), st);
        same!("Quoted as_ref", q.as_ref(), st);
        same!("IString::Quoted", IString::from(q.clone()), IString::Quoted(q.clone()));
        same!("IString::Quoted", IString::from(q.clone()).into_inner()[..], v[..]);
        same!("AString::Quoted", AString::from(q.clone()), AString::String(IString::Quoted(q.clone())));
        same!("NString::Quoted", NString::from(q.clone()), NString(Some(IString::Quoted(q.clone()))));
        same!("into_option", NString::from(q.clone()).into_option().as_deref(), Some(&v[..]));
        same!("Charset from Quoted", Charset::from(q.clone()), Charset::Quoted(q.clone()));
        same!("Charset from Quoted", Charset::from(q.clone()).as_ref(), st);
        if !v.is_empty() {
            let t = Text::try_from(v.clone()).unwrap();
            same!("Text display", t.to_string(), st);
            same!("Text into_inner", t.clone().into_inner(), st);
            same!("Text as_ref", t.as_ref(), st);
        }
    }
    same!("NIL", NString::NIL.into_option(), None);
    same!("NIL", NString::default(), NString(None));
    #[cfg(feature = "f_utf8")]
    if let Ok(st) = std::str::from_utf8(&v) {
        use imap_codec::imap_types::extensions::utf8::QuotedUtf8;
        let q = IString::QuotedUtf8(QuotedUtf8::from(st.to_string()));
        same!("QuotedUtf8", q, IString::QuotedUtf8(QuotedUtf8(Cow::Borrowed(st))));
        same!("QuotedUtf8", q.as_ref()[..], v[..]);
        same!("QuotedUtf8", q.clone().into_inner()[..], v[..]);
        same!("QuotedUtf8", NString(Some(q.clone())).into_option().as_deref(), Some(&v[..]));
        same!("QuotedUtf8", q.to_static(), q);
    }
    // mailbox names and states
    if let Ok(m) = Mailbox::try_from(v.clone()) {
        match &m {
            Mailbox::Inbox => same!("INBOX", v.to_ascii_uppercase()[..], b"INBOX"[..]),
            Mailbox::Other(o) => {
                same!("MailboxOther", o.as_ref()[..], v[..]);
                same!("MailboxOther", o.inner().as_ref()[..], v[..]);
                same!("MailboxOther", MailboxOther::unvalidated(o.inner().clone()), *o);
                same!("Mailbox", Mailbox::from(o.inner().clone()), m);
            }
        }
        let st = State::Selected(m.clone());
        same!("State", st.to_static(), st);
        same!("State", st.clone().into_static(), st);
        let t = gen::tag(s);
        let st = State::IdleSelected(t, m);
        same!("State", st.to_static(), st);
    }
    #[cfg(feature = "f_metadata")]
    if let Ok(a) = AString::try_from(v.clone()) {
        use imap_codec::imap_types::extensions::metadata::Entry;
        let e = Entry::try_from(a.clone()).map_err(|e| format!("entry: {e}"))?;
        same!("Entry", *e.inner(), a);
        same!("Entry", e.as_ref()[..], v[..]);
    }
    // secrets hold what they were given
    same!("Secret", *Secret::new(v.clone()).declassify(), v);
    same!("Secret", *Secret::from(v.clone()).declassify(), v);
    if Secret::new(v.clone()) != Secret::from(v.clone()) {
        return Err("secret: differs from itself".into());
    }

    // names that the library prints are the ones on the wire
    let m = s.pick(&[Macro::All, Macro::Fast, Macro::Full]).clone();
    same!("Macro", MacroOrMessageDataItemNames::from(m.clone()), MacroOrMessageDataItemNames::Macro(m.clone()));
    same!("Macro", m.to_string(), match m {
        Macro::All => "ALL",
        Macro::Fast => "FAST",
        Macro::Full => "FULL",
        _ => "?",
    });
    let items = vec![MessageDataItemName::Flags, MessageDataItemName::Uid];
    same!(
        "item names",
        MacroOrMessageDataItemNames::from(items.clone()),
        MacroOrMessageDataItemNames::MessageDataItemNames(items.clone())
    );
    let n = s.range(1, 4) as usize;
    let w: Vec<u8> = v.iter().copied().chain([1, 2, 3, 4]).take(n).collect();
    same!("Vec1", Vec1::<u8>::from([w[0]]).into_inner(), vec![w[0]]);
    if n >= 2 {
        same!("Vec2", Vec2::<u8>::from([w[0], w[1]]).into_inner(), vec![w[0], w[1]]);
        same!("Vec2", Vec2::unvalidated(w.clone()).as_ref()[..], w[..]);
        same!("Vec2", Vec2::unvalidated(w.clone()).into_iter().collect::<Vec<_>>(), w);
    }
    same!("Vec1", Vec1::unvalidated(w.clone()).as_ref()[..], w[..]);
    if s.one_in(4) {
        let t = gen::thread(s, 4);
        let m = Msg::Response(Response::Data(Data::Thread(vec![t.clone()])));
        let enc = m.encode();
        same!("Thread display", format!("* THREAD {t}\r\n").as_bytes()[..], enc[..]);
        // and reading it gives the thread back
        super::roundtrip::check_decodes_to(&m, format!("* THREAD {t}\r\n").as_bytes(), "Thread parse")?;
        cx.label(if matches!(t, Thread::Nested { .. }) { "nested thread" } else { "thread" });
    }
    let n = gen::nz32(s);
    same!("SeqOrUid", SeqOrUid::Value(n).to_non_zero_u32(), n);
    same!("SeqOrUid", SeqOrUid::Asterisk.to_non_zero_u32().get(), u32::MAX);
    let k = gen::sort_criterion(s).key;
    same!("SortKey", k.as_ref(), match k {
        SortKey::Arrival => "ARRIVAL",
        SortKey::Cc => "CC",
        SortKey::Date => "DATE",
        SortKey::From => "FROM",
        SortKey::Size => "SIZE",
        SortKey::Subject => "SUBJECT",
        SortKey::To => "TO",
        SortKey::DisplayFrom => "DISPLAYFROM",
        SortKey::DisplayTo => "DISPLAYTO",
    });
    Ok(())
}

fn flags(a: &Atom, st: &str) -> Result<(), String> {
    let f = Flag::keyword(a.clone());
    same!("Flag", f.to_string(), st);
    same!("Flag", Flag::try_from(st).ok(), Some(f.clone()));
    let y = Flag::system(a.clone());
    let p = y.to_string();
    same!("Flag", p.to_ascii_lowercase(), format!("\\{}", st.to_ascii_lowercase()));
    same!("Flag", Flag::try_from(&p[..]).ok(), Some(y.clone()));
    for x in [f, y] {
        same!("FlagFetch", FlagFetch::from(x.clone()), FlagFetch::Flag(x.clone()));
        same!("FlagPerm", FlagPerm::from(x.clone()), FlagPerm::Flag(x.clone()));
    }
    #[cfg(feature = "f_condstore")]
    {
        use imap_codec::imap_types::extensions::condstore_qresync::AttributeFlag;
        let f = AttributeFlag::keyword(a.clone());
        same!("AttributeFlag", f.to_string(), st);
        same!("AttributeFlag", AttributeFlag::try_from(st).ok(), Some(f));
        let y = AttributeFlag::system(a.clone());
        let p = y.to_string();
        // printed as inside a quoted string
        same!("AttributeFlag", p.to_ascii_lowercase(), format!("\\\\{}", st.to_ascii_lowercase()));
        same!("AttributeFlag", AttributeFlag::try_from(&p[..]).ok(), Some(y));
    }
    Ok(())
}
