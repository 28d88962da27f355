//! C15: serialization with serde.
use chrono::TimeZone;
use imap_codec::imap_types::{
    auth::AuthenticateData,
    command::Command,
    core::*,
    datetime::{DateTime, NaiveDate},
    extensions::idle::IdleDone,
    mailbox::{ListCharString, Mailbox, MailboxOther},
    response::*,
    sequence::SequenceSet,
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;

use crate::{gen, tape::Src, util::*, Cx, Prop};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C15",
        rule: "a message of more than one field, a document with a changed leaf, or a candidate that is not a plain atom; distinct by document",
        f: c15,
    }]
}

fn c15(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    if s.one_in(10) {
        return parts(s, cx);
    }
    match s.below(8) {
        0..=3 => round_trip(s, cx),
        4..=5 => changed(s, cx),
        6 => dates(s, cx),
        _ => validated(s, cx),
    }
}

fn through<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(x: &T) -> Result<String, String> {
    let t = serde_json::to_string(x).map_err(|e| format!("serialize: {x:?}: {e}"))?;
    let v = serde_json::to_value(x).map_err(|e| format!("serialize: {x:?}: {e}"))?;
    let all: [(&str, Result<T, _>); 4] = [
        ("str", serde_json::from_str(&t)),
        ("slice", serde_json::from_slice(t.as_bytes())),
        ("reader", serde_json::from_reader(t.as_bytes())),
        ("value", serde_json::from_value(v)),
    ];
    for (n, r) in all {
        match r {
            Ok(y) if &y == x => {}
            Ok(y) => return Err(format!("different: {x:?} came back as {y:?} ({n}) through {t}")),
            Err(e) => return Err(format!("deserialize: {e} ({n}) for {t}")),
        }
    }
    Ok(t)
}

fn round_trip(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    cx.label("round trip");
    let m = gen_msg(s);
    let t = match &m {
        Msg::Greeting(x) => through(x),
        Msg::Command(x) => through(x),
        Msg::Response(x) => through(x),
        Msg::Auth(x) => through(x),
        Msg::Idle => through(&IdleDone),
    }?;
    // chrono compares instants only
    let again = from_text(m.kind(), &t).map_err(|e| format!("deserialize: {e} for {t}"))?;
    if again.encode() != m.encode() {
        return Err(format!("encoding: {t} is {} instead of {}", esc(&again.encode()), esc(&m.encode())));
    }
    if t.matches(':').count() > 1 {
        cx.nontrivial(t.as_bytes());
    }
    cx.sample(|| t);
    Ok(())
}

/// Types that no message contains, and parts on their own.
fn parts(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    use imap_codec::imap_types::state::State;
    cx.label("parts");
    let t = match s.below(8) {
        0..=2 => {
            let m = gen::mailbox(s);
            let g = gen::tag(s);
            through(&match s.below(7) {
                0 => State::Greeting,
                1 => State::NotAuthenticated,
                2 => State::Authenticated,
                3 => State::Selected(m),
                4 => State::Logout,
                5 => State::IdleAuthenticated(g),
                _ => State::IdleSelected(g, m),
            })
        }
        #[cfg(feature = "f_condstore")]
        3..=4 => {
            use imap_codec::imap_types::extensions::condstore_qresync::{AttributeFlag, EntryTypeReq};
            through(s.pick(&[EntryTypeReq::Private, EntryTypeReq::Shared, EntryTypeReq::All]))?;
            let a = gen::atom(s);
            through(&if s.bool() { AttributeFlag::system(a) } else { AttributeFlag::keyword(a) })
        }
        5 => through(&gen::mailbox(s)),
        6 => through(&gen::sequence_set(s)),
        _ => through(&gen::flag(s, true)),
    }?;
    cx.nontrivial(t.as_bytes());
    cx.sample(|| t);
    Ok(())
}

fn from_text(k: Kind, t: &str) -> Result<Msg, serde_json::Error> {
    Ok(match k {
        Kind::Greeting => Msg::Greeting(serde_json::from_str::<Greeting<'static>>(t)?),
        Kind::Command => Msg::Command(serde_json::from_str::<Command<'static>>(t)?),
        Kind::Response => Msg::Response(serde_json::from_str::<Response<'static>>(t)?),
        Kind::Auth => Msg::Auth(serde_json::from_str::<AuthenticateData<'static>>(t)?),
        Kind::Idle => {
            serde_json::from_str::<IdleDone>(t)?;
            Msg::Idle
        }
    })
}

fn leaves(v: &Value) -> usize {
    match v {
        Value::Array(a) => 1 + a.iter().map(leaves).sum::<usize>(),
        Value::Object(o) => o.values().map(leaves).sum(),
        _ => 1,
    }
}

/// The i-th leaf (arrays count, too: they can be emptied or cut short).
fn leaf(v: &mut Value, i: &mut usize, f: &mut dyn FnMut(&mut Value)) {
    match v {
        Value::Object(o) => {
            for x in o.values_mut() {
                leaf(x, i, f);
            }
        }
        _ => {
            if *i == 0 {
                *i = usize::MAX;
                f(v);
                return;
            }
            *i = i.wrapping_sub(1);
            if let Value::Array(a) = v {
                for x in a {
                    leaf(x, i, f);
                }
            }
        }
    }
}

/// Response codes that are not known are not validated at all (see DESIGN.md).
fn unvalidated(m: &Msg) -> bool {
    let code = |c: &Option<Code>, text: &Text| match c {
        #[cfg(any(feature = "f_login_referrals", feature = "f_mailbox_referrals"))]
        Some(Code::Referral(_)) => true,
        Some(Code::Other(_)) => true,
        Some(_) => false,
        None => text.inner().starts_with('['),
    };
    let b = |b: &StatusBody| code(&b.code, &b.text);
    match m {
        Msg::Greeting(g) => code(&g.code, &g.text),
        Msg::Response(Response::Status(st)) => match st {
            Status::Untagged(x) => b(x),
            Status::Tagged(x) => b(&x.body),
            Status::Bye(x) => code(&x.code, &x.text),
        },
        Msg::Response(Response::CommandContinuationRequest(CommandContinuationRequest::Basic(c))) => {
            code(&c.code().cloned(), c.text())
        }
        _ => false,
    }
}

/// QuotedUtf8 is a plain public wrapper: nothing restricts it.
fn has_utf8(t: &str) -> bool {
    t.contains("QuotedUtf8")
}

fn changed(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let m = gen_msg(s);
    let mut v = match &m {
        Msg::Greeting(x) => serde_json::to_value(x),
        Msg::Command(x) => serde_json::to_value(x),
        Msg::Response(x) => serde_json::to_value(x),
        Msg::Auth(x) => serde_json::to_value(x),
        Msg::Idle => serde_json::to_value(IdleDone),
    }
    .map_err(|e| format!("serialize: {m:?}: {e}"))?;
    let mut i = s.idx(leaves(&v).max(1));
    leaf(&mut v, &mut i, &mut |x| match x {
        Value::String(t) => {
            let c = *s.pick(&['\r', '\n', '\0', ' ', '(', ')', '"', '\\', '{', '%', '*', ']', '+', 'ä', 'x', '\u{7f}', '[', '=']);
            let at = s.idx(t.chars().count() + 1);
            let p = t.char_indices().nth(at).map(|x| x.0).unwrap_or(t.len());
            match s.below(4) {
                0 => t.clear(),
                1 => *t = format!("{}{c}", &t[..p]),
                _ => t.insert(p, c),
            }
        }
        Value::Number(n) => {
            let k: i64 = *s.pick(&[0, 1, -1, 255, 256, 4294967295, 4294967296, 10, 13, i64::MAX]);
            *n = k.into();
        }
        Value::Array(a) => {
            if s.bool() {
                a.clear();
            } else {
                a.truncate(1);
            }
        }
        Value::Null => *x = Value::String("x".into()),
        Value::Bool(b) => *b = !*b,
        Value::Object(_) => {}
    });
    let t = v.to_string();
    cx.nontrivial(t.as_bytes());
    cx.sample(|| t.clone());
    let Ok(n) = from_text(m.kind(), &t) else {
        cx.label("changed, rejected");
        return Ok(());
    };
    if unvalidated(&n) || has_utf8(&format!("{n:?}")) {
        cx.label("changed, not validated");
        return Ok(());
    }
    cx.label("changed, accepted");
    // Whatever is accepted is one message on the wire.
    let enc = n.encode();
    match decode(n.kind(), &enc) {
        Dec::Ok { consumed, msg } if consumed == enc.len() && msg.encode().eq_ignore_ascii_case(&enc) => Ok(()),
        o => Err(format!("invalid: {t} is accepted, but {} decodes as {o:?}", esc(&enc))),
    }
}

fn subst(v: &mut Value, from: &Value, to: &Value) {
    if v == from {
        *v = to.clone();
        return;
    }
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| subst(x, from, to)),
        Value::Object(o) => o.values_mut().for_each(|x| subst(x, from, to)),
        _ => {}
    }
}

/// The document of `like`, with `from` replaced by `to`.
fn doc<T: Serialize>(like: &T, from: impl Into<Value>, to: impl Into<Value>) -> Value {
    let mut v = serde_json::to_value(like).expect("serializable");
    let before = v.clone();
    let (from, to) = (from.into(), to.into());
    subst(&mut v, &from, &to);
    assert!(v != before || from == to, "harness: marker {from} not found in {before}");
    v
}

fn agree<T: DeserializeOwned + PartialEq + std::fmt::Debug>(what: &str, v: Value, want: Option<T>) -> Result<(), String> {
    let t = v.to_string();
    let got: Option<T> = serde_json::from_str(&t).ok();
    let got2: Option<T> = serde_json::from_value(v).ok();
    if got != want || got2 != want {
        return Err(format!("constraint: {what} from {t} gives {got:?}, its constructor gives {want:?}"));
    }
    Ok(())
}

fn validated(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    cx.label("validated");
    let v = super::types::candidate(s);
    if let Ok(st) = std::str::from_utf8(&v) {
        if !st.bytes().all(gen::is_atom_char) {
            cx.nontrivial(st.as_bytes());
        }
        cx.sample(|| esc(&v));
        macro_rules! st {
            ($($t:ident),*) => {$(
                agree::<$t<'static>>(
                    stringify!($t),
                    doc(&$t::try_from("zqz").unwrap(), "zqz", st),
                    $t::try_from(st.to_string()).ok(),
                )?;
            )*};
        }
        st!(Atom, AtomExt, Tag, Text, Quoted, ListCharString);
        // An atom-typed charset, string or mailbox takes what its part takes.
        agree::<Charset<'static>>("Charset", doc(&Charset::Atom(Atom::unvalidated("zqz")), "zqz", st), Atom::try_from(st.to_string()).ok().map(Charset::Atom))?;
        agree::<Charset<'static>>(
            "Charset",
            doc(&Charset::Quoted(Quoted::unvalidated("zqz")), "zqz", st),
            Quoted::try_from(st.to_string()).ok().map(Charset::Quoted),
        )?;
        let other = |a: AString<'static>| MailboxOther::try_from(a).ok();
        agree::<MailboxOther<'static>>(
            "MailboxOther",
            doc(&MailboxOther::try_from(AString::Atom(AtomExt::unvalidated("zqz"))).unwrap(), "zqz", st),
            AtomExt::try_from(st.to_string()).ok().and_then(|a| other(AString::Atom(a))),
        )?;
        agree::<Mailbox<'static>>(
            "Mailbox",
            doc(&Mailbox::Other(MailboxOther::try_from(AString::from(Quoted::unvalidated("zqz"))).unwrap()), "zqz", st),
            Quoted::try_from(st.to_string()).ok().and_then(|a| other(AString::from(a))).map(Mailbox::Other),
        )?;
        agree::<CommandContinuationRequestBasic<'static>>(
            "CommandContinuationRequestBasic",
            doc(&CommandContinuationRequestBasic::new(None, Text::unvalidated("z-q")).unwrap(), "z-q", st),
            CommandContinuationRequestBasic::new(None, st.to_string()).ok(),
        )?;
        let mut it = st.chars();
        if let (Some(c), None) = (it.next(), it.next()) {
            agree::<QuotedChar>("QuotedChar", doc(&QuotedChar::try_from('z').unwrap(), "z", st), QuotedChar::try_from(c).ok())?;
        }
        // INBOX is reserved, however it is spelled
        let inbox: String = "inbox".chars().map(|c| if s.bool() { c.to_ascii_uppercase() } else { c }).collect();
        agree::<MailboxOther<'static>>(
            "MailboxOther",
            doc(&MailboxOther::try_from(AString::Atom(AtomExt::unvalidated("zqz"))).unwrap(), "zqz", inbox.as_str()),
            None,
        )?;
    }
    let bytes: Value = v.iter().map(|b| Value::from(*b)).collect::<Vec<_>>().into();
    let marker: Value = b"zqz".iter().map(|b| Value::from(*b)).collect::<Vec<_>>().into();
    agree::<Literal<'static>>(
        "Literal",
        doc(&Literal::try_from("zqz").unwrap(), marker.clone(), bytes.clone()),
        Literal::try_from(v.clone()).ok(),
    )?;
    agree::<Literal<'static>>(
        "Literal",
        doc(&Literal::try_from("zqz").unwrap().into_non_sync(), marker, bytes),
        Literal::try_from(v.clone()).ok().map(|l| l.into_non_sync()),
    )?;
    let n = s.below(4) as usize;
    let xs: Vec<u32> = (0..n).map(|_| s.below(100) as u32).collect();
    let j: Value = xs.iter().map(|x| Value::from(*x)).collect::<Vec<_>>().into();
    let m2: Value = serde_json::json!([7, 8]);
    agree::<Vec1<u32>>("Vec1", doc(&Vec1::<u32>::try_from(vec![7u32, 8]).unwrap(), m2.clone(), j.clone()), Vec1::try_from(xs.clone()).ok())?;
    agree::<Vec2<u32>>("Vec2", doc(&Vec2::<u32>::try_from(vec![7u32, 8]).unwrap(), m2, j), Vec2::try_from(xs).ok())?;
    // A number in a sequence set is never zero, and the set never empty.
    let k = gen::u64_edge(s);
    let like = SequenceSet::try_from(77u32).unwrap();
    agree::<SequenceSet>("SequenceSet", doc(&like, 77, k), SequenceSet::try_from(k).ok())?;
    let whole = serde_json::to_value(&like).unwrap();
    if let Value::Array(_) = whole {
        agree::<SequenceSet>("SequenceSet", Value::Array(vec![]), None)?;
    }
    Ok(())
}

fn dates(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    cx.label("dates");
    let y = match s.below(3) {
        0 => *s.pick(&[-1i32, 0, 1, 9999, 10000, -9999, 10001, 99999, 2000]),
        1 => s.range(0, 9999) as i32,
        _ => s.range(0, 20000) as i32 - 5000,
    };
    let d = chrono::NaiveDate::from_ymd_opt(y, s.range(1, 12) as u32, s.range(1, 28) as u32).unwrap();
    let like = NaiveDate::try_from(chrono::NaiveDate::from_ymd_opt(2001, 2, 3).unwrap()).unwrap();
    let plain = |x: &dyn erased::Ser| x.value();
    agree::<NaiveDate>("NaiveDate", doc(&like, plain(like.as_ref()), plain(&d)), NaiveDate::try_from(d).ok())?;
    let nano = *s.pick(&[0u32, 0, 0, 1, 999_999_999, 500_000_000]);
    let off = match s.below(3) {
        0 => s.below(2879) as i32 * 60 - 1439 * 60,
        1 => *s.pick(&[0i32, 3600, -3600, 60, -60]),
        _ => *s.pick(&[1i32, -1, 61, 59, 3601]),
    };
    let t = d.and_hms_nano_opt(s.below(24) as u32, s.below(60) as u32, s.below(60) as u32, nano).unwrap();
    let Some(dt) = chrono::FixedOffset::east_opt(off).unwrap().from_local_datetime(&t).single() else {
        return Ok(());
    };
    cx.nontrivial(format!("{dt:?}").as_bytes());
    cx.sample(|| format!("{dt:?}"));
    // What chrono's own document for it means (it cannot express seconds in the offset).
    let own = plain(&dt);
    let Ok(back) = serde_json::from_value::<chrono::DateTime<chrono::FixedOffset>>(own.clone()) else {
        return Ok(());
    };
    let like = DateTime::try_from(
        chrono::FixedOffset::east_opt(0).unwrap().from_utc_datetime(&chrono::NaiveDate::from_ymd_opt(2001, 2, 3).unwrap().and_hms_opt(4, 5, 6).unwrap()),
    )
    .unwrap();
    agree::<DateTime>("DateTime", doc(&like, plain(like.as_ref()), own), DateTime::try_from(back).ok())
}

mod erased {
    pub trait Ser {
        fn value(&self) -> serde_json::Value;
    }
    impl<T: serde::Serialize> Ser for T {
        fn value(&self) -> serde_json::Value {
            serde_json::to_value(self).unwrap()
        }
    }
}
