//! C27: what the `Arbitrary` implementations make is a real message.
use arbitrary::{Arbitrary, Unstructured};
use imap_codec::imap_types::{
    auth::AuthenticateData,
    body::BodyStructure,
    command::{Command, CommandBody},
    core::Vec1,
    envelope::Envelope,
    fetch::{MacroOrMessageDataItemNames, MessageDataItem},
    response::*,
    search::SearchKey,
    IntoStatic,
};

use crate::{gen, tape::Src, util::*, Cx, Prop};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        rule: "the bytes are accepted by Arbitrary and give a message of at least 12 bytes on the wire; distinct by message bytes",
        f: c27,
    }]
}

/// Bytes that make Arbitrary produce something: letters, small numbers, grammar words.
fn raw(s: &mut Src) -> Vec<u8> {
    let n = match s.below(4) {
        0 => s.range(4, 40),
        1 => s.range(20, 200),
        2 => s.range(100, 800),
        _ => s.range(200, 3000),
    } as usize;
    let style = s.below(6);
    let mut v = Vec::with_capacity(n + 32);
    if s.bool() {
        v.extend_from_slice(&[b'a', b'b', b'c', s.byte()]);
    }
    while v.len() < n {
        match (style, s.below(8)) {
            // the choice among variants is the high byte of such a block
            (_, 6..=7) => v.extend_from_slice(&[b'a', b'b', b'c', s.byte()]),
            // long runs make for deep nesting and zeros
            (4, 2..=4) => {
                let b = *s.pick(&[0u8, 0, 1, 2, 16, 19, 16 + 38, 3, 255]);
                for _ in 0..s.range(1, 24) {
                    v.push(b);
                }
            }
            (5, 1..=5) => v.push(*s.pick(&[0u8, 1, 2, 16, 19, 54, 57, 38, 30, 37])),
            (_, 0) => v.extend_from_slice(s.pick(gen::WORDS).as_bytes()),
            (_, 1) => v.push(s.byte()),
            (0, _) => v.push(s.below(8) as u8),
            (1, 2..=4) => v.push(s.below(4) as u8),
            (2, _) => v.push(s.range(0x20, 0x7e) as u8),
            (3, 2) => v.extend_from_slice(s.pick(&["{", "}", "[", "]", "\"", "\\", "(", ")", "*", "%", "+", "=", "é", "\r\n", " "]).as_bytes()),
            (_, 2) => v.extend_from_slice(&s.u64_full().to_le_bytes()),
            (_, 3) => v.push(s.below(64) as u8),
            _ => v.push(s.range(0x41, 0x7a) as u8),
        }
    }
    v
}

fn c27(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let v = raw(s);
    let mut u = Unstructured::new(&v);
    let fetch = |i: MessageDataItem<'_>| Msg::Response(Response::Data(Data::Fetch { seq: std::num::NonZeroU32::MIN, items: Vec1::from(i.into_static()) }));
    let m = match s.below(20) {
        9..=11 => CommandBody::arbitrary(&mut u).map(|b| Msg::Command(Command::new("a", b.into_static()).unwrap())),
        12 | 13 => Data::arbitrary(&mut u).map(|d| Msg::Response(Response::Data(d.into_static()))),
        14 => MessageDataItem::arbitrary(&mut u).map(fetch),
        15 => BodyStructure::arbitrary(&mut u).map(|b| fetch(MessageDataItem::BodyStructure(b))),
        16 => SearchKey::arbitrary(&mut u)
            .map(|k| Msg::Command(Command::new("a", CommandBody::search(None, Vec1::from(k.into_static()), false)).unwrap())),
        17 => Code::arbitrary(&mut u).map(|c| Msg::Response(Response::Status(Status::ok(None, Some(c.into_static()), "x").unwrap()))),
        18 => MacroOrMessageDataItemNames::arbitrary(&mut u)
            .map(|i| Msg::Command(Command::new("a", CommandBody::fetch("1", i.into_static(), true).unwrap()).unwrap())),
        19 => Envelope::arbitrary(&mut u).map(|e| fetch(MessageDataItem::Envelope(e))),
        0 => Greeting::arbitrary(&mut u).map(|m| Msg::Greeting(m.into_static())),
        1..=4 => Command::arbitrary(&mut u).map(|m| Msg::Command(m.into_static())),
        5 => AuthenticateData::arbitrary(&mut u).map(|m| Msg::Auth(m.into_static())),
        _ => Response::arbitrary(&mut u).map(|m| Msg::Response(m.into_static())),
    };
    let Ok(m) = m else {
        cx.label("refused");
        return Ok(());
    };
    // Referral codes hold any text and are not parsed (known finding under C01).
    #[cfg(any(feature = "f_login_referrals", feature = "f_mailbox_referrals"))]
    if matches!(code_of(&m), Some(Code::Referral(_))) {
        cx.label("referral");
        return Ok(());
    }
    let w = m.encode();
    cx.label(label(&m));
    if w.len() >= 12 {
        cx.nontrivial(&w);
    }
    cx.sample(|| esc(&w));
    super::roundtrip::check_decodes_to(&m, &w, "arbitrary")?;
    // and it is what the formal syntax says
    super::wirep::check_form(&m)
}

fn code_of(m: &Msg) -> Option<&Code<'static>> {
    match m {
        Msg::Greeting(g) => g.code.as_ref(),
        Msg::Response(Response::Status(Status::Untagged(b) | Status::Tagged(Tagged { body: b, .. }))) => b.code.as_ref(),
        Msg::Response(Response::Status(Status::Bye(b))) => b.code.as_ref(),
        Msg::Response(Response::CommandContinuationRequest(CommandContinuationRequest::Basic(b))) => b.code(),
        _ => None,
    }
}
