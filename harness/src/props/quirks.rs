//! C19, C24: the optional behaviour: quirks and extensions.
use std::num::NonZeroU32;

use imap_codec::imap_types::{
    body::*,
    core::*,
    extensions::quota::QuotaGet,
    fetch::MessageDataItem,
    response::*,
};

use crate::{
    gen,
    refp::{self, Style},
    tape::Src,
    util::*,
    Cx, Prop,
};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C19",
            rule: "every case: a valid message with one documented deviation; distinct by wire bytes",
            f: c19,
        },
        Prop {
            id: "C24",
            rule: "every case: a message round trip, prefix, stability or formal-syntax case under this feature configuration, or a disabled extension; distinct by wire bytes",
            f: c24,
        },
    ]
}

const RELAXED: bool = cfg!(feature = "relaxed");

const MARK: &str = "zzPLACEzz";

fn plain(m: &Msg) -> Vec<u8> {
    refp::print(m, Style::Plain, true).out
}

/// Replace the only occurrence of `from`; None if it occurs another number of times.
fn replace(w: &[u8], from: &[u8], to: &[u8]) -> Option<Vec<u8>> {
    let at: Vec<usize> = w.windows(from.len()).enumerate().filter(|(_, x)| *x == from).map(|x| x.0).collect();
    let [i] = at[..] else { return None };
    Some([&w[..i], to, &w[i + from.len()..]].concat())
}

fn data(d: Data<'static>) -> Msg {
    Msg::Response(Response::Data(d))
}

fn with_text(s: &mut Src, code: Option<Code<'static>>, text: &str) -> Msg {
    let text = Text::try_from(text.to_string()).unwrap();
    match s.below(5) {
        0 => Msg::Greeting(Greeting {
            kind: s.pick(&[GreetingKind::Ok, GreetingKind::PreAuth, GreetingKind::Bye]).clone(),
            code,
            text,
        }),
        1 => {
            let body = StatusBody { kind: s.pick(&[StatusKind::Ok, StatusKind::No, StatusKind::Bad]).clone(), code, text };
            Msg::Response(Response::Status(Status::Tagged(Tagged { tag: gen::tag(s), body })))
        }
        2 => {
            let body = StatusBody { kind: s.pick(&[StatusKind::Ok, StatusKind::No, StatusKind::Bad]).clone(), code, text };
            Msg::Response(Response::Status(Status::Untagged(body)))
        }
        3 => Msg::Response(Response::Status(Status::Bye(Bye { code, text }))),
        _ => Msg::Response(Response::CommandContinuationRequest(CommandContinuationRequest::basic(code, text).unwrap())),
    }
}

/// A deviation: its name, whether this configuration accepts it, the wire form and the meaning.
type Deviation = (&'static str, bool, Vec<u8>, Msg);

fn deviation(s: &mut Src) -> Option<Deviation> {
    let spaces = |s: &mut Src| " ".repeat(s.range(2, 5) as usize);
    Some(match s.below(12) {
        0 => {
            // status text missing behind a code
            let code = gen::code(s);
            // the same draws, for both texts
            let k = s.u64_full();
            let m = with_text(&mut Src::random(k), Some(code.clone()), MARK);
            let want = with_text(&mut Src::random(k), Some(code), "...");
            let w = replace(&plain(&m), format!(" {MARK}").as_bytes(), b"")?;
            ("missing text", cfg!(feature = "q_missing_text"), w, want)
        }
        1 => {
            // negative body size
            let mut b = gen::body_structure(s, 0);
            let mk = |b: &mut BodyStructure<'static>, n: u32| {
                if let BodyStructure::Single { body, .. } = b {
                    body.basic.size = n;
                }
            };
            let n = 3_735_928_559u32;
            mk(&mut b, n);
            let body = s.bool();
            let seq = gen::nz32(s);
            let msg = |b: BodyStructure<'static>| {
                data(Data::Fetch { seq, items: Vec1::from(if body { MessageDataItem::Body(b) } else { MessageDataItem::BodyStructure(b) }) })
            };
            let m = msg(b.clone());
            mk(&mut b, 0);
            let neg = format!("-{}", gen::u32_edge(s));
            ("negative size", cfg!(feature = "q_rectify_numbers"), replace(&plain(&m), n.to_string().as_bytes(), neg.as_bytes())?, msg(b))
        }
        2 => {
            let root = gen::astring(s);
            let quotas = gen::vec1(s, |s| QuotaGet { resource: gen::resource(s), usage: gen::u64_edge(s), limit: gen::u64_edge(s) });
            let m = data(Data::Quota { root: root.clone(), quotas: quotas.clone() });
            // print anew, with more spaces around the usage
            let q: Vec<String> =
                quotas.as_ref().iter().map(|q| format!("{}{}{}{}{}", q.resource, spaces(s), q.usage, if s.bool() { " ".into() } else { spaces(s) }, q.limit)).collect();
            let tmpl = plain(&data(Data::Quota {
                root,
                quotas: Vec1::from(QuotaGet { resource: Atom::try_from(MARK).unwrap().into(), usage: 0, limit: 0 }),
            }));
            ("space in quota resource", cfg!(feature = "q_space_quota"), replace(&tmpl, format!("{MARK} 0 0").as_bytes(), q.join(" ").as_bytes())?, m)
        }
        3 => {
            let mut e = gen::envelope(s);
            // two addresses whose border is recognisable
            let x = |n: &str| NString::try_from(n.to_string()).unwrap();
            let mut l = s.vec(0, gen::address);
            let mut a = gen::address(s);
            a.host = x("zzPL");
            let mut b = gen::address(s);
            b.name = x("ACEzz");
            l.push(a);
            l.push(b);
            l.extend(s.vec(0, gen::address));
            *[&mut e.from, &mut e.sender, &mut e.reply_to, &mut e.to, &mut e.cc, &mut e.bcc][s.idx(6)] = l;
            let m = data(Data::Fetch { seq: NonZeroU32::MIN, items: Vec1::from(MessageDataItem::Envelope(e)) });
            let sp = " ".repeat(s.range(1, 3) as usize);
            ("space between addresses", cfg!(feature = "q_space_addresses"), replace(&plain(&m), b"\"zzPL\")(\"ACEzz\"", format!("\"zzPL\"){sp}(\"ACEzz\"").as_bytes())?, m)
        }
        4 => {
            let m = data(Data::Status { mailbox: gen::mailbox(s), items: s.vec(0, gen::status_item).into() });
            ("space behind STATUS", cfg!(feature = "q_space_status"), trailing(&plain(&m)), m)
        }
        5 => {
            let m = data(Data::Capability(gen::vec1(s, gen::capability)));
            ("space behind CAPABILITY", cfg!(feature = "q_space_capability"), trailing(&plain(&m)), m)
        }
        6 => {
            // in a code: without the quirk, the code is an unknown one
            let k = s.u64_full();
            let caps = gen::vec1(s, gen::capability);
            let list = caps.as_ref().iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" ");
            if list.contains(']') {
                return None;
            }
            let code = if cfg!(feature = "q_space_capability") { Code::Capability(caps.clone()) } else { Code::Other(CodeOther::unvalidated(format!("CAPABILITY {list} ").into_bytes())) };
            let want = with_text(&mut Src::random(k), Some(code), MARK);
            let w = plain(&with_text(&mut Src::random(k), Some(Code::Capability(caps)), MARK));
            ("space behind CAPABILITY in a code", true, replace(&w, format!("] {MARK}").as_bytes(), format!(" ] {MARK}").as_bytes())?, want)
        }
        #[cfg(feature = "f_id")]
        7 => {
            let mut p = s.vec(0, |s| (gen::istring(s), gen::nstring(s)));
            p.push((IString::try_from("x").unwrap(), NString::try_from(MARK).unwrap()));
            let m = data(Data::Id { parameters: Some(p) });
            ("space in ID", cfg!(feature = "q_space_id"), replace(&plain(&m), format!("\"{MARK}\")").as_bytes(), format!("\"{MARK}\" )").as_bytes())?, m)
        }
        8 => {
            let v = s.vec(0, gen::nz32);
            #[cfg(feature = "f_condstore")]
            let m = data(Data::Search(v, None));
            #[cfg(not(feature = "f_condstore"))]
            let m = data(Data::Search(v));
            ("space behind SEARCH", cfg!(feature = "q_space_search"), trailing(&plain(&m)), m)
        }
        9 => {
            let m = Msg::Response(Response::CommandContinuationRequest(CommandContinuationRequest::basic(None, "...").unwrap()));
            ("empty continuation", cfg!(feature = "q_empty_continue"), b"+\r\n".to_vec(), m)
        }
        10 => {
            let mut b = gen::body_structure(s, 0);
            let mk = |b: &mut BodyStructure<'static>, n: &str| {
                if let BodyStructure::Single { body, .. } = b {
                    body.basic.content_transfer_encoding = IString::try_from(n.to_string()).unwrap();
                }
            };
            mk(&mut b, MARK);
            let msg = |b: BodyStructure<'static>| data(Data::Fetch { seq: NonZeroU32::MIN, items: Vec1::from(MessageDataItem::BodyStructure(b)) });
            let m = msg(b.clone());
            mk(&mut b, "");
            let nil = *s.pick(&["NIL", "nil", "NiL"]);
            ("NIL encoding", cfg!(feature = "q_body_enc"), replace(&plain(&m), format!("\"{MARK}\"").as_bytes(), nil.as_bytes())?, msg(b))
        }
        _ => {
            // LF instead of CRLF, at any line end
            let m = gen_msg(s);
            let p = refp::print(&m, Style::Plain, true);
            let mut ends: Vec<usize> = p.lits.iter().map(|l| l.start - 2).collect();
            ends.push(p.out.len() - 2);
            let all = s.bool();
            let keep = s.idx(ends.len());
            let mut w = p.out.clone();
            for (i, e) in ends.iter().enumerate().rev() {
                if all || i == keep {
                    w.remove(*e);
                }
            }
            ("bare line feed", RELAXED, w, m)
        }
    })
}

/// A space before the final line end.
fn trailing(w: &[u8]) -> Vec<u8> {
    let mut v = w.to_vec();
    v.insert(w.len() - 2, b' ');
    v
}

fn c19(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let Some((name, accepted, w, want)) = deviation(s) else {
        return Ok(());
    };
    cx.label(name);
    cx.nontrivial(&w);
    cx.sample(|| format!("{name}: {}", esc(&w)));
    if accepted {
        super::roundtrip::check_decodes_to(&want, &w, name)?;
        // and the encoder does not repeat the deviation
        let Dec::Ok { msg, .. } = decode(want.kind(), &w) else { unreachable!() };
        let e = msg.encode();
        let p = plain(&want.expected());
        if !e.eq_ignore_ascii_case(&p) {
            return Err(format!("{name}: {} is encoded as {} instead of {}", esc(&w), esc(&e), esc(&p)));
        }
        // in pieces, it is still incomplete
        let c = s.idx(w.len());
        match decode(want.kind(), &w[..c]) {
            Dec::Incomplete | Dec::Literal { .. } => {}
            o => return Err(format!("{name}: {} gives {} after {c} bytes", esc(&w), o.class())),
        }
    } else {
        match decode(want.kind(), &w) {
            Dec::Failed => {}
            // a line that has not ended for a strict decoder
            Dec::Incomplete if name == "bare line feed" => {}
            o => return Err(format!("{name}-accepted: {} gives {o:?} without the quirk", esc(&w))),
        }
    }
    Ok(())
}

fn c24(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    match s.below(7) {
        0 => super::roundtrip::c01(s, cx),
        1 => super::roundtrip::c02(s, cx),
        2 => super::stream::c04(s, cx),
        3 => super::stream::c05(s, cx),
        4..=5 => super::wirep::c20(s, cx),
        _ => disabled(s, cx),
    }
}

const STARTTLS: bool = cfg!(feature = "f_starttls");
const CONDSTORE: bool = cfg!(feature = "f_condstore");
const ID: bool = cfg!(feature = "f_id");
const LOGIN_REF: bool = cfg!(feature = "f_login_referrals");
const MAILBOX_REF: bool = cfg!(feature = "f_mailbox_referrals");
const METADATA: bool = cfg!(feature = "f_metadata");
const NAMESPACE: bool = cfg!(feature = "f_namespace");
const UTF8: bool = cfg!(feature = "f_utf8");

/// What only an extension allows.
const REJECTED: &[(bool, Kind, &str)] = &[
    (STARTTLS, Kind::Command, "A STARTTLS\r\n"),
    (ID, Kind::Command, "A ID NIL\r\n"),
    (ID, Kind::Command, "A ID (\"a\" \"b\")\r\n"),
    (ID, Kind::Response, "* ID NIL\r\n"),
    (ID, Kind::Response, "* ID (\"a\" NIL)\r\n"),
    (NAMESPACE, Kind::Command, "A NAMESPACE\r\n"),
    (NAMESPACE, Kind::Response, "* NAMESPACE NIL NIL NIL\r\n"),
    (NAMESPACE, Kind::Response, "* NAMESPACE ((\"\" \"/\")) NIL NIL\r\n"),
    (METADATA, Kind::Command, "A SETMETADATA INBOX (/private/comment NIL)\r\n"),
    (METADATA, Kind::Command, "A GETMETADATA INBOX /shared/comment\r\n"),
    (METADATA, Kind::Command, "A GETMETADATA (DEPTH 1) \"\" (/shared/comment)\r\n"),
    (METADATA, Kind::Response, "* METADATA INBOX /shared/comment\r\n"),
    (METADATA, Kind::Response, "* METADATA \"\" (/shared/comment \"x\")\r\n"),
    (CONDSTORE, Kind::Command, "A SELECT INBOX (CONDSTORE)\r\n"),
    (CONDSTORE, Kind::Command, "A EXAMINE INBOX (CONDSTORE)\r\n"),
    (CONDSTORE, Kind::Command, "A SELECT INBOX (QRESYNC (1 1))\r\n"),
    (CONDSTORE, Kind::Command, "A FETCH 1 (FLAGS) (CHANGEDSINCE 1)\r\n"),
    (CONDSTORE, Kind::Command, "A UID FETCH 1 (FLAGS) (CHANGEDSINCE 1 VANISHED)\r\n"),
    (CONDSTORE, Kind::Command, "A FETCH 1 MODSEQ\r\n"),
    (CONDSTORE, Kind::Command, "A FETCH 1 (UID MODSEQ)\r\n"),
    (CONDSTORE, Kind::Command, "A STORE 1 (UNCHANGEDSINCE 1) FLAGS ()\r\n"),
    (CONDSTORE, Kind::Command, "A SEARCH MODSEQ 1\r\n"),
    (CONDSTORE, Kind::Command, "A SEARCH MODSEQ \"/flags/\\\\seen\" all 1\r\n"),
    (CONDSTORE, Kind::Command, "A STATUS INBOX (HIGHESTMODSEQ)\r\n"),
    (CONDSTORE, Kind::Response, "* VANISHED 1\r\n"),
    (CONDSTORE, Kind::Response, "* VANISHED (EARLIER) 1:2\r\n"),
    (CONDSTORE, Kind::Response, "* SEARCH 1 (MODSEQ 1)\r\n"),
    (CONDSTORE, Kind::Response, "* SORT 1 (MODSEQ 1)\r\n"),
    (CONDSTORE, Kind::Response, "* 1 FETCH (MODSEQ (1))\r\n"),
    (CONDSTORE, Kind::Response, "* STATUS INBOX (HIGHESTMODSEQ 1)\r\n"),
    (UTF8, Kind::Command, "A LOGIN \"\u{e4}\" x\r\n"),
    (UTF8, Kind::Command, "A SELECT \"\u{20ac}\"\r\n"),
    (UTF8, Kind::Response, "* LIST () NIL \"\u{e4}\"\r\n"),
];

/// Codes that only an extension knows.
const UNKNOWN: &[(bool, &str)] = &[
    (CONDSTORE, "HIGHESTMODSEQ 1"),
    (CONDSTORE, "NOMODSEQ"),
    (CONDSTORE, "MODIFIED 1"),
    (CONDSTORE, "CLOSED"),
    (METADATA, "METADATA MAXSIZE 1"),
    (METADATA, "METADATA TOOMANY"),
    (LOGIN_REF || MAILBOX_REF, "REFERRAL imap://x/"),
];

/// Capabilities that only an extension knows, and whether they can be enabled.
const UNKNOWN_CAPS: &[(bool, &str, bool)] = &[
    (STARTTLS, "STARTTLS", false),
    (ID, "ID", false),
    (LOGIN_REF, "LOGIN-REFERRALS", false),
    (MAILBOX_REF, "MAILBOX-REFERRALS", false),
    (METADATA, "METADATA", true),
    (METADATA, "METADATA-SERVER", true),
    (CONDSTORE, "CONDSTORE", true),
    (CONDSTORE, "QRESYNC", false),
    (NAMESPACE, "NAMESPACE", false),
    (UTF8, "UTF8=ACCEPT", true),
    (UTF8, "UTF8=ONLY", true),
];

/// Without the extension features, their syntax is unknown: commands and data are rejected, capabilities and
/// codes are kept as unknown ones. With them, it is known.
fn disabled(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    match s.below(3) {
        0 => {
            let (on, k, w) = *s.pick(REJECTED);
            cx.label(if on { "enabled extension" } else { "disabled extension" });
            cx.nontrivial(w.as_bytes());
            cx.sample(|| w.to_string());
            match decode(k, w.as_bytes()) {
                Dec::Failed if !on => {}
                Dec::Ok { .. } if on => {}
                o => return Err(format!("extension: {w:?} gives {o:?}, the extension being {}", if on { "on" } else { "off" })),
            }
        }
        1 => {
            let (on, c) = *s.pick(UNKNOWN);
            let w = format!("* OK [{c}] x\r\n");
            cx.label(if on { "enabled code" } else { "disabled code" });
            cx.nontrivial(w.as_bytes());
            cx.sample(|| w.to_string());
            let Dec::Ok { msg, .. } = decode(Kind::Response, w.as_bytes()) else {
                return Err(format!("code: {w:?} is rejected"));
            };
            let unknown = format!("{msg:?}").contains("Other(");
            // The referral code is never known (known finding of C01).
            if msg.encode() != w.as_bytes() || (unknown == on && !c.starts_with("REFERRAL")) {
                return Err(format!("code: {w:?} gives {msg:?}, the extension being {}", if on { "on" } else { "off" }));
            }
        }
        _ => {
            let (on, c, enable) = *s.pick(UNKNOWN_CAPS);
            let (k, w) = if enable && s.bool() {
                (Kind::Command, format!("A ENABLE {c}\r\n"))
            } else {
                (Kind::Response, format!("* CAPABILITY IMAP4REV1 {c}\r\n"))
            };
            cx.label(if on { "enabled capability" } else { "disabled capability" });
            cx.nontrivial(w.as_bytes());
            cx.sample(|| w.to_string());
            let Dec::Ok { msg, .. } = decode(k, w.as_bytes()) else {
                return Err(format!("capability: {w:?} is rejected"));
            };
            if msg.encode() != w.as_bytes() || format!("{msg:?}").contains("Other(") == on {
                return Err(format!("capability: {w:?} gives {msg:?}, the extension being {}", if on { "on" } else { "off" }));
            }
        }
    }
    Ok(())
}
