//! C17, C20, C22: the wire form, against an independent printer of the formal syntax.
use imap_codec::imap_types::{
    auth::{AuthMechanism, AuthenticateData},
    command::{Command, CommandBody},
    response::*,
};

use crate::{
    gen,
    refp::{self, Style},
    tape::Src,
    util::*,
    Cx, Prop,
};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C17",
            rule: "a keyword was respelled or a letter of a case-sensitive part was flipped; distinct by wire bytes",
            f: c17,
        },
        Prop {
            id: "C20",
            rule: "the printed form has at least 12 bytes besides the line end; distinct by printed bytes of the random spelling",
            f: c20,
        },
        Prop {
            id: "C22",
            rule: "the line is not a plain short alphabetic one: it has at least one quantum, padding or a byte outside of the alphabet; distinct by line and place",
            f: c22,
        },
    ]
}

fn base64_inside(m: &Msg) -> bool {
    matches!(
        m,
        Msg::Auth(_)
            | Msg::Command(Command { body: CommandBody::Authenticate { .. }, .. })
            | Msg::Response(Response::CommandContinuationRequest(_))
    )
}

/// Free text and response codes: their reading depends on what they start with.
fn free_text(m: &Msg) -> bool {
    matches!(m, Msg::Greeting(_) | Msg::Response(Response::Status(_)) | Msg::Response(Response::CommandContinuationRequest(_)))
}

fn c17(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let m = gen_msg(s);
    cx.label(label(&m));
    let p = refp::print(&m, Style::Plain, true);
    let mut w = p.out.clone();
    let how = s.below(4);
    for (b, ci) in w.iter_mut().zip(&p.ci) {
        if *ci {
            *b = match how {
                0 => b.to_ascii_lowercase(),
                1 => b.to_ascii_uppercase(),
                _ => {
                    if s.bool() {
                        b.to_ascii_uppercase()
                    } else {
                        b.to_ascii_lowercase()
                    }
                }
            };
        }
    }
    if w != p.out {
        cx.nontrivial(&w);
    }
    cx.sample(|| esc(&w));
    super::roundtrip::check_decodes_to(&m, &w, "keyword-case")?;
    let Dec::Ok { msg, .. } = decode(m.kind(), &w) else { unreachable!() };
    if msg.encode() != m.expected().encode() {
        return Err(format!("keyword-case: {} encodes as {}", esc(&w), esc(&msg.encode())));
    }
    // Everything else keeps its case.
    if base64_inside(&m) {
        return Ok(());
    }
    let m = m.expected();
    let p = refp::print(&m, Style::Plain, true);
    let letters: Vec<usize> = (0..p.out.len()).filter(|i| !p.ci[*i] && p.out[*i].is_ascii_alphabetic()).collect();
    if letters.is_empty() {
        return Ok(());
    }
    let i = *s.pick(&letters);
    let mut w = p.out.clone();
    w[i] ^= 0x20;
    cx.nontrivial(&w);
    cx.label("case-sensitive letter flipped");
    match decode(m.kind(), &w) {
        Dec::Ok { consumed, msg } if consumed == w.len() => {
            if msg == m {
                return Err(format!("case-lost: {} and {} decode alike", esc(&p.out), esc(&w)));
            }
            let e = msg.encode();
            let flipped = refp::Printed { out: w.clone(), ..p.clone() };
            if !matches(&e, &flipped) {
                return Err(format!("case-lost: {} is encoded as {}", esc(&w), esc(&e)));
            }
        }
        o => return Err(format!("case-rejected: {} decodes, {} gives {}", esc(&p.out), esc(&w), o.class())),
    }
    Ok(())
}

/// Equal up to the case of keywords.
fn matches(enc: &[u8], p: &refp::Printed) -> bool {
    enc.len() == p.out.len()
        && enc.iter().zip(&p.out).zip(&p.ci).all(|((a, b), ci)| if *ci { a.eq_ignore_ascii_case(b) } else { a == b })
}

/// The encoding is what the formal syntax prescribes.
pub fn check_form(m: &Msg) -> Result<(), String> {
    let plain = refp::print(&m.expected(), Style::Plain, true);
    let enc = m.encode();
    if !matches(&enc, &plain) {
        return Err(format!("encoder: {} where the formal syntax has {}", esc(&enc), esc(&plain.out)));
    }
    Ok(())
}

pub fn c20(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let m = gen_msg(s);
    cx.label(label(&m));
    check_form(&m)?;
    let plain = refp::print(&m.expected(), Style::Plain, true);
    let p = refp::print(&m, Style::Rand(s), true);
    if p.out.len() >= 14 {
        cx.nontrivial(&p.out);
    }
    if p.out != plain.out {
        cx.label("other spelling");
    }
    cx.sample(|| esc(&p.out));
    super::roundtrip::check_decodes_to(&m, &p.out, "decoder")?;
    let Dec::Ok { msg, .. } = decode(m.kind(), &p.out) else { unreachable!() };
    if !matches(&msg.encode(), &plain) {
        return Err(format!("decoder: {} is encoded as {} instead of {}", esc(&p.out), esc(&msg.encode()), esc(&plain.out)));
    }
    Ok(())
}

/// RFC 4648, canonical encoding only.
pub fn unb64(x: &[u8]) -> Option<Vec<u8>> {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    if x.len() % 4 != 0 {
        return None;
    }
    let mut o = vec![];
    let pad = x.iter().rev().take_while(|b| **b == b'=').count();
    if pad > 2 {
        return None;
    }
    let mut acc = 0u32;
    let mut bits = 0;
    for b in &x[..x.len() - pad] {
        let v = T.iter().position(|t| t == b)? as u32;
        acc = (acc << 6) | v;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            o.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    (acc == 0).then_some(o)
}

fn c22(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let d = {
        let n = s.below(24) as usize;
        let n = if s.one_in(30) { s.range(24, 9000) as usize } else { n };
        let mut v: Vec<u8> = (0..n).map(|_| s.byte()).collect();
        if s.one_in(4) {
            v.fill(*s.pick(&[0u8, 0xff, b'a', 0x3e, 0x3f, 0xfb]));
        }
        v
    };
    let mut line = refp::b64(&d).into_bytes();
    for _ in 0..*s.pick(&[0u64, 0, 1, 1, 2]) {
        let b = *s.pick(b"=AZaz09+/-_.*, Bx\x80\t{}[\0");
        let i = match s.below(3) {
            0 => line.len(),
            1 => line.len().saturating_sub(1),
            _ => s.idx(line.len() + 1),
        };
        match s.below(4) {
            0 if i < line.len() => {
                line.remove(i);
            }
            1 if i < line.len() => line[i] = b,
            2 => {
                if let Some(x) = line.last_mut() {
                    *x = b;
                }
            }
            _ => line.insert(i.min(line.len()), b),
        }
    }
    let want = unb64(&line);
    if line.len() >= 4 || want.is_none() {
        cx.nontrivial(&line);
    }
    cx.label(if want.is_some() { "canonical base64" } else { "something else" });
    cx.sample(|| esc(&line));
    let crlf = |p: &str| {
        let mut v = p.as_bytes().to_vec();
        v.extend_from_slice(&line);
        v.extend_from_slice(b"\r\n");
        v
    };
    // authenticate data
    let w = crlf("");
    match (decode(Kind::Auth, &w), &want) {
        (Dec::Ok { consumed, msg: Msg::Auth(AuthenticateData::Continue(x)) }, Some(y)) if consumed == w.len() && x.declassify()[..] == y[..] => {}
        (Dec::Ok { consumed: 3, msg: Msg::Auth(AuthenticateData::Cancel) }, None) if line == b"*" => {}
        (Dec::Failed, None) if line != b"*" => {}
        (o, _) => return Err(format!("data: {} gives {o:?}, not {want:?}", esc(&w))),
    }
    // initial response
    let w = crlf("A AUTHENTICATE PLAIN ");
    let ir = if line == b"=" { Some(vec![]) } else { want.clone().filter(|x| !x.is_empty()) };
    match (decode(Kind::Command, &w), &ir) {
        (
            Dec::Ok {
                consumed,
                msg: Msg::Command(Command { body: CommandBody::Authenticate { mechanism: AuthMechanism::Plain, initial_response: Some(x) }, .. }),
            },
            Some(y),
        ) if consumed == w.len() && x.declassify()[..] == y[..] => {}
        (Dec::Failed, None) => {}
        // the empty string: neither form is asked for
        (_, None) if line.is_empty() => {}
        (o, _) => return Err(format!("initial-response: {} gives {o:?}, not {ir:?}", esc(&w))),
    }
    // continuation request
    let w = crlf("+ ");
    let got = decode(Kind::Response, &w);
    match (&got, &want) {
        (Dec::Ok { consumed, msg: Msg::Response(Response::CommandContinuationRequest(CommandContinuationRequest::Base64(x))) }, Some(y))
            if *consumed == w.len() && x[..] == y[..] => {}
        (Dec::Ok { msg: Msg::Response(Response::CommandContinuationRequest(CommandContinuationRequest::Basic(b))), .. }, None)
            if b.code().is_some() || b.text().inner().as_bytes() == line => {}
        (Dec::Failed, None) => {
            if gen::is_text_char(*line.first().unwrap_or(&0)) && line.iter().all(|b| gen::is_text_char(*b)) && line[0] != b'[' {
                return Err(format!("continuation: {} is text, but rejected", esc(&w)));
            }
        }
        (_, Some(y)) if y.is_empty() => {}
        (o, _) => return Err(format!("continuation: {} gives {o:?}, not {want:?}", esc(&w))),
    }
    // and the encoders
    for (m, e) in [
        (Msg::Auth(AuthenticateData::r#continue(d.clone())), format!("{}\r\n", refp::b64(&d))),
        (
            Msg::Command(CommandBody::authenticate_with_ir(AuthMechanism::XOAuth2, d.clone()).tag("t").unwrap()),
            format!("t AUTHENTICATE XOAUTH2 {}\r\n", if d.is_empty() { "=".into() } else { refp::b64(&d) }),
        ),
        (
            Msg::Response(Response::CommandContinuationRequest(CommandContinuationRequest::base64(d.clone()))),
            format!("+ {}\r\n", refp::b64(&d)),
        ),
    ] {
        if m.encode() != e.as_bytes() {
            return Err(format!("encode: {} instead of {e:?}", esc(&m.encode())));
        }
    }
    let _ = free_text;
    Ok(())
}
