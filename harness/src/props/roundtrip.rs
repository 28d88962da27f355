//! C01, C02, C14: what goes through the codecs comes back.
use imap_codec::imap_types::{IntoStatic, ToStatic};
use std::hash::{DefaultHasher, Hash, Hasher};

use crate::{tape::Src, util::*, wire, Cx, Prop};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "the encoding has at least 12 bytes besides the line end; distinct by encoded bytes",
            f: c01,
        },
        Prop {
            id: "C02",
            rule: "the decoder accepted the (usually mutated or respelled) input and its re-encoding differs from the consumed bytes; distinct by input bytes",
            f: c02,
        },
        Prop {
            id: "C14",
            rule: "the decoder accepted the input, so there is a borrowed message to convert, or two messages differ in one choice; distinct by input bytes or messages",
            f: c14,
        },
    ]
}

pub fn c01(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let m = gen_msg(s);
    cx.label(label(&m));
    let enc = m.encode();
    if enc.len() >= 14 {
        cx.nontrivial(&enc);
    }
    cx.sample(|| esc(&enc));
    check_decodes_to(&m, &enc, "roundtrip")
}

/// `enc` decodes, completely, to what `m` promises.
pub fn check_decodes_to(m: &Msg, enc: &[u8], what: &str) -> Result<(), String> {
    let want = m.expected();
    match decode(m.kind(), enc) {
        Dec::Ok { consumed, msg } => {
            if consumed != enc.len() {
                return Err(format!("{what}-remainder: {} consumed of {} bytes of {}", consumed, enc.len(), esc(enc)));
            }
            let got = msg.cmp_form();
            if got != want {
                return Err(format!("{what}-differs: encoded {:?}\n as {}\n decoded to {:?}", want, esc(enc), got));
            }
            Ok(())
        }
        other => Err(format!("{what}-undecodable: {} for {} from {:?}", other.class(), esc(enc), m)),
    }
}

pub fn c02(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let (k, w) = wire::near_valid(s);
    cx.sample(|| esc(&w));
    let Dec::Ok { consumed, msg } = decode(k, &w) else {
        cx.label("not accepted");
        return Ok(());
    };
    cx.label("accepted");
    let enc = msg.encode();
    if enc != w[..consumed] {
        cx.label("respelled");
        cx.nontrivial(&w);
    }
    match decode(k, &enc) {
        Dec::Ok { consumed: c2, msg: m2 } => {
            if c2 != enc.len() {
                return Err(format!("stability-remainder: {} -> {:?} -> {}", esc(&w), msg, esc(&enc)));
            }
            if m2.cmp_form() != msg.expected() {
                return Err(format!("stability-differs: {} -> {:?} -> {} -> {:?}", esc(&w), msg, esc(&enc), m2));
            }
            let enc2 = m2.encode();
            if enc2 != enc {
                return Err(format!("stability-bytes: {} -> {} -> {}", esc(&w), esc(&enc), esc(&enc2)));
            }
        }
        o => return Err(format!("stability-undecodable: {} -> {:?} -> {} -> {}", esc(&w), msg, esc(&enc), o.class())),
    }
    Ok(())
}

fn h<T: Hash>(t: &T) -> u64 {
    let mut x = DefaultHasher::new();
    t.hash(&mut x);
    x.finish()
}

/// Two messages that differ in one choice of the generator, or not at all, are equal exactly if they look equal.
fn twins(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    cx.label("twins");
    let mut one = s.part(None);
    let a = gen_msg(&mut one);
    let mut tape = one.tape.clone();
    let at = s.idx(tape.len());
    tape[at] = match s.below(4) {
        0 => 0,
        1 => tape[at] ^ 1,
        2 => tape[at] + 1,
        _ => s.below(300),
    };
    let b = gen_msg(&mut s.part(Some(tape)));
    let (x, y) = (format!("{a:?}"), format!("{b:?}"));
    cx.sample(|| format!("{x} / {y}"));
    if x != y {
        cx.nontrivial(format!("{x} / {y}").as_bytes());
    }
    if (a == b) != (x == y) || (b == a) != (x == y) {
        return Err(format!("equality: {a:?} and {b:?} compare as {} {}", a == b, b == a));
    }
    if a == b && h(&a) != h(&b) {
        return Err(format!("equality-hash: {a:?} and {b:?}"));
    }
    if a == b && a.encode() != b.encode() {
        return Err(format!("equality-encoding: {a:?} and {b:?}"));
    }
    Ok(())
}

fn c14(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    if s.one_in(6) {
        return twins(s, cx);
    }
    use imap_codec::{decode::Decoder, encode::Encoder, *};
    let (k, w) = if s.one_in(12) { wire::announced(s) } else { wire::near_valid(s) };
    cx.sample(|| esc(&w));
    macro_rules! go {
        ($codec:expr) => {{
            let b = $codec.decode(&w);
            let st = $codec.decode_static(&w);
            match (b, st) {
                (Ok((r, m)), Ok((r2, m2))) => {
                    cx.nontrivial(&w);
                    let a = m.to_static();
                    let i = m.clone().into_static();
                    if r != r2 {
                        return Err(format!("static-remainder: {}", esc(&w)));
                    }
                    if a != m || i != m || m2 != m || m.clone() != m {
                        return Err(format!("static-unequal: {} borrowed {:?} to_static {:?} into_static {:?} decode_static {:?}", esc(&w), m, a, i, m2));
                    }
                    let hs = [h(&m), h(&a), h(&i), h(&m2)];
                    if hs.iter().any(|x| *x != hs[0]) {
                        return Err(format!("static-hash: {} {:?}", esc(&w), m));
                    }
                    let e = $codec.encode(&m).dump();
                    if $codec.encode(&a).dump() != e || $codec.encode(&i).dump() != e || $codec.encode(&m2).dump() != e {
                        return Err(format!("static-encoding: {} {:?}", esc(&w), m));
                    }
                }
                (Err(a), Err(b)) => {
                    if a != b || a.clone().into_static() != a {
                        return Err(format!("static-error: {} {:?} {:?}", esc(&w), a, b));
                    }
                }
                (a, b) => return Err(format!("static-disagree: {} decode ok={} decode_static ok={}", esc(&w), a.is_ok(), b.is_ok())),
            }
        }};
    }
    match k {
        Kind::Command => go!(CommandCodec::default()),
        Kind::Response => go!(ResponseCodec::default()),
        Kind::Greeting => go!(GreetingCodec::default()),
        Kind::Auth => go!(AuthenticateDataCodec::default()),
        Kind::Idle => go!(IdleDoneCodec::default()),
    }
    Ok(())
}
