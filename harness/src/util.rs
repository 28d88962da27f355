//! Uniform access to the five codecs, and canonicalisation of sequence sets.
use std::num::NonZeroU32;

use imap_codec::{
    decode::*,
    encode::{Encoded, Encoder, Fragment},
    imap_types::{
        auth::AuthenticateData,
        command::{Command, CommandBody},
        core::{LiteralMode, Tag, Vec1},
        extensions::idle::IdleDone,
        flag::Flag,
        response::*,
        search::SearchKey,
        sequence::{SeqOrUid, Sequence, SequenceSet},
    },
    AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec,
};
#[cfg(feature = "f_condstore")]
use imap_codec::imap_types::command::SelectParameter;

use crate::{gen, tape::Src};

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
#[allow(clippy::large_enum_variant)]
pub enum Msg {
    Greeting(Greeting<'static>),
    Command(Command<'static>),
    Response(Response<'static>),
    Auth(AuthenticateData<'static>),
    Idle,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Command,
    Response,
    Greeting,
    Auth,
    Idle,
}

pub const KINDS: &[Kind] = &[Kind::Command, Kind::Response, Kind::Greeting, Kind::Auth, Kind::Idle];

#[derive(Debug, Clone, PartialEq, Eq)]
#[allow(clippy::large_enum_variant)]
pub enum Dec {
    Ok { consumed: usize, msg: Msg },
    Incomplete,
    Literal { tag: Option<String>, length: u32, mode: Option<LiteralMode> },
    Failed,
}

impl Dec {
    pub fn is_ok(&self) -> bool {
        matches!(self, Dec::Ok { .. })
    }
    pub fn class(&self) -> &'static str {
        match self {
            Dec::Ok { .. } => "ok",
            Dec::Incomplete => "incomplete",
            Dec::Literal { .. } => "literal",
            Dec::Failed => "failed",
        }
    }
}

/// `remaining` must be a suffix of `input`, in memory.
fn consumed(input: &[u8], rem: &[u8]) -> usize {
    assert!(rem.len() <= input.len(), "remainder longer than the input");
    let off = input.len() - rem.len();
    assert!(std::ptr::eq(rem.as_ptr(), input[off..].as_ptr()) || rem.is_empty(), "remainder is not a suffix of the input");
    off
}

pub fn decode(k: Kind, input: &[u8]) -> Dec {
    use imap_codec::imap_types::IntoStatic;
    match k {
        Kind::Greeting => match GreetingCodec::default().decode(input) {
            Ok((r, m)) => Dec::Ok { consumed: consumed(input, r), msg: Msg::Greeting(m.into_static()) },
            Err(GreetingDecodeError::Incomplete) => Dec::Incomplete,
            Err(GreetingDecodeError::Failed) => Dec::Failed,
        },
        Kind::Command => match CommandCodec::default().decode(input) {
            Ok((r, m)) => Dec::Ok { consumed: consumed(input, r), msg: Msg::Command(m.into_static()) },
            Err(CommandDecodeError::Incomplete) => Dec::Incomplete,
            Err(CommandDecodeError::LiteralFound { tag, length, mode }) => {
                Dec::Literal { tag: Some(tag.inner().to_string()), length, mode: Some(mode) }
            }
            Err(CommandDecodeError::Failed) => Dec::Failed,
        },
        Kind::Response => match ResponseCodec::default().decode(input) {
            Ok((r, m)) => Dec::Ok { consumed: consumed(input, r), msg: Msg::Response(m.into_static()) },
            Err(ResponseDecodeError::Incomplete) => Dec::Incomplete,
            Err(ResponseDecodeError::LiteralFound { length }) => Dec::Literal { tag: None, length, mode: None },
            Err(ResponseDecodeError::Failed) => Dec::Failed,
        },
        Kind::Auth => match AuthenticateDataCodec::default().decode(input) {
            Ok((r, m)) => Dec::Ok { consumed: consumed(input, r), msg: Msg::Auth(m.into_static()) },
            Err(AuthenticateDataDecodeError::Incomplete) => Dec::Incomplete,
            Err(AuthenticateDataDecodeError::Failed) => Dec::Failed,
        },
        Kind::Idle => match IdleDoneCodec::default().decode(input) {
            Ok((r, IdleDone)) => Dec::Ok { consumed: consumed(input, r), msg: Msg::Idle },
            Err(IdleDoneDecodeError::Incomplete) => Dec::Incomplete,
            Err(IdleDoneDecodeError::Failed) => Dec::Failed,
        },
    }
}

/// Only run the decoder (no owned conversion): for resource measurements.
pub fn decode_only(k: Kind, input: &[u8]) -> bool {
    match k {
        Kind::Greeting => GreetingCodec::default().decode(input).is_ok(),
        Kind::Command => CommandCodec::default().decode(input).is_ok(),
        Kind::Response => ResponseCodec::default().decode(input).is_ok(),
        Kind::Auth => AuthenticateDataCodec::default().decode(input).is_ok(),
        Kind::Idle => IdleDoneCodec::default().decode(input).is_ok(),
    }
}

impl Msg {
    pub fn kind(&self) -> Kind {
        match self {
            Msg::Greeting(_) => Kind::Greeting,
            Msg::Command(_) => Kind::Command,
            Msg::Response(_) => Kind::Response,
            Msg::Auth(_) => Kind::Auth,
            Msg::Idle => Kind::Idle,
        }
    }

    pub fn encoded(&self) -> Encoded {
        match self {
            Msg::Greeting(m) => GreetingCodec::default().encode(m),
            Msg::Command(m) => CommandCodec::default().encode(m),
            Msg::Response(m) => ResponseCodec::default().encode(m),
            Msg::Auth(m) => AuthenticateDataCodec::default().encode(m),
            Msg::Idle => IdleDoneCodec::default().encode(&IdleDone),
        }
    }

    pub fn fragments(&self) -> Vec<Fragment> {
        self.encoded().collect()
    }

    pub fn encode(&self) -> Vec<u8> {
        self.encoded().dump()
    }

    /// Replace every sequence set by its canonical form.
    pub fn canon(&self) -> Msg {
        let mut m = self.clone();
        match &mut m {
            Msg::Command(c) => body_sets(&mut c.body),
            #[cfg(feature = "f_condstore")]
            Msg::Response(Response::Data(Data::Vanished { known_uids, .. })) => set1(known_uids),
            _ => {}
        }
        m.map_code(|c| {
            #[cfg(feature = "f_condstore")]
            if let Code::Modified(s) = c {
                set1(s);
            }
            let _ = c;
        })
    }

    fn map_code(mut self, f: impl FnOnce(&mut Code<'static>)) -> Msg {
        match &mut self {
            Msg::Greeting(g) => g.code.as_mut().map(f),
            Msg::Response(Response::Status(Status::Untagged(b))) => b.code.as_mut().map(f),
            Msg::Response(Response::Status(Status::Tagged(t))) => t.body.code.as_mut().map(f),
            Msg::Response(Response::Status(Status::Bye(b))) => b.code.as_mut().map(f),
            Msg::Response(Response::CommandContinuationRequest(c)) => {
                if let CommandContinuationRequest::Basic(b) = c {
                    if let Some(code) = b.code() {
                        let mut code = code.clone();
                        f(&mut code);
                        *c = CommandContinuationRequest::basic(Some(code), b.text().clone()).expect("still valid");
                    }
                }
                None
            }
            _ => None,
        };
        self
    }

    /// Messages are compared in this form: sequence sets in canonical form where the encoder
    /// normalizes them (quirk_always_normalize_sequence_sets), and Code::Referral (which the decoder of the
    /// "Unfinished" referral extensions yields as Code::Other, a known finding) as Code::Other.
    pub fn cmp_form(&self) -> Msg {
        let m = if cfg!(feature = "q_normalize") { self.canon() } else { self.clone() };
        #[cfg(any(feature = "f_login_referrals", feature = "f_mailbox_referrals"))]
        let m = m.map_code(|c| {
            if let Code::Referral(u) = c {
                *c = Code::Other(CodeOther::unvalidated(format!("REFERRAL {u}").into_bytes()));
            }
        });
        m
    }

    /// What decoding the encoding must give back (up to `cmp_form`).
    pub fn expected(&self) -> Msg {
        let m = self.cmp_form();
        #[cfg(all(feature = "idnil", feature = "f_id"))]
        let m = idnil(m);
        m
    }
}

/// With quirk_id_empty_to_nil, the encoder prints `ID NIL` for an empty list.
#[cfg(all(feature = "idnil", feature = "f_id"))]
fn idnil(mut m: Msg) -> Msg {
    let p = match &mut m {
        Msg::Command(Command { body: CommandBody::Id { parameters }, .. }) => parameters,
        Msg::Response(Response::Data(Data::Id { parameters })) => parameters,
        _ => return m,
    };
    if p.as_ref().is_some_and(|p| p.is_empty()) {
        *p = None;
    }
    m
}

fn set1(s: &mut SequenceSet) {
    *s = canon_set(s);
}

fn key_sets(k: &mut SearchKey<'static>) {
    match k {
        SearchKey::And(v) => keys_sets(v),
        SearchKey::Not(k) => key_sets(k),
        SearchKey::Or(a, b) => {
            key_sets(a);
            key_sets(b);
        }
        SearchKey::SequenceSet(s) | SearchKey::Uid(s) => set1(s),
        _ => {}
    }
}

fn keys_sets(v: &mut Vec1<SearchKey<'static>>) {
    let mut x = v.clone().into_inner();
    x.iter_mut().for_each(key_sets);
    *v = Vec1::try_from(x).unwrap();
}

#[cfg(feature = "f_condstore")]
fn param_sets(v: &mut [SelectParameter]) {
    for p in v {
        if let SelectParameter::QResync { known_uids, seq_match_data, .. } = p {
            if let Some(s) = known_uids {
                set1(s);
            }
            if let Some((a, b)) = seq_match_data {
                set1(a);
                set1(b);
            }
        }
    }
}

fn body_sets(b: &mut CommandBody<'static>) {
    use CommandBody::*;
    match b {
        #[cfg(feature = "f_condstore")]
        Select { parameters, .. } | Examine { parameters, .. } => param_sets(parameters),
        ExpungeUid { sequence_set }
        | Fetch { sequence_set, .. }
        | Store { sequence_set, .. }
        | Copy { sequence_set, .. }
        | Move { sequence_set, .. } => set1(sequence_set),
        Search { criteria, .. } => keys_sets(criteria),
        Sort { search_criteria, .. } | Thread { search_criteria, .. } => keys_sets(search_criteria),
        _ => {}
    }
}

// ----- sequence set semantics ---------------------------------------------------------------------

/// What a set denotes: the finite part as sorted disjoint non-adjacent closed intervals, and whether it
/// contains "*". "*" is the largest number in the mailbox, so `a:*` is everything from a on.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Denot {
    pub ivs: Vec<(u64, u64)>,
    pub star: bool,
}

pub fn denot(s: &SequenceSet) -> Denot {
    const TOP: u64 = u32::MAX as u64;
    let mut star = false;
    let mut v = |x: &SeqOrUid| match x {
        SeqOrUid::Value(v) => u64::from(v.get()),
        SeqOrUid::Asterisk => {
            star = true;
            // no number is above the largest one
            TOP
        }
    };
    let mut ivs: Vec<(u64, u64)> = s
        .0
        .as_ref()
        .iter()
        .map(|q| match q {
            Sequence::Single(a) => (v(a), v(a)),
            Sequence::Range(a, b) => (v(a).min(v(b)), v(a).max(v(b))),
        })
        .collect();
    ivs.sort();
    let mut out: Vec<(u64, u64)> = vec![];
    for (a, b) in ivs {
        match out.last_mut() {
            Some(l) if a <= l.1 + 1 => l.1 = l.1.max(b),
            _ => out.push((a, b)),
        }
    }
    Denot { ivs: out, star }
}

impl Denot {
    /// Members that exist in a mailbox whose largest number is `l` are the intersection with 1..=l, plus
    /// `l` itself when "*" is in the set.
    pub fn contains(&self, x: u64, l: u64) -> bool {
        x >= 1 && x <= l && (self.ivs.iter().any(|(a, b)| *a <= x && x <= *b) || (self.star && x == l))
    }
}

/// The canonical form: ascending, disjoint, non-adjacent; singles for one-element ranges.
pub fn canon_set(s: &SequenceSet) -> SequenceSet {
    let d = denot(s);
    let top = u64::from(u32::MAX);
    let mk = |x: u64| {
        if d.star && x == top {
            SeqOrUid::Asterisk
        } else {
            SeqOrUid::Value(NonZeroU32::new(x as u32).unwrap())
        }
    };
    let v: Vec<Sequence> = d
        .ivs
        .iter()
        .map(|(a, b)| if a == b { Sequence::Single(mk(*a)) } else { Sequence::Range(mk(*a), mk(*b)) })
        .collect();
    SequenceSet(Vec1::try_from(v).unwrap())
}

pub fn inner_atom(f: &Flag) -> String {
    f.to_string()
}

// ----- generation ---------------------------------------------------------------------------------

pub fn gen_kind(s: &mut Src) -> Kind {
    match s.below(24) {
        0..=9 => Kind::Command,
        10..=19 => Kind::Response,
        20..=21 => Kind::Greeting,
        22 => Kind::Auth,
        _ => Kind::Idle,
    }
}

pub fn gen_msg_of(s: &mut Src, k: Kind) -> Msg {
    match k {
        Kind::Command => Msg::Command(gen::command(s)),
        Kind::Response => Msg::Response(gen::response(s)),
        Kind::Greeting => Msg::Greeting(gen::greeting(s)),
        Kind::Auth => Msg::Auth(gen::authenticate_data(s)),
        Kind::Idle => Msg::Idle,
    }
}

pub fn gen_msg(s: &mut Src) -> Msg {
    let k = gen_kind(s);
    gen_msg_of(s, k)
}

pub fn label(m: &Msg) -> &'static str {
    match m {
        Msg::Greeting(_) => "greeting",
        Msg::Command(c) => c.body.name(),
        Msg::Auth(_) => "authenticate-data",
        Msg::Idle => "idle-done",
        Msg::Response(r) => match r {
            Response::CommandContinuationRequest(_) => "continuation",
            Response::Status(_) => "status",
            Response::Data(d) => match d {
                Data::Fetch { .. } => "data-fetch",
                _ => "data-other",
            },
        },
    }
}

/// Bytes as a readable, lossless Rust byte string.
pub fn esc(b: &[u8]) -> String {
    let mut o = String::with_capacity(b.len());
    for c in b {
        o.extend(std::ascii::escape_default(*c).map(|x| x as char));
    }
    o
}

#[allow(dead_code)]
pub fn tag_of(m: &Msg) -> Option<Tag<'static>> {
    match m {
        Msg::Command(c) => Some(c.tag.clone()),
        _ => None,
    }
}
