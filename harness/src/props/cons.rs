//! C25 (rebuilding commands) and C26: constructors build exactly what they are asked for.
use std::num::NonZeroU32;

use imap_codec::imap_types::{
    command::CommandBody,
    core::*,
    extensions::{
        binary::LiteralOrLiteral8,
        quota::{error::*, QuotaGet, QuotaSet},
    },
    response::*,
    search::SearchKey,
    ToStatic,
};

use super::types::{all1, candidate};
use crate::{gen, refp, tape::Src, util::*, Cx, Prop};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        rule: "a response is rebuilt through its constructor, or a constructor is given a text that is not a plain word, or a list or number; distinct by response and arguments",
        f: c26,
    }]
}

/// Take any command apart and build it again through the constructor meant for it.
pub fn rebuild_command(s: &mut Src) -> Result<(), String> {
    use CommandBody as B;
    let body = gen::command_body(s);
    let again: Option<Result<B<'static>, String>> = match body.clone() {
        B::Authenticate { mechanism, initial_response: None } => Some(Ok(B::authenticate(mechanism))),
        B::Authenticate { mechanism, initial_response: Some(r) } => Some(Ok(B::authenticate_with_ir(mechanism, r.declassify().clone()))),
        B::Login { username, password } => Some(B::login(username, password.declassify().clone()).map_err(|e| e.to_string())),
        #[cfg(feature = "f_condstore")]
        B::Select { mailbox, parameters } if parameters.is_empty() => Some(B::select(mailbox).map_err(|e| e.to_string())),
        #[cfg(feature = "f_condstore")]
        B::Examine { mailbox, parameters } if parameters.is_empty() => Some(B::examine(mailbox).map_err(|e| e.to_string())),
        B::Create { mailbox } => Some(B::create(mailbox).map_err(|e| e.to_string())),
        B::Delete { mailbox } => Some(B::delete(mailbox).map_err(|e| e.to_string())),
        B::Rename { from, to } => Some(B::rename(from, to).map_err(|e| e.to_string())),
        B::Subscribe { mailbox } => Some(B::subscribe(mailbox).map_err(|e| e.to_string())),
        B::Unsubscribe { mailbox } => Some(B::unsubscribe(mailbox).map_err(|e| e.to_string())),
        B::List { reference, mailbox_wildcard } => Some(B::list(reference, mailbox_wildcard).map_err(|e| e.to_string())),
        B::Lsub { reference, mailbox_wildcard } => Some(B::lsub(reference, mailbox_wildcard).map_err(|e| e.to_string())),
        B::Status { mailbox, item_names } => Some(B::status(mailbox, item_names).map_err(|e| e.to_string())),
        B::Append { mailbox, flags, date, message: LiteralOrLiteral8::Literal(l) } => {
            Some(B::append(mailbox, flags, date, l).map_err(|e| e.to_string()))
        }
        B::Search { charset, criteria, uid } => Some(Ok(B::search(charset, criteria, uid))),
        #[cfg(feature = "f_condstore")]
        B::Fetch { sequence_set, macro_or_item_names, uid, modifiers } if modifiers.is_empty() => {
            Some(B::fetch(sequence_set, macro_or_item_names, uid).map_err(|e| e.to_string()))
        }
        #[cfg(feature = "f_condstore")]
        B::Store { sequence_set, kind, response, flags, uid, modifiers } if modifiers.is_empty() => {
            Some(B::store(sequence_set, kind, response, flags, uid).map_err(|e| e.to_string()))
        }
        B::Copy { sequence_set, mailbox, uid } => Some(B::copy(sequence_set, mailbox, uid).map_err(|e| e.to_string())),
        B::Move { sequence_set, mailbox, uid } => Some(B::r#move(sequence_set, mailbox, uid).map_err(|e| e.to_string())),
        B::Enable { capabilities } => Some(B::enable(capabilities).map_err(|e| e.to_string())),
        B::Compress { algorithm } => Some(Ok(B::compress(algorithm))),
        B::GetQuota { root } => Some(B::get_quota(root).map_err(|e| e.to_string())),
        B::GetQuotaRoot { mailbox } => Some(B::get_quota_root(mailbox).map_err(|e| e.to_string())),
        B::SetQuota { root, quotas } => {
            let quotas: Vec<QuotaSet> = quotas.into_iter().map(|q| QuotaSet::new(q.resource, q.limit)).collect();
            Some(B::set_quota(root, quotas).map_err(|e| e.to_string()))
        }
        B::Unselect => Some(Ok(B::unselect())),
        #[cfg(feature = "f_namespace")]
        B::Namespace => Some(Ok(B::namespace())),
        _ => None,
    };
    match again {
        Some(Ok(b)) if b != body => Err(format!("constructor-differs: asked for {body:?}, got {b:?}")),
        Some(Err(e)) => Err(format!("constructor-refuses: {e} for {body:?}")),
        _ => {
            let set = gen::sequence_set(s);
            if SearchKey::uid(set.clone()) != SearchKey::Uid(set.clone()) {
                return Err(format!("constructor-differs: SearchKey::uid({set:?})"));
            }
            Ok(())
        }
    }
}

fn same<T: PartialEq + std::fmt::Debug, E: std::fmt::Display>(what: &str, want: &T, got: Result<T, E>) -> Result<(), String> {
    match got {
        Ok(g) if g == *want => Ok(()),
        Ok(g) => Err(format!("constructor-differs: {what}: asked for {want:?}, got {g:?}")),
        Err(e) => Err(format!("constructor-refuses: {what}: {e} for {want:?}")),
    }
}

fn rebuild_status(st: &Status<'static>) -> Result<(), String> {
    let (tag, code, text) = match st.clone() {
        Status::Tagged(Tagged { tag, body }) => (Some(tag), body.code, body.text),
        Status::Untagged(b) => (None, b.code, b.text),
        Status::Bye(b) => (None, b.code, b.text),
    };
    if st.tag() != tag.as_ref() || st.code() != code.as_ref() || st.text() != &text {
        return Err(format!("accessor: {:?} {:?} {:?} of {st:?}", st.tag(), st.code(), st.text()));
    }
    match st {
        Status::Bye(_) => same("Status::bye", st, Status::bye(code, text)),
        Status::Tagged(Tagged { body, .. }) | Status::Untagged(body) => {
            same("Status::new", st, Status::new(tag.clone(), body.kind, code.clone(), text.clone()))?;
            match body.kind {
                StatusKind::Ok => same("Status::ok", st, Status::ok(tag, code, text)),
                StatusKind::No => same("Status::no", st, Status::no(tag, code, text)),
                StatusKind::Bad => same("Status::bad", st, Status::bad(tag, code, text)),
            }
        }
    }
}

fn rebuild_code(c: &Code<'static>) -> Result<(), String> {
    match c.clone() {
        Code::BadCharset { allowed } => same("Code::badcharset", c, Ok::<_, String>(Code::badcharset(allowed))),
        Code::Capability(v) => same("Code::capability", c, Code::capability(v.into_inner())),
        Code::PermanentFlags(v) => same("Code::permanentflags", c, Ok::<_, String>(Code::permanentflags(v))),
        Code::UidNext(n) => same("Code::uidnext", c, Code::uidnext(n.get())),
        Code::UidValidity(n) => same("Code::uidvalidity", c, Code::uidvalidity(n.get())),
        Code::Unseen(n) => same("Code::unseen", c, Code::unseen(n.get())),
        _ => Ok(()),
    }
}

fn rebuild_data(d: &Data<'static>) -> Result<(), String> {
    match d.clone() {
        Data::Capability(v) => same("Data::capability", d, Data::capability(v.into_inner())),
        Data::Expunge(n) => same("Data::expunge", d, Data::expunge(n.get())),
        Data::Fetch { seq, items } => same("Data::fetch", d, Data::fetch(seq.get(), items.into_inner())),
        Data::Quota { root, quotas } => {
            let quotas: Vec<QuotaGet> = quotas.into_iter().map(|q| QuotaGet::new(q.resource, q.usage, q.limit)).collect();
            same("Data::quota", d, Data::quota(root, quotas))
        }
        Data::QuotaRoot { mailbox, roots } => same("Data::quota_root", d, Data::quota_root(mailbox, roots)),
        #[cfg(feature = "f_namespace")]
        Data::Namespace { personal, other, shared } => {
            let again = |v: Vec<imap_codec::imap_types::extensions::namespace::Namespace<'static>>| {
                v.into_iter()
                    .map(|n| {
                        let mut m = imap_codec::imap_types::extensions::namespace::Namespace::new(n.prefix, n.delimiter);
                        m.extensions = n.extensions;
                        m
                    })
                    .collect::<Vec<_>>()
            };
            same("Data::namespace", d, Data::namespace(again(personal), again(other), again(shared)))
        }
        _ => Ok(()),
    }
}

fn c26(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    match s.below(8) {
        0 | 1 => {
            cx.label("rebuild");
            let m = match s.below(4) {
                0 => gen_msg_of(s, Kind::Greeting),
                _ => gen_msg_of(s, Kind::Response),
            };
            cx.nontrivial(&m.encode());
            cx.sample(|| format!("rebuild {}", esc(&m.encode())));
            let code = match &m {
                Msg::Greeting(g) => {
                    let (code, text) = (g.code.clone(), g.text.inner());
                    same("Greeting::new", g, Greeting::new(g.kind, code.clone(), text))?;
                    match g.kind {
                        GreetingKind::Ok => same("Greeting::ok", g, Greeting::ok(code, text))?,
                        GreetingKind::PreAuth => same("Greeting::preauth", g, Greeting::preauth(code, text))?,
                        GreetingKind::Bye => same("Greeting::bye", g, Greeting::bye(code, text))?,
                    }
                    g.code.clone()
                }
                Msg::Response(Response::Status(st)) => {
                    rebuild_status(st)?;
                    st.code().map(|c| c.clone().to_static())
                }
                Msg::Response(Response::Data(d)) => {
                    rebuild_data(d)?;
                    None
                }
                Msg::Response(Response::CommandContinuationRequest(c)) => match c {
                    CommandContinuationRequest::Basic(b) => {
                        same("CommandContinuationRequest::basic", c, CommandContinuationRequest::basic(b.code().cloned(), b.text().clone()))?;
                        b.code().cloned()
                    }
                    CommandContinuationRequest::Base64(d) => {
                        same("CommandContinuationRequest::base64", c, Ok::<_, String>(CommandContinuationRequest::base64(d.to_vec())))?;
                        None
                    }
                },
                _ => None,
            };
            if let Some(c) = code {
                rebuild_code(&c)?;
            }
        }
        2 => {
            cx.label("code");
            let c = gen::code(s);
            cx.nontrivial(format!("{c:?}").as_bytes());
            rebuild_code(&c)?;
        }
        3 | 4 => {
            cx.label("data");
            let d = gen::data(s);
            cx.nontrivial(format!("{d:?}").as_bytes());
            rebuild_data(&d)?;
        }
        5 | 6 => {
            // Any text at all: refused, or one response carrying exactly this text.
            cx.label("text");
            let mut raw = candidate(s);
            if s.one_in(8) {
                // What a continuation request without a code must not be.
                raw = refp::b64(&raw).into_bytes();
                if s.one_in(4) && !raw.is_empty() {
                    let i = s.idx(raw.len());
                    raw[i] = *s.pick(b"=+/-_ A");
                }
            }
            let t = String::from_utf8_lossy(&raw).into_owned();
            let ok = all1(t.as_bytes(), gen::is_text_char);
            if !all1(t.as_bytes(), gen::is_atom_char) {
                cx.nontrivial(t.as_bytes());
            }
            let code = s.opt(gen::code);
            let tag = s.opt(gen::tag);
            cx.sample(|| format!("text {}", esc(t.as_bytes())));
            let mut made: Vec<(&str, Option<Msg>)> = vec![
                ("Greeting::new", Greeting::new(GreetingKind::PreAuth, code.clone(), &t).ok().map(|g| Msg::Greeting(g.to_static()))),
                ("Greeting::ok", Greeting::ok(code.clone(), &t).ok().map(|g| Msg::Greeting(g.to_static()))),
                ("Greeting::preauth", Greeting::preauth(code.clone(), &t).ok().map(|g| Msg::Greeting(g.to_static()))),
                ("Greeting::bye", Greeting::bye(code.clone(), &t).ok().map(|g| Msg::Greeting(g.to_static()))),
            ];
            let mut st = |n, x: Result<Status<'static>, _>| {
                let x: Result<Status<'static>, imap_codec::imap_types::error::ValidationError> = x;
                made.push((n, x.ok().map(|x| Msg::Response(Response::Status(x)))))
            };
            st("Status::ok", Status::ok(tag.clone(), code.clone(), t.clone()));
            st("Status::no", Status::no(tag.clone(), code.clone(), t.clone()));
            st("Status::bad", Status::bad(tag.clone(), code.clone(), t.clone()));
            st("Status::bye", Status::bye(code.clone(), t.clone()));
            for (n, m) in &made {
                if m.is_some() != ok {
                    return Err(format!("text: {n} with {}: {m:?}", esc(t.as_bytes())));
                }
                let Some(m) = m else { continue };
                let enc = m.encode();
                if enc.iter().filter(|b| **b == b'\n').count() != 1 + code_newlines(&code) || !enc.ends_with(format!(" {t}\r\n").as_bytes()) {
                    return Err(format!("text: {n} with {}: {}", esc(t.as_bytes()), esc(&enc)));
                }
                if code.is_some() || !t.starts_with('[') {
                    super::roundtrip::check_decodes_to(m, &enc, "constructor-wire")?;
                }
            }
            // continuation requests refuse, in addition, what would be read differently
            let r = CommandContinuationRequest::basic(code.clone(), t.clone());
            let ambiguous = code.is_none() && (t.starts_with('[') || is_base64(t.as_bytes()));
            if r.is_ok() != (ok && !ambiguous) {
                return Err(format!("continuation: {r:?} with {code:?} {}", esc(t.as_bytes())));
            }
            match &r {
                Err(error::ContinueError::Ambiguity) if !ambiguous => return Err(format!("blame: ambiguity in {}", esc(t.as_bytes()))),
                Err(error::ContinueError::Text(_)) if ok => return Err(format!("blame: text {}", esc(t.as_bytes()))),
                _ => {}
            }
            if let Ok(c) = r {
                let m = Msg::Response(Response::CommandContinuationRequest(c));
                super::roundtrip::check_decodes_to(&m, &m.encode(), "continuation-wire")?;
            }
        }
        _ => {
            cx.label("numbers and lists");
            let n = if s.one_in(3) { 0 } else { gen::u32_edge(s) };
            cx.nontrivial(format!("n{n}").as_bytes());
            let want = NonZeroU32::new(n);
            let bad = |what: &str| Err(format!("number: {what}({n})"));
            if Data::expunge(n).ok() != want.map(Data::Expunge) {
                return bad("expunge");
            }
            if Code::uidnext(n).ok() != want.map(Code::UidNext) {
                return bad("uidnext");
            }
            if Code::uidvalidity(n).ok() != want.map(Code::UidValidity) {
                return bad("uidvalidity");
            }
            if Code::unseen(n).ok() != want.map(Code::Unseen) {
                return bad("unseen");
            }
            let items = s.vec(0, gen::item);
            let caps = s.vec(0, gen::capability);
            let quotas = s.vec(0, |s| QuotaGet::new(gen::resource(s), gen::u64_edge(s), gen::u64_edge(s)));
            let root = gen::astring(s);
            if Data::fetch(n, items.clone()).ok()
                != want.and_then(|seq| (!items.is_empty()).then(|| Data::Fetch { seq, items: Vec1::try_from(items.clone()).unwrap() }))
            {
                return bad("fetch");
            }
            match Data::fetch(n, items.clone()) {
                Err(error::FetchError::SeqOrUid(_)) if n != 0 => return bad("fetch, blamed"),
                Err(error::FetchError::InvalidItems(_)) if !items.is_empty() => return bad("fetch, items blamed"),
                _ => {}
            }
            let v1 = (!caps.is_empty()).then(|| Vec1::try_from(caps.clone()).unwrap());
            if Data::capability(caps.clone()).ok() != v1.clone().map(Data::Capability) || Code::capability(caps.clone()).ok() != v1.map(Code::Capability) {
                return Err(format!("list: capability({caps:?})"));
            }
            // arbitrary bytes as root and mailbox: refused and named exactly if they hold NUL
            let raw = candidate(s);
            let fine = !raw.contains(&0);
            match Data::quota(raw.clone(), quotas.clone()) {
                Ok(Data::Quota { root, quotas: q }) if fine && root.as_ref() == raw && q.as_ref() == quotas => {}
                Err(QuotaError::Root(_)) if !fine => {}
                Err(QuotaError::Quotas(_)) if quotas.is_empty() => {}
                x => return Err(format!("blame: quota({}, {quotas:?}): {x:?}", esc(&raw))),
            }
            let roots = s.vec(0, gen::astring);
            match Data::quota_root(raw.clone(), roots.clone()) {
                Ok(Data::QuotaRoot { mailbox, roots: r }) if fine && r == roots => {
                    let inbox = raw.eq_ignore_ascii_case(b"inbox");
                    if !match &mailbox {
                        imap_codec::imap_types::mailbox::Mailbox::Inbox => inbox,
                        imap_codec::imap_types::mailbox::Mailbox::Other(o) => !inbox && o.as_ref() == raw,
                    } {
                        return Err(format!("constructor-differs: quota_root({}): {mailbox:?}", esc(&raw)));
                    }
                }
                Err(QuotaRootError::<_, std::convert::Infallible>::Mailbox(_)) if !fine => {}
                x => return Err(format!("blame: quota_root({}, {roots:?}): {x:?}", esc(&raw))),
            }
            let q = Data::quota(root.clone(), quotas.clone()).ok();
            if q.is_some() == quotas.is_empty() {
                return Err(format!("list: quota({quotas:?})"));
            }
            if let Some(d) = q {
                let want = Data::Quota { root, quotas: Vec1::try_from(quotas).unwrap() };
                if d != want {
                    return Err(format!("list: {d:?} for {want:?}"));
                }
            }
        }
    }
    Ok(())
}

fn code_newlines(c: &Option<Code<'static>>) -> usize {
    // literals in codes (charsets and the like) may bring line ends
    let Some(c) = c else { return 0 };
    let m = Msg::Response(Response::Status(Status::ok(None, Some(c.clone()), "x").unwrap()));
    m.encode().iter().filter(|b| **b == b'\n').count() - 1
}

/// Canonical, padded base64.
fn is_base64(t: &[u8]) -> bool {
    super::wirep::unb64(t).is_some()
}
