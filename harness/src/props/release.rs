//! C16, C21: what differs between debug and release builds: redaction and tag generation.
use std::fmt::Debug;

use imap_codec::{
    fragmentizer::Fragmentizer,
    imap_types::{
        auth::AuthenticateData,
        command::{Command, CommandBody},
        core::{AString, Tag},
        secret::Secret,
    },
    AuthenticateDataCodec, CommandCodec, GreetingCodec, ResponseCodec,
};

use crate::{gen, tape::Src, util::*, Cx, Prop};

pub fn props() -> Vec<Prop> {
    vec![
        #[cfg(not(debug_assertions))]
        Prop {
            id: "C16",
            rule: "the two secrets differ; distinct by carrier and secrets",
            f: c16,
        },
        #[cfg(feature = "taggen")]
        Prop {
            id: "C21",
            rule: "at least two generators produced tags; distinct by history",
            f: tags::c21,
        },
    ]
}

/// All the ways to print with Debug.
fn forms<T: Debug>(x: &T) -> Vec<String> {
    vec![
        format!("{x:?}"),
        format!("{x:#?}"),
        format!("{x:x?}"),
        format!("{x:#X?}"),
        format!("{x:30.2?}"),
        format!("{:?}", Some(x)),
        format!("{:#?}", vec![x]),
    ]
}

fn same<T: Debug, U: Debug>(what: &str, a: &T, b: &U) -> Result<(), String> {
    for (x, y) in forms(a).into_iter().zip(forms(b)) {
        if x != y {
            return Err(format!("leak: {what}: the secret shows in {x} / {y}"));
        }
    }
    Ok(())
}

/// A secret, as bytes without NUL.
fn secret(s: &mut Src) -> Vec<u8> {
    let mut v = super::types::candidate(s);
    v.retain(|b| *b != 0);
    v
}

#[allow(dead_code)]
fn c16(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let (a, b) = (secret(s), secret(s));
    let which = s.below(7);
    if a != b {
        cx.nontrivial(format!("{which} {} {}", esc(&a), esc(&b)).as_bytes());
    }
    cx.sample(|| format!("carrier {which}: {} / {}", esc(&a), esc(&b)));
    let tag = gen::tag(s);
    let user = gen::astring(s);
    match which {
        0 | 1 => {
            cx.label("login");
            let mk = |p: &[u8]| Command {
                tag: tag.clone(),
                body: CommandBody::Login { username: user.clone(), password: Secret::new(AString::try_from(p.to_vec()).unwrap()) },
            };
            let (x, y) = (mk(&a), mk(&b));
            same("login", &x, &y)?;
            same("login body", &x.body, &y.body)?;
            // through the wire
            let dec = |m: &Command<'static>| decode(Kind::Command, &Msg::Command(m.clone()).encode());
            let (dx, dy) = (dec(&x), dec(&y));
            let (Dec::Ok { msg: mx, .. }, Dec::Ok { msg: my, .. }) = (dx, dy) else {
                return Err(format!("wire: {} / {}", esc(&a), esc(&b)));
            };
            same("decoded login", &mx, &my)?;
            // redaction is only about printing
            let Msg::Command(Command { body: CommandBody::Login { password, .. }, .. }) = &mx else {
                return Err("wire: not a login".into());
            };
            if password.declassify().as_ref() != a || mx != Msg::Command(x) || (mx == my) != (a == b) {
                return Err(format!("value: {} is {}", esc(&a), esc(password.declassify().as_ref())));
            }
        }
        2 => {
            cx.label("initial response");
            let mech = gen::auth_mechanism(s);
            let mk = |p: &[u8]| Command {
                tag: tag.clone(),
                body: CommandBody::Authenticate { mechanism: mech.clone(), initial_response: Some(Secret::new(p.to_vec().into())) },
            };
            let (x, y) = (mk(&a), mk(&b));
            same("authenticate", &x, &y)?;
            let dec = |m: &Command<'static>| decode(Kind::Command, &Msg::Command(m.clone()).encode());
            same("decoded authenticate", &dec_msg(dec(&x))?, &dec_msg(dec(&y))?)?;
        }
        3 => {
            cx.label("authenticate data");
            let (x, y) = (AuthenticateData::r#continue(a.clone()), AuthenticateData::r#continue(b.clone()));
            same("authenticate data", &x, &y)?;
            let dec = |p: &AuthenticateData<'static>| decode(Kind::Auth, &Msg::Auth(p.clone()).encode());
            same("decoded authenticate data", &dec_msg(dec(&x))?, &dec_msg(dec(&y))?)?;
        }
        4 => {
            cx.label("secret");
            same("secret bytes", &Secret::new(a.clone()), &Secret::new(b.clone()))?;
            same("secret text", &Secret::new(esc(&a)), &Secret::new(esc(&b)))?;
            same("secret astring", &Secret::new(AString::try_from(a.clone()).unwrap()), &Secret::new(AString::try_from(b.clone()).unwrap()))?;
            same("secret option", &Secret::new(Some(a.len())), &Secret::new(None::<usize>))?;
            if Secret::new(a.clone()).declassify() != &a || Secret::from(a.clone()) != Secret::new(a.clone()) {
                return Err(format!("value: {}", esc(&a)));
            }
        }
        _ => {
            cx.label("fragmentizer errors");
            // one line, without line end inside, and not a literal announcement
            let line = |p: &[u8], skip: &mut bool| {
                let mut v: Vec<u8> = format!("{} LOGIN x ", tag.inner()).into_bytes();
                let p: Vec<u8> = p.iter().copied().filter(|b| !matches!(b, b'\r' | b'\n' | b'}')).collect();
                *skip |= p.is_empty();
                v.extend_from_slice(&p);
                v.extend_from_slice(b"\r\n");
                v
            };
            let mut skip = false;
            let (la, lb) = (line(&a, &mut skip), line(&b, &mut skip));
            if skip {
                return Ok(());
            }
            let run = |l: &[u8], max: Option<u32>, poison: bool| {
                let mut f = max.map_or_else(Fragmentizer::without_max_message_size, Fragmentizer::new);
                f.enqueue_bytes(l);
                f.progress();
                if poison {
                    f.poison_message();
                }
                f
            };
            // poisoned
            let (fa, fb) = (run(&la, None, true), run(&lb, None, true));
            let (ra, rb) = (fa.decode_message(&CommandCodec::default()), fb.decode_message(&CommandCodec::default()));
            if ra.is_ok() || rb.is_ok() {
                return Err("poison: decoded".into());
            }
            same("poisoned message", &ra, &rb)?;
            // too long
            let max = s.below(la.len().min(lb.len()) as u64) as u32;
            let (fa, fb) = (run(&la, Some(max), false), run(&lb, Some(max), false));
            let (ra, rb) = (fa.decode_message(&CommandCodec::default()), fb.decode_message(&CommandCodec::default()));
            if ra.is_ok() || rb.is_ok() {
                return Err("too long: decoded".into());
            }
            same("oversized message", &ra, &rb)?;
            // undecodable by the wrong decoder: the error says nothing about the input
            let (fa, fb) = (run(&la, None, false), run(&lb, None, false));
            let (ra, rb) = (fa.decode_message(&AuthenticateDataCodec::default()), fb.decode_message(&AuthenticateDataCodec::default()));
            if ra.is_err() && rb.is_err() {
                same("failed message", &ra, &rb)?;
            }
            // remainder: a greeting whose text looks like an announcement, decoded as such
            let n = a.len().max(b.len());
            let pad = |p: &[u8]| {
                let mut v = format!("* OK {{{n}}}\r\n").into_bytes();
                v.extend(p.iter().copied().chain(std::iter::repeat(b'x')).take(n));
                v.extend_from_slice(b"\r\n");
                v
            };
            let run2 = |l: &[u8]| {
                let mut f = Fragmentizer::without_max_message_size();
                f.enqueue_bytes(l);
                while f.progress().is_some() {
                    if f.is_message_complete() {
                        break;
                    }
                }
                f
            };
            let (fa, fb) = (run2(&pad(&a)), run2(&pad(&b)));
            same("remainder", &fa.decode_message(&GreetingCodec::default()), &fb.decode_message(&GreetingCodec::default()))?;
            same("remainder", &fa.decode_message(&ResponseCodec::default()), &fb.decode_message(&ResponseCodec::default()))?;
        }
    }
    Ok(())
}

#[allow(dead_code)]
fn dec_msg(d: Dec) -> Result<Msg, String> {
    match d {
        Dec::Ok { msg, .. } => Ok(msg),
        o => Err(format!("wire: {}", o.class())),
    }
}

#[cfg(feature = "taggen")]
pub mod tags {
    use std::{
        collections::{HashMap, HashSet},
        sync::{Barrier, OnceLock},
    };

    use imap_codec::imap_types::core::TagGenerator;

    use super::*;

    /// The tags of the first generator of a fresh process.
    pub fn first_tags() -> Vec<String> {
        let mut g = TagGenerator::new();
        (0..64).map(|_| g.generate().inner().to_string()).collect()
    }

    fn in_fresh_process() -> Vec<String> {
        let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("tags").output().expect("spawn");
        String::from_utf8_lossy(&o.stdout).lines().map(|l| l.to_string()).collect()
    }

    fn across_processes() -> Result<(), String> {
        static ONCE: OnceLock<Result<(), String>> = OnceLock::new();
        ONCE.get_or_init(|| {
            if cfg!(debug_assertions) {
                // debug builds have no random part, as documented in the code
                return Ok(());
            }
            let (a, b) = (in_fresh_process(), in_fresh_process());
            if a.len() != 64 || b.len() != 64 {
                return Err(format!("process: {} and {} tags", a.len(), b.len()));
            }
            let sa: HashSet<_> = a.iter().collect();
            let common = b.iter().filter(|t| sa.contains(t)).count();
            // one common tag in 64 pairs has probability 3e-13
            if common > 1 {
                return Err(format!("predictable: two processes produced {common} identical tags, such as {}", a[0]));
            }
            Ok(())
        })
        .clone()
    }

    pub fn c21(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
        across_processes()?;
        // a history: per thread, how many generators, and the order in which they are used
        let threads = *s.pick(&[1usize, 1, 2, 4, 8]);
        let big = s.one_in(40);
        // far beyond 16 bits of uses of one generator, or of generators
        let huge = s.one_in(250);
        let threads = if huge { 1 } else { threads };
        let plans: Vec<(usize, Vec<usize>)> = (0..threads)
            .map(|_| {
                if huge {
                    let n = s.range(65_000, 140_000) as usize;
                    return if s.bool() { (1, vec![0; n]) } else { (n, vec![]) };
                }
                let gens = if big { s.range(200, 3000) as usize } else { s.range(1, 5) as usize };
                let uses = if big { s.range(0, 300) as usize } else { s.range(0, 12) as usize };
                (gens, (0..uses).map(|_| s.idx(gens)).collect())
            })
            .collect();
        cx.label(if huge { "huge" } else if big { "big" } else { "small" });
        cx.sample(|| {
            plans.iter().map(|(g, u)| format!("{g} generators used {} times", u.len())).collect::<Vec<_>>().join("; ")
        });
        let barrier = Barrier::new(threads);
        // (generator, nth use) -> tag, per thread
        let results: Vec<Vec<(usize, usize, String)>> = std::thread::scope(|sc| {
            let hs: Vec<_> = plans
                .iter()
                .map(|(n, uses)| {
                    let barrier = &barrier;
                    sc.spawn(move || {
                        barrier.wait();
                        let mut gens: Vec<TagGenerator> = (0..*n).map(|_| TagGenerator::new()).collect();
                        let mut count = vec![0usize; *n];
                        let mut out = vec![];
                        for g in uses.iter().copied().chain(0..*n) {
                            out.push((g, count[g], gens[g].generate().inner().to_string()));
                            count[g] += 1;
                        }
                        out
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("no panic")).collect()
        });
        let mut seen: HashMap<&str, (usize, usize, usize)> = HashMap::new();
        let mut owner: HashMap<&str, (usize, usize)> = HashMap::new();
        let mut tokens: HashSet<&str> = HashSet::new();
        let mut pairs: HashSet<(&str, &str)> = HashSet::new();
        let mut all = 0;
        let mut freq = [[0u32; 256]; 8];
        for (t, r) in results.iter().enumerate() {
            for (g, k, tag) in r {
                all += 1;
                if Tag::try_from(tag.as_str()).is_err() || tag.contains(|c: char| !c.is_ascii_alphanumeric() && c != '.') {
                    return Err(format!("invalid: {tag}"));
                }
                if let Some(o) = seen.insert(tag, (t, *g, *k)) {
                    return Err(format!("duplicate: {tag} was produced twice: {o:?} and {:?} (thread, generator, use)", (t, *g, *k)));
                }
                let p: Vec<&str> = tag.split('.').collect();
                let parts = if cfg!(debug_assertions) { 2 } else { 3 };
                if p.len() != parts || !pairs.insert((p[0], p[1])) {
                    return Err(format!("form: use {k} of a generator produced {tag}: not of the documented form, or instance and counter repeat"));
                }
                // the instance is the generator's alone
                let o = owner.entry(p[0]).or_insert((t, *g));
                if *o != (t, *g) {
                    return Err(format!("instance: {tag} of generator {g} in thread {t} has the prefix of {o:?}"));
                }
                if let Some(tok) = p.get(2) {
                    if tok.len() < 8 {
                        return Err(format!("form: {tag}"));
                    }
                    tokens.insert(tok);
                    for (i, b) in tok.bytes().enumerate().take(8) {
                        freq[i][b as usize] += 1;
                    }
                }
            }
        }
        if owner.len() > 1 {
            let uses: Vec<_> = plans.iter().map(|(g, u)| (*g, u.len(), u.iter().take(40).collect::<Vec<_>>())).collect();
            cx.nontrivial(format!("{uses:?}").as_bytes());
        }
        if !cfg!(debug_assertions) {
            // Random parts do not repeat (one repetition can happen, with probability below 1e-6).
            if tokens.len() + 1 < all {
                return Err(format!("predictable: {all} tags have {} different random parts", tokens.len()));
            }
            // and most characters show at every position
            if all >= 2500 {
                for (i, f) in freq.iter().enumerate() {
                    let n = f.iter().filter(|x| **x > 0).count();
                    if n < 32 {
                        return Err(format!("predictable: position {i} of the random part takes {n} values only in {all} tags"));
                    }
                }
            }
        }
        Ok(())
    }
}
