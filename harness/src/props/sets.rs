//! C13: what sequence sets mean.
use std::{cmp::Ordering, num::NonZeroU32, str::FromStr};

use imap_codec::imap_types::{
    command::{Command, CommandBody},
    core::Vec1,
    sequence::{SeqOrUid, Sequence, SequenceSet},
};

use crate::{gen, tape::Src, util::*, Cx, Prop};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C13",
        rule: "the set has at least two elements or a range, or the string or number is not a plain small one; distinct by set, string or number",
        f: c13,
    }]
}

fn c13(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    match s.below(8) {
        0..=3 => meaning(s, cx),
        4..=5 => strings(s, cx),
        6 => order(s, cx),
        _ => numbers(s, cx),
    }
}

fn show(s: &SequenceSet) -> String {
    let e = |x: &SeqOrUid| match x {
        SeqOrUid::Value(v) => v.to_string(),
        SeqOrUid::Asterisk => "*".into(),
    };
    s.0.as_ref()
        .iter()
        .map(|q| match q {
            Sequence::Single(a) => e(a),
            Sequence::Range(a, b) => format!("{}:{}", e(a), e(b)),
        })
        .collect::<Vec<_>>()
        .join(",")
}

const TAKE: usize = 3000;

fn ends(q: &Sequence, l: u64) -> (u64, u64) {
    let e = |x: &SeqOrUid| match x {
        SeqOrUid::Value(v) => u64::from(v.get()),
        SeqOrUid::Asterisk => l,
    };
    match q {
        Sequence::Single(a) => (e(a), e(a)),
        Sequence::Range(a, b) => (e(a), e(b)),
    }
}

fn naive(set: &SequenceSet, l: u64) -> Vec<u64> {
    let mut v = vec![];
    for q in set.0.as_ref() {
        let (a, b) = ends(q, l);
        let room = TAKE - v.len();
        if a <= b {
            v.extend((a..=b).take(room));
        } else {
            v.extend((b..=a).rev().take(room));
        }
    }
    v
}

fn sorted(set: &SequenceSet, l: u64) -> Vec<u64> {
    let mut iv: Vec<(u64, u64)> = set
        .0
        .as_ref()
        .iter()
        .map(|q| {
            let (a, b) = ends(q, l);
            (a.min(b), a.max(b))
        })
        .collect();
    iv.sort();
    let mut v = vec![];
    let mut next = 0;
    for (a, b) in iv {
        let a = a.max(next);
        if a <= b {
            let room = TAKE - v.len();
            v.extend((a..=b).take(room));
            next = b + 1;
        }
    }
    v
}

fn meaning(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let set = gen::sequence_set(s);
    let text = show(&set);
    if text.contains([',', ':']) {
        cx.nontrivial(text.as_bytes());
    }
    cx.label("set");
    cx.sample(|| text.clone());
    // the canonical form, its idempotence and its wire form
    let mut n = set.clone();
    n.normalize();
    let want = canon_set(&set);
    if n != want {
        return Err(format!("normalize: {text} becomes {} instead of {}", show(&n), show(&want)));
    }
    let mut n2 = n.clone();
    n2.normalize();
    if n2 != n {
        return Err(format!("idempotent: {} becomes {}", show(&n), show(&n2)));
    }
    // the largest number in the mailbox: near an end point, usually
    let points: Vec<u64> = set.0.as_ref().iter().flat_map(|q| <[u64; 2]>::from(ends(q, 1))).collect();
    let l = match s.below(4) {
        0 => u64::from(gen::nz32(s).get()),
        1 => s.range(1, 40),
        _ => {
            let p = *s.pick(&points);
            (p + s.below(5)).saturating_sub(2)
        }
    };
    let l = l.clamp(1, u64::from(u32::MAX));
    let largest = NonZeroU32::new(l as u32).unwrap();
    // same members among the existing ones
    let (da, db) = (denot(&set), denot(&n));
    let probes: Vec<u64> = points.iter().flat_map(|p| [p.saturating_sub(1), *p, *p + 1]).chain([1, l - 1, l]).collect();
    for x in probes {
        let by_sets = |z: &SequenceSet| {
            x >= 1
                && x <= l
                && z.0.as_ref().iter().any(|q| {
                    let (a, b) = ends(q, l);
                    a.min(b) <= x && x <= a.max(b)
                })
        };
        if by_sets(&set) != by_sets(&n) {
            return Err(format!("members: {text} and its normal form {} differ on {x} when {l} is the largest", show(&n)));
        }
        debug_assert_eq!(da.contains(x, l), db.contains(x, l));
    }
    // the iterators
    let it: Vec<u64> = set.iter(largest).take(TAKE).map(|x| u64::from(x.get())).collect();
    let want = sorted(&set, l);
    if it != want {
        return Err(diff("iter", &text, l, &it, &want));
    }
    let it: Vec<u64> = set.iter_naive(largest).take(TAKE).map(|x| u64::from(x.get())).collect();
    let want = naive(&set, l);
    if it != want {
        return Err(diff("iter_naive", &text, l, &it, &want));
    }
    for q in set.0.as_ref() {
        let mut m = q.clone();
        m.normalize();
        let want = match q {
            Sequence::Range(a, b) if a == b => Sequence::Single(*a),
            Sequence::Range(a, b) if rank(a) > rank(b) => Sequence::Range(*b, *a),
            q => q.clone(),
        };
        if m != want {
            return Err(format!("sequence-normalize: {q:?} becomes {m:?}"));
        }
        if let Sequence::Single(a) = q {
            if u64::from(a.expand(largest).get()) != ends(q, l).0 {
                return Err(format!("expand: {a:?} with {l}"));
            }
        }
    }
    // text form
    if SequenceSet::from_str(&text).ok().as_ref() != Some(&set) {
        return Err(format!("from_str: {text} gives {:?}", SequenceSet::from_str(&text)));
    }
    // containers
    let v = set.0.as_ref().to_vec();
    if SequenceSet::try_from(v.clone()).ok().as_ref() != Some(&set) || SequenceSet::try_from(Vec::<Sequence>::new()).is_ok() {
        return Err(format!("try_from: {text}"));
    }
    if v.len() == 1 && SequenceSet::from(v[0].clone()) != set {
        return Err(format!("from: {text}"));
    }
    Ok(())
}

fn diff(what: &str, text: &str, l: u64, got: &[u64], want: &[u64]) -> String {
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    format!("{what}: {text} with largest {l}: item {i} is {:?}, not {:?}", got.get(i), want.get(i))
}

/// "*" is above every number.
fn rank(x: &SeqOrUid) -> u64 {
    match x {
        SeqOrUid::Value(v) => u64::from(v.get()),
        SeqOrUid::Asterisk => u64::MAX,
    }
}

fn order(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    cx.label("order");
    let base = s.range(1, 9) as u32;
    let (p, q) = (gen::sequence(s, base), gen::sequence(s, base));
    cx.nontrivial(format!("{p:?}{q:?}").as_bytes());
    cx.sample(|| format!("{p:?} {q:?}"));
    let mm = |q: &Sequence| match q {
        Sequence::Single(a) => (rank(a), rank(a)),
        Sequence::Range(a, b) => (rank(a).min(rank(b)), rank(a).max(rank(b))),
    };
    let (a, b) = (mm(&p), mm(&q));
    let got = p.partial_cmp(&q);
    // a wholly below b is less; overlapping ones are never ordered
    let want = if a.1 < b.0 {
        Some(Ordering::Less)
    } else if a.0 > b.1 {
        Some(Ordering::Greater)
    } else {
        None
    };
    let single = matches!((&p, &q), (Sequence::Single(_), Sequence::Single(_)));
    if got != want && !(single && got == Some(Ordering::Equal) && a == b) {
        return Err(format!("order: {p:?} and {q:?} compare {got:?}"));
    }
    let (x, y) = (gen::seq_or_uid(s, base), gen::seq_or_uid(s, base));
    if x.cmp(&y) != rank(&x).cmp(&rank(&y)) || x.partial_cmp(&y) != Some(x.cmp(&y)) {
        return Err(format!("order: {x:?} and {y:?} compare {:?}", x.cmp(&y)));
    }
    Ok(())
}

/// `nz-number / "*"` with an optional range, separated by commas (RFC 3501).
fn grammar(t: &str) -> Option<SequenceSet> {
    let e = |t: &str| -> Option<SeqOrUid> {
        if t == "*" {
            return Some(SeqOrUid::Asterisk);
        }
        if t.is_empty() || t.len() > 10 || !t.bytes().all(|b| b.is_ascii_digit()) || t.starts_with('0') {
            return None;
        }
        let n = t.bytes().fold(0u64, |n, b| n * 10 + u64::from(b - b'0'));
        u32::try_from(n).ok().and_then(NonZeroU32::new).map(SeqOrUid::Value)
    };
    let v: Option<Vec<Sequence>> = t
        .split(',')
        .map(|q| match q.split(':').collect::<Vec<_>>()[..] {
            [a] => e(a).map(Sequence::Single),
            [a, b] => Some(Sequence::Range(e(a)?, e(b)?)),
            _ => None,
        })
        .collect();
    Vec1::try_from(v?).ok().map(SequenceSet)
}

fn strings(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    let mut t: Vec<char> = show(&gen::sequence_set(s)).chars().collect();
    for _ in 0..s.below(4) {
        let c = *s.pick(&['0', '1', '9', '4', '*', ':', ',', '+', '-', ' ', '_', '.', 'x', '\u{661}', '$']);
        let i = match s.below(3) {
            0 => 0,
            1 => t.len(),
            _ => s.idx(t.len() + 1),
        };
        match s.below(3) {
            0 if i < t.len() => {
                t.remove(i);
            }
            1 if i < t.len() => t[i] = c,
            _ => t.insert(i, c),
        }
    }
    let t: String = t.into_iter().collect();
    cx.nontrivial(t.as_bytes());
    cx.sample(|| t.clone());
    let want = grammar(&t);
    cx.label(if want.is_some() { "string, valid" } else { "string, invalid" });
    if SequenceSet::from_str(&t).ok() != want || SequenceSet::try_from(t.as_str()).ok() != want {
        return Err(format!("from_str: SequenceSet {t:?} gives {:?}", SequenceSet::from_str(&t)));
    }
    let one = want.as_ref().filter(|w| w.0.as_ref().len() == 1).map(|w| w.0.as_ref()[0].clone());
    if Sequence::from_str(&t).ok() != one || Sequence::try_from(t.as_str()).ok() != one {
        return Err(format!("from_str: Sequence {t:?} gives {:?}", Sequence::from_str(&t)));
    }
    let el = match &one {
        Some(Sequence::Single(x)) => Some(*x),
        _ => None,
    };
    if SeqOrUid::from_str(&t).ok() != el || SeqOrUid::try_from(t.as_str()).ok() != el {
        return Err(format!("from_str: SeqOrUid {t:?} gives {:?}", SeqOrUid::from_str(&t)));
    }
    // The decoder agrees (it also takes leading zeros, which mean nothing).
    let zeros = {
        let mut o = String::new();
        let mut digit_before = false;
        let cs: Vec<char> = t.chars().collect();
        for (i, c) in cs.iter().enumerate() {
            let next_digit = cs.get(i + 1).is_some_and(|c| c.is_ascii_digit());
            if *c == '0' && !digit_before && next_digit {
                continue;
            }
            digit_before = c.is_ascii_digit();
            o.push(*c);
        }
        o
    };
    let wire = format!("A FETCH {t} FLAGS\r\n");
    match (decode(Kind::Command, wire.as_bytes()), &want) {
        (Dec::Ok { msg: Msg::Command(Command { body: CommandBody::Fetch { sequence_set, .. }, .. }), .. }, Some(w))
            if &sequence_set == w => {}
        (Dec::Ok { msg: Msg::Command(Command { body: CommandBody::Fetch { sequence_set, .. }, .. }), .. }, None)
            if zeros != t && grammar(&zeros).as_ref() == Some(&sequence_set) => {}
        (Dec::Failed, None) => {}
        (o, _) => return Err(format!("wire: {wire:?} gives {o:?}, the set is {want:?}")),
    }
    Ok(())
}

fn nz(x: i128) -> Option<SeqOrUid> {
    u32::try_from(x).ok().and_then(NonZeroU32::new).map(SeqOrUid::Value)
}

fn numbers(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
    cx.label("numbers");
    macro_rules! num {
        ($($t:ty),*) => {{
            let k = s.below(10);
            let mut i = 0;
            $(
                if k == i {
                    let mut draw = || -> $t {
                        match s.below(4) {
                            0 => *s.pick(&[<$t>::MIN, <$t>::MAX, 0, 1, <$t>::MAX - 1, <$t>::MIN + 1, 2, 100]),
                            1 => s.below(20) as $t,
                            2 => gen::u64_edge(s) as $t,
                            _ => s.u64_full() as $t,
                        }
                    };
                    let (a, b) = (draw(), draw());
                    cx.nontrivial(format!("{}{a} {b}", stringify!($t)).as_bytes());
                    cx.sample(|| format!("{} {a} {b}", stringify!($t)));
                    let (wa, wb) = (nz(a as i128), nz(b as i128));
                    let single = |w: Option<SeqOrUid>| w.map(Sequence::Single);
                    let set = |w: Option<Sequence>| w.map(SequenceSet::from);
                    let name = stringify!($t);
                    if SeqOrUid::try_from(a).ok() != wa
                        || Sequence::try_from(a).ok() != single(wa)
                        || SequenceSet::try_from(a).ok() != set(single(wa))
                    {
                        return Err(format!("number: {name} {a} gives {:?}", SequenceSet::try_from(a)));
                    }
                    let both = match (wa, wb) {
                        (Some(x), Some(y)) => Some(SequenceSet(Vec1::try_from(vec![Sequence::Single(x), Sequence::Single(y)]).unwrap())),
                        _ => None,
                    };
                    if SequenceSet::try_from(&[a, b][..]).ok() != both || SequenceSet::try_from(&[a, b][..0]).is_ok() {
                        return Err(format!("slice: {name} {a} {b} gives {:?}", SequenceSet::try_from(&[a, b][..])));
                    }
                    let r = wa.map(|x| Sequence::Range(x, SeqOrUid::Asterisk));
                    if Sequence::try_from(a..).ok() != r || SequenceSet::try_from(a..).ok() != set(r) {
                        return Err(format!("range-from: {name} {a}.. gives {:?}", Sequence::try_from(a..)));
                    }
                    let one = SeqOrUid::Value(NonZeroU32::MIN);
                    // `..x` and `..=x` start at the first number there is
                    let r = nz(a as i128 - 1).map(|x| Sequence::Range(one, x));
                    if Sequence::try_from(..a).ok() != r || SequenceSet::try_from(..a).ok() != set(r) {
                        return Err(format!("range-to: {name} ..{a} gives {:?}", Sequence::try_from(..a)));
                    }
                    let r = wa.map(|x| Sequence::Range(one, x));
                    if Sequence::try_from(..=a).ok() != r || SequenceSet::try_from(..=a).ok() != set(r) {
                        return Err(format!("range-to: {name} ..={a} gives {:?}", Sequence::try_from(..=a)));
                    }
                    // Empty Rust ranges (a >= b) have no counterpart, what happens to them is not specified.
                    if a < b {
                        let r = wa.and_then(|x| Some(Sequence::Range(x, nz(b as i128 - 1)?)));
                        if Sequence::try_from(a..b).ok() != r || SequenceSet::try_from(a..b).ok() != set(r) {
                            return Err(format!("range: {name} {a}..{b} gives {:?}", Sequence::try_from(a..b)));
                        }
                    }
                    if a <= b {
                        let r = wa.and_then(|x| Some(Sequence::Range(x, wb?)));
                        if Sequence::try_from(a..=b).ok() != r || SequenceSet::try_from(a..=b).ok() != set(r) {
                            return Err(format!("range: {name} {a}..={b} gives {:?}", Sequence::try_from(a..=b)));
                        }
                    }
                }
                i += 1;
            )*
            let _ = i;
        }};
    }
    num!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
    // NonZeroU32: its conversion takes the largest value for "*".
    let (a, b) = (gen::nz32(s), gen::nz32(s));
    let v = |x: NonZeroU32| if x == NonZeroU32::MAX { None } else { Some(u64::from(x.get())) };
    let got = |q: &Sequence| -> (Option<u64>, Option<u64>) {
        let e = |x: &SeqOrUid| match x {
            SeqOrUid::Value(n) if *n != NonZeroU32::MAX => Some(u64::from(n.get())),
            _ => None,
        };
        match q {
            Sequence::Single(x) => (e(x), e(x)),
            Sequence::Range(x, y) => (e(x), e(y)),
        }
    };
    let one = Some(1);
    let check = |what: &str, q: Sequence, set: SequenceSet, want: (Option<u64>, Option<u64>)| {
        if got(&q) != want || set != SequenceSet::from(q.clone()) {
            return Err(format!("non-zero: {what} of {a} and {b} gives {q:?}"));
        }
        Ok(())
    };
    check("single", Sequence::from(a), SequenceSet::from(a), (v(a), v(a)))?;
    check("from", Sequence::from(a..), SequenceSet::from(a..), (v(a), None))?;
    check("full", Sequence::from(..), SequenceSet::from(..), (one, None))?;
    check("to-inclusive", Sequence::from(..=a), SequenceSet::from(..=a), (one, v(a)))?;
    if a <= b {
        check("inclusive", Sequence::from(a..=b), SequenceSet::from(a..=b), (v(a), v(b)))?;
    }
    let pred = |x: NonZeroU32| Some(u64::from(x.get()) - 1);
    match (Sequence::try_from(..a), a.get() > 1) {
        (Ok(q), true) => check("to", q, SequenceSet::try_from(..a).map_err(|e| e.to_string())?, (one, pred(a)))?,
        (Err(_), false) => {}
        (r, _) => return Err(format!("non-zero: ..{a} gives {r:?}")),
    }
    if a < b {
        let q = Sequence::try_from(a..b).map_err(|e| format!("non-zero: {a}..{b} {e}"))?;
        check("range", q, SequenceSet::try_from(a..b).map_err(|e| e.to_string())?, (v(a), pred(b)))?;
    }
    let l: Vec<NonZeroU32> = vec![a, b];
    let x = SequenceSet::try_from(l.clone()).map_err(|e| e.to_string())?;
    if SequenceSet::try_from(&l[..]).ok().as_ref() != Some(&x)
        || x.0.as_ref().iter().map(|q| got(q).0).collect::<Vec<_>>() != vec![v(a), v(b)]
        || SequenceSet::try_from(Vec::<NonZeroU32>::new()).is_ok()
    {
        return Err(format!("non-zero: [{a}, {b}] gives {x:?}"));
    }
    Ok(())
}
