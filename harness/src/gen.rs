//! Generators for every message type, built on the choice tape. Everything is `'static`.
use std::{borrow::Cow, num::{NonZeroU32, NonZeroU64}};

use chrono::TimeZone;
use imap_codec::imap_types::{
    auth::{AuthMechanism, AuthenticateData},
    body::*,
    command::{Command, CommandBody},
    core::*,
    datetime::{DateTime, NaiveDate},
    envelope::{Address, Envelope},
    extensions::{
        binary::{Literal8, LiteralOrLiteral8},
        compress::CompressionAlgorithm,
        enable::CapabilityEnable,
        quota::{QuotaGet, QuotaSet, Resource},
        sort::{SortAlgorithm, SortCriterion, SortKey},
        thread::{Thread, ThreadingAlgorithm},
        uidplus::{UidElement, UidSet},
    },
    fetch::*,
    flag::*,
    mailbox::{ListCharString, ListMailbox, Mailbox, MailboxOther},
    response::*,
    search::SearchKey,
    secret::Secret,
    sequence::{SeqOrUid, Sequence, SequenceSet},
    status::{StatusDataItem, StatusDataItemName},
};
#[cfg(feature = "f_condstore")]
use imap_codec::imap_types::{
    command::{FetchModifier, SelectParameter, StoreModifier},
    extensions::condstore_qresync::{AttributeFlag, EntryTypeReq},
};
#[cfg(feature = "f_metadata")]
use imap_codec::imap_types::extensions::metadata::{Depth, Entry, EntryValue, GetMetadataOption, MetadataCode, MetadataResponse};
#[cfg(feature = "f_namespace")]
use imap_codec::imap_types::extensions::namespace::{Namespace, NamespaceResponseExtension};
#[cfg(feature = "f_utf8")]
use imap_codec::imap_types::extensions::utf8::{QuotedUtf8, Utf8Kind};

use crate::tape::Src;

// ----- numbers -----------------------------------------------------------------------------------

pub fn u64_edge(s: &mut Src) -> u64 {
    match s.below(12) {
        0..=2 => s.below(4),
        3 => s.below(300),
        4 => {
            // near a power of two
            let k = s.below(64);
            near(s, 1u128 << k)
        }
        5 => {
            // near a power of ten
            let k = s.below(20) as u32;
            near(s, 10u128.pow(k))
        }
        6 => near(s, u128::from(u64::MAX)),
        7 => near(s, u128::from(u32::MAX)),
        8 => near(s, i64::MAX as u128),
        9 => s.below(100_000),
        10 => {
            let sh = s.below(64);
            s.u64_full() >> sh
        }
        _ => s.u64_full(),
    }
}

fn near(s: &mut Src, c: u128) -> u64 {
    let d = [0i128, 1, -1, 2, -2][s.idx(5)];
    (c as i128 + d).clamp(0, i128::from(u64::MAX)) as u64
}

pub fn u32_edge(s: &mut Src) -> u32 {
    match s.below(11) {
        0..=2 => s.below(4) as u32,
        3 => s.below(300) as u32,
        4 => {
            let k = s.below(32);
            near(s, 1u128 << k).min(u64::from(u32::MAX)) as u32
        }
        5 => {
            let k = s.below(10) as u32;
            near(s, 10u128.pow(k)).min(u64::from(u32::MAX)) as u32
        }
        6 => near(s, u128::from(u32::MAX)).min(u64::from(u32::MAX)) as u32,
        7 => near(s, i32::MAX as u128) as u32,
        8 => s.below(100_000) as u32,
        _ => {
            let sh = s.below(32);
            (s.below(1 << 32) as u32) >> sh
        }
    }
}

pub fn nz32(s: &mut Src) -> NonZeroU32 {
    NonZeroU32::new(u32_edge(s)).unwrap_or(NonZeroU32::MIN)
}

#[allow(dead_code)]
pub fn nz64(s: &mut Src) -> NonZeroU64 {
    NonZeroU64::new(u64_edge(s)).unwrap_or(NonZeroU64::MIN)
}

// ----- bytes and strings -------------------------------------------------------------------------

/// Words that mean something somewhere in the grammar: good at provoking confusion.
pub const WORDS: &[&str] = &[
    "NIL", "INBOX", "A", "a1", "0", "1", "00", "42", "4294967295", "4294967296", "18446744073709551616", "OK", "NO",
    "BAD", "BYE", "PREAUTH", "UID", "ALL", "NOT", "OR", "TEXT", "BODY", "HEADER", "MIME", "FLAGS", "FETCH", "FAST",
    "FULL", "EXISTS", "RECENT", "SEARCH", "CHARSET", "UTF-8", "US-ASCII", "ENABLED", "PLAIN", "LOGIN", "XOAUTH2",
    "OAUTHBEARER", "SCRAM-SHA-1", "SCRAM-SHA-256", "SCRAM-SHA-1-PLUS", "SCRAM-SHA-256-PLUS", "SCRAM-SHA3-512",
    "SCRAM-SHA3-512-PLUS", "STORAGE", "MESSAGE", "MAILBOX", "ANNOTATION-STORAGE", "DISPLAY", "REFERENCES", "REFS",
    "ORDEREDSUBJECT", "DEFLATE", "CONDSTORE", "QRESYNC", "METADATA", "METADATA-SERVER", "UTF8=ACCEPT", "UTF8=ONLY",
    "UTF8=ALL", "IMAP4REV1", "IMAP4REV2", "AUTH=", "AUTH=PLAIN", "AUTH", "COMPRESS=DEFLATE", "COMPRESS=", "COMPRESS",
    "QUOTA", "QUOTASET", "QUOTA=RES-STORAGE", "QUOTA=RES-Foo", "QUOTA=RES-", "QUOTA=xres-storage", "QUOTA=",
    "LITERAL+", "LITERAL-", "MOVE", "ID", "UNSELECT", "SORT", "SORT=", "SORT=DISPLAY", "SORT=x", "THREAD",
    "THREAD=REFERENCES", "THREAD=ORDEREDSUBJECT", "THREAD=x", "THREAD=", "BINARY", "UIDPLUS", "NAMESPACE", "IDLE",
    "ENABLE", "SASL-IR", "LOGINDISABLED", "STARTTLS", "MAILBOX-REFERRALS", "LOGIN-REFERRALS", "Answered", "Deleted",
    "Draft", "Flagged", "Seen", "Noinferiors", "Noselect", "Marked", "Unmarked", "MODSEQ", "priv", "shared",
    "RFC822", "RFC822.SIZE", "HEADER.FIELDS", "DEFAULT", "MAXSIZE", "DEPTH", "infinity", "TOOMANY", "NOPRIVATE",
    "SILENT", "REVERSE", "SUBJECT", "ALERT", "PARSE", "READ-ONLY", "UIDNEXT", "Jan", "+0000", "-0000", "DONE",
    "BADCHARSET", "SENT", "SENTBEFORE", "SINCE", "ON", "KEYWORD", "EARLIER", "CHANGEDSINCE", "VANISHED", "7BIT",
    "BASE64", "8BIT", "ATTACHMENT", "mixed", "plain", "html", "en", "text", "message", "rfc822", "audio",
];

/// Names that exist in the wider IMAP world but have no meaning of their own in this library: they must
/// be kept as they are and never be taken for something else.
pub const NAMES: &[&str] = &[
    "ESEARCH", "SEARCHRES", "SPECIAL-USE", "CREATE-SPECIAL-USE", "CHILDREN", "LIST-EXTENDED", "LIST-STATUS",
    "LIST-MYRIGHTS", "WITHIN", "CONTEXT=SEARCH", "CONTEXT=SORT", "I18NLEVEL=1", "I18NLEVEL=2", "NOTIFY", "IMAP4",
    "IMAP4REV3", "UTF8=APPEND", "AUTH=CRAM-MD5", "AUTH=GSSAPI", "APPENDLIMIT", "APPENDLIMIT=1024", "CATENATE", "URLAUTH",
    "CONVERT", "ESORT", "FILTERS", "LANGUAGE", "MULTIAPPEND", "MULTISEARCH", "OBJECTID", "PREVIEW", "PARTIAL",
    "REPLACE", "RIGHTS=tekx", "SAVEDATE", "STATUS=SIZE", "UIDONLY", "UNAUTHENTICATE", "INPROGRESS", "JMAPACCESS",
    "XLIST", "X-GM-EXT-1", "SORT=DATE", "THREAD=REFS2", "THREAD=REF", "COMPRESS=GZIP", "COMPRESS=LZ4", "QUOTA=RES",
    "QUOTA=RES-MAILBOXES", "QRESYNC2", "CRAM-MD5", "DIGEST-MD5", "GSSAPI", "NTLM", "EXTERNAL", "ANONYMOUS",
    "SCRAM-SHA-512", "SCRAM-SHA-512-PLUS", "SCRAM-SHA-224", "SCRAM-SHA1", "SCRAM-SHA-1-", "XOAUTH", "OAUTH",
    "OAUTH10A", "PLAIN-CLIENTTOKEN", "KERBEROS_V4", "NonExistent", "HasChildren", "HasNoChildren", "Subscribed",
    "Remote", "Archive", "Drafts", "Junk", "Sent", "Trash", "Important", "Memos", "Scheduled", "Snoozed", "No-Select",
    "NoInferior", "NoInferiors2", "Mark", "$Forwarded", "$MDNSent", "$Junk", "$NotJunk", "$Phishing", "NonJunk",
    "Forwarded", "Answer", "Delete", "Read", "Unseen", "Important", "DELETED", "STORAGES", "MESSAGES", "MAILBOXES",
    "ANNOTATION", "AUTHENTICATIONFAILED", "AUTHORIZATIONFAILED", "EXPIRED", "PRIVACYREQUIRED", "CONTACTADMIN",
    "NOPERM", "INUSE", "EXPUNGEISSUED", "CORRUPTION", "SERVERBUG", "CLIENTBUG", "CANNOT", "LIMIT", "ALREADYEXISTS",
    "NONEXISTENT", "NOTSAVED", "HASCHILDREN", "UNAVAILABLE", "BADURL", "URLMECH", "NOTIFICATIONOVERFLOW", "USEATTR",
    "MAILBOXID", "UNDEFINED-FILTER", "READONLY", "READWRITE", "NEWNAME", "INBOX.", "INBOX/a", "INBOX ", "INBOXES",
    "GZIP", "LZ4", "ACL", "ANNOTATE-EXPERIMENT-1", "SHARED", "PRIVATE", "/shared", "UTF8", "ASCII", "utf-7",
];

/// Not what the code's syntax says, but `atom [SP 1*<any TEXT-CHAR except "]">]`.
const BROKEN_CODES: &[&str] = &[
    "ALERT x", "ALERTED", "PARSE x", "PARSER", "READ-ONLYX", "READ-WRITE x", "TRYCREATE a/b",
    "UIDNEXT", "UIDNEXT 0", "UIDNEXT x", "UIDNEXT  1", "UIDNEXT 1 ", "UIDVALIDITY -1", "UIDVALIDITY 4294967296",
    "UNSEEN 0", "UNSEEN 1 2", "UNSEEN (1)", "PERMANENTFLAGS", "PERMANENTFLAGS \\Seen", "PERMANENTFLAGS (\\Seen",
    "PERMANENTFLAGS ( )", "BADCHARSET UTF-8", "BADCHARSET (UTF-8", "BADCHARSET ()", "BADCHARSET (\"a)",
    "COMPRESSIONACTIVE x", "OVERQUOTA x", "TOOBIG 5", "METADATA", "METADATA MAXSIZE", "METADATA MAXSIZE x",
    "METADATA TOOMANY x", "METADATA X", "UNKNOWN-CTE x", "APPENDUID", "APPENDUID 1", "APPENDUID 0 1", "APPENDUID 1 *",
    "COPYUID 1 2", "COPYUID 1 2 *", "COPYUID 0 2 3", "UIDNOTSTICKY x", "HIGHESTMODSEQ 0", "HIGHESTMODSEQ x",
    "HIGHESTMODSEQ 18446744073709551616", "NOMODSEQ x", "MODIFIED", "MODIFIED 0", "MODIFIED 1,", "CLOSED x",
    "CAPABILITY", "CAPABILITY (A)", "CAPABILITY  A", "REFERRAL", "REFERRAL x",
];

/// Response codes this library has no variant for.
pub const OTHER_CODES: &[&str] = &[
    "AUTHENTICATIONFAILED", "AUTHORIZATIONFAILED", "EXPIRED", "PRIVACYREQUIRED", "CONTACTADMIN", "NOPERM", "INUSE",
    "EXPUNGEISSUED", "CORRUPTION", "SERVERBUG", "CLIENTBUG", "CANNOT", "LIMIT", "ALREADYEXISTS", "NONEXISTENT",
    "NOTSAVED", "HASCHILDREN", "UNAVAILABLE", "BADURL", "URLMECH", "BADCOMPARATOR", "ANNOTATE", "NOTIFICATIONOVERFLOW",
    "BADEVENT", "MAXCONVERTMESSAGES", "TEMPFAIL", "USEATTR", "UNDEFINED-FILTER", "NOUPDATE", "MAILBOXID", "READONLY",
    "READWRITE", "NEWNAME", "UIDREQUIRED", "UIDNEXT2", "MODSEQ", "INPROGRESS", "CREATE", "BIG", "OVER-QUOTA",
];

/// A word of the grammar or a name of the wider world.
pub fn any_word(s: &mut Src) -> &'static str {
    if s.one_in(3) { *s.pick(NAMES) } else { *s.pick(WORDS) }
}

fn recase(s: &mut Src, w: &str) -> String {
    match s.below(4) {
        0 => w.to_string(),
        1 => w.to_ascii_lowercase(),
        2 => w.to_ascii_uppercase(),
        _ => w
            .chars()
            .map(|c| if s.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
            .collect(),
    }
}

/// Length of a generated string.
pub fn strlen(s: &mut Src, min: usize) -> usize {
    let n = match s.below(40) {
        0..=3 => 0,
        4..=11 => 1,
        12..=17 => 2,
        18..=26 => s.range(3, 8) as usize,
        27..=33 => s.range(3, 24) as usize,
        34..=36 => s.range(8, 80) as usize,
        37..=38 => s.range(60, 300) as usize,
        _ => match s.below(10) {
            0..=3 => s.range(200, 1100) as usize,
            4..=6 => {
                let k = s.range(6, 13);
                (s.range(0, 4) as usize + (1 << k)).saturating_sub(2)
            }
            7..=8 => s.range(900, 5000) as usize,
            _ => match s.below(12) {
                11 => {
                    let k = s.range(14, 17);
                    (s.range(0, 200) as usize + (1 << k)).saturating_sub(100)
                }
                _ => s.range(4000, 9000) as usize,
            },
        },
    };
    let n = if self_limit(s) && n > 64 { 64 } else { n };
    s.budget -= (n as i64) / 16 + 1;
    n.max(min)
}

fn self_limit(s: &Src) -> bool {
    s.budget <= 0
}

fn chars_from(s: &mut Src, alphabet: &[u8], n: usize) -> String {
    // Long strings: repeat a short random block, so that tapes stay short.
    let block = n.min(48);
    let b: Vec<u8> = (0..block).map(|_| *s.pick(alphabet)).collect();
    let mut out = Vec::with_capacity(n);
    while out.len() < n {
        let k = (n - out.len()).min(b.len());
        out.extend_from_slice(&b[..k]);
    }
    String::from_utf8(out).unwrap()
}

pub fn is_atom_char(b: u8) -> bool {
    // ATOM-CHAR = any CHAR (%x01-7F) except atom-specials
    b > 0x1f && b < 0x7f && !b"(){ %*\"\\]".contains(&b)
}
pub fn is_astring_char(b: u8) -> bool {
    is_atom_char(b) || b == b']'
}
pub fn is_list_char(b: u8) -> bool {
    is_atom_char(b) || b"%*]".contains(&b)
}
pub fn is_tag_char(b: u8) -> bool {
    is_astring_char(b) && b != b'+'
}
pub fn is_text_char(b: u8) -> bool {
    (0x01..=0x7f).contains(&b) && b != b'\r' && b != b'\n'
}

pub struct Alphabets {
    pub atom: Vec<u8>,
    pub astring: Vec<u8>,
    pub list: Vec<u8>,
    pub tag: Vec<u8>,
    pub text: Vec<u8>,
}

pub fn alphabets() -> &'static Alphabets {
    static A: std::sync::OnceLock<Alphabets> = std::sync::OnceLock::new();
    A.get_or_init(|| {
        // 'a' first: the simplest character
        let mk = |f: fn(u8) -> bool| -> Vec<u8> {
            let mut v: Vec<u8> = (0u8..=255).filter(|b| f(*b)).collect();
            if let Some(p) = v.iter().position(|b| *b == b'a') {
                v.swap(0, p);
            }
            v
        };
        Alphabets {
            atom: mk(is_atom_char),
            astring: mk(is_astring_char),
            list: mk(is_list_char),
            tag: mk(is_tag_char),
            text: mk(is_text_char),
        }
    })
}

fn word_like(s: &mut Src, ok: fn(u8) -> bool, alphabet: &[u8], min: usize) -> String {
    let mut w = match s.below(8) {
        0..=2 => {
            let n = strlen(s, min);
            chars_from(s, alphabet, n)
        }
        3..=5 => {
            let w = any_word(s);
            recase(s, w)
        }
        6 => {
            let w = any_word(s);
            let mut w = recase(s, w);
            let c = *s.pick(alphabet) as char;
            match s.below(4) {
                0 | 1 => w.push(c),
                2 => w.insert(0, c),
                // A known word continued, like a registered extension of it.
                _ => {
                    w.push(*s.pick(&['-', '=', '.', '/', '_']));
                    let more = any_word(s);
                    w.push_str(&recase(s, more));
                }
            }
            w
        }
        _ => u64_edge(s).to_string(),
    };
    w.retain(|c| c.is_ascii() && ok(c as u8));
    while w.len() < min {
        w.push('a');
    }
    w
}

pub fn atom_str(s: &mut Src) -> String {
    word_like(s, is_atom_char, &alphabets().atom, 1)
}
pub fn atom(s: &mut Src) -> Atom<'static> {
    Atom::try_from(atom_str(s)).expect("valid atom")
}
pub fn atom_ext(s: &mut Src) -> AtomExt<'static> {
    AtomExt::try_from(word_like(s, is_astring_char, &alphabets().astring, 1)).expect("valid AtomExt")
}
pub fn tag(s: &mut Src) -> Tag<'static> {
    Tag::try_from(word_like(s, is_tag_char, &alphabets().tag, 1)).expect("valid tag")
}

const FRAGS: &[&str] = &[
    "\"", "\\", "\\\\", "\\\"", "{5}", "{5+}", "{0}", "[", "]", "[ALERT]", "(", ")", " ", "  ", "*", "%", "NIL", "~{3}",
    "\t", "\u{1}", "\u{7f}", "+", "=", "<", ">", "@", ":", ",", "a", "INBOX", "{4294967295}", "}", "{",
];

/// Any string of TEXT-CHARs, including quoted-specials.
pub fn text_chars(s: &mut Src, min: usize) -> String {
    match s.below(6) {
        0..=1 => {
            let n = strlen(s, min);
            chars_from(s, &alphabets().text, n)
        }
        2..=3 => word_like(s, is_text_char, &alphabets().text, min),
        4 => {
            let mut o = String::new();
            let n = s.range(min as u64, 6);
            for _ in 0..n {
                o.push_str(s.pick(FRAGS));
            }
            o
        }
        _ => {
            let mut o = word_like(s, is_text_char, &alphabets().text, min);
            let p = s.idx(o.len() + 1);
            o.insert_str(p, s.pick(FRAGS));
            o
        }
    }
}

/// Arbitrary bytes without NUL (literal) or with (literal8).
pub fn bytes(s: &mut Src, nul: bool) -> Vec<u8> {
    let mut v: Vec<u8> = match s.below(6) {
        0..=2 => text_chars(s, 0).into_bytes(),
        3 => {
            let mut o = Vec::new();
            for _ in 0..s.below(6) {
                match s.below(4) {
                    0 => o.extend_from_slice(b"\r\n"),
                    1 => o.extend_from_slice(s.pick(FRAGS).as_bytes()),
                    2 => o.push(*s.pick(&[b'\r', b'\n', 0x80, 0xff, 0, b'"'])),
                    _ => o.extend_from_slice(s.pick(WORDS).as_bytes()),
                }
            }
            o
        }
        _ => {
            let n = strlen(s, 0);
            let block: Vec<u8> = (0..n.min(48)).map(|_| s.byte()).collect();
            (0..n).map(|i| block[i % block.len()]).collect()
        }
    };
    if !nul {
        v.iter_mut().for_each(|b| {
            if *b == 0 {
                *b = 1
            }
        });
    }
    v
}

pub fn text(s: &mut Src) -> Text<'static> {
    Text::try_from(text_chars(s, 1)).expect("valid text")
}

/// A text that does not start with '[' (needed where no response code precedes it: the grammar is
/// ambiguous otherwise, upstream #301).
pub fn text_nocode(s: &mut Src) -> Text<'static> {
    let mut t = text_chars(s, 1);
    if t.starts_with('[') {
        t.insert(0, 'x');
    }
    Text::try_from(t).expect("valid text")
}

pub fn literal_mode(s: &mut Src) -> LiteralMode {
    if s.bool() { LiteralMode::NonSync } else { LiteralMode::Sync }
}

pub fn quoted(s: &mut Src) -> Quoted<'static> {
    Quoted::try_from(text_chars(s, 0)).expect("valid quoted")
}

pub fn literal(s: &mut Src) -> Literal<'static> {
    let mut l = Literal::try_from(bytes(s, false)).expect("valid literal");
    l.set_mode(literal_mode(s));
    l
}

pub fn literal8(s: &mut Src) -> Literal8<'static> {
    Literal8 { data: Cow::Owned(bytes(s, true)), mode: literal_mode(s) }
}

#[cfg(feature = "f_utf8")]
pub fn quoted_utf8(s: &mut Src) -> QuotedUtf8<'static> {
    let mut t = text_chars(s, 0);
    let at = s.idx(t.chars().count() + 1);
    let c = *s.pick(&['ä', '\u{80}', 'é', '€', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}', '\u{200b}']);
    let p = t.char_indices().nth(at).map(|x| x.0).unwrap_or(t.len());
    t.insert(p, c);
    QuotedUtf8(Cow::Owned(t))
}

pub fn istring(s: &mut Src) -> IString<'static> {
    match s.below(8) {
        0..=3 => IString::Quoted(quoted(s)),
        #[cfg(feature = "f_utf8")]
        7 => IString::QuotedUtf8(quoted_utf8(s)),
        _ => IString::Literal(literal(s)),
    }
}

pub fn nstring(s: &mut Src) -> NString<'static> {
    if s.below(3) == 0 { NString(None) } else { NString(Some(istring(s))) }
}

/// What real peers put into particular fields. The library gives none of these a meaning of their own in
/// those fields, so it must not treat them differently from any other string.
#[cfg(feature = "f_id")]
const ID_KEYS: &[&str] = &[
    "name", "version", "os", "os-version", "vendor", "support-url", "address", "date", "command", "arguments",
    "environment", "guid", "contact", "x-session-ext-id", "x-forward-proto", "user",
];
const PARAM_KEYS: &[&str] = &[
    "charset", "name", "boundary", "format", "delsp", "filename", "filename*", "filename*0*", "size", "type",
    "report-type", "creation-date", "micalg", "protocol", "us-ascii", "utf-8", "flowed", "iso-8859-1", "start",
];
const MEDIA: &[&str] = &[
    "text", "message", "application", "image", "audio", "video", "multipart", "plain", "rfc822", "html", "mixed",
    "alternative", "signed", "related", "report", "digest", "delivery-status", "disposition-notification", "global",
    "octet-stream", "pdf", "png", "calendar", "external-body", "partial", "x-unknown",
];
const ENCODINGS: &[&str] = &["7bit", "8bit", "binary", "base64", "quoted-printable", "x-uuencode", "identity"];
const DISPOSITIONS: &[&str] = &["inline", "attachment", "form-data", "signal", "x-unknown"];
const LANGUAGES: &[&str] = &["en", "de", "en-US", "i-klingon", "zh-Hant-TW", "x-private", "*", "mul"];
const HEADERS: &[&str] = &[
    "Subject", "From", "To", "Cc", "Bcc", "Date", "Message-ID", "In-Reply-To", "References", "Reply-To", "Sender",
    "Received", "Return-Path", "Content-Type", "Content-Transfer-Encoding", "MIME-Version", "DKIM-Signature",
    "List-Id", "X-Spam-Flag", "Resent-From", "Delivered-To", "Newsgroups", "X-Priority", "Importance",
];
#[cfg(feature = "f_metadata")]
const ENTRIES: &[&str] = &[
    "/private/comment", "/shared/comment", "/shared/admin", "/private/vendor/vendor.x/y", "/shared/vendor/", "/",
    "/private", "/shared", "/private/filters/values/x", "/shared/specialuse", "/private/specialuse", "//", "/a/",
    "/comment", "private/comment", "/private/*", "/private/%", "/SHARED/COMMENT", "/private/comment/",
];
#[cfg(feature = "f_namespace")]
const NAMESPACE_KEYS: &[&str] = &["TRANSLATION", "X-PARAM", "FLAG1", "FLAG2", "X-", "#news.", "#shared/", "~", "#mh/"];

/// Mostly one of `pool`, in some case.
fn typical(s: &mut Src, pool: &[&str]) -> Option<String> {
    s.bool().then(|| {
        let w = s.pick(pool);
        if s.bool() { w.to_string() } else { recase(s, w) }
    })
}

pub fn typical_istring(s: &mut Src, pool: &[&str]) -> IString<'static> {
    match typical(s, pool) {
        None => istring(s),
        Some(w) if s.one_in(3) => {
            let mut l = Literal::try_from(w.into_bytes()).expect("valid literal");
            l.set_mode(literal_mode(s));
            IString::Literal(l)
        }
        Some(w) => IString::Quoted(Quoted::try_from(w).expect("valid quoted")),
    }
}

pub fn typical_astring(s: &mut Src, pool: &[&str]) -> AString<'static> {
    if s.bool() {
        return AString::String(typical_istring(s, pool));
    }
    match typical(s, pool).map(AtomExt::try_from) {
        Some(Ok(a)) => AString::Atom(a),
        _ => astring(s),
    }
}

pub fn nstring8(s: &mut Src) -> NString8<'static> {
    if s.bool() { NString8::NString(nstring(s)) } else { NString8::Literal8(literal8(s)) }
}

pub fn astring(s: &mut Src) -> AString<'static> {
    if s.bool() { AString::String(istring(s)) } else { AString::Atom(atom_ext(s)) }
}

pub fn quoted_char(s: &mut Src) -> QuotedChar {
    let c = *s.pick(&alphabets().text) as char;
    let c = if s.one_in(3) { *s.pick(&['"', '\\', '/', '.']) } else { c };
    QuotedChar::try_from(c).expect("valid QuotedChar")
}

pub fn charset(s: &mut Src) -> Charset<'static> {
    if s.bool() { Charset::Quoted(quoted(s)) } else { Charset::Atom(atom(s)) }
}

pub fn mailbox(s: &mut Src) -> Mailbox<'static> {
    if s.below(5) == 0 {
        return Mailbox::Inbox;
    }
    let a = astring(s);
    if a.as_ref().eq_ignore_ascii_case(b"inbox") {
        Mailbox::Inbox
    } else {
        Mailbox::Other(MailboxOther::try_from(a).expect("not inbox"))
    }
}

pub fn list_mailbox(s: &mut Src) -> ListMailbox<'static> {
    if s.bool() {
        ListMailbox::String(istring(s))
    } else {
        let t = word_like(s, is_list_char, &alphabets().list, 1);
        ListMailbox::Token(ListCharString::try_from(t).expect("valid list-mailbox"))
    }
}

pub fn list_mailbox_token(s: &mut Src) -> Vec<u8> {
    word_like(s, is_list_char, &alphabets().list, 1).into_bytes()
}

pub fn vec1<T: Clone + std::fmt::Debug>(s: &mut Src, f: impl FnMut(&mut Src) -> T) -> Vec1<T> {
    Vec1::try_from(s.vec(1, f)).expect("non-empty")
}

// ----- dates -------------------------------------------------------------------------------------

pub fn chrono_date(s: &mut Src) -> chrono::NaiveDate {
    let y = match s.below(6) {
        0 => 1994,
        1 => s.range(1900, 2100),
        2 => *s.pick(&[0u64, 1, 9, 10, 99, 100, 999, 1000, 1970, 2000, 9998, 9999]),
        _ => s.range(0, 9999),
    } as i32;
    let m = s.range(1, 12) as u32;
    let d = match s.below(4) {
        0 => 1,
        1 => s.range(28, 31) as u32,
        _ => s.range(1, 31) as u32,
    };
    (1..=d).rev().find_map(|d| chrono::NaiveDate::from_ymd_opt(y, m, d)).unwrap()
}

pub fn naive_date(s: &mut Src) -> NaiveDate {
    NaiveDate::try_from(chrono_date(s)).expect("valid date")
}

pub fn datetime(s: &mut Src) -> DateTime {
    let d = chrono_date(s);
    let (h, m, sec) = (s.below(24) as u32, s.below(60) as u32, s.below(60) as u32);
    let (h, m, sec) = match s.below(4) {
        0 => (0, 0, 0),
        1 => (23, 59, 59),
        _ => (h, m, sec),
    };
    // minutes east of UTC; the wire format is (+|-)hhmm
    let off = match s.below(6) {
        0 => 0,
        1 => *s.pick(&[60i32, -60, 330, -210, 1439, -1439, 1, -1, 30, -30, 720, -720, 840, 599, -599, 600, -600]),
        _ => s.below(2879) as i32 - 1439,
    };
    let ndt = d.and_hms_opt(h, m, sec).unwrap();
    let off = chrono::FixedOffset::east_opt(off * 60).unwrap();
    let dt = off.from_local_datetime(&ndt).single();
    match dt.and_then(|dt| DateTime::try_from(dt).ok()) {
        Some(d) => d,
        None => panic!("harness: {ndt} {off} rejected by DateTime"),
    }
}

// ----- sequence sets -----------------------------------------------------------------------------

pub fn seq_or_uid(s: &mut Src, base: u32) -> SeqOrUid {
    match s.below(8) {
        0 => SeqOrUid::Asterisk,
        1..=2 => SeqOrUid::Value(nz32(s)),
        3..=6 => {
            // clustered, to provoke overlaps and adjacency
            let d = s.below(12) as u32;
            SeqOrUid::Value(NonZeroU32::new(base.saturating_add(d)).unwrap_or(NonZeroU32::MIN))
        }
        _ => {
            let d = s.below(4) as u32;
            SeqOrUid::Value(NonZeroU32::new(u32::MAX - d).unwrap())
        }
    }
}

pub fn sequence(s: &mut Src, base: u32) -> Sequence {
    if s.bool() {
        Sequence::Range(seq_or_uid(s, base), seq_or_uid(s, base))
    } else {
        Sequence::Single(seq_or_uid(s, base))
    }
}

pub fn sequence_set(s: &mut Src) -> SequenceSet {
    if s.one_in(8) {
        // apart from each other, up or down: stays long when normalised
        let down = s.bool();
        let mut at = if down { u32::MAX - 1 } else { 1 };
        return SequenceSet(vec1(s, |s| {
            let (step, len) = (2 + s.below(9) as u32, s.below(3) as u32);
            at = if down { at.saturating_sub(step + len).max(1) } else { at.saturating_add(step) };
            let a = SeqOrUid::Value(NonZeroU32::new(at).unwrap_or(NonZeroU32::MIN));
            if len == 0 {
                return Sequence::Single(a);
            }
            let end = at.saturating_add(len);
            if !down {
                at = end;
            }
            Sequence::Range(a, SeqOrUid::Value(NonZeroU32::new(end).unwrap_or(NonZeroU32::MIN)))
        }));
    }
    let base = match s.below(4) {
        0 => 1,
        1 => s.range(1, 30) as u32,
        2 => u32::MAX - s.below(16) as u32,
        _ => u32_edge(s),
    };
    SequenceSet(vec1(s, |s| sequence(s, base)))
}

// ----- flags etc. --------------------------------------------------------------------------------

/// `allow_recent`: "\Recent" has a variant of its own in `FlagFetch`, so `Flag` cannot carry it there.
pub fn flag(s: &mut Src, allow_recent: bool) -> Flag<'static> {
    match s.below(9) {
        0 => Flag::Answered,
        1 => Flag::Deleted,
        2 => Flag::Draft,
        3 => Flag::Flagged,
        4 => Flag::Seen,
        5..=6 => Flag::keyword(atom(s)),
        _ => {
            let a = atom_str(s);
            let a = if !allow_recent && a.eq_ignore_ascii_case("recent") { "x".to_string() } else { a };
            Flag::system(Atom::try_from(a).unwrap())
        }
    }
}

pub fn flag_fetch(s: &mut Src) -> FlagFetch<'static> {
    if s.below(5) == 0 { FlagFetch::Recent } else { FlagFetch::Flag(flag(s, false)) }
}

pub fn flag_perm(s: &mut Src) -> FlagPerm<'static> {
    if s.below(5) == 0 { FlagPerm::Asterisk } else { FlagPerm::Flag(flag(s, true)) }
}

pub fn flag_name(s: &mut Src) -> FlagNameAttribute<'static> {
    match s.below(6) {
        0 => FlagNameAttribute::Noinferiors,
        1 => FlagNameAttribute::Noselect,
        2 => FlagNameAttribute::Marked,
        3 => FlagNameAttribute::Unmarked,
        _ => FlagNameAttribute::from(atom(s)),
    }
}

pub fn auth_mechanism(s: &mut Src) -> AuthMechanism<'static> {
    match s.below(13) {
        0 => AuthMechanism::Plain,
        1 => AuthMechanism::Login,
        2 => AuthMechanism::OAuthBearer,
        3 => AuthMechanism::XOAuth2,
        4 => AuthMechanism::ScramSha1,
        5 => AuthMechanism::ScramSha1Plus,
        6 => AuthMechanism::ScramSha256,
        7 => AuthMechanism::ScramSha256Plus,
        8 => AuthMechanism::ScramSha3_512,
        9 => AuthMechanism::ScramSha3_512Plus,
        _ => AuthMechanism::from(atom(s)),
    }
}

pub fn resource(s: &mut Src) -> Resource<'static> {
    match s.below(6) {
        0 => Resource::Storage,
        1 => Resource::Message,
        2 => Resource::Mailbox,
        3 => Resource::AnnotationStorage,
        _ => Resource::from(atom(s)),
    }
}

pub fn sort_algorithm(s: &mut Src) -> SortAlgorithm<'static> {
    if s.below(3) == 0 { SortAlgorithm::Display } else { SortAlgorithm::from(atom(s)) }
}

pub fn threading_algorithm(s: &mut Src) -> ThreadingAlgorithm<'static> {
    match s.below(4) {
        0 => ThreadingAlgorithm::OrderedSubject,
        1 => ThreadingAlgorithm::References,
        _ => ThreadingAlgorithm::from(atom(s)),
    }
}

#[cfg(feature = "f_utf8")]
pub fn utf8_kind(s: &mut Src) -> Utf8Kind {
    if s.bool() { Utf8Kind::Only } else { Utf8Kind::Accept }
}

pub fn capability(s: &mut Src) -> Capability<'static> {
    match s.below(32) {
        0 => Capability::Imap4Rev1,
        1 => Capability::Auth(auth_mechanism(s)),
        2 => Capability::LoginDisabled,
        #[cfg(feature = "f_starttls")]
        3 => Capability::StartTls,
        4 => Capability::Idle,
        #[cfg(feature = "f_mailbox_referrals")]
        5 => Capability::MailboxReferrals,
        #[cfg(feature = "f_login_referrals")]
        6 => Capability::LoginReferrals,
        7 => Capability::SaslIr,
        8 => Capability::Enable,
        9 => Capability::Compress { algorithm: CompressionAlgorithm::Deflate },
        10 => Capability::Quota,
        11 => Capability::QuotaRes(resource(s)),
        12 => Capability::QuotaSet,
        13 => Capability::LiteralPlus,
        14 => Capability::LiteralMinus,
        15 => Capability::Move,
        #[cfg(feature = "f_id")]
        16 => Capability::Id,
        17 => Capability::Unselect,
        18 => Capability::Sort(s.opt(sort_algorithm)),
        19 => Capability::Thread(threading_algorithm(s)),
        #[cfg(feature = "f_metadata")]
        20 => Capability::Metadata,
        #[cfg(feature = "f_metadata")]
        21 => Capability::MetadataServer,
        22 => Capability::Binary,
        23 => Capability::UidPlus,
        #[cfg(feature = "f_condstore")]
        24 => Capability::CondStore,
        #[cfg(feature = "f_condstore")]
        25 => Capability::QResync,
        #[cfg(feature = "f_namespace")]
        26 => Capability::Namespace,
        #[cfg(feature = "f_utf8")]
        27 => Capability::Utf8(utf8_kind(s)),
        _ => Capability::from(atom(s)),
    }
}

pub fn capability_enable(s: &mut Src) -> CapabilityEnable<'static> {
    match s.below(7) {
        #[cfg(feature = "f_condstore")]
        0 => CapabilityEnable::CondStore,
        #[cfg(feature = "f_metadata")]
        1 => CapabilityEnable::Metadata,
        #[cfg(feature = "f_metadata")]
        2 => CapabilityEnable::MetadataServer,
        #[cfg(feature = "f_utf8")]
        3 => CapabilityEnable::Utf8(utf8_kind(s)),
        _ => CapabilityEnable::from(atom(s)),
    }
}

// ----- search ------------------------------------------------------------------------------------

/// Nesting (number of NOT/OR/parenthesised levels above a leaf) that the decoder supports.
pub const SEARCH_NESTING: u32 = 8;

pub fn search_keys(s: &mut Src) -> Vec1<SearchKey<'static>> {
    vec1(s, |s| {
        let d = nesting(s, SEARCH_NESTING);
        search_key(s, d)
    })
}

pub fn nesting(s: &mut Src, max: u32) -> u32 {
    match s.below(8) {
        0..=4 => s.below(3).min(u64::from(max)) as u32,
        5..=6 => s.below(u64::from(max) + 1) as u32,
        _ => max,
    }
}

pub fn search_key(s: &mut Src, depth: u32) -> SearchKey<'static> {
    use SearchKey::*;
    if depth > 0 && (s.below(4) != 0 || depth >= 5) {
        return match s.below(3) {
            0 => Not(Box::new(search_key(s, depth - 1))),
            1 => {
                let small = depth.min(2) - 1;
                let a = search_key(s, depth - 1);
                let b = s.same(&a, |s| search_key(s, small));
                if s.bool() { Or(Box::new(a), Box::new(b)) } else { Or(Box::new(b), Box::new(a)) }
            }
            _ => {
                let small = depth.min(2) - 1;
                let mut v = vec![search_key(s, depth - 1)];
                for _ in 0..breadth(s, 0) {
                    let k = s.same(&v[0], |s| search_key(s, small));
                    let p = s.idx(v.len() + 1);
                    v.insert(p, k);
                }
                And(Vec1::try_from(v).unwrap())
            }
        };
    }
    match s.below(35) {
        0 => All,
        1 => SequenceSet(sequence_set(s)),
        2 => Answered,
        3 => Bcc(astring(s)),
        4 => Before(naive_date(s)),
        5 => Body(astring(s)),
        6 => Cc(astring(s)),
        7 => Deleted,
        8 => Draft,
        9 => Flagged,
        10 => From(astring(s)),
        11 => Header(typical_astring(s, HEADERS), astring(s)),
        12 => Keyword(atom(s)),
        13 => Larger(u32_edge(s)),
        14 => New,
        15 => Old,
        16 => On(naive_date(s)),
        17 => Recent,
        18 => Seen,
        19 => SentBefore(naive_date(s)),
        20 => SentOn(naive_date(s)),
        21 => SentSince(naive_date(s)),
        22 => Since(naive_date(s)),
        23 => Smaller(u32_edge(s)),
        24 => Subject(astring(s)),
        25 => Text(astring(s)),
        26 => To(astring(s)),
        27 => Uid(sequence_set(s)),
        28 => Unanswered,
        29 => Undeleted,
        30 => Undraft,
        31 => Unflagged,
        32 => Unkeyword(atom(s)),
        33 => Unseen,
        #[cfg(feature = "f_condstore")]
        34 => ModSequence {
            entry: s.opt(|s| {
                (
                    match s.below(8) {
                        0 => AttributeFlag::Answered,
                        1 => AttributeFlag::Deleted,
                        2 => AttributeFlag::Draft,
                        3 => AttributeFlag::Flagged,
                        4 => AttributeFlag::Seen,
                        5 => AttributeFlag::keyword(atom(s)),
                        _ => AttributeFlag::system(atom(s)),
                    },
                    s.pick(&[EntryTypeReq::All, EntryTypeReq::Private, EntryTypeReq::Shared]).clone(),
                )
            }),
            modseq: u64_edge(s),
        },
        _ => All,
    }
}

pub fn sort_criterion(s: &mut Src) -> SortCriterion {
    SortCriterion {
        reverse: s.bool(),
        key: s
            .pick(&[
                SortKey::Arrival,
                SortKey::Cc,
                SortKey::Date,
                SortKey::From,
                SortKey::Size,
                SortKey::Subject,
                SortKey::To,
                SortKey::DisplayFrom,
                SortKey::DisplayTo,
            ])
            .clone(),
    }
}

// ----- fetch -------------------------------------------------------------------------------------

pub fn part(s: &mut Src) -> Part {
    Part(vec1(s, nz32))
}

pub fn section(s: &mut Src) -> Section<'static> {
    match s.below(6) {
        0 => Section::Part(part(s)),
        1 => Section::Header(s.opt(part)),
        2 => Section::HeaderFields(s.opt(part), vec1(s, |s| typical_astring(s, HEADERS))),
        3 => Section::HeaderFieldsNot(s.opt(part), vec1(s, |s| typical_astring(s, HEADERS))),
        4 => Section::Text(s.opt(part)),
        _ => Section::Mime(part(s)),
    }
}

pub fn partial(s: &mut Src) -> (u32, NonZeroU32) {
    (u32_edge(s), nz32(s))
}

pub fn item_name(s: &mut Src) -> MessageDataItemName<'static> {
    use MessageDataItemName::*;
    match s.below(17) {
        0 => Body,
        1 | 14 | 15 => BodyExt { section: s.opt(section), partial: s.opt(partial), peek: s.bool() },
        2 => BodyStructure,
        3 => Envelope,
        4 => Flags,
        5 => InternalDate,
        6 => Rfc822,
        7 => Rfc822Header,
        8 => Rfc822Size,
        9 => Rfc822Text,
        10 => Uid,
        11 => Binary { section: s.vec(0, nz32), partial: s.opt(partial), peek: s.bool() },
        12 => BinarySize { section: s.vec(0, nz32) },
        #[cfg(feature = "f_condstore")]
        13 => ModSeq,
        _ => Flags,
    }
}

pub fn address(s: &mut Src) -> Address<'static> {
    let name = nstring(s);
    let mailbox = s.same(&name, nstring);
    let host = s.same(&mailbox, nstring);
    Address { name, adl: nstring(s), mailbox, host }
}

pub fn envelope(s: &mut Src) -> Envelope<'static> {
    let addresses = |s: &mut Src| s.vec(0, address);
    let (date, subject) = (nstring(s), nstring(s));
    let from = addresses(s);
    let sender = s.same(&from, addresses);
    let reply_to = s.same(&from, addresses);
    let to = s.same(&reply_to, addresses);
    let cc = s.same(&to, addresses);
    let bcc = s.same(&cc, addresses);
    let in_reply_to = nstring(s);
    let message_id = s.same(&in_reply_to, nstring);
    Envelope { date, subject, from, sender, reply_to, to, cc, bcc, in_reply_to, message_id }
}

fn params(s: &mut Src) -> Vec<(IString<'static>, IString<'static>)> {
    s.vec(0, |s| (typical_istring(s, PARAM_KEYS), typical_istring(s, PARAM_KEYS)))
}

fn basic_fields(s: &mut Src) -> BasicFields<'static> {
    let parameter_list = params(s);
    let id = nstring(s);
    let description = s.same(&id, nstring);
    BasicFields {
        parameter_list,
        id,
        description,
        content_transfer_encoding: typical_istring(s, ENCODINGS),
        size: u32_edge(s),
    }
}

pub const BODY_NESTING: u32 = 6;
pub const BODY_EXT_NESTING: u32 = 7;

pub fn body_extension(s: &mut Src, depth: u32) -> BodyExtension<'static> {
    if depth > 0 && (s.bool() || depth >= 4) {
        let mut v = vec![body_extension(s, depth - 1)];
        for _ in 0..breadth(s, 0) {
            let k = s.same(&v[0], |s| body_extension(s, depth.min(2) - 1));
            let p = s.idx(v.len() + 1);
            v.insert(p, k);
        }
        return BodyExtension::List(Vec1::try_from(v).unwrap());
    }
    if s.bool() { BodyExtension::Number(u32_edge(s)) } else { BodyExtension::NString(nstring(s)) }
}

fn disposition(s: &mut Src) -> Disposition<'static> {
    Disposition {
        disposition: s.opt(|s| (typical_istring(s, DISPOSITIONS), params(s))),
        tail: s.opt(|s| Language {
            language: s.vec(0, |s| typical_istring(s, LANGUAGES)),
            tail: s.opt(|s| Location {
                location: nstring(s),
                extensions: s.vec(0, |s| {
                    let d = nesting(s, BODY_EXT_NESTING);
                    body_extension(s, d)
                }),
            }),
        }),
    }
}

pub fn single_ext(s: &mut Src) -> SinglePartExtensionData<'static> {
    SinglePartExtensionData { md5: nstring(s), tail: s.opt(disposition) }
}

pub fn body_structure(s: &mut Src, depth: u32) -> BodyStructure<'static> {
    if depth > 0 && (s.below(4) != 0 || depth >= 4) {
        if s.bool() {
            return BodyStructure::Single {
                body: Body {
                    basic: basic_fields(s),
                    specific: SpecificFields::Message {
                        envelope: Box::new(envelope(s)),
                        body_structure: Box::new(body_structure(s, depth - 1)),
                        number_of_lines: u32_edge(s),
                    },
                },
                extension_data: s.opt(single_ext),
            };
        }
        let mut v = vec![body_structure(s, depth - 1)];
        for _ in 0..breadth(s, 0) {
            let k = s.same(&v[0], |s| body_structure(s, depth.min(2) - 1));
            let p = s.idx(v.len() + 1);
            v.insert(p, k);
        }
        return BodyStructure::Multi {
            bodies: Vec1::try_from(v).unwrap(),
            subtype: typical_istring(s, MEDIA),
            extension_data: s.opt(|s| MultiPartExtensionData {
                parameter_list: params(s),
                tail: s.opt(disposition),
            }),
        };
    }
    BodyStructure::Single {
        body: Body {
            basic: basic_fields(s),
            specific: if s.bool() {
                SpecificFields::Text { subtype: typical_istring(s, MEDIA), number_of_lines: u32_edge(s) }
            } else {
                let ty = typical_istring(s, MEDIA);
                let sub = typical_istring(s, MEDIA);
                // These media types have variants of their own.
                let clash = ty.as_ref().eq_ignore_ascii_case(b"text")
                    || (ty.as_ref().eq_ignore_ascii_case(b"message")
                        && sub.as_ref().eq_ignore_ascii_case(b"rfc822"));
                let ty = if clash { IString::Quoted(Quoted::try_from("audio").unwrap()) } else { ty };
                SpecificFields::Basic { r#type: ty, subtype: sub }
            },
        },
        extension_data: s.opt(single_ext),
    }
}

pub fn body_structure_any(s: &mut Src) -> BodyStructure<'static> {
    let d = nesting(s, BODY_NESTING);
    body_structure(s, d)
}

pub fn item(s: &mut Src) -> MessageDataItem<'static> {
    use MessageDataItem::*;
    match s.below(16) {
        0 => Flags(s.vec(0, flag_fetch)),
        1 | 14 => BodyExt { section: s.opt(section), origin: s.opt(u32_edge), data: nstring(s) },
        2 | 15 => BodyStructure(body_structure_any(s)),
        3 => Envelope(envelope(s)),
        4 => Body(body_structure_any(s)),
        5 => InternalDate(datetime(s)),
        6 => Rfc822(nstring(s)),
        7 => Rfc822Header(nstring(s)),
        8 => Rfc822Size(u32_edge(s)),
        9 => Rfc822Text(nstring(s)),
        10 => Uid(nz32(s)),
        11 => Binary { section: s.vec(0, nz32), value: nstring8(s) },
        12 => BinarySize { section: s.vec(0, nz32), size: u32_edge(s) },
        #[cfg(feature = "f_condstore")]
        13 => ModSeq(nz64(s)),
        _ => Uid(nz32(s)),
    }
}

// ----- extension data ----------------------------------------------------------------------------

/// How many further children an inner node gets.
fn breadth(s: &mut Src, min: usize) -> usize {
    if s.budget > 0 && s.one_in(80) { s.range(5, 60) as usize } else { s.len(min) }
}

pub const THREAD_NESTING: u32 = 7;

pub fn thread(s: &mut Src, depth: u32) -> Thread {
    if depth > 0 && (s.below(4) != 0 || depth >= 4) {
        let mut v = vec![thread(s, depth - 1)];
        let n = breadth(s, 1);
        for _ in 0..n {
            let k = s.same(&v[0], |s| thread(s, depth.min(2) - 1));
            let p = s.idx(v.len() + 1);
            v.insert(p, k);
        }
        let answers = Vec2::try_from(v).unwrap();
        return if s.bool() {
            Thread::Nested { answers }
        } else {
            Thread::Members { prefix: vec1(s, nz32), answers: Some(answers) }
        };
    }
    Thread::Members { prefix: vec1(s, nz32), answers: None }
}

pub fn uid_set(s: &mut Src) -> UidSet {
    UidSet(vec1(s, |s| {
        if s.bool() { UidElement::Range(nz32(s), nz32(s)) } else { UidElement::Single(nz32(s)) }
    }))
}

pub fn status_name(s: &mut Src) -> StatusDataItemName {
    match s.below(8) {
        0 => StatusDataItemName::Messages,
        1 => StatusDataItemName::Recent,
        2 => StatusDataItemName::UidNext,
        3 => StatusDataItemName::UidValidity,
        4 => StatusDataItemName::Unseen,
        5 => StatusDataItemName::Deleted,
        6 => StatusDataItemName::DeletedStorage,
        #[cfg(feature = "f_condstore")]
        _ => StatusDataItemName::HighestModSeq,
        #[cfg(not(feature = "f_condstore"))]
        _ => StatusDataItemName::Messages,
    }
}

pub fn status_item(s: &mut Src) -> StatusDataItem {
    match s.below(8) {
        0 => StatusDataItem::Messages(u32_edge(s)),
        1 => StatusDataItem::Recent(u32_edge(s)),
        2 => StatusDataItem::UidNext(nz32(s)),
        3 => StatusDataItem::UidValidity(nz32(s)),
        4 => StatusDataItem::Unseen(u32_edge(s)),
        5 => StatusDataItem::Deleted(u32_edge(s)),
        6 => StatusDataItem::DeletedStorage(u64_edge(s)),
        #[cfg(feature = "f_condstore")]
        _ => StatusDataItem::HighestModSeq(u64_edge(s)),
        #[cfg(not(feature = "f_condstore"))]
        _ => StatusDataItem::Messages(u32_edge(s)),
    }
}

#[cfg(feature = "f_condstore")]
pub fn select_params(s: &mut Src) -> Vec<SelectParameter> {
    s.vec(0, |s| {
        if s.bool() {
            SelectParameter::CondStore
        } else {
            let (uid_validity, mod_sequence_value) = (nz32(s), nz64(s));
            let known_uids = s.opt(sequence_set);
            let seq_match_data = s.opt(|s| {
                let a = sequence_set(s);
                let b = match &known_uids {
                    Some(k) if s.bool() => s.same(k, sequence_set),
                    _ => s.same(&a, sequence_set),
                };
                (a, b)
            });
            SelectParameter::QResync { uid_validity, mod_sequence_value, known_uids, seq_match_data }
        }
    })
}

#[cfg(feature = "f_id")]
pub fn id_params(s: &mut Src) -> Option<Vec<(IString<'static>, NString<'static>)>> {
    s.opt(|s| s.vec(0, |s| (typical_istring(s, ID_KEYS), nstring(s))))
}

#[cfg(feature = "f_metadata")]
pub fn entry(s: &mut Src) -> Entry<'static> {
    Entry::try_from(typical_astring(s, ENTRIES)).unwrap()
}

#[cfg(feature = "f_namespace")]
fn namespaces(s: &mut Src) -> Vec<Namespace<'static>> {
    s.vec(0, |s| Namespace {
        prefix: typical_istring(s, NAMESPACE_KEYS),
        delimiter: s.opt(quoted_char),
        extensions: s.vec(0, |s| NamespaceResponseExtension {
            key: typical_istring(s, NAMESPACE_KEYS),
            values: vec1(s, |s| typical_istring(s, NAMESPACE_KEYS)),
        }),
    })
}

// ----- messages ----------------------------------------------------------------------------------

pub fn secret_bytes(s: &mut Src) -> Secret<Cow<'static, [u8]>> {
    Secret::new(Cow::Owned(bytes(s, true)))
}

pub fn command_body(s: &mut Src) -> CommandBody<'static> {
    use CommandBody::*;
    match s.below(50) {
        0 => Noop,
        1 => Capability,
        2 => Logout,
        #[cfg(feature = "f_starttls")]
        3 => StartTLS,
        4 | 5 => Authenticate { mechanism: auth_mechanism(s), initial_response: s.opt(secret_bytes) },
        6 | 7 => {
            let username = astring(s);
            let password = Secret::new(s.same(&username, astring));
            Login { username, password }
        }
        8 => Select {
            mailbox: mailbox(s),
            #[cfg(feature = "f_condstore")]
            parameters: select_params(s),
        },
        9 => Unselect,
        10 => Examine {
            mailbox: mailbox(s),
            #[cfg(feature = "f_condstore")]
            parameters: select_params(s),
        },
        11 => Create { mailbox: mailbox(s) },
        12 => Delete { mailbox: mailbox(s) },
        13 => {
            let from = mailbox(s);
            let to = s.same(&from, mailbox);
            Rename { from, to }
        }
        14 => Subscribe { mailbox: mailbox(s) },
        15 => Unsubscribe { mailbox: mailbox(s) },
        16 => List { reference: mailbox(s), mailbox_wildcard: list_mailbox(s) },
        17 => Lsub { reference: mailbox(s), mailbox_wildcard: list_mailbox(s) },
        18 => Status { mailbox: mailbox(s), item_names: Cow::Owned(s.vec(0, status_name)) },
        19 | 20 => Append {
            mailbox: mailbox(s),
            flags: s.vec(0, |s| flag(s, true)),
            date: s.opt(datetime),
            message: if s.bool() {
                LiteralOrLiteral8::Literal(literal(s))
            } else {
                LiteralOrLiteral8::Literal8(literal8(s))
            },
        },
        21 => Check,
        22 => Close,
        23 => Expunge,
        24 => ExpungeUid { sequence_set: sequence_set(s) },
        25..=27 => Search { charset: s.opt(charset), criteria: search_keys(s), uid: s.bool() },
        28 => Sort {
            sort_criteria: vec1(s, sort_criterion),
            charset: charset(s),
            search_criteria: search_keys(s),
            uid: s.bool(),
        },
        29 => Thread {
            algorithm: threading_algorithm(s),
            charset: charset(s),
            search_criteria: search_keys(s),
            uid: s.bool(),
        },
        30..=32 => Fetch {
            sequence_set: sequence_set(s),
            macro_or_item_names: match s.below(5) {
                0 => MacroOrMessageDataItemNames::Macro(s.pick(&[Macro::Fast, Macro::All, Macro::Full]).clone()),
                _ => MacroOrMessageDataItemNames::MessageDataItemNames(s.vec(1, item_name)),
            },
            uid: s.bool(),
            #[cfg(feature = "f_condstore")]
            modifiers: s.vec(0, |s| {
                if s.bool() { FetchModifier::Vanished } else { FetchModifier::ChangedSince(nz64(s)) }
            }),
        },
        33 | 34 => Store {
            sequence_set: sequence_set(s),
            kind: *s.pick(&[StoreType::Replace, StoreType::Add, StoreType::Remove]),
            response: *s.pick(&[StoreResponse::Answer, StoreResponse::Silent]),
            flags: s.vec(0, |s| flag(s, true)),
            uid: s.bool(),
            #[cfg(feature = "f_condstore")]
            modifiers: s.vec(0, |s| StoreModifier::UnchangedSince(u64_edge(s))),
        },
        35 => Copy { sequence_set: sequence_set(s), mailbox: mailbox(s), uid: s.bool() },
        36 => Idle,
        37 => Enable { capabilities: vec1(s, capability_enable) },
        38 => Compress { algorithm: CompressionAlgorithm::Deflate },
        39 => GetQuota { root: astring(s) },
        40 => GetQuotaRoot { mailbox: mailbox(s) },
        41 => SetQuota {
            root: astring(s),
            quotas: s.vec(0, |s| QuotaSet { resource: resource(s), limit: u64_edge(s) }),
        },
        42 => Move { sequence_set: sequence_set(s), mailbox: mailbox(s), uid: s.bool() },
        #[cfg(feature = "f_id")]
        43 => Id { parameters: id_params(s) },
        #[cfg(feature = "f_metadata")]
        44 | 45 => SetMetadata {
            mailbox: mailbox(s),
            entry_values: vec1(s, |s| EntryValue { entry: entry(s), value: nstring8(s) }),
        },
        #[cfg(feature = "f_metadata")]
        46 | 47 => GetMetadata {
            options: s.vec(0, |s| match s.below(4) {
                0 => GetMetadataOption::MaxSize(u32_edge(s)),
                1 => GetMetadataOption::Depth(Depth::Null),
                2 => GetMetadataOption::Depth(Depth::One),
                _ => GetMetadataOption::Depth(Depth::Infinity),
            }),
            mailbox: mailbox(s),
            entries: vec1(s, entry),
        },
        #[cfg(feature = "f_namespace")]
        48 => Namespace,
        _ => Noop,
    }
}

pub fn command(s: &mut Src) -> Command<'static> {
    Command { tag: tag(s), body: command_body(s) }
}

pub fn code(s: &mut Src) -> Code<'static> {
    match s.below(28) {
        0 => Code::Alert,
        1 => Code::BadCharset { allowed: s.vec(0, charset) },
        2 | 26 => Code::Capability(vec1(s, capability)),
        3 => Code::Parse,
        4 => Code::PermanentFlags(s.vec(0, flag_perm)),
        5 => Code::ReadOnly,
        6 => Code::ReadWrite,
        7 => Code::TryCreate,
        8 => Code::UidNext(nz32(s)),
        9 => Code::UidValidity(nz32(s)),
        10 => Code::Unseen(nz32(s)),
        11 => Code::CompressionActive,
        12 => Code::OverQuota,
        13 => Code::TooBig,
        14 => Code::UnknownCte,
        15 => Code::AppendUid { uid_validity: nz32(s), uid: nz32(s) },
        16 | 27 => {
            let source = uid_set(s);
            let destination = s.same(&source, uid_set);
            Code::CopyUid { uid_validity: nz32(s), source, destination }
        }
        17 => Code::UidNotSticky,
        #[cfg(any(feature = "f_login_referrals", feature = "f_mailbox_referrals"))]
        18 => {
            // An imapurl without the characters that would end the code.
            let mut u: String = text_chars(s, 1);
            u.retain(|c| c != ']' && c != ' ' && !c.is_control());
            Code::Referral(Cow::Owned(format!("imap://{u}")))
        }
        #[cfg(feature = "f_metadata")]
        19 => Code::Metadata(match s.below(4) {
            0 => MetadataCode::TooMany,
            1 => MetadataCode::NoPrivate,
            2 => MetadataCode::LongEntries(u32_edge(s)),
            _ => MetadataCode::MaxSize(u32_edge(s)),
        }),
        #[cfg(feature = "f_condstore")]
        20 => Code::HighestModSeq(nz64(s)),
        #[cfg(feature = "f_condstore")]
        21 => Code::Modified(sequence_set(s)),
        #[cfg(feature = "f_condstore")]
        22 => Code::NoModSeq,
        #[cfg(feature = "f_condstore")]
        23 => Code::Closed,
        _ => {
            // resp-text-code fallback: atom [SP 1*<any TEXT-CHAR except "]">]; the "X-" prefix (or a code
            // of the wider world) keeps it from spelling a known code.
            if s.one_in(4) {
                // a known code that is spelled wrongly is an unknown one
                let w = *s.pick(BROKEN_CODES);
                return Code::Other(CodeOther::unvalidated(recase(s, w).into_bytes()));
            }
            let mut o = if s.one_in(3) {
                let w = *s.pick(OTHER_CODES);
                recase(s, w)
            } else {
                format!("X-{}", atom_str(s))
            };
            if s.bool() {
                let mut t = text_chars(s, 1);
                t.retain(|c| c != ']');
                if t.is_empty() {
                    t.push('x');
                }
                o.push(' ');
                o.push_str(&t);
            }
            Code::Other(CodeOther::unvalidated(o.into_bytes()))
        }
    }
}

fn code_text(s: &mut Src) -> (Option<Code<'static>>, Text<'static>) {
    if s.bool() { (Some(code(s)), text(s)) } else { (None, text_nocode(s)) }
}

pub fn greeting(s: &mut Src) -> Greeting<'static> {
    let (code, text) = code_text(s);
    Greeting { kind: *s.pick(&[GreetingKind::Ok, GreetingKind::PreAuth, GreetingKind::Bye]), code, text }
}

pub fn status(s: &mut Src) -> Status<'static> {
    let (code, text) = code_text(s);
    let kind = s.pick(&[StatusKind::Ok, StatusKind::No, StatusKind::Bad]).clone();
    match s.below(3) {
        0 => Status::Untagged(StatusBody { kind, code, text }),
        1 => Status::Tagged(Tagged { tag: tag(s), body: StatusBody { kind, code, text } }),
        _ => Status::Bye(Bye { code, text }),
    }
}

pub fn data(s: &mut Src) -> Data<'static> {
    match s.below(34) {
        0 => Data::Exists(u32_edge(s)),
        1 | 2 => Data::Capability(vec1(s, capability)),
        3 => Data::List { items: s.vec(0, flag_name), delimiter: s.opt(quoted_char), mailbox: mailbox(s) },
        4 => Data::Lsub { items: s.vec(0, flag_name), delimiter: s.opt(quoted_char), mailbox: mailbox(s) },
        5 => Data::Status { mailbox: mailbox(s), items: Cow::Owned(s.vec(0, status_item)) },
        #[cfg(feature = "f_condstore")]
        6 => Data::Search(s.vec(0, nz32), s.opt(nz64)),
        #[cfg(feature = "f_condstore")]
        7 => Data::Sort(s.vec(0, nz32), s.opt(nz64)),
        #[cfg(not(feature = "f_condstore"))]
        6 => Data::Search(s.vec(0, nz32)),
        #[cfg(not(feature = "f_condstore"))]
        7 => Data::Sort(s.vec(0, nz32)),
        8 => Data::Thread(s.vec(0, |s| {
            let d = nesting(s, THREAD_NESTING);
            thread(s, d)
        })),
        9 => Data::Flags(s.vec(0, |s| flag(s, true))),
        10 => Data::Recent(u32_edge(s)),
        11 => Data::Expunge(nz32(s)),
        12..=21 => Data::Fetch { seq: nz32(s), items: vec1(s, item) },
        22 => Data::Enabled { capabilities: s.vec(0, capability_enable) },
        23 => Data::Quota {
            root: astring(s),
            quotas: vec1(s, |s| QuotaGet { resource: resource(s), usage: u64_edge(s), limit: u64_edge(s) }),
        },
        24 => Data::QuotaRoot { mailbox: mailbox(s), roots: s.vec(0, astring) },
        #[cfg(feature = "f_id")]
        25 => Data::Id { parameters: id_params(s) },
        #[cfg(feature = "f_metadata")]
        26 | 27 => Data::Metadata {
            mailbox: mailbox(s),
            items: if s.bool() {
                MetadataResponse::WithValues(vec1(s, |s| EntryValue { entry: entry(s), value: nstring8(s) }))
            } else {
                MetadataResponse::WithoutValues(vec1(s, entry))
            },
        },
        #[cfg(feature = "f_condstore")]
        28 | 29 => Data::Vanished { earlier: s.bool(), known_uids: sequence_set(s) },
        #[cfg(feature = "f_namespace")]
        30 | 31 => {
            let personal = namespaces(s);
            let other = s.same(&personal, namespaces);
            let shared = s.same(&other, namespaces);
            Data::Namespace { personal, other, shared }
        }
        _ => Data::Recent(u32_edge(s)),
    }
}

pub fn continuation(s: &mut Src) -> CommandContinuationRequest<'static> {
    if s.bool() {
        return CommandContinuationRequest::Base64(Cow::Owned(bytes(s, true)));
    }
    let (code, text) = code_text(s);
    match CommandContinuationRequest::basic(code.clone(), text.clone()) {
        Ok(c) => c,
        Err(_) => CommandContinuationRequest::basic(code, format!("{} .", text.inner())).expect("unambiguous"),
    }
}

pub fn response(s: &mut Src) -> Response<'static> {
    match s.below(8) {
        0 => Response::CommandContinuationRequest(continuation(s)),
        1 | 2 => Response::Status(status(s)),
        _ => Response::Data(data(s)),
    }
}

pub fn authenticate_data(s: &mut Src) -> AuthenticateData<'static> {
    if s.below(6) == 0 { AuthenticateData::Cancel } else { AuthenticateData::Continue(secret_bytes(s)) }
}
