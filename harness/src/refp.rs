//! Reference printer: an independent transcription of the IMAP formal syntax (RFC 3501 and the
//! extension RFCs) for every message type. It shares no code with the crates under test.
//!
//! With `Style::Plain` it prints the canonical form; with `Style::Rand` it draws, from the choice
//! tape, one of the other spellings which the grammar allows for the same message.
use imap_codec::imap_types::{
    auth::{AuthMechanism, AuthenticateData},
    body::*,
    command::{Command, CommandBody},
    core::*,
    datetime::{DateTime, NaiveDate},
    envelope::{Address, Envelope},
    extensions::{
        binary::{Literal8, LiteralOrLiteral8},
        enable::CapabilityEnable,
        quota::Resource,
        sort::{SortAlgorithm, SortKey},
        thread::{Thread, ThreadingAlgorithm},
        uidplus::{UidElement, UidSet},
    },
    fetch::*,
    flag::*,
    mailbox::{ListMailbox, Mailbox},
    response::*,
    search::SearchKey,
    sequence::{SeqOrUid, Sequence, SequenceSet},
    status::{StatusDataItem, StatusDataItemName},
};
#[cfg(feature = "f_condstore")]
use imap_codec::imap_types::{
    command::{FetchModifier, SelectParameter, StoreModifier},
    extensions::condstore_qresync::{AttributeFlag, EntryTypeReq},
};
#[cfg(feature = "f_metadata")]
use imap_codec::imap_types::extensions::metadata::{Depth, EntryValue, GetMetadataOption, MetadataCode, MetadataResponse};
#[cfg(feature = "f_namespace")]
use imap_codec::imap_types::extensions::namespace::Namespace;
#[cfg(feature = "f_utf8")]
use imap_codec::imap_types::extensions::utf8::Utf8Kind;

use crate::{tape::Src, util::Msg};

pub enum Style<'s> {
    Plain,
    Rand(&'s mut Src),
}

impl Style<'_> {
    /// Choose among n spellings; 0 is canonical.
    fn choose(&mut self, n: u64) -> u64 {
        match self {
            Style::Plain => 0,
            Style::Rand(s) => {
                // stay canonical about half of the time
                if s.bool() { s.below(n) } else { 0 }
            }
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Lit {
    /// Offset of the first byte of the announcement ('{' or '~').
    pub ann: usize,
    pub start: usize,
    pub end: usize,
    pub mode: LiteralMode,
    pub lit8: bool,
}

pub struct W<'s> {
    pub out: Vec<u8>,
    /// Bytes that belong to case-insensitive keywords.
    pub ci: Vec<bool>,
    pub lits: Vec<Lit>,
    /// Byte ranges of quoted strings (including the quotes) and numbers, for mutators.
    pub quoted: Vec<(usize, usize)>,
    pub numbers: Vec<(usize, usize, NumKind)>,
    /// Byte ranges of dates (including the quotes).
    pub dates: Vec<(usize, usize)>,
    pub style: Style<'s>,
    /// Print sequence sets exactly as given (true) or canonicalised (false).
    pub raw_sets: bool,
    pub recase: bool,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum NumKind {
    U32,
    Nz32,
    U64,
    Nz64,
}

pub fn b64(data: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in data.chunks(3) {
        let n = (u32::from(c[0]) << 16) | (u32::from(*c.get(1).unwrap_or(&0)) << 8) | u32::from(*c.get(2).unwrap_or(&0));
        for i in 0..4 {
            if i <= c.len() {
                o.push(T[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}

/// The result of printing.
#[derive(Debug, Clone)]
pub struct Printed {
    pub out: Vec<u8>,
    pub ci: Vec<bool>,
    pub lits: Vec<Lit>,
    pub quoted: Vec<(usize, usize)>,
    pub numbers: Vec<(usize, usize, NumKind)>,
    pub dates: Vec<(usize, usize)>,
}

pub fn print(m: &Msg, style: Style<'_>, raw_sets: bool) -> Printed {
    let mut w = W {
        out: vec![],
        ci: vec![],
        lits: vec![],
        quoted: vec![],
        numbers: vec![],
        dates: vec![],
        style,
        raw_sets,
        recase: true,
    };
    match m {
        Msg::Greeting(g) => w.greeting(g),
        Msg::Command(c) => w.command(c),
        Msg::Response(r) => w.response(r),
        Msg::Auth(a) => match a {
            AuthenticateData::Continue(d) => w.raw(b64(d.declassify()).as_bytes()),
            AuthenticateData::Cancel => w.raw(b"*"),
        },
        Msg::Idle => w.kw("DONE"),
    }
    w.raw(b"\r\n");
    Printed { out: w.out, ci: w.ci, lits: w.lits, quoted: w.quoted, numbers: w.numbers, dates: w.dates }
}

impl<'s> W<'s> {
    fn raw(&mut self, b: &[u8]) {
        self.out.extend_from_slice(b);
        self.ci.resize(self.out.len(), false);
    }

    /// A case-insensitive keyword (may contain spaces and specials, which have no case).
    fn kw(&mut self, k: &str) {
        let how = if self.recase { self.style.choose(4) } else { 0 };
        for c in k.chars() {
            let c = match how {
                0 => c,
                1 => c.to_ascii_lowercase(),
                2 => c.to_ascii_uppercase(),
                _ => {
                    if self.style.choose(2) == 1 {
                        c.to_ascii_lowercase()
                    } else {
                        c.to_ascii_uppercase()
                    }
                }
            };
            self.out.push(c as u8);
            self.ci.push(true);
        }
    }

    fn sp(&mut self) {
        self.raw(b" ");
    }

    fn list<T>(&mut self, xs: &[T], sep: &[u8], mut f: impl FnMut(&mut Self, &T)) {
        for (i, x) in xs.iter().enumerate() {
            if i > 0 {
                self.raw(sep);
            }
            f(self, x);
        }
    }

    fn zeros(&mut self) {
        let n = match 1 + self.style.choose(12) as usize {
            12 => 40,
            n => n,
        };
        self.raw(&vec![b'0'; n]);
    }

    fn num(&mut self, n: u64, k: NumKind) {
        let st = self.out.len();
        if matches!(k, NumKind::U32 | NumKind::U64) && self.style.choose(12) == 11 {
            // number = 1*DIGIT
            self.zeros();
        }
        self.raw(n.to_string().as_bytes());
        self.numbers.push((st, self.out.len(), k));
    }
    fn u32(&mut self, n: u32) {
        self.num(u64::from(n), NumKind::U32);
    }
    fn nz(&mut self, n: std::num::NonZeroU32) {
        self.num(u64::from(n.get()), NumKind::Nz32);
    }
    fn u64(&mut self, n: u64) {
        self.num(n, NumKind::U64);
    }
    #[allow(dead_code)]
    fn nz64(&mut self, n: std::num::NonZeroU64) {
        self.num(n.get(), NumKind::Nz64);
    }

    // ----- strings -----

    fn quoted_bytes(&mut self, b: &[u8]) {
        let st = self.out.len();
        self.raw(b"\"");
        for c in b {
            if *c == b'"' || *c == b'\\' {
                self.raw(b"\\");
            }
            self.raw(&[*c]);
        }
        self.raw(b"\"");
        self.quoted.push((st, self.out.len()));
    }

    fn lit(&mut self, data: &[u8], mode: LiteralMode, lit8: bool) {
        let ann = self.out.len();
        if lit8 {
            self.raw(b"~");
        }
        self.raw(b"{");
        if self.style.choose(16) == 15 {
            // number = 1*DIGIT
            self.zeros();
        }
        self.raw(data.len().to_string().as_bytes());
        if mode == LiteralMode::NonSync {
            self.raw(b"+");
        }
        self.raw(b"}\r\n");
        let start = self.out.len();
        self.raw(data);
        self.lits.push(Lit { ann, start, end: self.out.len(), mode, lit8 });
    }

    fn literal(&mut self, l: &Literal) {
        self.lit(l.data(), l.mode(), false);
    }

    fn literal8(&mut self, l: &Literal8) {
        self.lit(&l.data, l.mode, true);
    }

    fn istring(&mut self, s: &IString) {
        match s {
            IString::Literal(l) => self.literal(l),
            IString::Quoted(q) => self.quoted_bytes(q.inner().as_bytes()),
            #[cfg(feature = "f_utf8")]
            IString::QuotedUtf8(q) => self.quoted_bytes(q.0.as_bytes()),
        }
    }

    fn nstring(&mut self, s: &NString) {
        match &s.0 {
            Some(s) => self.istring(s),
            None => self.kw("NIL"),
        }
    }

    fn nstring8(&mut self, s: &NString8) {
        match s {
            NString8::NString(n) => self.nstring(n),
            NString8::Literal8(l) => self.literal8(l),
        }
    }

    fn astring(&mut self, s: &AString) {
        match s {
            AString::Atom(a) => self.raw(a.inner().as_bytes()),
            AString::String(s) => self.istring(s),
        }
    }

    fn charset(&mut self, c: &Charset) {
        match c {
            Charset::Atom(a) => self.raw(a.inner().as_bytes()),
            Charset::Quoted(q) => self.quoted_bytes(q.inner().as_bytes()),
        }
    }

    fn mailbox(&mut self, m: &Mailbox) {
        match m {
            Mailbox::Inbox => match self.style.choose(3) {
                0 => self.kw("INBOX"),
                1 => {
                    let st = self.out.len();
                    self.raw(b"\"");
                    self.kw("INBOX");
                    self.raw(b"\"");
                    self.quoted.push((st, self.out.len()));
                }
                _ => {
                    let ann = self.out.len();
                    self.raw(b"{5}\r\n");
                    let start = self.out.len();
                    self.kw("INBOX");
                    self.lits.push(Lit { ann, start, end: self.out.len(), mode: LiteralMode::Sync, lit8: false });
                }
            },
            Mailbox::Other(o) => self.astring(o.inner()),
        }
    }

    fn list_mailbox(&mut self, m: &ListMailbox) {
        match m {
            ListMailbox::Token(t) => self.raw(t.as_ref()),
            ListMailbox::String(s) => self.istring(s),
        }
    }

    fn quoted_char_or_nil(&mut self, q: &Option<QuotedChar>) {
        match q {
            Some(c) => {
                let mut b = [0u8; 4];
                let e = c.inner().encode_utf8(&mut b).as_bytes().to_vec();
                self.quoted_bytes(&e);
            }
            None => self.kw("NIL"),
        }
    }

    // ----- dates -----

    fn month(&mut self, m: u32) {
        self.kw(["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"][m as usize - 1]);
    }

    fn date(&mut self, d: &NaiveDate) {
        use chrono::Datelike;
        let d = d.as_ref();
        let st = self.out.len();
        let quoted = self.style.choose(2) == 0;
        if quoted {
            self.raw(b"\"");
        }
        if d.day() < 10 && self.style.choose(2) == 1 {
            self.raw(d.day().to_string().as_bytes());
        } else {
            self.raw(format!("{:02}", d.day()).as_bytes());
        }
        self.raw(b"-");
        self.month(d.month());
        self.raw(format!("-{:04}", d.year()).as_bytes());
        if quoted {
            self.raw(b"\"");
        }
        self.dates.push((st, self.out.len()));
    }

    fn datetime(&mut self, d: &DateTime) {
        use chrono::{Datelike, Timelike};
        let d = d.as_ref();
        let st = self.out.len();
        self.raw(b"\"");
        if d.day() < 10 && self.style.choose(2) == 1 {
            self.raw(format!(" {}", d.day()).as_bytes());
        } else {
            self.raw(format!("{:02}", d.day()).as_bytes());
        }
        self.raw(b"-");
        self.month(d.month());
        let off = d.offset().local_minus_utc() / 60;
        let sign = if off < 0 || (off == 0 && self.style.choose(2) == 1) { '-' } else { '+' };
        let a = off.abs();
        self.raw(
            format!(
                "-{:04} {:02}:{:02}:{:02} {sign}{:02}{:02}\"",
                d.year(),
                d.hour(),
                d.minute(),
                d.second(),
                a / 60,
                a % 60
            )
            .as_bytes(),
        );
        self.dates.push((st, self.out.len()));
    }

    // ----- sets -----

    fn seq_or_uid(&mut self, s: &SeqOrUid) {
        match s {
            SeqOrUid::Value(v) => self.nz(*v),
            SeqOrUid::Asterisk => self.raw(b"*"),
        }
    }

    fn set(&mut self, s: &SequenceSet) {
        let c;
        let s = if self.raw_sets {
            s
        } else {
            c = crate::util::canon_set(s);
            &c
        };
        let v: Vec<Sequence> = s.0.as_ref().to_vec();
        self.list(&v, b",", |w, s| match s {
            Sequence::Single(a) => w.seq_or_uid(a),
            Sequence::Range(a, b) => {
                w.seq_or_uid(a);
                w.raw(b":");
                w.seq_or_uid(b);
            }
        });
    }

    fn uid_set(&mut self, s: &UidSet) {
        self.list(s.0.as_ref(), b",", |w, e| match e {
            UidElement::Single(a) => w.nz(*a),
            UidElement::Range(a, b) => {
                w.nz(*a);
                w.raw(b":");
                w.nz(*b);
            }
        });
    }

    // ----- names -----

    fn flag(&mut self, f: &Flag) {
        match f {
            Flag::Answered => self.kw("\\Answered"),
            Flag::Deleted => self.kw("\\Deleted"),
            Flag::Draft => self.kw("\\Draft"),
            Flag::Flagged => self.kw("\\Flagged"),
            Flag::Seen => self.kw("\\Seen"),
            // Display of the wrapped atom: FlagExtension has no accessor
            Flag::Extension(_) => self.raw(crate::util::inner_atom(f).as_bytes()),
            Flag::Keyword(a) => self.raw(a.inner().as_bytes()),
        }
    }

    fn flags(&mut self, f: &[Flag]) {
        self.list(f, b" ", |w, f| w.flag(f));
    }

    fn flag_fetch(&mut self, f: &FlagFetch) {
        match f {
            FlagFetch::Flag(f) => self.flag(f),
            FlagFetch::Recent => self.kw("\\Recent"),
        }
    }

    fn flag_perm(&mut self, f: &FlagPerm) {
        match f {
            FlagPerm::Flag(f) => self.flag(f),
            FlagPerm::Asterisk => self.raw(b"\\*"),
        }
    }

    fn flag_name(&mut self, f: &FlagNameAttribute) {
        match f {
            FlagNameAttribute::Noinferiors => self.kw("\\Noinferiors"),
            FlagNameAttribute::Noselect => self.kw("\\Noselect"),
            FlagNameAttribute::Marked => self.kw("\\Marked"),
            FlagNameAttribute::Unmarked => self.kw("\\Unmarked"),
            FlagNameAttribute::Extension(_) => self.raw(f.to_string().as_bytes()),
        }
    }

    fn auth(&mut self, a: &AuthMechanism) {
        match a {
            AuthMechanism::Plain => self.kw("PLAIN"),
            AuthMechanism::Login => self.kw("LOGIN"),
            AuthMechanism::OAuthBearer => self.kw("OAUTHBEARER"),
            AuthMechanism::XOAuth2 => self.kw("XOAUTH2"),
            AuthMechanism::ScramSha1 => self.kw("SCRAM-SHA-1"),
            AuthMechanism::ScramSha1Plus => self.kw("SCRAM-SHA-1-PLUS"),
            AuthMechanism::ScramSha256 => self.kw("SCRAM-SHA-256"),
            AuthMechanism::ScramSha256Plus => self.kw("SCRAM-SHA-256-PLUS"),
            AuthMechanism::ScramSha3_512 => self.kw("SCRAM-SHA3-512"),
            AuthMechanism::ScramSha3_512Plus => self.kw("SCRAM-SHA3-512-PLUS"),
            other => self.raw(other.as_ref().as_bytes()),
        }
    }

    fn resource(&mut self, r: &Resource) {
        match r {
            Resource::Storage => self.kw("STORAGE"),
            Resource::Message => self.kw("MESSAGE"),
            Resource::Mailbox => self.kw("MAILBOX"),
            Resource::AnnotationStorage => self.kw("ANNOTATION-STORAGE"),
            other => self.raw(other.to_string().as_bytes()),
        }
    }

    fn sort_alg(&mut self, r: &SortAlgorithm) {
        match r {
            SortAlgorithm::Display => self.kw("DISPLAY"),
            SortAlgorithm::Other(o) => self.raw(o.as_ref().as_bytes()),
        }
    }

    fn thread_alg(&mut self, r: &ThreadingAlgorithm) {
        match r {
            ThreadingAlgorithm::OrderedSubject => self.kw("ORDEREDSUBJECT"),
            ThreadingAlgorithm::References => self.kw("REFERENCES"),
            ThreadingAlgorithm::Other(o) => self.raw(o.as_ref().as_bytes()),
        }
    }

    #[cfg(feature = "f_utf8")]
    fn utf8_kind(&mut self, k: &Utf8Kind) {
        match k {
            Utf8Kind::Accept => self.kw("UTF8=ACCEPT"),
            Utf8Kind::Only => self.kw("UTF8=ONLY"),
            _ => unreachable!("unknown UTF8 kind"),
        }
    }

    fn capability(&mut self, c: &Capability) {
        match c {
            Capability::Imap4Rev1 => self.kw("IMAP4REV1"),
            Capability::Auth(a) => {
                self.kw("AUTH=");
                self.auth(a);
            }
            Capability::LoginDisabled => self.kw("LOGINDISABLED"),
            #[cfg(feature = "f_starttls")]
            Capability::StartTls => self.kw("STARTTLS"),
            Capability::Idle => self.kw("IDLE"),
            #[cfg(feature = "f_mailbox_referrals")]
            Capability::MailboxReferrals => self.kw("MAILBOX-REFERRALS"),
            #[cfg(feature = "f_login_referrals")]
            Capability::LoginReferrals => self.kw("LOGIN-REFERRALS"),
            Capability::SaslIr => self.kw("SASL-IR"),
            Capability::Enable => self.kw("ENABLE"),
            Capability::Compress { .. } => self.kw("COMPRESS=DEFLATE"),
            Capability::Quota => self.kw("QUOTA"),
            Capability::QuotaRes(r) => {
                self.kw("QUOTA=RES-");
                self.resource(r);
            }
            Capability::QuotaSet => self.kw("QUOTASET"),
            Capability::LiteralPlus => self.kw("LITERAL+"),
            Capability::LiteralMinus => self.kw("LITERAL-"),
            Capability::Move => self.kw("MOVE"),
            #[cfg(feature = "f_id")]
            Capability::Id => self.kw("ID"),
            Capability::Unselect => self.kw("UNSELECT"),
            Capability::Sort(None) => self.kw("SORT"),
            Capability::Sort(Some(a)) => {
                self.kw("SORT=");
                self.sort_alg(a);
            }
            Capability::Thread(a) => {
                self.kw("THREAD=");
                self.thread_alg(a);
            }
            #[cfg(feature = "f_metadata")]
            Capability::Metadata => self.kw("METADATA"),
            #[cfg(feature = "f_metadata")]
            Capability::MetadataServer => self.kw("METADATA-SERVER"),
            Capability::Binary => self.kw("BINARY"),
            Capability::UidPlus => self.kw("UIDPLUS"),
            #[cfg(feature = "f_condstore")]
            Capability::CondStore => self.kw("CONDSTORE"),
            #[cfg(feature = "f_condstore")]
            Capability::QResync => self.kw("QRESYNC"),
            #[cfg(feature = "f_namespace")]
            Capability::Namespace => self.kw("NAMESPACE"),
            #[cfg(feature = "f_utf8")]
            Capability::Utf8(k) => self.utf8_kind(k),
            other => self.raw(other.to_string().as_bytes()),
        }
    }

    fn capability_enable(&mut self, c: &CapabilityEnable) {
        match c {
            #[cfg(feature = "f_condstore")]
            CapabilityEnable::CondStore => self.kw("CONDSTORE"),
            #[cfg(feature = "f_metadata")]
            CapabilityEnable::Metadata => self.kw("METADATA"),
            #[cfg(feature = "f_metadata")]
            CapabilityEnable::MetadataServer => self.kw("METADATA-SERVER"),
            #[cfg(feature = "f_utf8")]
            CapabilityEnable::Utf8(k) => self.utf8_kind(k),
            other => self.raw(other.to_string().as_bytes()),
        }
    }

    // ----- commands -----

    fn uid(&mut self, uid: bool) {
        if uid {
            self.kw("UID ");
        }
    }

    fn command(&mut self, c: &Command) {
        use CommandBody::*;
        self.raw(c.tag.inner().as_bytes());
        self.sp();
        match &c.body {
            Capability => self.kw("CAPABILITY"),
            Noop => self.kw("NOOP"),
            Logout => self.kw("LOGOUT"),
            #[cfg(feature = "f_starttls")]
            StartTLS => self.kw("STARTTLS"),
            Authenticate { mechanism, initial_response } => {
                self.kw("AUTHENTICATE ");
                self.auth(mechanism);
                if let Some(ir) = initial_response {
                    self.sp();
                    if ir.declassify().is_empty() {
                        self.raw(b"=");
                    } else {
                        self.raw(b64(ir.declassify()).as_bytes());
                    }
                }
            }
            Login { username, password } => {
                self.kw("LOGIN ");
                self.astring(username);
                self.sp();
                self.astring(password.declassify());
            }
            Select {
                mailbox,
                #[cfg(feature = "f_condstore")]
                parameters,
            } => {
                self.kw("SELECT ");
                self.mailbox(mailbox);
                #[cfg(feature = "f_condstore")]
                self.select_params(parameters);
            }
            Unselect => self.kw("UNSELECT"),
            Examine {
                mailbox,
                #[cfg(feature = "f_condstore")]
                parameters,
            } => {
                self.kw("EXAMINE ");
                self.mailbox(mailbox);
                #[cfg(feature = "f_condstore")]
                self.select_params(parameters);
            }
            Create { mailbox } => {
                self.kw("CREATE ");
                self.mailbox(mailbox);
            }
            Delete { mailbox } => {
                self.kw("DELETE ");
                self.mailbox(mailbox);
            }
            Rename { from, to } => {
                self.kw("RENAME ");
                self.mailbox(from);
                self.sp();
                self.mailbox(to);
            }
            Subscribe { mailbox } => {
                self.kw("SUBSCRIBE ");
                self.mailbox(mailbox);
            }
            Unsubscribe { mailbox } => {
                self.kw("UNSUBSCRIBE ");
                self.mailbox(mailbox);
            }
            List { reference, mailbox_wildcard } => {
                self.kw("LIST ");
                self.mailbox(reference);
                self.sp();
                self.list_mailbox(mailbox_wildcard);
            }
            Lsub { reference, mailbox_wildcard } => {
                self.kw("LSUB ");
                self.mailbox(reference);
                self.sp();
                self.list_mailbox(mailbox_wildcard);
            }
            Status { mailbox, item_names } => {
                self.kw("STATUS ");
                self.mailbox(mailbox);
                self.raw(b" (");
                self.list(item_names, b" ", |w, n| w.status_name(n));
                self.raw(b")");
            }
            Append { mailbox, flags, date, message } => {
                self.kw("APPEND ");
                self.mailbox(mailbox);
                if !flags.is_empty() || self.style.choose(4) == 3 {
                    self.raw(b" (");
                    self.flags(flags);
                    self.raw(b")");
                }
                if let Some(d) = date {
                    self.sp();
                    self.datetime(d);
                }
                self.sp();
                match message {
                    LiteralOrLiteral8::Literal(l) => self.literal(l),
                    LiteralOrLiteral8::Literal8(l) => self.literal8(l),
                }
            }
            Check => self.kw("CHECK"),
            Close => self.kw("CLOSE"),
            Expunge => self.kw("EXPUNGE"),
            ExpungeUid { sequence_set } => {
                self.kw("UID EXPUNGE ");
                self.set(sequence_set);
            }
            Search { charset, criteria, uid } => {
                self.uid(*uid);
                self.kw("SEARCH");
                if let Some(c) = charset {
                    self.kw(" CHARSET ");
                    self.charset(c);
                }
                self.sp();
                self.list(criteria.as_ref(), b" ", |w, k| w.search_key(k));
            }
            Sort { sort_criteria, charset, search_criteria, uid } => {
                self.uid(*uid);
                self.kw("SORT (");
                self.list(sort_criteria.as_ref(), b" ", |w, c| {
                    if c.reverse {
                        w.kw("REVERSE ");
                    }
                    w.kw(match c.key {
                        SortKey::Arrival => "ARRIVAL",
                        SortKey::Cc => "CC",
                        SortKey::Date => "DATE",
                        SortKey::From => "FROM",
                        SortKey::Size => "SIZE",
                        SortKey::Subject => "SUBJECT",
                        SortKey::To => "TO",
                        SortKey::DisplayFrom => "DISPLAYFROM",
                        SortKey::DisplayTo => "DISPLAYTO",
                    });
                });
                self.raw(b") ");
                self.charset(charset);
                self.sp();
                self.list(search_criteria.as_ref(), b" ", |w, k| w.search_key(k));
            }
            Thread { algorithm, charset, search_criteria, uid } => {
                self.uid(*uid);
                self.kw("THREAD ");
                self.thread_alg(algorithm);
                self.sp();
                self.charset(charset);
                self.sp();
                self.list(search_criteria.as_ref(), b" ", |w, k| w.search_key(k));
            }
            Fetch {
                sequence_set,
                macro_or_item_names,
                uid,
                #[cfg(feature = "f_condstore")]
                modifiers,
            } => {
                self.uid(*uid);
                self.kw("FETCH ");
                self.set(sequence_set);
                self.sp();
                match macro_or_item_names {
                    MacroOrMessageDataItemNames::Macro(m) => self.kw(match m {
                        Macro::All => "ALL",
                        Macro::Fast => "FAST",
                        Macro::Full => "FULL",
                        _ => unreachable!(),
                    }),
                    MacroOrMessageDataItemNames::MessageDataItemNames(v) => {
                        if v.len() == 1 && self.style.choose(2) == 0 {
                            self.item_name(&v[0]);
                        } else {
                            self.raw(b"(");
                            self.list(v, b" ", |w, n| w.item_name(n));
                            self.raw(b")");
                        }
                    }
                }
                #[cfg(feature = "f_condstore")]
                if !modifiers.is_empty() {
                    self.raw(b" (");
                    self.list(modifiers, b" ", |w, m| match m {
                        FetchModifier::ChangedSince(n) => {
                            w.kw("CHANGEDSINCE ");
                            w.nz64(*n);
                        }
                        FetchModifier::Vanished => w.kw("VANISHED"),
                    });
                    self.raw(b")");
                }
            }
            Store {
                sequence_set,
                kind,
                response,
                flags,
                uid,
                #[cfg(feature = "f_condstore")]
                modifiers,
            } => {
                self.uid(*uid);
                self.kw("STORE ");
                self.set(sequence_set);
                self.sp();
                #[cfg(feature = "f_condstore")]
                if !modifiers.is_empty() {
                    self.raw(b"(");
                    self.list(modifiers, b" ", |w, m| match m {
                        StoreModifier::UnchangedSince(n) => {
                            w.kw("UNCHANGEDSINCE ");
                            w.u64(*n);
                        }
                    });
                    self.raw(b") ");
                }
                match kind {
                    StoreType::Add => self.raw(b"+"),
                    StoreType::Remove => self.raw(b"-"),
                    StoreType::Replace => {}
                }
                self.kw("FLAGS");
                if *response == StoreResponse::Silent {
                    self.kw(".SILENT");
                }
                self.sp();
                if !flags.is_empty() && self.style.choose(2) == 1 {
                    self.flags(flags);
                } else {
                    self.raw(b"(");
                    self.flags(flags);
                    self.raw(b")");
                }
            }
            Copy { sequence_set, mailbox, uid } => {
                self.uid(*uid);
                self.kw("COPY ");
                self.set(sequence_set);
                self.sp();
                self.mailbox(mailbox);
            }
            Idle => self.kw("IDLE"),
            Enable { capabilities } => {
                self.kw("ENABLE ");
                self.list(capabilities.as_ref(), b" ", |w, c| w.capability_enable(c));
            }
            Compress { .. } => self.kw("COMPRESS DEFLATE"),
            GetQuota { root } => {
                self.kw("GETQUOTA ");
                self.astring(root);
            }
            GetQuotaRoot { mailbox } => {
                self.kw("GETQUOTAROOT ");
                self.mailbox(mailbox);
            }
            SetQuota { root, quotas } => {
                self.kw("SETQUOTA ");
                self.astring(root);
                self.raw(b" (");
                self.list(quotas, b" ", |w, q| {
                    w.resource(&q.resource);
                    w.sp();
                    w.u64(q.limit);
                });
                self.raw(b")");
            }
            Move { sequence_set, mailbox, uid } => {
                self.uid(*uid);
                self.kw("MOVE ");
                self.set(sequence_set);
                self.sp();
                self.mailbox(mailbox);
            }
            #[cfg(feature = "f_id")]
            Id { parameters } => {
                self.kw("ID ");
                self.id_params(parameters);
            }
            #[cfg(feature = "f_metadata")]
            SetMetadata { mailbox, entry_values } => {
                self.kw("SETMETADATA ");
                self.mailbox(mailbox);
                self.raw(b" (");
                self.entry_values(entry_values.as_ref());
                self.raw(b")");
            }
            #[cfg(feature = "f_metadata")]
            GetMetadata { options, mailbox, entries } => {
                self.kw("GETMETADATA ");
                if !options.is_empty() {
                    self.raw(b"(");
                    self.list(options, b" ", |w, o| match o {
                        GetMetadataOption::MaxSize(n) => {
                            w.kw("MAXSIZE ");
                            w.u32(*n);
                        }
                        GetMetadataOption::Depth(Depth::Null) => w.kw("DEPTH 0"),
                        GetMetadataOption::Depth(Depth::One) => w.kw("DEPTH 1"),
                        GetMetadataOption::Depth(Depth::Infinity) => w.kw("DEPTH infinity"),
                    });
                    self.raw(b") ");
                }
                self.mailbox(mailbox);
                self.sp();
                let e = entries.as_ref();
                if e.len() == 1 && self.style.choose(2) == 0 {
                    self.astring(e[0].inner());
                } else {
                    self.raw(b"(");
                    self.list(e, b" ", |w, e| w.astring(e.inner()));
                    self.raw(b")");
                }
            }
            #[cfg(feature = "f_namespace")]
            Namespace => self.kw("NAMESPACE"),
        }
    }

    #[cfg(feature = "f_metadata")]
    fn entry_values(&mut self, v: &[EntryValue]) {
        self.list(v, b" ", |w, e| {
            w.astring(e.entry.inner());
            w.sp();
            w.nstring8(&e.value);
        });
    }

    #[cfg(feature = "f_id")]
    fn id_params(&mut self, p: &Option<Vec<(IString, NString)>>) {
        match p {
            None => self.kw("NIL"),
            Some(p) if p.is_empty() && cfg!(feature = "idnil") => self.kw("NIL"),
            Some(p) => {
                self.raw(b"(");
                self.list(p, b" ", |w, (k, v)| {
                    w.istring(k);
                    w.sp();
                    w.nstring(v);
                });
                self.raw(b")");
            }
        }
    }

    #[cfg(feature = "f_condstore")]
    fn select_params(&mut self, p: &[SelectParameter]) {
        if p.is_empty() {
            return;
        }
        self.raw(b" (");
        self.list(p, b" ", |w, p| match p {
            SelectParameter::CondStore => w.kw("CONDSTORE"),
            SelectParameter::QResync { uid_validity, mod_sequence_value, known_uids, seq_match_data } => {
                w.kw("QRESYNC (");
                w.nz(*uid_validity);
                w.sp();
                w.nz64(*mod_sequence_value);
                if let Some(k) = known_uids {
                    w.sp();
                    w.set(k);
                }
                if let Some((a, b)) = seq_match_data {
                    w.raw(b" (");
                    w.set(a);
                    w.sp();
                    w.set(b);
                    w.raw(b")");
                }
                w.raw(b")");
            }
        });
        self.raw(b")");
    }

    fn status_name(&mut self, n: &StatusDataItemName) {
        self.kw(match n {
            StatusDataItemName::Messages => "MESSAGES",
            StatusDataItemName::Recent => "RECENT",
            StatusDataItemName::UidNext => "UIDNEXT",
            StatusDataItemName::UidValidity => "UIDVALIDITY",
            StatusDataItemName::Unseen => "UNSEEN",
            StatusDataItemName::Deleted => "DELETED",
            StatusDataItemName::DeletedStorage => "DELETED-STORAGE",
            #[cfg(feature = "f_condstore")]
            StatusDataItemName::HighestModSeq => "HIGHESTMODSEQ",
        });
    }

    fn search_key(&mut self, k: &SearchKey) {
        use SearchKey::*;
        match k {
            And(v) => {
                self.raw(b"(");
                self.list(v.as_ref(), b" ", |w, k| w.search_key(k));
                self.raw(b")");
            }
            SequenceSet(s) => self.set(s),
            All => self.kw("ALL"),
            Answered => self.kw("ANSWERED"),
            Bcc(a) => self.kwa("BCC ", a),
            Before(d) => self.kwd("BEFORE ", d),
            Body(a) => self.kwa("BODY ", a),
            Cc(a) => self.kwa("CC ", a),
            Deleted => self.kw("DELETED"),
            Draft => self.kw("DRAFT"),
            Flagged => self.kw("FLAGGED"),
            From(a) => self.kwa("FROM ", a),
            Header(f, v) => {
                self.kwa("HEADER ", f);
                self.sp();
                self.astring(v);
            }
            Keyword(a) => {
                self.kw("KEYWORD ");
                self.raw(a.inner().as_bytes());
            }
            Larger(n) => {
                self.kw("LARGER ");
                self.u32(*n);
            }
            New => self.kw("NEW"),
            Not(k) => {
                self.kw("NOT ");
                self.search_key(k);
            }
            Old => self.kw("OLD"),
            On(d) => self.kwd("ON ", d),
            Or(a, b) => {
                self.kw("OR ");
                self.search_key(a);
                self.sp();
                self.search_key(b);
            }
            Recent => self.kw("RECENT"),
            Seen => self.kw("SEEN"),
            SentBefore(d) => self.kwd("SENTBEFORE ", d),
            SentOn(d) => self.kwd("SENTON ", d),
            SentSince(d) => self.kwd("SENTSINCE ", d),
            Since(d) => self.kwd("SINCE ", d),
            Smaller(n) => {
                self.kw("SMALLER ");
                self.u32(*n);
            }
            Subject(a) => self.kwa("SUBJECT ", a),
            Text(a) => self.kwa("TEXT ", a),
            To(a) => self.kwa("TO ", a),
            Uid(s) => {
                self.kw("UID ");
                self.set(s);
            }
            Unanswered => self.kw("UNANSWERED"),
            Undeleted => self.kw("UNDELETED"),
            Undraft => self.kw("UNDRAFT"),
            Unflagged => self.kw("UNFLAGGED"),
            Unkeyword(a) => {
                self.kw("UNKEYWORD ");
                self.raw(a.inner().as_bytes());
            }
            Unseen => self.kw("UNSEEN"),
            #[cfg(feature = "f_condstore")]
            ModSequence { entry, modseq } => {
                self.kw("MODSEQ ");
                if let Some((f, t)) = entry {
                    let st = self.out.len();
                    self.raw(b"\"");
                    self.kw("/flags/");
                    match f {
                        AttributeFlag::Answered => self.kw("\\\\Answered"),
                        AttributeFlag::Deleted => self.kw("\\\\Deleted"),
                        AttributeFlag::Draft => self.kw("\\\\Draft"),
                        AttributeFlag::Flagged => self.kw("\\\\Flagged"),
                        AttributeFlag::Seen => self.kw("\\\\Seen"),
                        AttributeFlag::Keyword(a) => self.raw(a.inner().as_bytes()),
                        AttributeFlag::Extension(_) => self.raw(f.to_string().as_bytes()),
                    }
                    self.raw(b"\" ");
                    self.quoted.push((st, self.out.len() - 1));
                    self.kw(match t {
                        EntryTypeReq::Private => "priv",
                        EntryTypeReq::Shared => "shared",
                        EntryTypeReq::All => "all",
                    });
                    self.sp();
                }
                self.u64(*modseq);
            }
        }
    }

    fn kwa(&mut self, k: &str, a: &AString) {
        self.kw(k);
        self.astring(a);
    }
    fn kwd(&mut self, k: &str, d: &NaiveDate) {
        self.kw(k);
        self.date(d);
    }

    // ----- fetch -----

    fn part(&mut self, p: &Part) {
        let v: Vec<_> = p.0.as_ref().to_vec();
        self.list(&v, b".", |w, n| w.nz(*n));
    }

    fn section(&mut self, s: &Section) {
        let opt = |w: &mut Self, p: &Option<Part>| {
            if let Some(p) = p {
                w.part(p);
                w.raw(b".");
            }
        };
        match s {
            Section::Part(p) => self.part(p),
            Section::Header(p) => {
                opt(self, p);
                self.kw("HEADER");
            }
            Section::HeaderFields(p, l) => {
                opt(self, p);
                self.kw("HEADER.FIELDS (");
                self.list(l.as_ref(), b" ", |w, a| w.astring(a));
                self.raw(b")");
            }
            Section::HeaderFieldsNot(p, l) => {
                opt(self, p);
                self.kw("HEADER.FIELDS.NOT (");
                self.list(l.as_ref(), b" ", |w, a| w.astring(a));
                self.raw(b")");
            }
            Section::Text(p) => {
                opt(self, p);
                self.kw("TEXT");
            }
            Section::Mime(p) => {
                self.part(p);
                self.kw(".MIME");
            }
        }
    }

    fn partial(&mut self, p: &Option<(u32, std::num::NonZeroU32)>) {
        if let Some((a, b)) = p {
            self.raw(b"<");
            self.u32(*a);
            self.raw(b".");
            self.nz(*b);
            self.raw(b">");
        }
    }

    fn item_name(&mut self, n: &MessageDataItemName) {
        use MessageDataItemName::*;
        match n {
            Body => self.kw("BODY"),
            BodyExt { section, partial, peek } => {
                self.kw(if *peek { "BODY.PEEK[" } else { "BODY[" });
                if let Some(s) = section {
                    self.section(s);
                }
                self.raw(b"]");
                self.partial(partial);
            }
            BodyStructure => self.kw("BODYSTRUCTURE"),
            Envelope => self.kw("ENVELOPE"),
            Flags => self.kw("FLAGS"),
            InternalDate => self.kw("INTERNALDATE"),
            Rfc822 => self.kw("RFC822"),
            Rfc822Header => self.kw("RFC822.HEADER"),
            Rfc822Size => self.kw("RFC822.SIZE"),
            Rfc822Text => self.kw("RFC822.TEXT"),
            Uid => self.kw("UID"),
            Binary { section, partial, peek } => {
                self.kw(if *peek { "BINARY.PEEK[" } else { "BINARY[" });
                self.list(section, b".", |w, n| w.nz(*n));
                self.raw(b"]");
                self.partial(partial);
            }
            BinarySize { section } => {
                self.kw("BINARY.SIZE[");
                self.list(section, b".", |w, n| w.nz(*n));
                self.raw(b"]");
            }
            #[cfg(feature = "f_condstore")]
            ModSeq => self.kw("MODSEQ"),
        }
    }

    fn addresses(&mut self, v: &[Address]) {
        if v.is_empty() {
            return self.kw("NIL");
        }
        self.raw(b"(");
        for a in v {
            self.raw(b"(");
            self.nstring(&a.name);
            self.sp();
            self.nstring(&a.adl);
            self.sp();
            self.nstring(&a.mailbox);
            self.sp();
            self.nstring(&a.host);
            self.raw(b")");
        }
        self.raw(b")");
    }

    fn envelope(&mut self, e: &Envelope) {
        self.raw(b"(");
        self.nstring(&e.date);
        self.sp();
        self.nstring(&e.subject);
        for a in [&e.from, &e.sender, &e.reply_to, &e.to, &e.cc, &e.bcc] {
            self.sp();
            self.addresses(a);
        }
        self.sp();
        self.nstring(&e.in_reply_to);
        self.sp();
        self.nstring(&e.message_id);
        self.raw(b")");
    }

    fn params(&mut self, p: &[(IString, IString)]) {
        if p.is_empty() {
            return self.kw("NIL");
        }
        self.raw(b"(");
        self.list(p, b" ", |w, (k, v)| {
            w.istring(k);
            w.sp();
            w.istring(v);
        });
        self.raw(b")");
    }

    fn basic_fields(&mut self, b: &BasicFields) {
        self.params(&b.parameter_list);
        self.sp();
        self.nstring(&b.id);
        self.sp();
        self.nstring(&b.description);
        self.sp();
        self.istring(&b.content_transfer_encoding);
        self.sp();
        self.u32(b.size);
    }

    fn disposition(&mut self, d: &Option<Disposition>) {
        let Some(d) = d else { return };
        self.sp();
        match &d.disposition {
            None => self.kw("NIL"),
            Some((s, p)) => {
                self.raw(b"(");
                self.istring(s);
                self.sp();
                self.params(p);
                self.raw(b")");
            }
        }
        let Some(l) = &d.tail else { return };
        self.sp();
        if l.language.is_empty() {
            self.kw("NIL");
        } else if l.language.len() == 1 && self.style.choose(2) == 1 {
            self.istring(&l.language[0]);
        } else {
            self.raw(b"(");
            self.list(&l.language, b" ", |w, s| w.istring(s));
            self.raw(b")");
        }
        let Some(l) = &l.tail else { return };
        self.sp();
        self.nstring(&l.location);
        for e in &l.extensions {
            self.sp();
            self.body_ext(e);
        }
    }

    fn body_ext(&mut self, e: &BodyExtension) {
        match e {
            BodyExtension::NString(n) => self.nstring(n),
            BodyExtension::Number(n) => self.u32(*n),
            BodyExtension::List(l) => {
                self.raw(b"(");
                self.list(l.as_ref(), b" ", |w, e| w.body_ext(e));
                self.raw(b")");
            }
        }
    }

    fn body(&mut self, b: &BodyStructure) {
        self.raw(b"(");
        match b {
            BodyStructure::Single { body, extension_data } => {
                match &body.specific {
                    SpecificFields::Basic { r#type, subtype } => {
                        self.istring(r#type);
                        self.sp();
                        self.istring(subtype);
                        self.sp();
                        self.basic_fields(&body.basic);
                    }
                    SpecificFields::Message { envelope, body_structure, number_of_lines } => {
                        self.kw("\"MESSAGE\" \"RFC822\" ");
                        self.basic_fields(&body.basic);
                        self.sp();
                        self.envelope(envelope);
                        self.sp();
                        self.body(body_structure);
                        self.sp();
                        self.u32(*number_of_lines);
                    }
                    SpecificFields::Text { subtype, number_of_lines } => {
                        self.kw("\"TEXT\" ");
                        self.istring(subtype);
                        self.sp();
                        self.basic_fields(&body.basic);
                        self.sp();
                        self.u32(*number_of_lines);
                    }
                }
                if let Some(e) = extension_data {
                    self.sp();
                    self.nstring(&e.md5);
                    self.disposition(&e.tail);
                }
            }
            BodyStructure::Multi { bodies, subtype, extension_data } => {
                for b in bodies.as_ref() {
                    self.body(b);
                }
                self.sp();
                self.istring(subtype);
                if let Some(e) = extension_data {
                    self.sp();
                    self.params(&e.parameter_list);
                    self.disposition(&e.tail);
                }
            }
        }
        self.raw(b")");
    }

    fn item(&mut self, i: &MessageDataItem) {
        use MessageDataItem::*;
        match i {
            Body(b) => {
                self.kw("BODY ");
                self.body(b);
            }
            BodyExt { section, origin, data } => {
                self.kw("BODY[");
                if let Some(s) = section {
                    self.section(s);
                }
                self.raw(b"]");
                if let Some(o) = origin {
                    self.raw(b"<");
                    self.u32(*o);
                    self.raw(b">");
                }
                self.sp();
                self.nstring(data);
            }
            BodyStructure(b) => {
                self.kw("BODYSTRUCTURE ");
                self.body(b);
            }
            Envelope(e) => {
                self.kw("ENVELOPE ");
                self.envelope(e);
            }
            Flags(f) => {
                self.kw("FLAGS (");
                self.list(f, b" ", |w, f| w.flag_fetch(f));
                self.raw(b")");
            }
            InternalDate(d) => {
                self.kw("INTERNALDATE ");
                self.datetime(d);
            }
            Rfc822(n) => {
                self.kw("RFC822 ");
                self.nstring(n);
            }
            Rfc822Header(n) => {
                self.kw("RFC822.HEADER ");
                self.nstring(n);
            }
            Rfc822Size(n) => {
                self.kw("RFC822.SIZE ");
                self.u32(*n);
            }
            Rfc822Text(n) => {
                self.kw("RFC822.TEXT ");
                self.nstring(n);
            }
            Uid(n) => {
                self.kw("UID ");
                self.nz(*n);
            }
            Binary { section, value } => {
                self.kw("BINARY[");
                self.list(section, b".", |w, n| w.nz(*n));
                self.raw(b"] ");
                self.nstring8(value);
            }
            BinarySize { section, size } => {
                self.kw("BINARY.SIZE[");
                self.list(section, b".", |w, n| w.nz(*n));
                self.raw(b"] ");
                self.u32(*size);
            }
            #[cfg(feature = "f_condstore")]
            ModSeq(n) => {
                // RFC 7162: fetch-mod-resp = "MODSEQ" SP "(" permsg-modsequence ")"
                self.kw("MODSEQ (");
                self.nz64(*n);
                self.raw(b")");
            }
        }
    }

    // ----- responses -----

    fn code_text(&mut self, code: &Option<Code>, text: &Text) {
        if let Some(c) = code {
            self.raw(b"[");
            self.code(c);
            self.raw(b"] ");
        }
        self.raw(text.inner().as_bytes());
    }

    fn greeting(&mut self, g: &Greeting) {
        self.raw(b"* ");
        self.kw(match g.kind {
            GreetingKind::Ok => "OK ",
            GreetingKind::PreAuth => "PREAUTH ",
            GreetingKind::Bye => "BYE ",
        });
        self.code_text(&g.code, &g.text);
    }

    fn status_kind(&mut self, k: &StatusKind) {
        self.kw(match k {
            StatusKind::Ok => "OK ",
            StatusKind::No => "NO ",
            StatusKind::Bad => "BAD ",
        });
    }

    fn response(&mut self, r: &Response) {
        match r {
            Response::CommandContinuationRequest(c) => {
                self.raw(b"+ ");
                match c {
                    CommandContinuationRequest::Base64(d) => self.raw(b64(d).as_bytes()),
                    CommandContinuationRequest::Basic(b) => self.code_text(&b.code().cloned(), b.text()),
                }
            }
            Response::Status(s) => match s {
                Status::Untagged(b) => {
                    self.raw(b"* ");
                    self.status_kind(&b.kind);
                    self.code_text(&b.code, &b.text);
                }
                Status::Tagged(t) => {
                    self.raw(t.tag.inner().as_bytes());
                    self.sp();
                    self.status_kind(&t.body.kind);
                    self.code_text(&t.body.code, &t.body.text);
                }
                Status::Bye(b) => {
                    self.raw(b"* ");
                    self.kw("BYE ");
                    self.code_text(&b.code, &b.text);
                }
            },
            Response::Data(d) => {
                self.raw(b"* ");
                self.data(d);
            }
        }
    }

    fn code(&mut self, c: &Code) {
        match c {
            Code::Alert => self.kw("ALERT"),
            Code::BadCharset { allowed } => {
                self.kw("BADCHARSET");
                if !allowed.is_empty() {
                    self.raw(b" (");
                    self.list(allowed, b" ", |w, c| w.charset(c));
                    self.raw(b")");
                }
            }
            Code::Capability(v) => {
                self.kw("CAPABILITY ");
                self.list(v.as_ref(), b" ", |w, c| w.capability(c));
            }
            Code::Parse => self.kw("PARSE"),
            Code::PermanentFlags(f) => {
                self.kw("PERMANENTFLAGS (");
                self.list(f, b" ", |w, f| w.flag_perm(f));
                self.raw(b")");
            }
            Code::ReadOnly => self.kw("READ-ONLY"),
            Code::ReadWrite => self.kw("READ-WRITE"),
            Code::TryCreate => self.kw("TRYCREATE"),
            Code::UidNext(n) => {
                self.kw("UIDNEXT ");
                self.nz(*n);
            }
            Code::UidValidity(n) => {
                self.kw("UIDVALIDITY ");
                self.nz(*n);
            }
            Code::Unseen(n) => {
                self.kw("UNSEEN ");
                self.nz(*n);
            }
            #[cfg(any(feature = "f_login_referrals", feature = "f_mailbox_referrals"))]
            Code::Referral(u) => {
                // The decoder keeps this code as Code::Other (known finding), which preserves case.
                self.raw(b"REFERRAL ");
                self.raw(u.as_bytes());
            }
            Code::CompressionActive => self.kw("COMPRESSIONACTIVE"),
            Code::OverQuota => self.kw("OVERQUOTA"),
            Code::TooBig => self.kw("TOOBIG"),
            #[cfg(feature = "f_metadata")]
            Code::Metadata(m) => {
                self.kw("METADATA ");
                match m {
                    MetadataCode::LongEntries(n) => {
                        self.kw("LONGENTRIES ");
                        self.u32(*n);
                    }
                    MetadataCode::MaxSize(n) => {
                        self.kw("MAXSIZE ");
                        self.u32(*n);
                    }
                    MetadataCode::TooMany => self.kw("TOOMANY"),
                    MetadataCode::NoPrivate => self.kw("NOPRIVATE"),
                }
            }
            Code::UnknownCte => self.kw("UNKNOWN-CTE"),
            Code::AppendUid { uid_validity, uid } => {
                self.kw("APPENDUID ");
                self.nz(*uid_validity);
                self.sp();
                self.nz(*uid);
            }
            Code::CopyUid { uid_validity, source, destination } => {
                self.kw("COPYUID ");
                self.nz(*uid_validity);
                self.sp();
                self.uid_set(source);
                self.sp();
                self.uid_set(destination);
            }
            Code::UidNotSticky => self.kw("UIDNOTSTICKY"),
            #[cfg(feature = "f_condstore")]
            Code::HighestModSeq(n) => {
                self.kw("HIGHESTMODSEQ ");
                self.nz64(*n);
            }
            #[cfg(feature = "f_condstore")]
            Code::Modified(s) => {
                self.kw("MODIFIED ");
                self.set(s);
            }
            #[cfg(feature = "f_condstore")]
            Code::NoModSeq => self.kw("NOMODSEQ"),
            #[cfg(feature = "f_condstore")]
            Code::Closed => self.kw("CLOSED"),
            Code::Other(o) => self.raw(o.inner()),
            _ => unreachable!("unknown code"),
        }
    }

    fn seqs(&mut self, v: &[std::num::NonZeroU32]) {
        for n in v {
            self.sp();
            self.nz(*n);
        }
    }

    #[cfg(feature = "f_condstore")]
    fn modseq(&mut self, m: &Option<std::num::NonZeroU64>) {
        if let Some(m) = m {
            self.kw(" (MODSEQ ");
            self.nz64(*m);
            self.raw(b")");
        }
    }

    fn thread(&mut self, t: &Thread) {
        self.raw(b"(");
        match t {
            Thread::Members { prefix, answers } => {
                self.list(prefix.as_ref(), b" ", |w, n| w.nz(*n));
                if let Some(a) = answers {
                    self.sp();
                    for t in a.as_ref() {
                        self.thread(t);
                    }
                }
            }
            Thread::Nested { answers } => {
                for t in answers.as_ref() {
                    self.thread(t);
                }
            }
        }
        self.raw(b")");
    }

    fn data(&mut self, d: &Data) {
        match d {
            Data::Capability(v) => {
                self.kw("CAPABILITY ");
                self.list(v.as_ref(), b" ", |w, c| w.capability(c));
            }
            Data::List { items, delimiter, mailbox } => {
                self.kw("LIST (");
                self.list(items, b" ", |w, f| w.flag_name(f));
                self.raw(b") ");
                self.quoted_char_or_nil(delimiter);
                self.sp();
                self.mailbox(mailbox);
            }
            Data::Lsub { items, delimiter, mailbox } => {
                self.kw("LSUB (");
                self.list(items, b" ", |w, f| w.flag_name(f));
                self.raw(b") ");
                self.quoted_char_or_nil(delimiter);
                self.sp();
                self.mailbox(mailbox);
            }
            Data::Status { mailbox, items } => {
                self.kw("STATUS ");
                self.mailbox(mailbox);
                self.raw(b" (");
                self.list(items, b" ", |w, i| match i {
                    StatusDataItem::Messages(n) => {
                        w.kw("MESSAGES ");
                        w.u32(*n);
                    }
                    StatusDataItem::Recent(n) => {
                        w.kw("RECENT ");
                        w.u32(*n);
                    }
                    StatusDataItem::UidNext(n) => {
                        w.kw("UIDNEXT ");
                        w.nz(*n);
                    }
                    StatusDataItem::UidValidity(n) => {
                        w.kw("UIDVALIDITY ");
                        w.nz(*n);
                    }
                    StatusDataItem::Unseen(n) => {
                        w.kw("UNSEEN ");
                        w.u32(*n);
                    }
                    StatusDataItem::Deleted(n) => {
                        w.kw("DELETED ");
                        w.u32(*n);
                    }
                    StatusDataItem::DeletedStorage(n) => {
                        w.kw("DELETED-STORAGE ");
                        w.u64(*n);
                    }
                    #[cfg(feature = "f_condstore")]
                    StatusDataItem::HighestModSeq(n) => {
                        w.kw("HIGHESTMODSEQ ");
                        w.u64(*n);
                    }
                });
                self.raw(b")");
            }
            #[cfg(feature = "f_condstore")]
            Data::Search(v, m) => {
                self.kw("SEARCH");
                self.seqs(v);
                self.modseq(m);
            }
            #[cfg(feature = "f_condstore")]
            Data::Sort(v, m) => {
                self.kw("SORT");
                self.seqs(v);
                self.modseq(m);
            }
            #[cfg(not(feature = "f_condstore"))]
            Data::Search(v) => {
                self.kw("SEARCH");
                self.seqs(v);
            }
            #[cfg(not(feature = "f_condstore"))]
            Data::Sort(v) => {
                self.kw("SORT");
                self.seqs(v);
            }
            Data::Thread(v) => {
                self.kw("THREAD");
                if !v.is_empty() {
                    self.sp();
                }
                for t in v {
                    self.thread(t);
                }
            }
            Data::Flags(f) => {
                self.kw("FLAGS (");
                self.flags(f);
                self.raw(b")");
            }
            Data::Exists(n) => {
                self.u32(*n);
                self.kw(" EXISTS");
            }
            Data::Recent(n) => {
                self.u32(*n);
                self.kw(" RECENT");
            }
            Data::Expunge(n) => {
                self.nz(*n);
                self.kw(" EXPUNGE");
            }
            Data::Fetch { seq, items } => {
                self.nz(*seq);
                self.kw(" FETCH (");
                self.list(items.as_ref(), b" ", |w, i| w.item(i));
                self.raw(b")");
            }
            Data::Enabled { capabilities } => {
                self.kw("ENABLED");
                for c in capabilities {
                    self.sp();
                    self.capability_enable(c);
                }
            }
            Data::Quota { root, quotas } => {
                self.kw("QUOTA ");
                self.astring(root);
                self.raw(b" (");
                self.list(quotas.as_ref(), b" ", |w, q| {
                    w.resource(&q.resource);
                    w.sp();
                    w.u64(q.usage);
                    w.sp();
                    w.u64(q.limit);
                });
                self.raw(b")");
            }
            Data::QuotaRoot { mailbox, roots } => {
                self.kw("QUOTAROOT ");
                self.mailbox(mailbox);
                for r in roots {
                    self.sp();
                    self.astring(r);
                }
            }
            #[cfg(feature = "f_id")]
            Data::Id { parameters } => {
                self.kw("ID ");
                self.id_params(parameters);
            }
            #[cfg(feature = "f_metadata")]
            Data::Metadata { mailbox, items } => {
                self.kw("METADATA ");
                self.mailbox(mailbox);
                self.sp();
                match items {
                    MetadataResponse::WithValues(v) => {
                        self.raw(b"(");
                        self.entry_values(v.as_ref());
                        self.raw(b")");
                    }
                    MetadataResponse::WithoutValues(v) => {
                        self.list(v.as_ref(), b" ", |w, e| w.astring(e.inner()));
                    }
                }
            }
            #[cfg(feature = "f_condstore")]
            Data::Vanished { earlier, known_uids } => {
                self.kw("VANISHED ");
                if *earlier {
                    self.kw("(EARLIER) ");
                }
                self.set(known_uids);
            }
            #[cfg(feature = "f_namespace")]
            Data::Namespace { personal, other, shared } => {
                self.kw("NAMESPACE ");
                self.namespaces(personal);
                self.sp();
                self.namespaces(other);
                self.sp();
                self.namespaces(shared);
            }
        }
    }

    #[cfg(feature = "f_namespace")]
    fn namespaces(&mut self, v: &[Namespace]) {
        if v.is_empty() {
            return self.kw("NIL");
        }
        self.raw(b"(");
        for n in v {
            self.raw(b"(");
            self.istring(&n.prefix);
            self.sp();
            self.quoted_char_or_nil(&n.delimiter);
            for e in &n.extensions {
                self.sp();
                self.istring(&e.key);
                self.raw(b" (");
                self.list(e.values.as_ref(), b" ", |w, s| w.istring(s));
                self.raw(b")");
            }
            self.raw(b")");
        }
        self.raw(b")");
    }
}
