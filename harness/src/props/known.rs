//! Probes for the findings listed in /verif/known-findings.txt: each one re-runs the failing input and says
//! whether it still fails.
#[cfg(any(feature = "f_login_referrals", feature = "f_mailbox_referrals"))]
use imap_codec::imap_types::response::*;

#[cfg(any(feature = "f_login_referrals", feature = "f_mailbox_referrals"))]
use crate::util::*;

/// (property, key) of every probe that still shows its defect.
pub fn probe(id: Option<&str>) -> Vec<(String, String)> {
    #[allow(unused_mut)]
    let mut v: Vec<(&str, &str)> = vec![];
    #[cfg(any(feature = "f_login_referrals", feature = "f_mailbox_referrals"))]
    {
        // Code::Referral is encoded, but decoded as Code::Other.
        let m = Msg::Response(Response::Status(Status::Untagged(StatusBody {
            kind: StatusKind::No,
            code: Some(Code::Referral("imap://x/".into())),
            text: imap_codec::imap_types::core::Text::try_from("x").unwrap(),
        })));
        if !matches!(decode(Kind::Response, &m.encode()), Dec::Ok { msg, .. } if msg == m) {
            v.push(("C01", "code-referral"));
        }
    }
    #[cfg(feature = "ser")]
    {
        // Deserializing the "other" types accepts a known name.
        use imap_codec::imap_types::{
            auth::AuthMechanism,
            extensions::{enable::CapabilityEnable, quota::Resource, sort::SortAlgorithm, thread::ThreadingAlgorithm},
            flag::{Flag, FlagNameAttribute},
            response::Capability,
        };
        macro_rules! alias {
            ($t:ty, $doc:expr, $known:expr, $key:expr) => {
                if serde_json::from_str::<$t>($doc).is_ok_and(|x| x != $known) {
                    v.push(("C15", $key));
                }
            };
        }
        alias!(AuthMechanism, r#"{"type":"Other","content":"PLAIN"}"#, AuthMechanism::Plain, "serde-auth-mechanism-other");
        alias!(Capability, r#"{"type":"Other","content":"IDLE"}"#, Capability::Idle, "serde-capability-other");
        alias!(Resource, r#"{"type":"Other","content":"STORAGE"}"#, Resource::Storage, "serde-resource-other");
        alias!(SortAlgorithm, r#"{"type":"Other","content":"DISPLAY"}"#, SortAlgorithm::Display, "serde-sort-algorithm-other");
        alias!(ThreadingAlgorithm, r#"{"type":"Other","content":"REFERENCES"}"#, ThreadingAlgorithm::References, "serde-threading-algorithm-other");
        alias!(Flag, r#"{"type":"Extension","content":"Seen"}"#, Flag::Seen, "serde-flag-extension");
        alias!(FlagNameAttribute, r#"{"type":"Extension","content":"Noselect"}"#, FlagNameAttribute::Noselect, "serde-flag-name-attribute-extension");
        #[cfg(feature = "f_condstore")]
        alias!(CapabilityEnable, r#"{"type":"Other","content":"CONDSTORE"}"#, CapabilityEnable::CondStore, "serde-capability-enable-other");
        #[cfg(not(feature = "f_condstore"))]
        let _ = |x: CapabilityEnable| x;
    }
    v.into_iter()
        .filter(|(i, _)| id.is_none_or(|x| x == *i))
        .map(|(a, b)| (a.to_string(), b.to_string()))
        .collect()
}
