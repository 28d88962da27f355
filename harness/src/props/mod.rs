#[cfg(feature = "arb")]
pub mod arb;
pub mod cons;
pub mod conv;
pub mod frag;
pub mod known;
pub mod quirks;
pub mod release;
pub mod roundtrip;
#[cfg(feature = "ser")]
pub mod serial;
pub mod sets;
pub mod stream;
#[cfg(not(feature = "quirk"))]
pub mod strict;
pub mod types;
pub mod wirep;

use crate::Prop;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(roundtrip::props());
    #[cfg(feature = "arb")]
    v.extend(arb::props());
    v.extend(stream::props());
    v.extend(frag::props());
    v.extend(types::props());
    v.extend(cons::props());
    v.extend(conv::props());
    v.extend(sets::props());
    v.extend(quirks::props());
    v.extend(wirep::props());
    v.extend(release::props());
    #[cfg(not(feature = "quirk"))]
    v.extend(strict::props());
    #[cfg(feature = "ser")]
    v.extend(serial::props());
    v
}
