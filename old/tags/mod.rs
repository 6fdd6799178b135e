//! Frozen copy of the tree types of banyan-utils 0.11.0, see ../banyan
#![allow(dead_code, clippy::all)]
pub mod tag_index;
pub mod tags;

pub fn create_chacha_key(text: String) -> banyan_old::chacha20::Key {
    let mut key = [0u8; 32];
    for (i, v) in text.as_bytes().iter().take(32).enumerate() {
        key[i] = *v;
    }
    key.into()
}
