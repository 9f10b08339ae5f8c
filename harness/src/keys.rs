//! Fixed signing keys.

use crate::enc::sha;
use crate::gen::KEYS;
use crate::model::*;
use fuel_crypto::{Message, PublicKey, SecretKey, Signature};
use std::sync::OnceLock;

struct Key {
    secret: SecretKey,
    addr: H,
}

fn keys() -> &'static [Key] {
    static K: OnceLock<Vec<Key>> = OnceLock::new();
    K.get_or_init(|| {
        (0..KEYS)
            .map(|i| {
                let raw = sha(&[b"ptx key", &[i as u8]]).0;
                let secret = SecretKey::try_from(&raw[..]).expect("a valid scalar");
                let public = PublicKey::from(&secret);
                Key { secret, addr: address(&public) }
            })
            .collect()
    })
}

fn address(p: &PublicKey) -> H {
    let b: &[u8] = p.as_ref();
    assert_eq!(b.len(), 64);
    sha(&[b])
}

/// The address of key `k`: the hash of its 64-byte public key.
pub fn addr(k: usize) -> H {
    keys()[k].addr
}
pub fn public(k: usize) -> PublicKey {
    PublicKey::from(&keys()[k].secret)
}
pub fn secret(k: usize) -> SecretKey {
    keys()[k].secret
}
pub fn key_of(h: &H) -> Option<usize> {
    (0..KEYS).find(|k| addr(*k) == *h)
}

fn message(id: &H) -> Message {
    // the id already is a hash
    unsafe { *Message::as_ref_unchecked(&id.0) }
}

/// Key `k`'s signature of the transaction id.
pub fn sign(k: usize, id: &H) -> B {
    let s = Signature::sign(&secret(k), &message(id));
    B(s.as_ref().to_vec())
}

/// The address whose key made this signature of `id`, if it is one.
pub fn recover(sig: &[u8], id: &H) -> Option<H> {
    if sig.len() != 64 {
        return None;
    }
    let s = unsafe { *Signature::as_ref_unchecked(sig) };
    s.recover(&message(id)).ok().map(|p| address(&p))
}
