//! Independent implementation of the cryptography ADNL uses.
use aes::cipher::{KeyIvInit, StreamCipher};
use curve25519_dalek::edwards::{CompressedEdwardsY, EdwardsPoint};
use curve25519_dalek::montgomery::MontgomeryPoint;
use curve25519_dalek::scalar::{clamp_integer, Scalar};
use sha2::{Digest, Sha256, Sha512};

pub type B32 = [u8; 32];

pub fn sha256(d: &[u8]) -> B32 {
    Sha256::digest(d).into()
}

#[derive(Clone)]
pub struct Key {
    pub seed: B32,
    pub public: B32,
    pub id: B32,
    clamped: B32,
    nonce: B32,
}

impl std::fmt::Debug for Key {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Key({})", hex::encode(&self.id[..4]))
    }
}

pub fn key_id(public: &B32) -> B32 {
    let mut d = crate::tl::crc("pub.ed25519 key:int256 = PublicKey").to_le_bytes().to_vec();
    d.extend_from_slice(public);
    sha256(&d)
}

impl Key {
    pub fn new(seed: B32) -> Key {
        let h: [u8; 64] = Sha512::digest(seed).into();
        let clamped = clamp_integer(h[..32].try_into().unwrap());
        let public = EdwardsPoint::mul_base_clamped(clamped).compress().to_bytes();
        Key { seed, public, id: key_id(&public), clamped, nonce: h[32..].try_into().unwrap() }
    }
    /// Deterministic key from a number
    pub fn nth(n: u64) -> Key {
        let mut d = b"vharness key".to_vec();
        d.extend_from_slice(&n.to_le_bytes());
        Key::new(sha256(&d))
    }
    pub fn sign(&self, m: &[u8]) -> [u8; 64] {
        let h: [u8; 64] = Sha512::new().chain_update(self.nonce).chain_update(m).finalize().into();
        let r = Scalar::from_bytes_mod_order_wide(&h);
        let rr = EdwardsPoint::mul_base(&r).compress().to_bytes();
        let h: [u8; 64] =
            Sha512::new().chain_update(rr).chain_update(self.public).chain_update(m).finalize().into();
        let k = Scalar::from_bytes_mod_order_wide(&h);
        let s = k * Scalar::from_bytes_mod_order(self.clamped) + r;
        let mut out = [0; 64];
        out[..32].copy_from_slice(&rr);
        out[32..].copy_from_slice(s.as_bytes());
        out
    }
    pub fn shared(&self, other_public: &B32) -> Option<B32> {
        let p = CompressedEdwardsY(*other_public).decompress()?;
        Some(shared_mont(p.to_montgomery(), self.clamped))
    }
}

fn shared_mont(p: MontgomeryPoint, clamped: B32) -> B32 {
    p.mul_clamped(clamped).to_bytes()
}

pub fn verify(public: &B32, m: &[u8], sig: &[u8]) -> bool {
    if sig.len() != 64 {
        return false;
    }
    let Some(a) = CompressedEdwardsY(*public).decompress() else { return false };
    let s: B32 = sig[32..].try_into().unwrap();
    let s: Option<Scalar> = Scalar::from_canonical_bytes(s).into();
    let Some(s) = s else { return false };
    let h: [u8; 64] = Sha512::new().chain_update(&sig[..32]).chain_update(public).chain_update(m).finalize().into();
    let k = Scalar::from_bytes_mod_order_wide(&h);
    let r = EdwardsPoint::vartime_double_scalar_mul_basepoint(&k, &-a, &s);
    r.compress().to_bytes() == sig[..32]
}

pub fn packet_crypt(secret: &B32, checksum: &B32, data: &mut [u8]) {
    let mut key = [0u8; 32];
    key[..16].copy_from_slice(&secret[..16]);
    key[16..].copy_from_slice(&checksum[16..]);
    let mut iv = [0u8; 16];
    iv[..4].copy_from_slice(&checksum[..4]);
    iv[4..].copy_from_slice(&secret[20..]);
    let mut c = ctr::Ctr128BE::<aes::Aes256>::new(&key.into(), &iv.into());
    c.apply_keystream(data);
}
