//! Independent reference for SCRAM-SHA-256 (RFC 5802 / RFC 7677), built from
//! the primitives only.
use base64::Engine;
use base64::engine::general_purpose::STANDARD;
use ring::{digest, hmac, pbkdf2};
use std::num::NonZeroU32;

pub const CLIENT_NONCE: &str = "cnonce=ABC.xyz/123!abcdef";

pub fn b64(x: &[u8]) -> String {
    STANDARD.encode(x)
}
pub fn unb64(x: &str) -> Option<Vec<u8>> {
    STANDARD.decode(x).ok()
}
pub fn salted(password: &str, salt: &[u8], iterations: u32) -> Vec<u8> {
    let mut out = vec![0u8; 32];
    pbkdf2::derive(
        pbkdf2::PBKDF2_HMAC_SHA256,
        NonZeroU32::new(iterations).unwrap(),
        salt,
        password.as_bytes(),
        &mut out,
    );
    out
}
fn mac(key: &[u8], data: &[u8]) -> Vec<u8> {
    hmac::sign(&hmac::Key::new(hmac::HMAC_SHA256, key), data).as_ref().to_vec()
}
pub fn escape(name: &str) -> String {
    let mut s = String::new();
    for c in name.chars() {
        match c {
            '=' => s.push_str("=3D"),
            ',' => s.push_str("=2C"),
            c => s.push(c),
        }
    }
    s
}

pub struct Exchange {
    pub gs2: String,
    pub bare: String,
    pub server_first: String,
    pub nonce: String,
    pub salted: Vec<u8>,
}
impl Exchange {
    fn without_proof(&self) -> String {
        format!("c={},r={}", b64(self.gs2.as_bytes()), self.nonce)
    }
    fn auth_message(&self) -> String {
        format!("{},{},{}", self.bare, self.server_first, self.without_proof())
    }
    pub fn proof(&self) -> Vec<u8> {
        let ck = mac(&self.salted, b"Client Key");
        let stored = digest::digest(&digest::SHA256, &ck);
        let sig = mac(stored.as_ref(), self.auth_message().as_bytes());
        ck.iter().zip(sig).map(|(a, b)| a ^ b).collect()
    }
    pub fn server_sig(&self) -> Vec<u8> {
        let sk = mac(&self.salted, b"Server Key");
        mac(&sk, self.auth_message().as_bytes())
    }
    pub fn client_final(&self) -> String {
        format!("{},p={}", self.without_proof(), b64(&self.proof()))
    }
    pub fn server_final(&self) -> String {
        format!("v={}", b64(&self.server_sig()))
    }
}

/// Splits a server-first message.
pub fn server_first_parts(m: &str) -> Option<(String, Vec<u8>, u32)> {
    let mut it = m.split(',');
    let r = it.next()?.strip_prefix("r=")?.to_string();
    let s = unb64(it.next()?.strip_prefix("s=")?)?;
    let i = it.next()?.strip_prefix("i=")?.parse().ok()?;
    Some((r, s, i))
}

/// An RNG that the explorer controls completely: a fixed script of bytes, repeated.
#[derive(Clone)]
pub struct ScriptRng {
    pub script: Vec<u8>,
    pub pos: usize,
}
impl ScriptRng {
    pub fn new(script: &[u8]) -> Self {
        ScriptRng { script: script.to_vec(), pos: 0 }
    }
    fn byte(&mut self) -> u8 {
        // every pass over the script is shifted, so that a rejection-sampling
        // consumer always terminates
        let b = self.script[self.pos % self.script.len()];
        let pass = (self.pos / self.script.len()) as u8;
        self.pos += 1;
        b.wrapping_add(pass.wrapping_mul(37))
    }
}
impl rand::TryRng for ScriptRng {
    type Error = std::convert::Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Self::Error> {
        let b = self.byte() as u32;
        // spread the scripted byte over the word so that both the high and the
        // low bits vary with it
        Ok(b.wrapping_mul(0x01010101))
    }
    fn try_next_u64(&mut self) -> Result<u64, Self::Error> {
        let b = self.byte() as u64;
        Ok(b.wrapping_mul(0x0101010101010101))
    }
    fn try_fill_bytes(&mut self, dst: &mut [u8]) -> Result<(), Self::Error> {
        for d in dst {
            *d = self.byte();
        }
        Ok(())
    }
}
