//! Independent implementation of the protocol's primitives, made on top of the base crates only.

use base64::Engine;
use hmac::{Hmac, Mac};
use sha2::Sha256;

use k256::ecdsa::signature::{Signer, Verifier};
use k256::elliptic_curve::sec1::ToEncodedPoint;

use crate::gens::{scalar, KeyId, TokenSpec};

pub fn b64(bytes: &[u8]) -> String {
    base64::engine::general_purpose::URL_SAFE.encode(bytes)
}

pub fn unb64(text: &str) -> Option<Vec<u8>> {
    base64::engine::general_purpose::URL_SAFE.decode(text).ok()
}

/// Canonical padded url-safe base64, checked by hand.
pub fn canonical_b64(text: &str) -> Option<Vec<u8>> {
    let bytes = text.as_bytes();

    if bytes.len() % 4 != 0 {
        return None;
    }

    let mut out = Vec::with_capacity(bytes.len() / 4 * 3);
    let quads = bytes.len() / 4;

    for (i, quad) in bytes.chunks(4).enumerate() {
        let mut pad = 0;

        if i + 1 == quads {
            if quad[3] == b'=' { pad = 1; }
            if quad[3] == b'=' && quad[2] == b'=' { pad = 2; }
        }

        let mut v: u32 = 0;

        for c in &quad[..4 - pad] {
            let d = match c {
                b'A'..=b'Z' => c - b'A',
                b'a'..=b'z' => c - b'a' + 26,
                b'0'..=b'9' => c - b'0' + 52,
                b'-' => 62,
                b'_' => 63,
                _ => return None,
            };

            v = v << 6 | d as u32;
        }

        match pad {
            0 => out.extend_from_slice(&[(v >> 16) as u8, (v >> 8) as u8, v as u8]),
            1 => {
                if v & 3 != 0 { return None; }
                out.extend_from_slice(&[(v >> 10) as u8, (v >> 2) as u8]);
            }
            _ => {
                if v & 15 != 0 { return None; }
                out.push((v >> 4) as u8);
            }
        }
    }

    Some(out)
}

fn secret(key: KeyId) -> k256::SecretKey {
    k256::SecretKey::from_slice(&scalar(key)).expect("valid scalar")
}

thread_local! {
    static PUBLIC: std::cell::RefCell<std::collections::HashMap<(u16, KeyId), [u8; 33]>> = Default::default();
}

pub fn public_bytes(key: KeyId) -> [u8; 33] {
    PUBLIC.with(|cache| {
        let mut cache = cache.borrow_mut();

        if cache.len() > 20_000 { cache.clear(); }

        *cache.entry((crate::gens::salt(), key)).or_insert_with(|| {
            let point = secret(key).public_key().to_encoded_point(true);
            let mut out = [0; 33];
            out.copy_from_slice(point.as_bytes());
            out
        })
    })
}

pub fn public_b64(key: KeyId) -> String {
    b64(&public_bytes(key))
}

pub fn sign(key: KeyId, message: &[u8]) -> Vec<u8> {
    let sign: k256::ecdsa::Signature = k256::ecdsa::SigningKey::from(secret(key)).sign(message);

    sign.to_bytes().to_vec()
}

/// Is it a valid signature of the key over the message?
pub fn verify_bytes(public: &[u8], message: &[u8], signature: &[u8]) -> bool {
    let Ok(key) = k256::ecdsa::VerifyingKey::from_sec1_bytes(public) else {
        return false;
    };

    match k256::ecdsa::Signature::from_slice(signature) {
        Ok(signature) => key.verify(message, &signature).is_ok(),
        Err(_) => false,
    }
}

pub fn verify(key: KeyId, message: &[u8], signature: &[u8]) -> bool {
    verify_bytes(&public_bytes(key), message, signature)
}

pub fn token_bytes(token: &TokenSpec) -> Vec<u8> {
    let mut out = token.date.to_be_bytes().to_vec();
    out.extend_from_slice(&public_bytes(token.server));
    out
}

const INFO: [u8; 64] = [
    162, 241, 203, 77,  49,  90,  31,  126, 67,  94,  191, 219, 56,  141, 46,  233,
    70,  18,  207, 194, 52,  154, 176, 139, 244, 222, 155, 110, 177, 91,  32,  218,
    150, 232, 148, 23,  13,  172, 48,  131, 95,  216, 144, 224, 163, 106, 254, 135,
    93,  220, 84,  116, 42,  3,   211, 57,  186, 174, 208, 121, 253, 185, 210, 240,
];

fn hmac(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    let mut mac = <Hmac<Sha256> as Mac>::new_from_slice(key).expect("any key length");

    for part in parts {
        mac.update(part);
    }

    let mut out = [0; 32];
    out.copy_from_slice(&mac.finalize().into_bytes());
    out
}

/// x coordinate of the shared point.
pub fn shared_point(key: KeyId, public: &[u8]) -> [u8; 32] {
    let public = k256::PublicKey::from_sec1_bytes(public).expect("valid public key");
    let point = (public.to_projective() * *secret(key).to_nonzero_scalar()).to_affine();
    let encoded = point.to_encoded_point(false);

    (*encoded.x().expect("not the identity")).into()
}

/// HKDF-SHA256 over x coordinate of the shared point.
pub fn shared_secret(key: KeyId, public: &[u8], salt: Option<&[u8]>) -> [u8; 32] {
    let x = shared_point(key, public);

    // Extract, then a single block of expand
    let prk = hmac(salt.unwrap_or(&[0; 32]), &[&x]);

    hmac(&prk, &[&INFO, &[1]])
}

pub const AES_NONCE: [u8; 12] = [234, 90, 0, 39, 141, 73, 94, 100, 178, 97, 128, 118];
pub const CHACHA_NONCE: [u8; 12] = [197, 93, 164, 33, 103, 79, 137, 143, 186, 253, 74, 220];

/// Encryption: 0 none, 1 AES-256-GCM, 2 ChaCha20-Poly1305.
pub fn encrypt(kind: u8, data: &[u8], key: &[u8; 32]) -> Vec<u8> {
    use aes_gcm::aead::{Aead, KeyInit};

    match kind {
        0 => data.to_vec(),
        1 => aes_gcm::Aes256Gcm::new(key.into()).encrypt((&AES_NONCE).into(), data).expect("encrypt"),
        _ => chacha20poly1305::ChaCha20Poly1305::new(key.into()).encrypt((&CHACHA_NONCE).into(), data).expect("encrypt"),
    }
}

pub fn decrypt(kind: u8, data: &[u8], key: &[u8; 32]) -> Option<Vec<u8>> {
    use aes_gcm::aead::{Aead, KeyInit};

    match kind {
        0 => Some(data.to_vec()),
        1 => aes_gcm::Aes256Gcm::new(key.into()).decrypt((&AES_NONCE).into(), data).ok(),
        _ => chacha20poly1305::ChaCha20Poly1305::new(key.into()).decrypt((&CHACHA_NONCE).into(), data).ok(),
    }
}

/// Compression: 0 none, 1 raw DEFLATE, 2 Brotli.
pub fn decompress(kind: u8, data: &[u8]) -> Option<Vec<u8>> {
    use std::io::Read;

    match kind {
        0 => Some(data.to_vec()),

        1 => {
            let mut out = vec![];
            flate2::read::DeflateDecoder::new(data).read_to_end(&mut out).ok()?;
            Some(out)
        }

        _ => {
            let mut out = vec![];
            brotli::Decompressor::new(data, 4096).read_to_end(&mut out).ok()?;
            Some(out)
        }
    }
}

pub fn compress(kind: u8, variant: u32, data: &[u8]) -> Vec<u8> {
    use std::io::Write;

    match kind {
        0 => data.to_vec(),

        1 => {
            let level = flate2::Compression::new(variant % 10);
            let mut encoder = flate2::write::DeflateEncoder::new(vec![], level);

            // Several flushes make several blocks
            let pieces = 1 + (variant / 10) % 3;
            for piece in data.chunks(data.len() / pieces as usize + 1) {
                encoder.write_all(piece).expect("compress");
                if pieces > 1 {
                    encoder.flush().expect("compress");
                }
            }

            encoder.finish().expect("compress")
        }

        _ => {
            let mut params = brotli::enc::BrotliEncoderParams::default();
            params.quality = (variant % 12) as i32;
            params.lgwin = 10 + ((variant / 12) % 15) as i32;
            let mut out = vec![];
            brotli::BrotliCompress(&mut &data[..], &mut out, &params).expect("compress");
            out
        }
    }
}

pub const ENCRYPTION_NAMES: [&str; 3] = ["plain", "aes256-gcm", "chacha20-poly1305"];
pub const COMPRESSION_NAMES: [&str; 3] = ["plain", "deflate", "brotli"];

pub fn encoding_label(encoding: crate::gens::EncSpec) -> String {
    let mut label = String::from("base64");

    for name in [ENCRYPTION_NAMES[encoding.encryption as usize % 3], COMPRESSION_NAMES[encoding.compression as usize % 3]] {
        if name != "plain" {
            label.push('/');
            label.push_str(name);
        }
    }

    label
}

/// Strict raw DEFLATE decoder made after RFC 1951: the whole input must be one stream.
pub fn inflate(data: &[u8]) -> Result<Vec<u8>, String> {
    struct Bits<'a> { data: &'a [u8], pos: usize, bit: u32 }

    impl Bits<'_> {
        fn take(&mut self, n: u32) -> Result<u32, String> {
            let mut v = 0;

            for i in 0..n {
                let byte = *self.data.get(self.pos).ok_or("deflate stream ends too early")?;
                v |= ((byte >> self.bit) as u32 & 1) << i;
                self.bit += 1;
                if self.bit == 8 { self.bit = 0; self.pos += 1; }
            }

            Ok(v)
        }
    }

    struct Huffman { count: [u16; 16], symbol: Vec<u16> }

    impl Huffman {
        fn new(lengths: &[u8]) -> Result<Self, String> {
            let mut count = [0; 16];
            for l in lengths { count[*l as usize] += 1; }

            let mut left: i32 = 1;
            for c in &count[1..] {
                left = (left << 1) - *c as i32;
                if left < 0 { return Err("oversubscribed code".into()); }
            }

            let mut offs = [0u16; 16];
            for i in 1..15 { offs[i + 1] = offs[i] + count[i]; }

            let mut symbol = vec![0; lengths.len()];
            for (s, l) in lengths.iter().enumerate() {
                if *l != 0 {
                    symbol[offs[*l as usize] as usize] = s as u16;
                    offs[*l as usize] += 1;
                }
            }

            count[0] = 0;

            Ok(Self { count, symbol })
        }

        fn decode(&self, bits: &mut Bits) -> Result<u16, String> {
            let (mut code, mut first, mut index) = (0i32, 0i32, 0i32);

            for len in 1..16 {
                code |= bits.take(1)? as i32;
                let count = self.count[len] as i32;
                if code - count < first {
                    return Ok(self.symbol[(index + code - first) as usize]);
                }
                index += count;
                first = (first + count) << 1;
                code <<= 1;
            }

            Err("unknown code".into())
        }
    }

    const LENGTHS: [u16; 29] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258];
    const LENGTH_BITS: [u8; 29] = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0];
    const DISTS: [u16; 30] = [1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577];
    const DIST_BITS: [u8; 30] = [0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13];

    let mut bits = Bits { data, pos: 0, bit: 0 };
    let mut out = vec![];

    loop {
        let last = bits.take(1)?;

        match bits.take(2)? {
            0 => {
                if bits.bit != 0 { bits.bit = 0; bits.pos += 1; }
                let len = bits.take(16)?;
                if bits.take(16)? != !len & 0xffff { return Err("stored block length mismatch".into()); }
                for _ in 0..len { out.push(bits.take(8)? as u8); }
            }

            kind @ (1 | 2) => {
                let (lit, dist) = if kind == 1 {
                    let mut lengths = [8u8; 288];
                    lengths[144..256].fill(9);
                    lengths[256..280].fill(7);
                    (Huffman::new(&lengths)?, Huffman::new(&[5; 30])?)
                } else {
                    let nlen = bits.take(5)? as usize + 257;
                    let ndist = bits.take(5)? as usize + 1;
                    let ncode = bits.take(4)? as usize + 4;
                    const ORDER: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];
                    let mut lengths = [0u8; 19];
                    for i in &ORDER[..ncode] { lengths[*i] = bits.take(3)? as u8; }
                    let code = Huffman::new(&lengths)?;

                    let mut lengths = vec![];
                    while lengths.len() < nlen + ndist {
                        match code.decode(&mut bits)? {
                            s @ 0..=15 => lengths.push(s as u8),
                            16 => {
                                let prev = *lengths.last().ok_or("no previous length")?;
                                for _ in 0..3 + bits.take(2)? { lengths.push(prev); }
                            }
                            17 => for _ in 0..3 + bits.take(3)? { lengths.push(0); },
                            _ => for _ in 0..11 + bits.take(7)? { lengths.push(0); },
                        }
                    }
                    if lengths.len() > nlen + ndist { return Err("too many lengths".into()); }

                    (Huffman::new(&lengths[..nlen])?, Huffman::new(&lengths[nlen..])?)
                };

                loop {
                    let s = lit.decode(&mut bits)? as usize;
                    if s < 256 {
                        out.push(s as u8);
                    } else if s == 256 {
                        break;
                    } else {
                        let s = s - 257;
                        if s >= 29 { return Err("bad length".into()); }
                        let len = LENGTHS[s] as usize + bits.take(LENGTH_BITS[s] as u32)? as usize;
                        let d = dist.decode(&mut bits)? as usize;
                        if d >= 30 { return Err("bad distance".into()); }
                        let back = DISTS[d] as usize + bits.take(DIST_BITS[d] as u32)? as usize;
                        if back > out.len() { return Err("distance too far".into()); }
                        for _ in 0..len { out.push(out[out.len() - back]); }
                    }
                }
            }

            _ => return Err("bad block type".into()),
        }

        if last == 1 { break; }
    }

    if bits.bit != 0 { bits.pos += 1; }
    if bits.pos != data.len() { return Err(format!("{} bytes after the stream", data.len() - bits.pos)); }

    Ok(out)
}
