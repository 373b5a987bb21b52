//! Generators and compact descriptions ("specs") of protocol values.

use std::cell::{Cell, RefCell};
use std::collections::HashMap;

use serde::{Deserialize, Serialize};
use sha2::{Digest, Sha256};

use hyperborealib::prelude::*;

use crate::dict;
use crate::engine::Src;

// ---------------------------------------------------------------------- keys

pub type KeyId = u16;

/// Order of the group without 1: the largest valid scalar.
pub const MAX_SCALAR: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe,
    0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x40,
];

/// Keys of the ids from this on are the negated ones of the ids from 0 on: the
/// points of both have the same x coordinate.
pub const TWIN: KeyId = 60_000;

pub fn scalar(id: KeyId) -> [u8; 32] {
    let mut out = [0; 32];

    match id {
        TWIN..60_100 => {
            let scalar = hyperborealib::exports::k256::SecretKey::from_slice(&scalar(id - TWIN)).expect("valid scalar");
            out.copy_from_slice(&(-*scalar.to_nonzero_scalar().as_ref()).to_bytes());
            out
        }
        65535 => MAX_SCALAR,
        65534 => { out[31] = 1; out }
        65533 => { out[31] = 2; out }
        65532 => { out[30] = 1; out }
        _ => {
            let text = match salt() {
                0 => format!("hyperborea verification key {id}"),
                salt => format!("hyperborea verification key {id} of set {salt}"),
            };

            out.copy_from_slice(&Sha256::digest(text));
            out
        }
    }
}

thread_local! {
    static SALT: Cell<u16> = const { Cell::new(0) };
    static KEYS: RefCell<HashMap<(u16, KeyId), (SecretKey, PublicKey)>> = RefCell::new(HashMap::new());
}

/// Number of the set of keys which the ids stand for.
pub fn salt() -> u16 {
    SALT.with(Cell::get)
}

/// Choose the set of keys for this thread.
pub fn set_salt(salt: u16) {
    SALT.with(|cell| cell.set(salt));
}

fn keys(id: KeyId) -> (SecretKey, PublicKey) {
    KEYS.with(|keys| {
        let mut keys = keys.borrow_mut();

        if keys.len() > 20_000 { keys.clear(); }

        keys.entry((salt(), id)).or_insert_with(|| {
            let secret = hyperborealib::exports::k256::SecretKey::from_slice(&scalar(id)).expect("valid scalar");
            let public = secret.public_key();

            (SecretKey::from(secret), PublicKey::from(public))
        }).clone()
    })
}

pub fn secret(id: KeyId) -> SecretKey {
    keys(id).0
}

pub fn public(id: KeyId) -> PublicKey {
    keys(id).1
}

/// Key from a small pool, a wide pool, or a boundary one.
pub fn key(src: &mut Src) -> KeyId {
    match src.weighted(&[6, 3, 1]) {
        0 => src.below(6) as KeyId,
        1 => src.below(400) as KeyId,
        _ => 65535 - src.below(4) as KeyId,
    }
}

pub fn pool_key(src: &mut Src, n: u64) -> KeyId {
    src.below(n) as KeyId
}

/// One of the keys 0 to `n` - 2 or the twin of the key 0.
pub fn pool_key_or_twin(src: &mut Src, n: u64) -> KeyId {
    match src.below(n) {
        k if k + 1 == n => TWIN,
        k => k as KeyId,
    }
}

// ------------------------------------------------------------------- scalars

pub fn num(src: &mut Src) -> u64 {
    const EDGES: [u64; 22] = [
        0, 1, 2, 7, 8, 127, 128, 255, 256, 65535, 65536,
        (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 53) - 1, 1 << 53, (1 << 53) + 1,
        (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX,
    ];

    if let Some(n) = dict::number(src) {
        return n;
    }

    match src.weighted(&[3, 3, 4]) {
        0 => src.below(100),
        1 => *src.pick(&EDGES),
        _ => src.word() >> src.below(64),
    }
}

pub fn long_seed(src: &mut Src) -> u64 {
    if let Some(n) = dict::number(src) {
        return 1 << 63 | n << if src.bool() { 0 } else { src.below(64) };
    }

    match src.weighted(&[1, 4]) {
        0 => *src.pick(&[1 << 63, (1 << 63) + 1, u64::MAX, u64::MAX - 1]),
        _ => (1 << 63) | (src.word() >> 1),
    }
}

/// Current date with an offset, or any other number.
pub fn date(src: &mut Src) -> u64 {
    match src.weighted(&[4, 3]) {
        0 => 1_700_000_000 + dict::number(src).map_or_else(|| src.below(1000), |n| n % (1 << 40)),
        _ => num(src),
    }
}

pub fn character(src: &mut Src) -> char {
    match src.weighted(&[10, 4, 3, 2, 2, 2]) {
        0 => char::from(b'a' + src.below(26) as u8),
        1 => *src.pick(&['/', '\\', '.', '"', '\'', ':', '=', '-', '_', '#', '%', '+', '?', '&', '{', '}', '[', ']', ',', ' ', '~', '*', '|', '<', '>', '$', ';', '`', '@', '!', '0', '9', 'A', 'Z']),
        2 => *src.pick(&['\0', '\n', '\r', '\t', '\u{1}', '\u{7f}', '\u{1b}', '\u{8}', '\u{85}', '\u{2028}', '\u{2029}', '\u{feff}', '\u{200f}', '\u{202e}', '\u{fffd}', '\u{ffff}', '\u{fffe}']),
        3 => *src.pick(&['é', 'ß', 'ж', 'я', '中', '文', 'א', 'ا', '한', '\u{301}', 'İ', 'ſ', 'K']),
        4 => *src.pick(&['\u{d7ff}', '\u{e000}', '\u{10000}', '\u{10ffff}', '😀', '🏳', '\u{1f1e6}', '𝒳']),
        _ => char::from_u32(src.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
    }
}

pub fn text(src: &mut Src, max: usize) -> String {
    if let Some(text) = dict::words(src, max, plain_text) {
        return text;
    }

    // Rarely, a long one
    if max >= 20 && src.chance(1, 600) {
        let unit = plain_text(src, 12);
        let n = length(src, 20_000) as usize;

        return unit.chars().cycle().take(if unit.is_empty() { 0 } else { n }).collect();
    }

    plain_text(src, max)
}

fn plain_text(src: &mut Src, max: usize) -> String {
    match src.weighted(&[2, 6, 8, 3, 1]) {
        0 => String::new(),
        1 => (0..src.upto(max.min(12))).map(|_| char::from(b'a' + src.below(26) as u8)).collect(),
        2 => (0..src.upto(max.min(20))).map(|_| character(src)).collect(),
        3 => src.pick(&[
            "null", "true", "0", "-1", "1e999", "{}", "[]", "\"", "\\", "\\u0000", "../..", "/", ".", "..", "NaN",
            "127.0.0.1:8001", "example.org:80", "[::1]:1", "http://a/b", "AAAA", "====", "a=", "base64", "base64/aes256-gcm", "thin",
        ]).to_string(),
        _ => {
            let c = character(src);
            let n = src.upto(max.max(1));
            std::iter::repeat_n(c, n).collect()
        }
    }
}

/// Text of some tens or hundreds of bytes, in which many offsets are within a character.
pub fn wide_text(src: &mut Src) -> String {
    let start = *src.pick(&["", "a", "thin", "http://", "x/", "base64/", "/"]);
    let fill = src.usize(80);
    let wide = *src.pick(&['\u{e9}', '\u{20ac}', '\u{1d11e}', '\u{7ff}']);
    let many = 1 + src.usize(90);

    let mut text = String::from(start) + &"b".repeat(fill);
    text.extend(std::iter::repeat_n(wide, many));

    match src.below(4) {
        0 => text += &text.clone(),
        1 => text += "/x/y/z",
        2 => text += ":80",
        _ => (),
    }

    text
}

// --------------------------------------------------------------------- blobs

/// Byte string in a short form.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Blob {
    Hex(String),
    Text(String),
    Rep { byte: u8, len: u32 },
    Noise { seed: u64, len: u32 },
    /// Compressible pseudo-text.
    Words { seed: u64, len: u32 },
    /// Noise block repeated several times: far matches for the compressors.
    Echo { seed: u64, len: u32, times: u32 },
}

pub fn hex(bytes: &[u8]) -> String {
    bytes.iter().map(|b| format!("{b:02x}")).collect()
}

pub fn unhex(text: &str) -> Vec<u8> {
    (0..text.len() / 2)
        .filter_map(|i| text.get(i * 2..i * 2 + 2).and_then(|p| u8::from_str_radix(p, 16).ok()))
        .collect()
}

impl Blob {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Blob::Hex(text) => unhex(text),
            Blob::Text(text) => text.as_bytes().to_vec(),
            Blob::Rep { byte, len } => vec![*byte; *len as usize],

            Blob::Noise { seed, len } => {
                let mut out = vec![0; *len as usize];
                crate::engine::Rng::new(*seed).fill(&mut out);
                out
            }

            Blob::Echo { seed, len, times } => {
                let mut block = vec![0; *len as usize];
                crate::engine::Rng::new(*seed).fill(&mut block);
                block.repeat(*times as usize)
            }

            Blob::Words { seed, len } => {
                let mut rng = crate::engine::Rng::new(*seed);
                let mut out = Vec::with_capacity(*len as usize + 16);
                const WORDS: [&str; 12] = ["lorem ", "ipsum ", "dolor ", "a ", "the ", "message ", "0000 ", "\n", "ÿ", "hyperborea ", "xyz", "."];

                while out.len() < *len as usize {
                    out.extend_from_slice(WORDS[rng.below(12) as usize].as_bytes());
                    if rng.below(16) == 0 {
                        out.push(rng.next() as u8);
                    }
                }

                out.truncate(*len as usize);
                out
            }
        }
    }
}

pub fn length(src: &mut Src, max: u64) -> u64 {
    if let Some(n) = dict::number(src) {
        return n.min(max);
    }

    let n = match src.weighted(&[5, 3, 2]) {
        0 => src.below(40),
        1 => {
            let edge = *src.pick(&[0, 1, 2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537]);
            edge
        }
        _ => {
            let bits = src.below(64 - max.max(1).leading_zeros() as u64 + 1);
            src.below(1 << bits)
        }
    };

    n.min(max)
}

pub fn blob(src: &mut Src, max: u64) -> Blob {
    match src.weighted(&[20, 8, 8, 16, 12, 1]) {
        0 => {
            let n = src.below(24.min(max + 1));
            let bytes: Vec<u8> = (0..n).map(|_| src.below(256) as u8).collect();
            Blob::Hex(hex(&bytes))
        }
        1 => {
            let mut t = text(src, 64);
            while t.len() as u64 > max { t.pop(); }
            Blob::Text(t)
        }
        2 => Blob::Rep { byte: src.below(256) as u8, len: length(src, max) as u32 },
        3 => Blob::Noise { seed: src.below(1 << 32), len: length(src, max) as u32 },
        5 => {
            let len = length(src, max / 2);
            Blob::Echo { seed: src.below(1 << 32), len: len as u32, times: src.range(2, 3) as u32 }
        }
        _ => Blob::Words { seed: src.below(1 << 32), len: length(src, max) as u32 },
    }
}

// --------------------------------------------------------------------- specs

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum SignSpec {
    /// Signature by the key over the data it's expected to be made over.
    By(KeyId),
    Raw(Blob),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct TokenSpec {
    pub date: u64,
    pub server: KeyId,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct CertSpec {
    pub token: TokenSpec,
    pub sign: SignSpec,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct InfoSpec {
    pub kind: u8,
    pub address: Option<String>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct ClientSpec {
    pub key: KeyId,
    pub cert: CertSpec,
    pub info: InfoSpec,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct ServerSpec {
    pub key: KeyId,
    pub address: String,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct SenderSpec {
    pub client: ClientSpec,
    pub server: ServerSpec,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct MessageSpec {
    pub content: String,
    pub sign: String,
    pub encoding: EncSpec,
}

/// Encryption 0..3, compression 0..3.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub struct EncSpec {
    pub encryption: u8,
    pub compression: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct MessageInfoSpec {
    pub sender: SenderSpec,
    pub channel: String,
    pub message: MessageSpec,
    pub received_at: u64,
}

pub const TYPES: [ClientType; 4] = [ClientType::Thin, ClientType::Thick, ClientType::Server, ClientType::File];
pub const TYPE_NAMES: [&str; 4] = ["thin", "thick", "server", "file"];

pub fn client_type(kind: u8) -> ClientType {
    TYPES[kind as usize % 4]
}

pub const LEVELS: [CompressionLevel; 3] = [CompressionLevel::Fast, CompressionLevel::Balanced, CompressionLevel::Quality];

impl EncSpec {
    pub fn gen(src: &mut Src) -> Self {
        Self { encryption: src.below(3) as u8, compression: src.below(3) as u8 }
    }

    pub fn build(&self) -> MessageEncoding {
        MessageEncoding {
            encoding: Encoding::Base64,
            encryption: [Encryption::None, Encryption::Aes256Gcm, Encryption::ChaCha20Poly1305][self.encryption as usize % 3],
            compression: [Compression::None, Compression::Deflate, Compression::Brotli][self.compression as usize % 3],
        }
    }
}

impl TokenSpec {
    pub fn gen(src: &mut Src) -> Self {
        Self { date: date(src), server: key(src) }
    }

    pub fn build(&self) -> ConnectionToken {
        ConnectionToken { auth_date: self.date, public_key: public(self.server) }
    }
}

impl CertSpec {
    /// Any certificate; mostly a genuine one of the given client.
    pub fn gen(src: &mut Src, client: KeyId) -> Self {
        let token = TokenSpec::gen(src);

        let sign = match src.weighted(&[4, 1, 2]) {
            0 => SignSpec::By(client),
            1 => SignSpec::By(key(src)),
            _ => SignSpec::Raw(blob(src, 100)),
        };

        Self { token, sign }
    }

    pub fn genuine(client: KeyId, server: KeyId, date: u64) -> Self {
        Self { token: TokenSpec { date, server }, sign: SignSpec::By(client) }
    }

    pub fn sign_bytes(&self) -> Vec<u8> {
        match &self.sign {
            SignSpec::By(key) => crate::refimpl::sign(*key, &crate::refimpl::token_bytes(&self.token)),
            SignSpec::Raw(blob) => blob.bytes(),
        }
    }

    pub fn build(&self) -> ConnectionCertificate {
        ConnectionCertificate { token: self.token.build(), sign: self.sign_bytes() }
    }
}

impl InfoSpec {
    pub fn gen(src: &mut Src) -> Self {
        Self {
            kind: src.below(4) as u8,
            address: if src.bool() { Some(text(src, 40)) } else { None },
        }
    }

    pub fn build(&self) -> ClientInfo {
        ClientInfo { client_type: client_type(self.kind), address: self.address.clone() }
    }
}

impl ClientSpec {
    pub fn gen(src: &mut Src) -> Self {
        let key = key(src);

        Self { key, cert: CertSpec::gen(src, key), info: InfoSpec::gen(src) }
    }

    pub fn build(&self) -> Client {
        Client { public_key: public(self.key), certificate: self.cert.build(), info: self.info.build() }
    }
}

impl ServerSpec {
    pub fn gen(src: &mut Src) -> Self {
        Self { key: key(src), address: text(src, 60) }
    }

    pub fn build(&self) -> Server {
        Server { public_key: public(self.key), address: self.address.clone() }
    }
}

impl SenderSpec {
    pub fn gen(src: &mut Src) -> Self {
        Self { client: ClientSpec::gen(src), server: ServerSpec::gen(src) }
    }

    pub fn build(&self) -> Sender {
        Sender { client: self.client.build(), server: self.server.build() }
    }
}

impl MessageSpec {
    pub fn gen(src: &mut Src, max: usize) -> Self {
        Self { content: text(src, max), sign: text(src, 100), encoding: EncSpec::gen(src) }
    }

    pub fn build(&self) -> Message {
        Message { content: self.content.clone(), sign: self.sign.clone(), encoding: self.encoding.build() }
    }
}

impl MessageInfoSpec {
    pub fn gen(src: &mut Src) -> Self {
        Self {
            sender: SenderSpec::gen(src),
            channel: text(src, 60),
            message: MessageSpec::gen(src, 200),
            received_at: num(src),
        }
    }

    pub fn build(&self) -> MessageInfo {
        MessageInfo {
            sender: self.sender.build(),
            channel: self.channel.clone(),
            message: self.message.build(),
            received_at: self.received_at,
        }
    }
}
