//! C04–C07, C09, C10, C14: messages, ciphers, codecs, keys, signatures, randomness.

use std::collections::{HashMap, HashSet};
use std::sync::OnceLock;

use serde::{Deserialize, Serialize};

use hyperborealib::prelude::*;
use hyperborealib::rest_api::AsJson;

use crate::engine::*;
use crate::gens::*;
use crate::refimpl;
use crate::{ensure, fail};

pub const ENCRYPTIONS: [Encryption; 3] = [Encryption::None, Encryption::Aes256Gcm, Encryption::ChaCha20Poly1305];
pub const COMPRESSIONS: [Compression; 3] = [Compression::None, Compression::Deflate, Compression::Brotli];

/// Keys whose public keys differ by the sign only have equal shared secrets.
pub fn ecdh_class(id: KeyId) -> KeyId {
    if id == 65535 { 65534 } else { id }
}

fn payload(src: &mut Src) -> Blob {
    match src.below(400) {
        0 => match src.below(3) {
            // Streams longer than any buffer of the codecs
            0 => Blob::Noise { seed: src.below(1 << 32), len: 300_000 + src.below(4_000_000) as u32 },
            1 => Blob::Words { seed: src.below(1 << 32), len: 300_000 + src.below(1_500_000) as u32 },
            _ => Blob::Rep { byte: src.below(256) as u8, len: 300_000 + src.below(16_000_000) as u32 },
        },
        1..=10 => blob(src, 300_000),
        _ => blob(src, 5000),
    }
}

fn pair(src: &mut Src) -> (KeyId, KeyId) {
    let a = key(src);

    (a, if src.chance(1, 12) { a } else { key(src) })
}

/// Change of a byte string.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Edit {
    Flip { at: u32, bit: u8 },
    Truncate { to: u32 },
    CutFront { n: u32 },
    Append { bytes: Blob },
    Insert { at: u32, byte: u8 },
    Remove { at: u32 },
    Set { at: u32, byte: u8 },
    Swap { a: u32, b: u32 },
    Zero { from: u32, len: u32 },
    Reverse,
    Replace { bytes: Blob },
}

impl Edit {
    pub fn gen(src: &mut Src) -> Self {
        let at = |src: &mut Src| match src.below(3) {
            0 => src.below(80) as u32,
            // Counted from the end
            1 => u32::MAX - src.below(80) as u32,
            _ => src.below(1 << 20) as u32,
        };

        match src.below(12) {
            0..=1 => Edit::Flip { at: at(src), bit: src.below(8) as u8 },
            2 => Edit::Truncate { to: at(src) },
            3 => Edit::Append { bytes: blob(src, 40) },
            4 => Edit::CutFront { n: 1 + src.below(40) as u32 },
            5 => Edit::Insert { at: at(src), byte: src.below(256) as u8 },
            6 => Edit::Remove { at: at(src) },
            7 => Edit::Set { at: at(src), byte: src.below(256) as u8 },
            8 => Edit::Swap { a: at(src), b: at(src) },
            9 => Edit::Zero { from: at(src), len: 1 + src.below(40) as u32 },
            10 => Edit::Reverse,
            _ => Edit::Replace { bytes: blob(src, 100) },
        }
    }

    pub fn apply(&self, data: &[u8]) -> Vec<u8> {
        let mut out = data.to_vec();
        let n = out.len();

        let at = |v: u32| -> usize {
            if n == 0 { 0 } else if v > u32::MAX - 80 { n - 1 - ((u32::MAX - v) as usize % n) } else { v as usize % n }
        };

        match self {
            Edit::Replace { bytes } => out = bytes.bytes(),
            Edit::Append { bytes } => out.extend(bytes.bytes()),
            Edit::Reverse => out.reverse(),
            Edit::CutFront { n: cut } => { out.drain(..(*cut as usize).min(n)); }
            Edit::Insert { at: i, byte } => out.insert(at(*i), *byte),
            _ if n == 0 => (),
            Edit::Flip { at: i, bit } => out[at(*i)] ^= 1 << (bit % 8),
            Edit::Truncate { to } => out.truncate(at(*to)),
            Edit::Remove { at: i } => { out.remove(at(*i)); }
            Edit::Set { at: i, byte } => out[at(*i)] = *byte,
            Edit::Swap { a, b } => out.swap(at(*a), at(*b)),
            Edit::Zero { from, len } => {
                let from = at(*from);
                let to = (from + *len as usize).min(n);
                out[from..to].fill(0);
            }
        }

        out
    }
}

fn same(name: &str, what: Result<Vec<u8>, String>, expected: &[u8]) -> Verdict {
    match what {
        Ok(bytes) if bytes == expected => Ok(()),

        Ok(bytes) => {
            let at = bytes.iter().zip(expected).position(|(a, b)| a != b).unwrap_or(bytes.len().min(expected.len()));
            fail!("{name}: {} bytes instead of {}, different from byte {at} on", bytes.len(), expected.len())
        }

        Err(err) => fail!("{name}: {err}"),
    }
}

// ----------------------------------------------------------------------- C04

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C04 {
    sender: KeyId,
    receiver: KeyId,
    data: Blob,
    enc: EncSpec,
    level: u8,
}

fn c04_run(case: &C04, cx: &mut Cx) -> Verdict {
    let data = case.data.bytes();
    let (sender, receiver) = (secret(case.sender), secret(case.receiver));
    let (sender_pub, receiver_pub) = (public(case.sender), public(case.receiver));

    if !data.is_empty() {
        cx.nontrivial();
    }
    cx.label(match data.len() { 0 => "empty", 1..=64 => "short", 65..=4999 => "medium", _ => "long" });
    cx.label_if(case.enc.encryption != 0, "encrypted");
    cx.label_if(case.enc.compression != 0, "compressed");
    cx.label_if(case.sender == case.receiver, "to itself");
    cx.label_if(std::str::from_utf8(&data).is_err(), "not text");

    let message = match Message::create(&sender, &receiver_pub, &data, case.enc.build(), LEVELS[case.level as usize % 3]) {
        Ok(message) => message,
        Err(err) => fail!("message can't be created: {err}"),
    };

    ensure!(message.encoding == case.enc.build(), "message has another encoding: {:?}", message.encoding);

    same("read by the receiver", message.read(&receiver, &sender_pub).map_err(|e| e.to_string()), &data)?;
    // Reading changes nothing
    same("read again", message.read(&receiver, &sender_pub).map_err(|e| e.to_string()), &data)?;

    // Over the wire, within a request and within a polled record
    let text = message.to_json().map_err(|e| Fail(e.to_string()))?.to_string();
    let json = serde_json::from_str(&text).map_err(|e| Fail(e.to_string()))?;
    let arrived = Message::from_json(&json).map_err(|e| Fail(format!("message can't be parsed: {e}")))?;
    same("read after the trip", arrived.read(&receiver, &sender_pub).map_err(|e| e.to_string()), &data)?;

    // The sender has the same secret, so it can decode what it has sent
    let own = sender.create_shared_secret(&receiver_pub, None);
    same("decoded by the sender", arrived.encoding.backward(&arrived.content, &own).map_err(|e| e.to_string()), &data)?;

    let sign = arrived.encoding.backward(&arrived.sign, &own).map_err(|e| Fail(e.to_string()))?;
    ensure!(refimpl::verify(case.sender, &data, &sign), "message carries no valid signature of its sender");

    // Another reader needs no more than the documented pieces
    let again = Message::new(&arrived.content, &arrived.sign, arrived.encoding);
    same("read from raw values", again.read(&receiver, &sender_pub).map_err(|e| e.to_string()), &data)
}

pub fn c04() -> Check {
    Def {
        id: "C04",
        level: "exploration",
        rule: "the payload isn't empty",
        assumptions: &["payloads up to 300 kB"],
        quick: 10_000,
        thorough: 250_000,
        shards: 8,
        gen: |src| {
            let (sender, receiver) = pair(src);
            let enc = EncSpec::gen(src);

            C04 { sender, receiver, enc, level: src.below(3) as u8, data: payload(src) }
        },
        run: c04_run,
    }.build()
}

// ----------------------------------------------------------------------- C05

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Alter {
    Nothing,
    /// Edit of the decoded bytes.
    Content(Edit),
    Sign(Edit),
    /// Edit of the text form.
    ContentText(Edit),
    SignText(Edit),
    Relabel(EncSpec),
    /// Content or signature of another message.
    TakeContent(usize),
    TakeSign(usize),
    SwapFields,
    Claim(KeyId),
    Reader(KeyId),
    /// Made by the forger, who also knows the receiver's public key.
    Forge { by: KeyId, data: Blob },
    /// Other content of the same form, as the receiver could make it, with the old signature.
    Repack(u8, Blob),
}

/// Bytes which are like the given ones.
fn resembling(data: &[u8], how: u8, extra: &[u8]) -> Vec<u8> {
    match how % 14 {
        0 => [data, b" "].concat(),
        1 => [b"\n", data].concat(),
        2 => [data, b"\0"].concat(),
        3 => data.trim_ascii().to_vec(),
        4 => data.to_ascii_uppercase(),
        5 => data.to_ascii_lowercase(),
        6 => data[..data.len() / 2].to_vec(),
        7 => [data, data].concat(),
        8 => [data, extra].concat(),
        9 => [extra, data].concat(),
        10 => data.iter().rev().copied().collect(),
        11 => [b"\xef\xbb\xbf", data].concat(),
        12 => vec![],
        _ => String::from_utf8_lossy(data).replace("\r\n", "\n").replace('\u{fffd}', "?").into_bytes(),
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Written {
    sender: KeyId,
    receiver: KeyId,
    data: Blob,
    enc: EncSpec,
    level: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C05 {
    messages: Vec<Written>,
    alters: Vec<Alter>,
}

fn c05_gen(src: &mut Src) -> C05 {
    let pool = |src: &mut Src| if src.chance(1, 8) { key(src) } else { src.below(4) as KeyId };
    let small = |src: &mut Src| if src.chance(1, 30) { blob(src, 100_000) } else { blob(src, 300) };

    let messages = src.vec(1, 4, |src| Written {
        sender: pool(src),
        receiver: pool(src),
        enc: EncSpec::gen(src),
        level: src.below(3) as u8,
        data: small(src),
    });

    let n = messages.len();

    let alters = src.vec(1, 3, |src| match src.below(16) {
        0 => Alter::Nothing,
        1..=2 => Alter::Content(Edit::gen(src)),
        3 => Alter::Sign(Edit::gen(src)),
        4 => Alter::ContentText(Edit::gen(src)),
        5 => Alter::SignText(Edit::gen(src)),
        6 => Alter::Relabel(EncSpec::gen(src)),
        7 => Alter::TakeContent(src.usize(n)),
        8 => Alter::TakeSign(src.usize(n)),
        9 => Alter::SwapFields,
        10 => Alter::Claim(pool(src)),
        11..=12 => Alter::Reader(pool(src)),
        13..=14 => Alter::Repack(src.below(14) as u8, small(src)),
        _ => Alter::Forge { by: pool(src), data: small(src) },
    });

    C05 { messages, alters }
}

fn edit_text(text: &str, edit: &Edit) -> String {
    String::from_utf8_lossy(&edit.apply(text.as_bytes())).into_owned()
}

fn c05_run(case: &C05, cx: &mut Cx) -> Verdict {
    // What each key has signed
    let mut signed: HashMap<KeyId, HashSet<Vec<u8>>> = HashMap::new();
    let mut messages = vec![];

    for w in &case.messages {
        let data = w.data.bytes();
        let message = Message::create(&secret(w.sender), &public(w.receiver), &data, w.enc.build(), LEVELS[w.level as usize % 3])
            .map_err(|e| Fail(format!("message can't be created: {e}")))?;

        messages.push(message);
        signed.entry(w.sender).or_default().insert(data);
    }

    let first = &case.messages[0];
    let mut message = messages[0].clone();
    let mut claimed = first.sender;
    let mut reader = first.receiver;

    // Every content ever made: its text, parties and encryption
    let mut made = messages.iter().zip(&case.messages)
        .map(|(m, w)| (m.content.clone(), [w.sender, w.receiver], w.enc.encryption))
        .collect::<Vec<_>>();

    for alter in &case.alters {
        match alter {
            Alter::Nothing => (),

            Alter::Content(edit) => if let Some(bytes) = refimpl::unb64(&message.content) {
                message.content = refimpl::b64(&edit.apply(&bytes));
                cx.label("content edited");
            },

            Alter::Sign(edit) => if let Some(bytes) = refimpl::unb64(&message.sign) {
                message.sign = refimpl::b64(&edit.apply(&bytes));
                cx.label("signature edited");
            },

            Alter::ContentText(edit) => { message.content = edit_text(&message.content, edit); cx.label("content text edited"); }
            Alter::SignText(edit) => { message.sign = edit_text(&message.sign, edit); cx.label("signature text edited"); }
            Alter::Relabel(enc) => { message.encoding = enc.build(); cx.label("relabelled"); }
            Alter::TakeContent(i) => { message.content = messages[i % messages.len()].content.clone(); cx.label("content spliced"); }
            Alter::TakeSign(i) => { message.sign = messages[i % messages.len()].sign.clone(); cx.label("signature spliced"); }
            Alter::SwapFields => { std::mem::swap(&mut message.content, &mut message.sign); cx.label("fields swapped"); }
            Alter::Claim(key) => { claimed = *key; cx.label("another claimed sender"); }
            Alter::Reader(key) => { reader = *key; cx.label("another reader"); }

            Alter::Repack(how, extra) => {
                let data = resembling(&first.data.bytes(), *how, &extra.bytes());

                message.content = Message::create(&secret(first.sender), &public(first.receiver), data, first.enc.build(), CompressionLevel::Fast)
                    .map_err(|e| Fail(format!("message can't be created: {e}")))?
                    .content;

                made.push((message.content.clone(), [first.sender, first.receiver], first.enc.encryption));
                cx.label("content repacked");
            }

            Alter::Forge { by, data } => {
                let data = data.bytes();
                message = Message::create(&secret(*by), &public(first.receiver), &data, first.enc.build(), CompressionLevel::Fast)
                    .map_err(|e| Fail(format!("message can't be created: {e}")))?;

                // The forger signs it under its own name, of course
                signed.entry(*by).or_default().insert(data);
                made.push((message.content.clone(), [*by, first.receiver], first.enc.encryption));
                cx.label("forged");
            }
        }
    }

    // The same content may be written in another way
    let genuine = message == messages[0] && claimed == first.sender && reader == first.receiver;

    if !genuine {
        cx.nontrivial();
    }

    let result = guarded(|| message.read(&secret(reader), &public(claimed)))?;

    if genuine {
        return same("genuine message", result.map_err(|e| e.to_string()), &first.data.bytes());
    }

    match result {
        Err(_) => cx.label("refused"),

        Ok(bytes) => {
            cx.label("read");

            ensure!(
                signed.get(&claimed).is_some_and(|s| s.contains(&bytes)),
                "{} bytes of content which key {claimed} never signed were read as its message", bytes.len()
            );

            if message.encoding.encryption != Encryption::None {
                cx.label("read under encryption");

                // By one of the two parties only, and of untouched ciphertext
                let readers = [ecdh_class(claimed), ecdh_class(reader)];

                ensure!(made.iter().any(|(content, ..)| content == &message.content), "altered ciphertext was accepted");

                ensure!(
                    made.iter().any(|(content, [a, b], encryption)| {
                        let (a, b) = (ecdh_class(*a), ecdh_class(*b));

                        content == &message.content && (readers == [a, b] || readers == [b, a])
                            && ENCRYPTIONS[*encryption as usize % 3] == message.encoding.encryption
                    }),
                    "encrypted message was read by key {reader} as coming from {claimed}, who aren't its parties, or by another cipher"
                );
            }
        }
    }

    // Content of an encrypted message never falls to a third party, even without the signature check
    let original = &messages[0];

    if first.enc.encryption != 0 {
        for stranger in [9u16, 10, 65533] {
            if [ecdh_class(first.sender), ecdh_class(first.receiver)].contains(&stranger) {
                continue;
            }

            for claim in [first.sender, first.receiver] {
                let shared = secret(stranger).create_shared_secret(&public(claim), None);

                ensure!(
                    original.encoding.backward(&original.content, &shared).is_err(),
                    "content of an encrypted message was decoded with the secret of strangers"
                );

                ensure!(original.read(&secret(stranger), &public(claim)).is_err(), "stranger has read an encrypted message");
            }
        }
    }

    Ok(())
}

pub fn c05() -> Check {
    Def {
        id: "C05",
        level: "exploration",
        rule: "the message, its claimed sender or its reader differs from the genuine one",
        assumptions: &["keys which are negations of each other have equal ECDH secrets and count as one party"],
        quick: 28_000,
        thorough: 900_000,
        shards: 8,
        gen: c05_gen,
        run: c05_run,
    }.build()
}

// ----------------------------------------------------------------------- C06

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum C06 {
    Raw { kind: u8, data: Blob, key: u64 },
    Refuse { kind: u8, data: Blob, key: u64, edit: Edit, other: Option<u64> },
    Derive { a: KeyId, b: KeyId, salt: Option<Blob> },
    Written { a: KeyId, b: KeyId, data: Blob, enc: EncSpec, level: u8 },
    Received { a: KeyId, b: KeyId, data: Blob, enc: EncSpec, variant: u32 },
}

fn cipher_key(seed: u64) -> [u8; 32] {
    let mut out = [0; 32];

    match seed {
        0 => (),
        1 => out = [255; 32],
        seed => Rng::new(seed).fill(&mut out),
    }

    out
}

fn c06_gen(src: &mut Src) -> C06 {
    let kind = src.below(3) as u8;
    let (a, b) = pair(src);

    match src.below(6) {
        0 => C06::Raw { kind, data: payload(src), key: src.below(1 << 20) },
        1..=2 => C06::Refuse {
            kind: 1 + kind % 2,
            data: blob(src, 2000),
            key: src.below(1 << 20),
            edit: Edit::gen(src),
            other: if src.chance(1, 3) { Some(src.below(1 << 20)) } else { None },
        },
        3 => C06::Derive { a, b, salt: if src.chance(1, 3) { None } else { Some(blob(src, 300)) } },
        4 => C06::Written { a, b, data: payload(src), enc: EncSpec::gen(src), level: src.below(3) as u8 },
        _ => C06::Received { a, b, data: blob(src, 3000), enc: EncSpec::gen(src), variant: src.below(1 << 20) as u32 },
    }
}

type Direct = (
    fn(&[u8], &[u8; 32]) -> Result<Vec<u8>, String>,
    fn(&[u8], &[u8; 32]) -> Result<Vec<u8>, String>,
);

fn direct(kind: u8) -> Option<Direct> {
    match kind {
        1 => Some((
            |d, k| aes256_gcm_encrypt(d, k).map_err(|e| e.to_string()),
            |d, k| aes256_gcm_decrypt(d, k).map_err(|e| e.to_string()),
        )),
        2 => Some((
            |d, k| chacha20_poly1305_encrypt(d, k).map_err(|e| e.to_string()),
            |d, k| chacha20_poly1305_decrypt(d, k).map_err(|e| e.to_string()),
        )),
        _ => None,
    }
}

fn c06_run(case: &C06, cx: &mut Cx) -> Verdict {
    cx.nontrivial();

    match case {
        C06::Raw { kind, data, key } => {
            cx.label(["identity", "aes", "chacha"][*kind as usize % 3]);
            let data = data.bytes();
            let key = cipher_key(*key);
            let cipher = ENCRYPTIONS[*kind as usize % 3];
            let expected = refimpl::encrypt(*kind, &data, &key);

            same("encrypted", cipher.encrypt(&data, &key).map_err(|e| e.to_string()), &expected)?;
            same("decrypted", cipher.decrypt(&expected, &key).map_err(|e| e.to_string()), &data)?;

            if let Some((encrypt, decrypt)) = direct(*kind) {
                same("encrypted directly", encrypt(&data, &key), &expected)?;
                same("decrypted directly", decrypt(&expected, &key), &data)?;
            }

            Ok(())
        }

        C06::Refuse { kind, data, key, edit, other } => {
            let data = data.bytes();
            let key = cipher_key(*key);
            let genuine = refimpl::encrypt(*kind, &data, &key);

            let (bytes, used) = match other {
                Some(other) => { cx.label("other key"); (genuine.clone(), cipher_key(*other)) }
                None => { cx.label("altered"); (edit.apply(&genuine), key) }
            };

            let unchanged = bytes == genuine && used == key;
            let result = guarded(|| ENCRYPTIONS[*kind as usize % 3].decrypt(&bytes, &used))?;

            ensure!(result.is_ok() == unchanged, "ciphertext {} was {}", if unchanged { "unchanged" } else { "altered" }, if result.is_ok() { "accepted" } else { "refused" });

            if let Some((_, decrypt)) = direct(*kind) {
                ensure!(guarded(|| decrypt(&bytes, &used))?.is_ok() == unchanged, "direct decryption differs");
            }

            Ok(())
        }

        C06::Derive { a, b, salt } => {
            cx.label("derived key");
            let salt = salt.as_ref().map(Blob::bytes);
            let expected = refimpl::shared_secret(*a, &refimpl::public_bytes(*b), salt.as_deref());
            let actual = secret(*a).create_shared_secret(&public(*b), salt.as_deref());

            ensure!(actual == expected, "shared secret of keys {a} and {b} with salt {:?} is {} instead of {}", salt, hex(&actual), hex(&expected));

            Ok(())
        }

        C06::Written { a, b, data, enc, level } => {
            cx.label("message to a peer");
            let data = data.bytes();
            let message = Message::create(&secret(*a), &public(*b), &data, enc.build(), LEVELS[*level as usize % 3])
                .map_err(|e| Fail(e.to_string()))?;

            let key = refimpl::shared_secret(*b, &refimpl::public_bytes(*a), None);

            let open = |text: &str| refimpl::canonical_b64(text)
                .and_then(|bytes| refimpl::decrypt(enc.encryption, &bytes, &key))
                .and_then(|bytes| refimpl::decompress(enc.compression, &bytes));

            let Some(content) = open(&message.content) else {
                fail!("independent peer can't open the content ({})", refimpl::encoding_label(*enc));
            };

            same("content opened by a peer", Ok(content), &data)?;

            let Some(sign) = open(&message.sign) else {
                fail!("independent peer can't open the signature ({})", refimpl::encoding_label(*enc));
            };

            ensure!(refimpl::verify(*a, &data, &sign), "independent peer finds the signature invalid");

            if enc.compression == 0 {
                let expected = refimpl::b64(&refimpl::encrypt(enc.encryption, &data, &key));
                ensure!(message.content == expected, "content isn't the standard cipher's output");
            }

            Ok(())
        }

        C06::Received { a, b, data, enc, variant } => {
            cx.label("message from a peer");
            let data = data.bytes();
            let key = refimpl::shared_secret(*a, &refimpl::public_bytes(*b), None);

            let close = |bytes: &[u8]| refimpl::b64(&refimpl::encrypt(enc.encryption, &refimpl::compress(enc.compression, *variant, bytes), &key));
            let message = Message::new(close(&data), close(&refimpl::sign(*a, &data)), enc.build());

            same("message of an independent peer", message.read(&secret(*b), &public(*a)).map_err(|e| e.to_string()), &data)
        }
    }
}

pub fn c06() -> Check {
    Def {
        id: "C06",
        level: "exploration",
        rule: "every case compares with the independent implementation or alters a ciphertext",
        assumptions: &["reference: aes-gcm, chacha20poly1305, hmac and k256 crates used directly, HKDF written by hand"],
        quick: 60_000,
        thorough: 1_500_000,
        shards: 8,
        gen: c06_gen,
        run: c06_run,
    }.build()
}

// ----------------------------------------------------------------------- C07

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum C07 {
    Out { kind: u8, level: u8, data: Blob },
    In { kind: u8, variant: u32, data: Blob },
    Base64 { data: Blob },
}

fn c07_gen(src: &mut Src) -> C07 {
    let data = match src.weighted(&[200, 60, 10, 1]) {
        0 => blob(src, 5000),
        1 => blob(src, 140_000),
        _ => {
            // Beyond the codecs' blocks and windows
            let max = if src.chance(1, 10) { 1_500_000 } else { 250_000 };
            let len = 30_000 + src.below(max) as u32;
            let seed = src.below(1 << 32);

            match src.below(4) {
                0 => Blob::Noise { seed, len },
                1 => Blob::Words { seed, len },
                2 => Blob::Rep { byte: seed as u8, len },
                _ => Blob::Echo { seed, len: len / 2, times: 2 },
            }
        }
    };

    match src.below(6) {
        0 => C07::Base64 { data },
        1..=3 => C07::Out { kind: 1 + src.below(2) as u8, level: src.below(3) as u8, data },
        _ => C07::In { kind: 1 + src.below(2) as u8, variant: src.below(1 << 20) as u32, data },
    }
}

fn c07_run(case: &C07, cx: &mut Cx) -> Verdict {
    match case {
        C07::Out { kind, level, data } => {
            let data = data.bytes();
            if !data.is_empty() { cx.nontrivial(); }
            cx.label(["plain", "deflate", "brotli"][*kind as usize % 3]);
            cx.label_if(data.len() > 65536, "beyond 64 kB");

            let codec = COMPRESSIONS[*kind as usize % 3];
            let level = LEVELS[*level as usize % 3];
            let packed = codec.compress(&data, level).map_err(|e| Fail(format!("can't compress: {e}")))?;

            same("own decompression", codec.decompress(&packed).map_err(|e| e.to_string()), &data)?;

            let direct = match kind {
                1 => deflate_compress(&data, level).map_err(|e| e.to_string()).and_then(|p| deflate_decompress(p).map_err(|e| e.to_string())),
                2 => brotli_compress(&data, level).map_err(|e| e.to_string()).and_then(|p| brotli_decompress(p).map_err(|e| e.to_string())),
                _ => Ok(data.clone()),
            };
            same("direct round trip", direct, &data)?;

            match kind {
                1 => same("independent inflate", refimpl::inflate(&packed), &data)?,

                2 => {
                    ensure!(packed.first().is_some_and(|b| b & 0x7F != 0x11), "brotli stream has a large window header, which isn't standard");
                    same("independent brotli", refimpl::decompress(2, &packed).ok_or_else(|| "refused".into()), &data)?;
                }

                _ => ensure!(packed == data, "plain compression changed the data"),
            }
        }

        C07::In { kind, variant, data } => {
            let data = data.bytes();
            if !data.is_empty() { cx.nontrivial(); }
            cx.label(["plain", "foreign deflate", "foreign brotli"][*kind as usize % 3]);

            let packed = refimpl::compress(*kind, *variant, &data);
            same("foreign stream", COMPRESSIONS[*kind as usize % 3].decompress(&packed).map_err(|e| e.to_string()), &data)?;
        }

        C07::Base64 { data } => {
            let data = data.bytes();
            if !data.is_empty() { cx.nontrivial(); }
            cx.label("base64");
            let text = base64_encode(&data);

            same("decoded", base64_decode(&text).map_err(|e| e.to_string()), &data)?;
            same("independent decoding", refimpl::canonical_b64(&text).ok_or_else(|| format!("{} isn't canonical", short(&text))), &data)?;
            ensure!(Encoding::Base64.encode(&data) == text, "encodings differ");
            same("decoded by the encoding", Encoding::Base64.decode(&text).map_err(|e| e.to_string()), &data)?;
        }
    }

    // Plain compression and every combination are lossless as well
    Ok(())
}

pub fn c07() -> Check {
    Def {
        id: "C07",
        level: "exploration",
        rule: "the data isn't empty",
        assumptions: &["data up to 4.5 MB", "reference: flate2 and brotli crates with other parameters, own strict inflate and base64 decoder"],
        quick: 24_000,
        thorough: 400_000,
        shards: 8,
        gen: c07_gen,
        run: c07_run,
    }.build()
}

// ----------------------------------------------------------------------- C09

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum C09 {
    Forms { key: KeyId, text: bool },
    Scalar { bytes: Blob },
    Point { bytes: Blob },
    /// Edited form of a genuine key.
    Edited { key: KeyId, secret: bool, edit: Edit },
    Agree { keys: Vec<KeyId>, salts: Vec<Option<Blob>> },
    Random { n: u8 },
}

fn c09_gen(src: &mut Src) -> C09 {
    match src.below(12) {
        0..=1 => C09::Forms { key: src.below(65536) as KeyId, text: src.bool() },
        2..=3 => {
            let mut bytes = match src.below(6) {
                0 => vec![0; 32],
                1 => MAX_SCALAR.to_vec(),
                2 => vec![255; 32],
                3 => { let mut b = MAX_SCALAR.to_vec(); b[31] = b[31].wrapping_add(src.below(4) as u8); b }
                4 => (0..src.upto(70)).map(|_| src.below(256) as u8).collect(),
                _ => {
                    let mut b = MAX_SCALAR.to_vec();
                    let i = src.usize(32);
                    b[i] = src.below(256) as u8;
                    b
                }
            };
            if src.chance(1, 6) { bytes.push(0); }
            if src.chance(1, 6) { bytes.insert(0, 0); }
            C09::Scalar { bytes: Blob::Hex(hex(&bytes)) }
        }
        4..=5 => {
            let mut bytes = match src.below(5) {
                0 => vec![],
                1 => vec![0],
                2 => { let n = *src.pick(&[32, 34, 64, 65, 66, 1]); vec![src.below(256) as u8; n] }
                3 => {
                    // x beyond the field
                    let mut b = vec![255u8; 33];
                    b[0] = 2 + src.below(2) as u8;
                    if src.bool() { b[32] = src.below(256) as u8; }
                    b
                }
                _ => {
                    let mut b: Vec<u8> = (0..33).map(|_| src.below(256) as u8).collect();
                    b[0] = src.below(9) as u8;
                    b
                }
            };
            if src.chance(1, 8) { bytes.push(src.below(256) as u8); }
            C09::Point { bytes: Blob::Hex(hex(&bytes)) }
        }
        6..=7 => C09::Edited { key: key(src), secret: src.bool(), edit: Edit::gen(src) },
        8 => C09::Random { n: 2 + src.below(12) as u8 },
        _ => C09::Agree {
            keys: src.vec(2, 5, key),
            salts: src.vec(1, 4, |src| if src.chance(1, 3) { None } else { Some(if src.chance(1, 8) { blob(src, 2000) } else { blob(src, 90) }) }),
        },
    }
}

/// HMAC pads short keys with zeros and hashes long ones.
fn salt_class(salt: Option<&[u8]>) -> Vec<u8> {
    use sha2::Digest;

    let mut salt = match salt {
        None => vec![],
        Some(salt) if salt.len() > 64 => sha2::Sha256::digest(salt).to_vec(),
        Some(salt) => salt.to_vec(),
    };

    while salt.last() == Some(&0) {
        salt.pop();
    }

    salt
}

fn secret_forms(key: &SecretKey, bytes: &[u8]) -> Verdict {
    ensure!(key.serialize() == bytes, "secret key bytes changed: {} -> {}", hex(bytes), hex(&key.serialize()));
    ensure!(SecretKey::deserialize(key.serialize()).is_ok_and(|k| &k == key), "secret key can't be read from its bytes {}", hex(bytes));
    ensure!(key.to_base64() == refimpl::b64(bytes), "secret key text {:?} isn't base64 of its bytes", key.to_base64());
    ensure!(SecretKey::from_base64(key.to_base64()).is_ok_and(|k| &k == key), "secret key can't be read from its text");

    Ok(())
}

fn public_forms(key: &PublicKey, bytes: &[u8]) -> Verdict {
    ensure!(key.to_bytes() == bytes, "public key bytes changed: {} -> {}", hex(bytes), hex(&key.to_bytes()));
    ensure!(matches!(key.to_bytes()[0], 2 | 3), "public key isn't compressed");
    ensure!(PublicKey::from_bytes(key.to_bytes()).is_ok_and(|k| &k == key), "public key can't be read from its bytes {}", hex(bytes));
    ensure!(key.to_base64() == refimpl::b64(bytes), "public key text {:?} isn't base64 of its bytes", key.to_base64());
    ensure!(PublicKey::from_base64(key.to_base64()).is_ok_and(|k| &k == key), "public key can't be read from its text");

    Ok(())
}

fn check_secret_bytes(bytes: &[u8], cx: &mut Cx) -> Verdict {
    let valid = bytes.len() == 32 && bytes.iter().any(|b| *b != 0) && bytes <= &MAX_SCALAR[..];
    let result = guarded(|| SecretKey::deserialize(bytes))?;
    let text = guarded(|| SecretKey::from_base64(refimpl::b64(bytes)))?;

    // Forms with leading zeros left out are the underlying library's affair
    if (24..32).contains(&bytes.len()) {
        return Ok(());
    }

    cx.label(if valid { "valid scalar" } else { "invalid scalar" });

    ensure!(result.is_ok() == valid, "secret key bytes {} were {}", hex(bytes), if valid { "refused" } else { "accepted" });
    ensure!(text.is_ok() == valid, "secret key text of {} was {}", hex(bytes), if valid { "refused" } else { "accepted" });

    if let Ok(key) = result {
        secret_forms(&key, bytes)?;
        ensure!(text.is_ok_and(|k| k == key), "text form gives another secret key");
    }

    Ok(())
}

fn check_public_bytes(bytes: &[u8], cx: &mut Cx) -> Verdict {
    let reference = k256::PublicKey::from_sec1_bytes(bytes).ok();
    let compressed = bytes.len() == 33 && matches!(bytes[0], 2 | 3);
    let result = guarded(|| PublicKey::from_bytes(bytes))?;
    let text = guarded(|| PublicKey::from_base64(refimpl::b64(bytes)))?;

    cx.label(if reference.is_some() { "valid point" } else { "invalid point" });

    if reference.is_none() {
        ensure!(result.is_err() && text.is_err(), "bytes {} which are no public key were accepted", hex(bytes));
    } else if compressed {
        ensure!(result.is_ok(), "public key {} was refused", hex(bytes));
    }

    if let Ok(key) = result {
        if compressed {
            public_forms(&key, bytes)?;
        }
        ensure!(text.is_ok_and(|k| k == key), "text form gives another public key");
    }

    Ok(())
}

fn c09_run(case: &C09, cx: &mut Cx) -> Verdict {
    match case {
        C09::Forms { key, .. } => {
            cx.nontrivial();
            cx.label("forms");
            secret_forms(&secret(*key), &scalar(*key))?;
            public_forms(&public(*key), &refimpl::public_bytes(*key))?;

            ensure!(secret(*key).public_key() == public(*key), "public key of the secret key differs");
            let again = SecretKey::deserialize(scalar(*key)).map_err(|e| Fail(e.to_string()))?;
            public_forms(&again.public_key(), &refimpl::public_bytes(*key))
        }

        C09::Scalar { bytes } => {
            cx.nontrivial();
            check_secret_bytes(&bytes.bytes(), cx)
        }

        C09::Point { bytes } => {
            cx.nontrivial();
            check_public_bytes(&bytes.bytes(), cx)
        }

        C09::Edited { key, secret, edit } => {
            cx.nontrivial();
            cx.label("edited");
            if *secret {
                check_secret_bytes(&edit.apply(&scalar(*key)), cx)
            } else {
                check_public_bytes(&edit.apply(&refimpl::public_bytes(*key)), cx)
            }
        }

        C09::Random { n } => {
            cx.nontrivial();
            cx.label("random keys");
            let keys = (0..*n).map(|_| SecretKey::random()).collect::<Vec<_>>();

            for key in &keys {
                let bytes = key.serialize();
                ensure!(bytes.len() == 32, "random key has {} bytes", bytes.len());
                secret_forms(key, &bytes)?;
                let public = key.public_key();
                public_forms(&public, &public.to_bytes())?;
            }

            for (i, a) in keys.iter().enumerate() {
                for b in &keys[..i] {
                    ensure!(a != b, "random keys coincide");
                    ensure!(a.create_shared_secret(&b.public_key(), None) == b.create_shared_secret(&a.public_key(), None), "random keys don't agree");
                }
            }

            Ok(())
        }

        C09::Agree { keys, salts } => {
            cx.label("agreement");
            let mut seen: HashMap<[u8; 32], (KeyId, KeyId, Vec<u8>)> = HashMap::new();

            for (i, a) in keys.iter().enumerate() {
                for b in &keys[i..] {
                    for salt in salts {
                        let salt = salt.as_ref().map(Blob::bytes);
                        let one = secret(*a).create_shared_secret(&public(*b), salt.as_deref());
                        let two = secret(*b).create_shared_secret(&public(*a), salt.as_deref());
                        cx.exec();

                        ensure!(one == two, "keys {a} and {b} derive different secrets with salt {salt:?}");

                        let (x, y) = (ecdh_class(*a), ecdh_class(*b));
                        let class = (x.min(y), x.max(y), salt_class(salt.as_deref()));

                        if let Some(other) = seen.insert(one, class.clone()) {
                            ensure!(other == class, "{other:?} and {class:?} share a secret");
                        } 
                    }
                }
            }

            if seen.len() > 1 {
                cx.nontrivial();
            }

            Ok(())
        }
    }
}

pub fn c09() -> Check {
    Def {
        id: "C09",
        level: "exploration",
        rule: "every case but agreement of a single pair and salt",
        assumptions: &[
            "salts equal after HMAC's zero padding, and keys which are negations of each other, count as equal",
            "24 to 31 byte forms of a secret key and uncompressed forms of a public key are not judged",
        ],
        quick: 20_000,
        thorough: 500_000,
        shards: 8,
        gen: c09_gen,
        run: c09_run,
    }.build()
}

// ----------------------------------------------------------------------- C10

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum C10 {
    Sign { key: KeyId, message: Blob, attack: Attack },
    Bundle { key: KeyId, message: Blob, attack: Attack },
    Raw { key: KeyId, message: Blob, sign: Blob },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Attack {
    None,
    Key(KeyId),
    Message(Edit),
    Sign(Edit),
    /// Signature of another message or by another key.
    SignOf { key: KeyId, message: Blob },
    /// (r, n - s) is another signature in plain ECDSA.
    Negate,
    /// The same signature in its other common form.
    Der,
    Whole(Edit),
    Prefix(u64),
}

fn c10_gen(src: &mut Src) -> C10 {
    let k = key(src);
    let small = |src: &mut Src| if src.chance(1, 40) { blob(src, 70_000) } else { blob(src, 200) };
    let message = small(src);

    let attack = match src.below(13) {
        0..=1 => Attack::None,
        2 => Attack::Key(key(src)),
        3..=4 => Attack::Message(Edit::gen(src)),
        5..=6 => Attack::Sign(Edit::gen(src)),
        7 => Attack::SignOf { key: if src.bool() { k } else { key(src) }, message: small(src) },
        8 => Attack::Negate,
        9..=10 => Attack::Whole(Edit::gen(src)),
        12 => Attack::Der,
        _ => Attack::Prefix(num(src)),
    };

    match src.below(9) {
        0..=3 => C10::Sign { key: k, message, attack },
        4..=7 => C10::Bundle { key: k, message, attack },
        _ => C10::Raw { key: k, message, sign: blob(src, 80) },
    }
}

pub fn negate(sign: &[u8]) -> Vec<u8> {
    let Ok(signature) = k256::ecdsa::Signature::from_slice(sign) else { return sign.to_vec() };
    let (r, s) = signature.split_scalars();

    match k256::ecdsa::Signature::from_scalars(r, -s) {
        Ok(signature) => signature.to_bytes().to_vec(),
        Err(_) => sign.to_vec(),
    }
}

/// The signature in the form used by X.509.
pub fn der(sign: &[u8]) -> Vec<u8> {
    let Ok(signature) = k256::ecdsa::Signature::from_slice(sign) else { return sign.to_vec() };

    signature.to_der().as_bytes().to_vec()
}

fn judge_signature(key: KeyId, message: &[u8], sign: &[u8], expected: bool) -> Verdict {
    let result = guarded(|| public(key).verify_signature(message, sign))?;

    match result {
        Ok(valid) => ensure!(valid == expected, "signature {} was {}", hex(sign), if valid { "accepted" } else { "refused" }),
        Err(err) => ensure!(!expected, "valid signature {} is an error: {err}", hex(sign)),
    }

    Ok(())
}

fn c10_run(case: &C10, cx: &mut Cx) -> Verdict {
    match case {
        C10::Raw { key, message, sign } => {
            cx.nontrivial();
            cx.label("any bytes as a signature");
            let (message, sign) = (message.bytes(), sign.bytes());
            let expected = refimpl::verify(*key, &message, &sign);
            judge_signature(*key, &message, &sign, expected)
        }

        C10::Sign { key, message, attack } => {
            let original = message.bytes();
            let genuine = secret(*key).create_signature(&original);

            ensure!(genuine.len() == 64 && refimpl::verify(*key, &original, &genuine), "signature {} isn't valid for an independent verifier", hex(&genuine));
            judge_signature(*key, &original, &genuine, true)?;

            // A signature made by an independent signer is accepted too
            judge_signature(*key, &original, &refimpl::sign(*key, &original), true)?;

            let mut used = *key;
            let mut text = original.clone();
            let mut sign = genuine.clone();

            match attack {
                Attack::None => cx.label("genuine"),
                Attack::Key(other) => { cx.label("another key"); used = *other; }
                Attack::Message(edit) => { cx.label("another message"); text = edit.apply(&text); }
                Attack::Sign(edit) | Attack::Whole(edit) => { cx.label("altered signature"); sign = edit.apply(&sign); }
                Attack::SignOf { key, message } => { cx.label("signature of something else"); sign = secret(*key).create_signature(message.bytes()); }
                Attack::Negate => { cx.label("negated signature"); sign = negate(&sign); }
                Attack::Der => { cx.label("signature in DER"); sign = der(&sign); }
                Attack::Prefix(v) => { cx.label("altered signature"); sign[..8].copy_from_slice(&v.to_be_bytes()); }
            }

            let unchanged = used == *key && text == original && sign == genuine;
            let mut expected = unchanged;

            if let Attack::SignOf { key: k, message: m } = attack {
                expected = *k == used && m.bytes() == text;
            }

            if !unchanged || matches!(attack, Attack::None) {
                cx.nontrivial();
            }

            judge_signature(used, &text, &sign, expected)
        }

        C10::Bundle { key, message, attack } => {
            let original = message.bytes();
            let genuine = secret(*key).create_encapsulated_signature(&original);

            match guarded(|| public(*key).decode_encapsulated_signature(&genuine))? {
                Ok(Some(bytes)) => ensure!(bytes == original, "bundle yields another message"),
                other => fail!("intact bundle yields {other:?}"),
            }

            // 8 bytes of length, signature, message
            let mut used = *key;
            let mut bundle = genuine.clone();

            match attack {
                Attack::None => cx.label("genuine bundle"),
                Attack::Key(other) => { cx.label("bundle under another key"); used = *other; }
                Attack::Message(edit) => {
                    cx.label("bundle with another message");
                    let message = edit.apply(&original);
                    let tail = bundle.len() - original.len();
                    bundle.truncate(tail);
                    bundle.extend(message);
                }
                Attack::Sign(edit) => {
                    cx.label("bundle with altered head");
                    let head = bundle.len() - original.len();
                    let mut new = edit.apply(&bundle[..head]);
                    new.extend(&original);
                    bundle = new;
                }
                Attack::Whole(edit) => { cx.label("altered bundle"); bundle = edit.apply(&bundle); }
                Attack::SignOf { key: k, message: m } => {
                    cx.label("spliced bundle");
                    let other = secret(*k).create_encapsulated_signature(m.bytes());
                    let head = other.len() - m.bytes().len();
                    bundle = other[..head].to_vec();
                    bundle.extend(&original);
                }
                Attack::Negate => {
                    cx.label("bundle with negated signature");
                    if bundle.len() >= 72 {
                        let sign = negate(&bundle[8..72]);
                        bundle[8..72].copy_from_slice(&sign);
                    }
                }
                Attack::Der => {
                    cx.label("bundle with signature in DER");
                    if bundle.len() >= 72 {
                        let sign = der(&bundle[8..72]);
                        bundle.splice(..72, (sign.len() as u64).to_be_bytes().into_iter().chain(sign));
                    }
                }
                Attack::Prefix(v) => { cx.label("bundle with another length"); if bundle.len() >= 8 { bundle[..8].copy_from_slice(&v.to_be_bytes()); } }
            }

            cx.nontrivial();

            // Reading of the layout by hand
            let expected = (bundle.len() >= 72 && bundle[..8] == 64u64.to_be_bytes() && refimpl::verify(used, &bundle[72..], &bundle[8..72]))
                .then(|| bundle[72..].to_vec());

            match guarded(|| public(used).decode_encapsulated_signature(&bundle))? {
                Ok(Some(bytes)) => ensure!(expected.as_ref() == Some(&bytes), "altered bundle yields {}", short(&hex(&bytes))),
                _ => ensure!(expected.is_none(), "valid bundle yields nothing"),
            }

            Ok(())
        }
    }
}

pub fn c10() -> Check {
    Def {
        id: "C10",
        level: "exploration",
        rule: "the triple is genuine or really differs from the genuine one",
        assumptions: &["reference: k256 ECDSA verification used directly", "the bundle is 8 bytes of big-endian length, signature, message"],
        quick: 50_000,
        thorough: 1_200_000,
        shards: 8,
        gen: c10_gen,
        run: c10_run,
    }.build()
}

// ----------------------------------------------------------------------- C14

#[derive(Serialize, Deserialize, Clone, Copy, Debug)]
enum Draw {
    Seed,
    Number,
    Request,
    Info,
    Key,
    Client,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C14 {
    threads: u8,
    draws: u32,
    kinds: Vec<Draw>,
    /// The clock stands still for the drawing threads.
    frozen: bool,
}

/// Draws of processes forked from the same state before this one.
pub static FORKED: OnceLock<Vec<Vec<u64>>> = OnceLock::new();

pub fn draw_for_parent() -> Vec<u64> {
    let mut out = vec![];

    for _ in 0..40 {
        out.push(safe_random_u64_long());
        out.push(safe_random_u64());
        out.push(hash_str(&SecretKey::random().to_base64()));
        out.push(InfoResponse::new(&secret(1)).proof_seed);
    }

    out
}

enum Drawn {
    Seed(u64),
    Number(u64),
    Key(Vec<u8>),
}

fn draw(kind: Draw) -> Drawn {
    match kind {
        Draw::Seed => Drawn::Seed(safe_random_u64_long()),
        Draw::Number => Drawn::Number(safe_random_u64()),
        Draw::Request => Drawn::Seed(PollRequest::new(&secret(1), "channel", None).0.proof_seed),
        Draw::Info => Drawn::Seed(InfoResponse::new(&secret(2)).proof_seed),
        Draw::Key => Drawn::Key(SecretKey::random().serialize()),
        Draw::Client => Drawn::Key(ClientDriver::random().secret_key().serialize()),
    }
}

fn c14_run(case: &C14, cx: &mut Cx) -> Verdict {
    cx.label_if(case.threads > 1, "several threads");
    cx.label_if(case.draws > 100_000, "a million draws");
    cx.label_if(case.frozen, "frozen clock");
    cx.nontrivial();

    let kinds = if case.kinds.is_empty() { &[Draw::Seed][..] } else { &case.kinds[..] };
    let frozen = case.frozen;

    let drawn = std::thread::scope(|scope| {
        let handles = (0..case.threads.max(1)).map(|t| {
            scope.spawn(move || {
                crate::shim::freeze_clock(frozen);
                let out = (0..case.draws as usize).map(|i| draw(kinds[(i + t as usize) % kinds.len()])).collect::<Vec<_>>();
                crate::shim::freeze_clock(false);
                out
            })
        }).collect::<Vec<_>>();

        handles.into_iter().map(|h| h.join()).collect::<Vec<_>>()
    });

    let mut seeds = vec![];
    let mut numbers = vec![];
    let mut keys = vec![];

    for result in drawn {
        let Ok(list) = result else { fail!("drawing thread panicked") };
        for d in list {
            cx.exec();
            match d {
                Drawn::Seed(v) => seeds.push(v),
                Drawn::Number(v) => numbers.push(v),
                Drawn::Key(v) => keys.push(v),
            }
        }
    }

    for seed in &seeds {
        ensure!(seed >> 63 == 1, "seed {seed:#018x} has no top bit");
    }

    let mut seen = HashSet::new();
    for seed in &seeds {
        ensure!(seen.insert(*seed), "seed {seed:#018x} was drawn twice");
    }
    for number in &numbers {
        ensure!(seen.insert(*number), "number {number:#018x} was drawn twice");
    }

    let mut seen = HashSet::new();
    for key in &keys {
        ensure!(seen.insert(key.clone()), "secret key was generated twice");
        ensure!(SecretKey::deserialize(key).is_ok(), "generated key isn't valid");
    }

    // Every free bit takes both values; chance of a false alarm below 2^-100 with 128 draws
    let bits = |values: &[u64], top: u32, what: &str| -> Verdict {
        if values.len() >= 128 {
            cx_free_bits(values, top, what)?;
        }
        Ok(())
    };

    bits(&seeds, 63, "seeds")?;
    bits(&numbers, 64, "numbers")?;

    // Neighbouring draws aren't related by a constant step either
    if seeds.len() >= 8 {
        let steps = seeds.windows(2).map(|w| w[1].wrapping_sub(w[0])).collect::<HashSet<_>>();
        ensure!(steps.len() > seeds.len() / 2, "seeds grow by equal steps");

        // All within a sliver of the range: predictable
        let (min, max) = (seeds.iter().min().copied().unwrap_or(0), seeds.iter().max().copied().unwrap_or(0));
        ensure!(max - min > 1 << 48, "seeds lie within a narrow range");
    }

    if keys.len() >= 16 {
        for i in 0..32 {
            let values = keys.iter().map(|k| k[i]).collect::<HashSet<_>>();
            ensure!(values.len() > 1, "byte {i} of generated keys is constant");
        }
    }

    // Processes started from the same state draw different values
    if let Some(lists) = FORKED.get() {
        cx.label("separate processes");
        let mut seen = HashSet::new();
        for v in lists.iter().flatten() {
            ensure!(seen.insert(*v), "value {v:#018x} was drawn by two processes or twice");
        }
    }

    Ok(())
}

fn cx_free_bits(values: &[u64], top: u32, what: &str) -> Verdict {
    let ones = values.iter().fold(0, |a, v| a | v);
    let zeros = values.iter().fold(0, |a, v| a | !v);

    for bit in 0..top {
        ensure!(ones >> bit & 1 == 1 && zeros >> bit & 1 == 1, "bit {bit} of {} {what} never changes", values.len());
    }

    // Exclusive or of neighbours covers all bits as well (no counter)
    let changes = values.windows(2).fold([0u32; 64], |mut a, w| {
        for (bit, n) in a.iter_mut().enumerate() {
            *n += ((w[0] ^ w[1]) >> bit & 1) as u32;
        }
        a
    });

    // With n >= 128 fair changes, fewer than n/8 happen with probability below 2^-50
    for bit in 0..top {
        ensure!(changes[bit as usize] as usize >= values.len() / 8, "bit {bit} of {what} hardly ever changes");
        ensure!(changes[bit as usize] as usize <= values.len() - values.len() / 8, "bit {bit} of {what} nearly always changes");
    }

    Ok(())
}

pub fn c14() -> Check {
    Def {
        id: "C14",
        level: "exploration",
        rule: "every case draws values and compares them all",
        assumptions: &["unpredictability is judged by distinctness across draws, threads and processes (also with a frozen clock) and by variation of every bit"],
        quick: 400,
        thorough: 10_000,
        shards: 2,
        gen: |src| if src.chance(1, 50) {
            // Enough to tell about states of few bits
            C14 { threads: 4, draws: 200_000 + src.below(100_000) as u32, kinds: vec![*src.pick(&[Draw::Seed, Draw::Number, Draw::Key])], frozen: src.bool() }
        } else { C14 {
            threads: 1 + src.below(8) as u8,
            draws: [16, 64, 160, 300][src.usize(4)],
            kinds: src.vec(1, 5, |src| *src.pick(&[Draw::Seed, Draw::Number, Draw::Request, Draw::Info, Draw::Key, Draw::Client])),
            frozen: src.bool(),
        } },
        run: c14_run,
    }.build()
}
