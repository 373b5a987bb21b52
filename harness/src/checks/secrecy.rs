//! C32: everything sent and stored is searched for what must stay secret.

use std::collections::{HashMap, HashSet};
use std::path::{Path, PathBuf};

use base64::alphabet;
use base64::engine::general_purpose::{GeneralPurpose, GeneralPurposeConfig};
use base64::engine::DecodePaddingMode;
use base64::Engine;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value as Json};

use hyperborealib::http::client::HttpClient;
use hyperborealib::prelude::*;
use hyperborealib::rest_api::AsJson;

use crate::engine::*;
use crate::gens::*;
use crate::net::*;
use crate::shim::Fault;
use crate::{fail, refimpl};

use super::server::ERRNOS;
use super::e2e::{perform, story, Act, Story, FIRST_SERVER};

/// Something unusual between the acts.
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Probe {
    /// Request no client would make.
    Odd { server: u8, path: u8, body: Json },
    /// Client connects to a server which answers this.
    Hostile { client: u8, known: bool, answer: Json },
    /// Genuine request during which a file operation fails.
    Broken { server: u8, client: u8, kind: u8, at: u64, errno: u8, all: bool },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C32 {
    story: Story,
    probes: Vec<Probe>,
}

const PATHS: [&str; 9] = ["info", "clients", "servers", "connect", "disconnect", "lookup", "announce", "send", "poll"];

/// Payload which can't be anywhere by chance; each a different one.
fn payload(src: &mut Src, n: u64) -> Blob {
    let seed = 7_000_000 + n * 1000;
    let len = match src.below(200) { 0 => 300_000, 1..=9 => 3_000, _ => 100 };
    let len = src.range(16, len) as u32;

    match src.below(4) {
        0 if len < 10_000 => Blob::Text(hex(&Blob::Noise { seed, len: len.min(200) }.bytes())),
        1 => Blob::Echo { seed, len, times: 3 },
        _ => Blob::Noise { seed, len },
    }
}

fn odd(src: &mut Src) -> Json {
    match src.below(7) {
        0 => json!({}),
        1 => json!({ "standard": src.below(3) }),
        2 => json!({ "standard": 1, "request": {}, "proof": { "seed": num(src), "sign": "AAAA" }, "client": { "public_key": refimpl::public_b64(key(src)) } }),
        3 => json!({ "standard": 1, "public_key": refimpl::public_b64(key(src)), "proof": { "seed": num(src), "sign": text(src, 20) }, "request": text(src, 20) }),
        4 => json!({ "standard": 1, "status": src.below(600), "reason": text(src, 20) }),
        5 => json!([text(src, 20)]),
        _ => json!(text(src, 40)),
    }
}

fn c32_gen(src: &mut Src) -> C32 {
    let mut story = story(src, false);

    for (i, act) in story.acts.iter_mut().enumerate() {
        match act {
            Act::Send { parcel, .. } => {
                parcel.payload = payload(src, i as u64);

                // Mostly encrypted
                if src.chance(3, 4) {
                    parcel.encoding.encryption = src.range(1, 2) as u8;
                }
            }

            Act::Burst { size, .. } => *size += 16,
            _ => (),
        }
    }

    let probes = src.vec(0, 8, |src| match src.below(5) {
        3..=4 => Probe::Broken {
            server: src.below(4) as u8,
            client: src.below(4) as u8,
            kind: src.below(7) as u8,
            at: src.below(8),
            errno: src.below(4) as u8,
            all: src.chance(1, 3),
        },

        0 => Probe::Hostile { client: src.below(4) as u8, known: src.bool(), answer: odd(src) },
        _ => Probe::Odd { server: src.below(4) as u8, path: src.below(9) as u8, body: odd(src) },
    });

    C32 { story, probes }
}

fn engine(alphabet: &alphabet::Alphabet) -> GeneralPurpose {
    let config = GeneralPurposeConfig::new()
        .with_decode_padding_mode(DecodePaddingMode::Indifferent)
        .with_decode_allow_trailing_bits(true);

    GeneralPurpose::new(alphabet, config)
}

// --------------------------------------------------------------------- search

struct Needle {
    text: Vec<u8>,
    what: String,
}

/// All the forms of what must not be seen, by their first bytes.
#[derive(Default)]
struct Watch {
    needles: HashMap<[u8; 8], Vec<Needle>>,
    seen: HashSet<u64>,
    /// Bytes searched, and found to be encoded in some way.
    searched: u64,
    decoded: u64,
}

impl Watch {
    fn form(&mut self, text: &[u8], what: String) {
        let Some(first) = text.first_chunk::<8>() else { return };

        self.needles.entry(*first).or_default().push(Needle { text: text.to_vec(), what });
    }

    /// Watch for the bytes (at least 16) in all the forms.
    fn secret(&mut self, bytes: &[u8], what: &str) {
        self.form(bytes, format!("{what} as bytes"));
        self.form(hex(bytes).as_bytes(), format!("{what} in hex"));
        self.form(hex(bytes).to_uppercase().as_bytes(), format!("{what} in hex"));

        for separator in [",", ", ", " ", "\n"] {
            let list = bytes.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(separator);
            self.form(list.as_bytes(), format!("{what} as a list of numbers"));
        }

        for alphabet in [&alphabet::STANDARD, &alphabet::URL_SAFE] {
            for shift in 0..3 {
                let mut shifted = vec![0; shift];
                shifted.extend(bytes);

                let text = engine(alphabet).encode(&shifted).trim_end_matches('=').to_string();

                // Characters which depend on nothing but the bytes
                let from = (shift * 8).div_ceil(6);
                let to = shifted.len() * 8 / 6;

                if let Some(text) = text.get(from..to) {
                    self.form(text.as_bytes(), format!("{what} in base64"));
                }
            }
        }
    }

    fn payload(&mut self, payload: &[u8], what: &str) {
        let n = payload.len().min(24);

        if n >= 16 {
            self.secret(&payload[..n], &format!("beginning of {what}"));
            self.secret(&payload[payload.len() - n..], &format!("end of {what}"));
        }
    }

    fn find(&self, text: &[u8]) -> Option<&str> {
        text.windows(8).enumerate().find_map(|(at, first)| {
            let first: &[u8; 8] = first.try_into().ok()?;

            self.needles.get(first)?.iter()
                .find(|needle| text[at..].starts_with(&needle.text))
                .map(|needle| needle.what.as_str())
        })
    }

    /// Search the text and everything encoded in it.
    fn search(&mut self, text: &[u8], place: &str, depth: u32) -> Verdict {
        if text.len() < 8 || !self.seen.insert(hash(text)) {
            return Ok(());
        }

        self.searched += text.len() as u64;

        if let Some(what) = self.find(text) {
            fail!("{what} is in {place}: {}", short(&String::from_utf8_lossy(text)));
        }

        if depth == 0 {
            return Ok(());
        }

        let is_digit = |b: &u8| b.is_ascii_alphanumeric() || b"+/-_=".contains(b);

        for word in text.split(|b| !is_digit(b)) {
            if word.len() < 16 { continue; }

            let word = String::from_utf8_lossy(word);
            let word = word.trim_matches('=');

            let mut inner = vec![];

            for alphabet in [&alphabet::STANDARD, &alphabet::URL_SAFE] {
                if let Ok(bytes) = engine(alphabet).decode(word) {
                    inner.push(bytes);
                    break;
                }
            }

            if word.bytes().all(|b| b.is_ascii_hexdigit()) && word.len() % 2 == 0 {
                inner.push(unhex(word));
            }

            for bytes in inner {
                self.decoded += 1;
                self.search(&bytes, &format!("{place}, encoded"), depth - 1)?;

                for kind in [1, 2] {
                    if let Some(bytes) = refimpl::decompress(kind, &bytes) {
                        self.search(&bytes, &format!("{place}, compressed"), depth - 1)?;
                    }
                }
            }
        }

        Ok(())
    }

    fn search_files(&mut self, dir: &Path) -> Verdict {
        let Ok(entries) = std::fs::read_dir(dir) else { return Ok(()) };

        for entry in entries.flatten() {
            let name = entry.file_name();

            self.search(name.as_encoded_bytes(), "a file's name", 1)?;

            match entry.file_type() {
                Ok(kind) if kind.is_dir() => self.search_files(&entry.path())?,

                _ => match std::fs::read(entry.path()) {
                    Ok(bytes) => {
                        self.search(&bytes, &format!("the file {name:?}"), 2)?;

                        for kind in [1, 2] {
                            if let Some(bytes) = refimpl::decompress(kind, &bytes) {
                                self.search(&bytes, &format!("the file {name:?}, compressed"), 1)?;
                            }
                        }
                    }

                    Err(err) => infra(format!("can't read {:?}: {err}", entry.path())),
                }
            }
        }

        Ok(())
    }
}

fn hash(bytes: &[u8]) -> u64 {
    use std::hash::{Hash, Hasher};

    let mut hasher = std::collections::hash_map::DefaultHasher::new();
    bytes.hash(&mut hasher);
    hasher.finish()
}

// ----------------------------------------------------------------------- run

fn c32_run(case: &C32, cx: &mut Cx) -> Verdict {
    let net = Net::new(100_000);
    let mut watch = Watch::default();

    let keys = (0..case.story.clients.len() as KeyId)
        .chain((0..case.story.servers.len() as KeyId).map(|n| FIRST_SERVER + n))
        .collect::<Vec<_>>();

    for (i, a) in keys.iter().enumerate() {
        watch.secret(&scalar(*a), "a secret key");

        for b in &keys[..=i] {
            let public = refimpl::public_bytes(*b);

            watch.secret(&refimpl::shared_secret(*a, &public, None), "a shared secret");
            watch.secret(&refimpl::shared_point(*a, &public), "a shared point");
        }
    }

    let mut encrypted = 0;

    for (i, act) in case.story.acts.iter().enumerate() {
        match act {
            Act::Send { parcel, .. } if parcel.encoding.encryption % 3 != 0 => {
                watch.payload(&parcel.payload.bytes(), &format!("the encrypted payload of the act {i}"));
                encrypted += 1;
            }

            Act::Burst { from, size, .. } => {
                for j in 0..from.len() {
                    // As `enact` makes them
                    if (i + j) % 3 != 0 {
                        watch.payload(&super::e2e::burst_payload(i, j, *size).bytes(), &format!("an encrypted payload of the act {i}"));
                        encrypted += 1;
                    }
                }
            }

            _ => (),
        }
    }

    let mut found = Ok(());
    let mut probes = case.probes.iter();
    let mut logged = 0;
    let mut broken = 0;
    let mut files = 0;

    let verdict = perform(&case.story, cx, Some(&net), &mut |cx, dirs: &[PathBuf]| {
        if let Some(probe) = probes.next() {
            broken += play_probe(case, probe, cx, &net) as u32;
        }

        let log = net.log();

        let searched = log[logged..].iter().try_for_each(|exchange| {
            let url = &exchange.url;

            watch.search(url.as_bytes(), "a URL", 2)?;

            if let Some(text) = &exchange.request {
                watch.search(text.as_bytes(), &format!("a request to {url}"), 2)?;
            }

            if let Some(text) = &exchange.reply {
                watch.search(text.as_bytes(), &format!("a reply of {url}"), 2)?;
            }

            Ok(())
        });

        logged = log.len();

        let searched = searched.and_then(|_| dirs.iter().try_for_each(|dir| {
            files += 1;
            watch.search_files(dir)
        }));

        if found.is_ok() {
            found = searched;
        }
    });

    // What the story itself shows is judged elsewhere
    found?;
    let _ = verdict;

    cx.label_if(encrypted > 0, "encrypted messages");
    cx.label_if(files > 0, "stored files searched");
    cx.label_if(watch.decoded > 0, "decoded parts searched");
    cx.label_if(!case.probes.is_empty(), "odd requests and hostile servers");
    cx.label_if(broken > 0, "requests over a failing storage");

    if encrypted > 0 && watch.searched > 10_000 {
        cx.nontrivial();
    }

    Ok(())
}

/// Request number `kind` of the client to the server.
fn ask(kind: u8, client: KeyId, server: KeyId, address: &str) -> (&'static str, Json) {
    let secret = secret(client);
    let certificate = ConnectionCertificate::new(&secret, public(server));
    let info = ClientInfo::new(ClientType::Thin, Some(address));
    let record = Client::new(public(client), certificate.clone(), info.clone());
    let at = Server::new(public(server), address);

    macro_rules! made { ($request:expr) => { $request.to_json().unwrap_or_else(|err| infra(format!("request: {err}"))) } }

    match kind % 7 {
        0 => ("connect", made!(ConnectRequest::new(&secret, public(server), info))),
        1 => ("disconnect", made!(DisconnectRequest::new(&secret))),
        2 => ("announce", made!(AnnounceRequest::client(&secret, record, at))),
        3 => ("announce", made!(AnnounceRequest::server(&secret, at))),
        4 => ("lookup", made!(LookupRequest::new(&secret, public(client), None))),
        5 => {
            let message = Message::new("AAAA", "AAAA", Default::default());
            ("send", made!(SendRequest::new(&secret, Sender::new(record, at), public(client), "main", message)))
        }
        _ => ("poll", made!(PollRequest::new(&secret, "main", None))),
    }
}

/// Has a file operation failed?
fn play_probe(case: &C32, probe: &Probe, cx: &Cx, net: &Net) -> bool {
    match probe {
        Probe::Odd { server, path, body } => {
            let url = format!("http://s{}.test:80/api/v1/{}", *server as usize % case.story.servers.len(), PATHS[*path as usize % 9]);

            let _ = cx.block_on(async {
                match path {
                    0..=2 => net.get(url).await,
                    _ => net.post(url, body.clone()).await,
                }
            });
        }

        Probe::Broken { server, client, kind, at, errno, all } => {
            let server = *server as usize % case.story.servers.len();
            let client = (*client as usize % case.story.clients.len()) as KeyId;
            let address = format!("s{server}.test:80");
            let (path, body) = ask(*kind, client, FIRST_SERVER + server as KeyId, &address);

            cx.ctl.arm(if *all {
                Fault::Crash { at: *at, torn: errno % 2 == 0 }
            } else {
                Fault::Fail { at: *at, errno: ERRNOS[*errno as usize % 4] }
            });

            let _ = cx.block_on(net.post(format!("http://{address}/api/v1/{path}"), body));

            return cx.ctl.disarm().fired.is_some();
        }

        Probe::Hostile { client, known, answer } => {
            let n = *client as usize % case.story.clients.len();
            let answer = answer.clone();

            net.script("hostile.test:80", move |_, _, _| crate::net::Outcome::Json(answer.clone()));

            let middleware = ClientMiddleware::new(net.clone(), ClientDriver::new(case.story.clients[n].build(), secret(n as KeyId)));

            let _ = cx.block_on(async {
                if *known {
                    middleware.connect_to("hostile.test:80", public(FIRST_SERVER)).await.is_ok()
                } else {
                    middleware.connect("hostile.test:80").await.is_ok()
                }
            });
        }
    }

    false
}

pub fn c32() -> Check {
    Def {
        id: "C32",
        level: "exploration",
        rule: "history with encrypted messages and at least 10 KB of things sent and stored",
        assumptions: &[
            "secrets are searched as bytes, in hex, base64 (both alphabets, any alignment) and as lists of numbers, directly and within encoded or compressed parts",
            "payloads are random and have at least 16 bytes; the beginning and the end are searched",
        ],
        quick: 8_000,
        thorough: 500_000,
        shards: 8,
        gen: c32_gen,
        run: c32_run,
    }.build()
}
